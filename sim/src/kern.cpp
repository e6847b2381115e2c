// In-memory operating system behind picotm's system calls.
#include "kern.h"
#include <cerrno>
#include <clocale>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/un.h>
#include <unistd.h>
#include <poll.h>
#include <csignal>
#include <csetjmp>
#include <ctime>

extern "C" {
void* sim_malloc(size_t);
void sim_free(void*);
void* __tsan_memcpy(void*, const void*, size_t);
}

namespace sim {
namespace {
struct Dent {
    int ino;
    uint64_t id;
};
struct Inode {
    bool used = false;
    KType type = K_REG;
    int perm = 0;
    int nlink = 0, opens = 0;
    std::string data;               // regular file: the bytes from position base on; a hole lies before them
    int64_t base = 0;
    bool stray = false;             // written to outside of what a scenario keeps
    std::map<std::string, Dent> ents;  // directory
    int parent = 0;
    std::string name;
    std::string buf, total, consumed;  // FIFO, device; socket: bytes to be received here
    std::vector<KXfer> xfers;
    size_t cap = 4096;
    int readers = 0, writers = 0;
    // sockets
    int sstate = 0;                 // 0 new, 1 bound, 2 listening, 3 connected
    std::string addr;
    int peer = -1;
    bool rdshut = false, wrshut = false, peer_closed = false;
    std::vector<int> backlog;
    int backlog_max = 0;
    std::map<std::string, int> opts;
};
struct Ofd {
    int refs = 0;
    int ino = -1;
    off_t off = 0;
    int flags = 0;
    int dir = -1;
    std::string name;
    uint64_t dent = 0;
    int owner = 0;
    std::string lock;
};
struct Fd {
    int ofd = -1;
    int cloexec = 0;
};
static const int NCAT = 13;
struct Loc {
    uint32_t magic;
    std::string* names;  // NCAT
};
static const uint32_t LMAGIC = 0x10ca1e01;
struct KState {
    std::vector<Inode*> in;
    std::vector<Ofd> of;
    std::vector<Fd> fd;
    int fdmin = 0;
    int cwd = 0;
    uint64_t dent = 0;
    int nsync = 0;
    int tmpseq = 0;
    std::vector<KErr> errs[64];
    std::map<std::string, uint64_t> calls;
    std::string gloc[NCAT];
    char* gstr[NCAT];
    char* allstr;
    bool in_setlocale;
    std::vector<Loc*> locs;
    std::map<void*, std::vector<std::string>> locnames;
    void* tloc[64];
    uint32_t fenv[64], round[64];
    struct sigaction sa[65];
    uint64_t sigmask[64];
};
static KState K;
static char io_wait;
static const int MAXFD = 1100;

Inode& I(int i) { return *K.in[i]; }

int new_inode(KType t, int perm)
{
    int i = 0;
    for (i = 1; i < (int)K.in.size(); ++i)
        if (!K.in[i]->used) break;   // numbers are reused, as in real file systems
    if (i == (int)K.in.size()) K.in.push_back(new Inode);
    *K.in[i] = Inode();
    I(i).used = true;
    I(i).type = t;
    I(i).perm = perm;
    return i;
}
void drop_inode(int i)
{
    if (I(i).nlink <= 0 && I(i).opens <= 0) I(i).used = false;
}
int dir_add(int dir, const std::string& name, int ino)
{
    I(dir).ents[name] = {ino, ++K.dent};
    I(ino).nlink++;
    if (I(ino).type == K_DIR) {
        I(ino).parent = dir;
        I(ino).name = name;
    }
    return ino;
}
// last: returns the directory and the last component instead of following it
int resolve(const std::string& path, bool last, std::string* name)
{
    if (path.empty()) return -ENOENT;
    if (path.size() > 4095) return -ENAMETOOLONG;
    int cur = path[0] == '/' ? 1 : K.cwd;
    if (cur <= 0 || !I(cur).used) return -ENOENT;
    std::vector<std::string> comp;
    std::string c;
    for (char ch : path + "/") {
        if (ch == '/') {
            if (!c.empty()) comp.push_back(c);
            c.clear();
        } else
            c += ch;
    }
    size_t n = comp.size();
    if (last) {
        if (!n || comp[n - 1] == "." || comp[n - 1] == "..") {
            if (name) *name = ".";
        } else {
            *name = comp[n - 1];
            if (name->size() > 255) return -ENAMETOOLONG;
            --n;
        }
    }
    for (size_t i = 0; i < n; ++i) {
        if (I(cur).type != K_DIR) return -ENOTDIR;
        if (comp[i] == ".") continue;
        if (comp[i] == "..") {
            cur = I(cur).parent;
            continue;
        }
        auto it = I(cur).ents.find(comp[i]);
        if (it == I(cur).ents.end()) return -ENOENT;
        cur = it->second.ino;
    }
    return cur;
}
int lookup(const std::string& path)
{
    return resolve(path, false, nullptr);
}
std::string path_of_dir(int d)
{
    std::string p;
    while (d != 1) {
        int up = I(d).parent;
        auto it = I(up).ents.find(I(d).name);
        if (it == I(up).ents.end() || it->second.ino != d) return "";
        p = "/" + I(d).name + p;
        d = up;
    }
    return p.empty() ? "/" : p;
}
int new_fd(int ofd, int cloexec, int min = 0)
{
    for (int i = std::max(min, K.fdmin); i < MAXFD; ++i)
        if (i >= (int)K.fd.size() || K.fd[i].ofd < 0) {
            if (i >= (int)K.fd.size()) K.fd.resize(i + 1);
            K.fd[i].ofd = ofd;
            K.fd[i].cloexec = cloexec;
            K.of[ofd].refs++;
            return i;
        }
    return -EMFILE;
}
int new_ofd(int ino, int flags)
{
    int i;
    for (i = 0; i < (int)K.of.size(); ++i)
        if (!K.of[i].refs) break;
    if (i == (int)K.of.size()) K.of.push_back(Ofd());
    K.of[i] = Ofd();
    K.of[i].ino = ino;
    K.of[i].flags = flags;
    I(ino).opens++;
    if (I(ino).type == K_FIFO) {
        int a = flags & O_ACCMODE;
        if (a == O_RDONLY || a == O_RDWR) I(ino).readers++;
        if (a == O_WRONLY || a == O_RDWR) I(ino).writers++;
    }
    wake(&io_wait);
    return i;
}
Ofd* F(int fd)
{
    if (fd < 0 || fd >= (int)K.fd.size() || K.fd[fd].ofd < 0) return nullptr;
    return &K.of[K.fd[fd].ofd];
}
void put_ofd(int o)
{
    Ofd& f = K.of[o];
    if (--f.refs) return;
    Inode& n = I(f.ino);
    if (n.type == K_FIFO) {
        int a = f.flags & O_ACCMODE;
        if (a == O_RDONLY || a == O_RDWR) n.readers--;
        if (a == O_WRONLY || a == O_RDWR) n.writers--;
    }
    if (n.type == K_SOCK && n.opens == 1) {
        if (n.peer >= 0 && I(n.peer).used) {
            I(n.peer).peer_closed = true;
            I(n.peer).peer = -1;
        }
        for (int b : n.backlog) {
            if (I(b).peer >= 0) {
                I(I(b).peer).peer_closed = true;
                I(I(b).peer).peer = -1;
            }
            I(b).opens--;
            drop_inode(b);
        }
        n.backlog.clear();
    }
    n.opens--;
    drop_inode(f.ino);
    wake(&io_wait);
}
int do_close(int fd)
{
    if (!F(fd)) return -EBADF;
    int o = K.fd[fd].ofd;
    K.fd[fd].ofd = -1;
    put_ofd(o);
    return 0;
}
int do_open(const std::string& path, int flags, int perm)
{
    std::string name;
    int d = resolve(path, true, &name);
    if (d < 0) return d;
    if (I(d).type != K_DIR) return -ENOTDIR;
    int ino;
    uint64_t dent = 0;
    auto it = I(d).ents.find(name);
    if (name == ".") {
        ino = lookup(path);
        if (ino < 0) return ino;
    } else if (it == I(d).ents.end()) {
        if (!(flags & O_CREAT)) return -ENOENT;
        ino = dir_add(d, name, new_inode(K_REG, perm & 0777));
        dent = I(d).ents[name].id;
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
        ino = it->second.ino;
        dent = it->second.id;
    }
    Inode& n = I(ino);
    int a = flags & O_ACCMODE;
    if (n.type == K_DIR && (a != O_RDONLY || (flags & O_CREAT))) return -EISDIR;
    if ((flags & O_DIRECTORY) && n.type != K_DIR) return -ENOTDIR;
    if (n.type == K_SOCK) return -ENXIO;
    if (n.type == K_FIFO && a == O_WRONLY && (flags & O_NONBLOCK) && !n.readers) return -ENXIO;
    if ((flags & O_TRUNC) && n.type == K_REG && a != O_RDONLY) n.data.clear(), n.base = 0;
    int o = new_ofd(ino, flags & ~(O_CREAT | O_EXCL | O_TRUNC | O_CLOEXEC | O_DIRECTORY | O_NOCTTY));
    K.of[o].dir = name == "." ? -1 : d;
    K.of[o].name = name;
    K.of[o].dent = dent;
    int fd = new_fd(o, !!(flags & O_CLOEXEC));
    if (fd < 0) {
        K.of[o].refs = 1;
        put_ofd(o);
    }
    return fd;
}
void do_pipe(int fd[2], int flags = 0)
{
    int ino = new_inode(K_FIFO, 0600);
    I(ino).nlink = 0;
    int r = new_ofd(ino, O_RDONLY | flags), w;
    fd[0] = new_fd(r, 0);
    w = new_ofd(ino, O_WRONLY | flags);
    fd[1] = new_fd(w, 0);
}
void do_stat(int ino, struct stat* st)
{
    memset(st, 0, sizeof *st);
    static const mode_t ty[] = {S_IFREG, S_IFDIR, S_IFIFO, S_IFCHR, S_IFSOCK};
    Inode& n = I(ino);
    st->st_dev = 1;
    st->st_ino = ino;
    st->st_mode = ty[n.type] | n.perm;
    st->st_nlink = n.nlink;
    st->st_size = n.type == K_REG ? n.base + n.data.size() : 0;
    st->st_blksize = 4096;
    st->st_blocks = n.type == K_REG ? (n.data.size() + 511) / 512 : 0;
}
}  // namespace

void kern_reset()
{
    for (auto* i : K.in) delete i;
    K.in.clear();
    K.of.clear();
    K.fd.clear();
    K.fdmin = 0;
    K.in.push_back(new Inode);  // 0: no inode
    K.in[0]->used = true;
    int root = new_inode(K_DIR, 0755);
    I(root).nlink = 1;
    I(root).parent = root;
    K.cwd = root;
    I(root).opens = 1;
    K.dent = 0;
    K.nsync = 0;
    K.tmpseq = 0;
    for (auto& e : K.errs) e.clear();
    K.calls.clear();
    for (int i = 0; i < NCAT; ++i) {
        K.gloc[i] = "C";
        K.gstr[i] = nullptr;
    }
    K.allstr = nullptr;
    K.in_setlocale = false;
    K.locs.clear();
    K.locnames.clear();
    for (int i = 0; i < 64; ++i) {
        K.tloc[i] = (void*)LC_GLOBAL_LOCALE;
        K.fenv[i] = 0;
        K.round[i] = 0;
    }
    memset(K.sa, 0, sizeof K.sa);
    memset(K.sigmask, 0, sizeof K.sigmask);
}

int k_mkfile(const std::string& path, const std::string& content, int perm)
{
    std::string name;
    int d = resolve(path, true, &name);
    if (d < 0) fail("harness", "mkfile %s", path.c_str());
    int i = dir_add(d, name, new_inode(K_REG, perm));
    I(i).data = content;
    return i;
}
static int mk(const std::string& path, KType t)
{
    std::string name;
    int d = resolve(path, true, &name);
    if (d < 0) fail("harness", "mknod %s", path.c_str());
    return dir_add(d, name, new_inode(t, t == K_DIR ? 0755 : 0644));
}
int k_mkdir(const std::string& p) { return mk(p, K_DIR); }
int k_mkfifo(const std::string& p) { return mk(p, K_FIFO); }
int k_mkchr(const std::string& p) { return mk(p, K_CHR); }
bool k_exists(const std::string& p) { return lookup(p) >= 0; }
int k_ino_of(const std::string& p) { int i = lookup(p); return i < 0 ? -1 : i; }
std::string k_content(int ino) { return I(ino).stray ? "<stray write>" : I(ino).data; }
void k_base(int ino, int64_t base) { I(ino).base = base; }
std::string k_file(const std::string& p) { int i = lookup(p); return i < 0 ? "<none>" : I(i).data; }
std::vector<std::string> k_list(const std::string& p)
{
    std::vector<std::string> v;
    int i = lookup(p);
    if (i >= 0)
        for (auto& e : I(i).ents) v.push_back(e.first);
    return v;
}
int k_perm(int ino) { return I(ino).perm; }
int k_open(const std::string& p, int fl, int perm) { return do_open(p, fl, perm); }
void k_pipe(int fd[2]) { do_pipe(fd); }
static void do_socketpair(int fd[2])
{
    int a = new_inode(K_SOCK, 0777), b;
    I(a).opens = 1;
    b = new_inode(K_SOCK, 0777);
    I(a).opens = 0;
    I(a).sstate = I(b).sstate = 3;
    I(a).peer = b;
    I(b).peer = a;
    fd[0] = new_fd(new_ofd(a, O_RDWR), 0);
    fd[1] = new_fd(new_ofd(b, O_RDWR), 0);
}
void k_socketpair(int fd[2]) { do_socketpair(fd); }
void k_close(int fd) { if (do_close(fd) < 0) fail("harness", "k_close(%d)", fd); }
void k_fd_min(int fd) { K.fdmin = fd; }
int k_dup(int fd) { return F(fd) ? new_fd(K.fd[fd].ofd, 0) : -EBADF; }
bool k_is_open(int fd) { return F(fd) != nullptr; }
std::vector<int> k_fds()
{
    std::vector<int> v;
    for (int i = 0; i < (int)K.fd.size(); ++i)
        if (K.fd[i].ofd >= 0) v.push_back(i);
    return v;
}
int k_fd_ino(int fd) { Ofd* f = F(fd); return f ? f->ino : -1; }
void k_seek(int fd, off_t o) { F(fd)->off = o; }
off_t k_offset(int fd) { Ofd* f = F(fd); return f ? f->off : -1; }
int k_fd_flags(int fd) { Ofd* f = F(fd); return f ? f->flags : -1; }
int k_fd_cloexec(int fd) { return F(fd) ? K.fd[fd].cloexec : -1; }
std::string k_in_transit(int fd) { Ofd* f = F(fd); return f ? I(f->ino).buf : ""; }
std::string k_total(int ino) { return I(ino).total; }
std::string k_consumed(int ino) { return I(ino).consumed; }
const std::vector<KXfer>& k_xfers(int ino) { return I(ino).xfers; }
void k_push(int ino, const std::string& d)
{
    I(ino).buf += d;
    wake(&io_wait);
}
std::string k_pull(int fd, size_t n)
{
    Ofd* f = F(fd);
    std::string s = I(f->ino).buf.substr(0, n);
    I(f->ino).buf.erase(0, n);
    wake(&io_wait);
    return s;
}
std::string k_last_lock(int fd) { return F(fd) ? F(fd)->lock : ""; }
int k_owner(int fd) { return F(fd) ? F(fd)->owner : -1; }
void k_set_fl(int fd, int fl)
{
    Ofd* f = F(fd);
    f->flags = (f->flags & O_ACCMODE) | fl;
}
std::string k_cwd() { return I(K.cwd).used ? path_of_dir(K.cwd) : ""; }
void k_chdir(const std::string& p)
{
    int d = lookup(p);
    if (d < 0 || I(d).type != K_DIR) fail("harness", "k_chdir(%s)", p.c_str());
    I(d).opens++;
    I(K.cwd).opens--;
    drop_inode(K.cwd);
    K.cwd = d;
}
void k_capacity(int ino, size_t n) { I(ino).cap = n; }
std::string k_locale(int cat) { return K.gloc[cat]; }
size_t k_live_locales() { return K.locnames.size(); }
void* k_thread_locale() { return K.tloc[self()]; }
std::string k_locale_desc(void* l)
{
    if (l == (void*)LC_GLOBAL_LOCALE) return "global";
    auto it = K.locnames.find(l);
    if (it == K.locnames.end()) return "invalid";
    std::string s;
    for (int i = 0; i < NCAT; ++i) s += it->second[i] + ";";
    return s;
}
std::vector<KErr>& k_errors(int f) { return K.errs[f]; }
uint64_t k_calls(const char* n) { return K.calls[n]; }
int k_sync_count() { return K.nsync; }

// ------------------------------------------------------------------ entry of a system call
namespace {
int note(const char* call, int err, bool inj)
{
    int f = self() < 0 ? 0 : self();
    K.errs[f].push_back({call, err, inj});
    fiber_errno() = err;
    if (logging()) logf("%s = -1 errno %d%s", call, err, inj ? " (injected)" : "");
    return -1;
}
// scheduling point, then possibly an injected failure
bool enter(const char* call, bool eintr, std::initializer_list<int> errs)
{
    step();
    if (eintr && fault(F_EINTR)) {
        note(call, EINTR, true);
        return true;
    }
    int64_t v;
    if (errs.size() && fault(F_ERR, &v, errs.size())) {
        note(call, errs.begin()[v], true);
        return true;
    }
    return false;
}
int ret(const char* call, int r)
{
    if (r < 0) return note(call, -r, false);
    return r;
}
size_t shorten(size_t n)
{
    int64_t v;
    if (n > 1 && fault(F_SHORT, &v, n - 1)) return v + 1;
    return n;
}
std::string in(const void* p, size_t n)
{
    std::string s(n, 0);
    __tsan_memcpy(&s[0], p, n);
    return s;
}
std::string in_str(const char* p) { return p ? std::string(p) : ""; }
bool readable(Ofd* f)
{
    Inode& n = I(f->ino);
    switch (n.type) {
    case K_FIFO: return !n.buf.empty() || !n.writers;
    case K_SOCK:
        if (n.sstate == 2) return !n.backlog.empty();
        return !n.buf.empty() || n.rdshut || n.peer_closed || n.sstate != 3;
    default: return true;
    }
}
bool writable(Ofd* f)
{
    Inode& n = I(f->ino);
    if (n.type == K_FIFO) return n.buf.size() + std::min<size_t>(512, n.cap) <= n.cap || !n.readers;
    if (n.type == K_SOCK && n.sstate == 3 && n.peer >= 0) return I(n.peer).buf.size() < I(n.peer).cap;
    return true;
}
}  // namespace
}  // namespace sim

using namespace sim;
#define CALL(name) (K.calls[name]++)

extern "C" {
// ------------------------------------------------------------------ descriptors
int sim_open(const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int perm = flags & O_CREAT ? va_arg(ap, int) : 0;
    va_end(ap);
    std::string p = in_str(path);
    if (enter("open", true, {EACCES, EMFILE, ENFILE, ENOSPC, EIO, ENOMEM})) return -1;
    int r = do_open(p, flags, perm);
    if (logging()) logf("open(%s, 0x%x) = %d", p.c_str(), flags, r);
    return ret("open", r);
}
int sim_close(int fd)
{
    step();
    if (!F(fd)) fail("bad-close", "close(%d): the descriptor is not open", fd);
    if (logging()) logf("close(%d)", fd);
    bool intr = fault(F_EINTR);
    int64_t v;
    static const int errs[] = {EIO, ENOSPC};
    bool err = !intr && fault(F_ERR, &v, 2);
    do_close(fd);  // as on Linux, the descriptor is gone in any case
    if (intr) return note("close", EINTR, true);
    if (err) return note("close", errs[v], true);
    return 0;
}
int sim_pipe(int fd[2])
{
    if (enter("pipe", false, {EMFILE, ENFILE})) return -1;
    do_pipe(fd);
    if (logging()) logf("pipe() = %d %d", fd[0], fd[1]);
    return 0;
}
int sim_dup(int fd)
{
    if (enter("dup", false, {EMFILE})) return -1;
    if (!F(fd)) return note("dup", EBADF, false);
    return ret("dup", new_fd(K.fd[fd].ofd, 0));
}
int sim_dup2(int fd, int to)
{
    if (enter("dup2", true, {EMFILE})) return -1;
    if (!F(fd)) return note("dup2", EBADF, false);
    if (to < 0 || to >= MAXFD) return note("dup2", EBADF, false);
    if (fd == to) return to;
    if (F(to)) do_close(to);
    return ret("dup2", new_fd(K.fd[fd].ofd, 0, to));
}
int sim_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    bool dup = cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC;
    if (dup) {
        if (enter("fcntl", false, {EMFILE})) return -1;
    } else if (cmd == F_SETLKW) {
        if (enter("fcntl", true, {ENOLCK})) return -1;
    } else {
        if (enter("fcntl", false, {})) return -1;
    }
    Ofd* f = F(fd);
    if (!f) return note("fcntl", EBADF, false);
    switch (cmd) {
    case F_DUPFD: case F_DUPFD_CLOEXEC: {
        if ((int)arg < 0 || (int)arg >= MAXFD) return note("fcntl", EINVAL, false);
        int r = new_fd(K.fd[fd].ofd, cmd == F_DUPFD_CLOEXEC, (int)arg);
        if (logging()) logf("fcntl(%d, F_DUPFD) = %d", fd, r);
        return ret("fcntl", r);
    }
    case F_GETFD: return K.fd[fd].cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: K.fd[fd].cloexec = !!((int)arg & FD_CLOEXEC); return 0;
    case F_GETFL: return f->flags;
    case F_SETFL: {
        int m = O_APPEND | O_NONBLOCK | O_ASYNC;
        f->flags = (f->flags & ~m) | ((int)arg & m);
        return 0;
    }
    case F_GETOWN: return f->owner;
    case F_SETOWN: f->owner = (int)arg; return 0;
    case F_GETLK: ((struct flock*)arg)->l_type = F_UNLCK; return 0;   // all locks belong to this process
    case F_SETLK: case F_SETLKW: {
        struct flock l;
        __tsan_memcpy(&l, (void*)arg, sizeof l);
        char b[80];
        snprintf(b, sizeof b, "%d %ld %ld %d", l.l_type, (long)l.l_start, (long)l.l_len, cmd == F_SETLKW);
        f->lock = b;
        return 0;
    }
    }
    return note("fcntl", EINVAL, false);
}
// ------------------------------------------------------------------ I/O
static ssize_t do_read(const char* call, int fd, void* buf, size_t n, off_t off, int flags)
{
    Ofd* f = F(fd);
    if (!f) return note(call, EBADF, false);
    if ((f->flags & O_ACCMODE) == O_WRONLY) return note(call, EBADF, false);
    Inode* ip = &I(f->ino);
    if (ip->type == K_DIR) return note(call, EISDIR, false);
    std::string d;
    if (ip->type == K_REG) {
        if (off < -1) return note(call, EINVAL, false);
        off_t o = off >= 0 ? off : f->off;
        int64_t end = ip->base + ip->data.size();
        size_t have = o < end ? end - o : 0;
        size_t k = shorten(std::min(n, have));
        if (k && o < ip->base) d.assign(std::min<size_t>(k, ip->base - o), 0);
        if (k > d.size()) d += ip->data.substr(o + d.size() - ip->base, k - d.size());
        if (off < 0) f->off += k;
    } else {
        if (off >= 0) return note(call, ESPIPE, false);
        if (ip->type == K_SOCK && ip->sstate != 3) return note(call, ip->sstate == 2 ? EINVAL : ENOTCONN, false);
        bool nb = (f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
        int ino = f->ino;
        while (n && ip->buf.empty()) {
            if (ip->type == K_CHR) break;
            if (ip->type == K_FIFO && !ip->writers) break;
            if (ip->type == K_SOCK && (ip->rdshut || ip->peer_closed)) break;
            if (nb) return note(call, EAGAIN, false);
            block_on(&io_wait);
            ip = &I(ino);
            if (!F(fd)) fail("closed-in-use", "descriptor %d was closed while a thread was reading from it", fd);
        }
        size_t k = shorten(std::min(n, ip->buf.size()));
        d = ip->buf.substr(0, k);
        if (!(flags & MSG_PEEK)) {
            ip->buf.erase(0, k);
            if (k) ip->xfers.push_back({self(), true, ip->consumed.size(), k});
            ip->consumed += d;
            wake(&io_wait);
        }
    }
    if (logging()) logf("%s(%d, %zu) = %zu", call, fd, n, d.size());
    size_t k = d.size();
    if (k) __tsan_memcpy(buf, d.data(), k);
    return k;
}
static ssize_t do_write(const char* call, int fd, const std::string& d0, off_t off, int flags)
{
    size_t n = d0.size();
    Ofd* f = F(fd);
    if (!f) return note(call, EBADF, false);
    if ((f->flags & O_ACCMODE) == O_RDONLY) return note(call, EBADF, false);
    Inode* ip = &I(f->ino);
    if (ip->type == K_REG) {
        if (off < -1) return note(call, EINVAL, false);
        off_t o = off >= 0 ? off : f->off;
        if (f->flags & O_APPEND) o = ip->base + ip->data.size();  // Linux: also for pwrite()
        size_t k = shorten(n);
        int64_t rel = o - ip->base;
        if (k && (rel < 0 || rel > (64 << 20))) ip->stray = true;
        else if (k) {
            if (ip->data.size() < rel + k) ip->data.resize(rel + k, 0);
            memcpy(&ip->data[rel], d0.data(), k);
        }
        if (off < 0) f->off = o + k;
        if (logging()) logf("%s(%d, %zu bytes at %lld) = %zu", call, fd, n, (long long)o, k);
        return k;
    }
    if (off >= 0) return note(call, ESPIPE, false);
    if (ip->type == K_DIR) return note(call, EISDIR, false);
    if (ip->type == K_CHR) {
        size_t k = shorten(n);
        if (k) ip->xfers.push_back({self(), false, ip->total.size(), k});
        ip->total += d0.substr(0, k);
        if (logging()) logf("%s(%d, %zu) = %zu", call, fd, n, k);
        return k;
    }
    bool nb = (f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
    int ino = f->ino;
    size_t done = 0;
    n = shorten(n);
    std::string d = d0.substr(0, n);
    while (true) {
        ip = &I(ino);
        Inode* q;
        if (ip->type == K_SOCK) {
            if (ip->sstate != 3) return note(call, ENOTCONN, false);
            if (ip->wrshut || ip->peer < 0) return done ? (ssize_t)done : note(call, EPIPE, false);
            q = &I(ip->peer);
        } else {
            if (!ip->readers) return done ? (ssize_t)done : note(call, EPIPE, false);
            q = ip;
        }
        size_t room = q->cap > q->buf.size() ? q->cap - q->buf.size() : 0;
        size_t k = std::min(room, n - done);
        if (k < n - done && n <= 512 && n <= q->cap && ip->type == K_FIFO) k = 0;  // atomic
        if (k) {
            std::string part = d.substr(done, k);
            q->buf += part;
            ip->xfers.push_back({self(), false, ip->total.size(), k});
            ip->total += part;
            done += k;
            wake(&io_wait);
        }
        if (done == n) break;
        if (nb) {
            if (done) break;
            return note(call, EAGAIN, false);
        }
        block_on(&io_wait);
        if (!F(fd)) fail("closed-in-use", "descriptor %d was closed while a thread was writing to it", fd);
    }
    if (logging()) logf("%s(%d, %zu) = %zu", call, fd, d0.size(), done);
    return done;
}
ssize_t sim_read(int fd, void* buf, size_t n)
{
    if (enter("read", true, {EIO})) return -1;
    return do_read("read", fd, buf, n, -1, 0);
}
ssize_t sim_pread(int fd, void* buf, size_t n, off_t off)
{
    if (enter("pread", true, {EIO})) return -1;
    if (off < 0) return note("pread", EINVAL, false);
    return do_read("pread", fd, buf, n, off, 0);
}
ssize_t sim_recv(int fd, void* buf, size_t n, int flags)
{
    if (enter("recv", true, {ECONNRESET, ENOMEM})) return -1;
    Ofd* f = F(fd);
    if (!f) return note("recv", EBADF, false);
    if (I(f->ino).type != K_SOCK) return note("recv", ENOTSOCK, false);
    return do_read("recv", fd, buf, n, -1, flags);
}
ssize_t sim_write(int fd, const void* buf, size_t n)
{
    std::string d = in(buf, n);
    if (enter("write", true, {EIO, ENOSPC})) return -1;
    return do_write("write", fd, d, -1, 0);
}
ssize_t sim_pwrite(int fd, const void* buf, size_t n, off_t off)
{
    std::string d = in(buf, n);
    if (enter("pwrite", true, {EIO, ENOSPC})) return -1;
    if (off < 0) return note("pwrite", EINVAL, false);
    return do_write("pwrite", fd, d, off, 0);
}
ssize_t sim_send(int fd, const void* buf, size_t n, int flags)
{
    std::string d = in(buf, n);
    if (enter("send", true, {ECONNRESET, ENOMEM})) return -1;
    Ofd* f = F(fd);
    if (!f) return note("send", EBADF, false);
    if (I(f->ino).type != K_SOCK) return note("send", ENOTSOCK, false);
    return do_write("send", fd, d, -1, flags);
}
off_t sim_lseek(int fd, off_t off, int whence)
{
    if (enter("lseek", false, {})) return -1;
    Ofd* f = F(fd);
    if (!f) return note("lseek", EBADF, false);
    Inode& n = I(f->ino);
    if (n.type == K_FIFO || n.type == K_SOCK) return note("lseek", ESPIPE, false);
    off_t b;
    switch (whence) {
    case SEEK_SET: b = 0; break;
    case SEEK_CUR: b = f->off; break;
    case SEEK_END: b = n.base + n.data.size(); break;
    default: return note("lseek", EINVAL, false);
    }
    if (off > INT64_MAX - b) return note("lseek", EOVERFLOW, false);
    if (b + off < 0) return note("lseek", EINVAL, false);
    f->off = b + off;
    return f->off;
}
int sim_fsync(int fd)
{
    if (enter("fsync", true, {EIO, ENOSPC})) return -1;
    Ofd* f = F(fd);
    if (!f) return note("fsync", EBADF, false);
    if (I(f->ino).type == K_FIFO || I(f->ino).type == K_SOCK) return note("fsync", EINVAL, false);
    CALL("fsync");
    return 0;
}
void sim_sync(void)
{
    step();
    K.nsync++;
}
int sim_fstat(int fd, struct stat* st)
{
    if (enter("fstat", false, {ENOMEM})) return -1;
    Ofd* f = F(fd);
    if (!f) return note("fstat", EBADF, false);
    struct stat b;
    do_stat(f->ino, &b);
    __tsan_memcpy(st, &b, sizeof b);
    return 0;
}
int sim_fchmod(int fd, mode_t m)
{
    if (enter("fchmod", false, {EPERM, EROFS, EIO})) return -1;
    Ofd* f = F(fd);
    if (!f) return note("fchmod", EBADF, false);
    I(f->ino).perm = m & 07777;
    return 0;
}
// ------------------------------------------------------------------ names
int sim_stat(const char* path, struct stat* st)
{
    std::string p = in_str(path);
    if (enter("stat", false, {EACCES, ENOMEM})) return -1;
    int i = lookup(p);
    if (i < 0) return note("stat", -i, false);
    struct stat b;
    do_stat(i, &b);
    __tsan_memcpy(st, &b, sizeof b);
    return 0;
}
int sim_lstat(const char* path, struct stat* st)
{
    std::string p = in_str(path);
    if (enter("lstat", false, {EACCES, ENOMEM})) return -1;
    int i = lookup(p);
    if (i < 0) return note("lstat", -i, false);
    struct stat b;
    do_stat(i, &b);
    __tsan_memcpy(st, &b, sizeof b);
    return 0;
}
int sim_chmod(const char* path, mode_t m)
{
    std::string p = in_str(path);
    if (enter("chmod", false, {EPERM, EROFS, EIO})) return -1;
    int i = lookup(p);
    if (i < 0) return note("chmod", -i, false);
    I(i).perm = m & 07777;
    return 0;
}
static int make(const char* call, const std::string& p, KType t, int perm)
{
    std::string name;
    int d = resolve(p, true, &name);
    if (d < 0) return note(call, -d, false);
    if (I(d).type != K_DIR) return note(call, ENOTDIR, false);
    if (name == "." || I(d).ents.count(name)) return note(call, EEXIST, false);
    dir_add(d, name, new_inode(t, perm & 0777));
    return 0;
}
int sim_mkdir(const char* path, mode_t m)
{
    std::string p = in_str(path);
    if (enter("mkdir", false, {EACCES, ENOSPC, EROFS})) return -1;
    return make("mkdir", p, K_DIR, m);
}
int sim_mkfifo(const char* path, mode_t m)
{
    std::string p = in_str(path);
    if (enter("mkfifo", false, {EACCES, ENOSPC, EROFS})) return -1;
    return make("mkfifo", p, K_FIFO, m);
}
int sim_mknod(const char* path, mode_t m, dev_t)
{
    std::string p = in_str(path);
    if (enter("mknod", false, {EACCES, ENOSPC, EROFS})) return -1;
    switch (m & S_IFMT) {
    case 0: case S_IFREG: return make("mknod", p, K_REG, m);
    case S_IFIFO: return make("mknod", p, K_FIFO, m);
    case S_IFCHR: return make("mknod", p, K_CHR, m);
    }
    return note("mknod", EINVAL, false);
}
int sim_link(const char* a, const char* b)
{
    std::string pa = in_str(a), pb = in_str(b);
    if (enter("link", false, {EACCES, ENOSPC, EMLINK})) return -1;
    int i = lookup(pa);
    if (i < 0) return note("link", -i, false);
    if (I(i).type == K_DIR) return note("link", EPERM, false);
    std::string name;
    int d = resolve(pb, true, &name);
    if (d < 0) return note("link", -d, false);
    if (I(d).type != K_DIR) return note("link", ENOTDIR, false);
    if (name == "." || I(d).ents.count(name)) return note("link", EEXIST, false);
    dir_add(d, name, i);
    return 0;
}
int sim_unlink(const char* path)
{
    std::string p = in_str(path);
    if (enter("unlink", false, {EACCES, EROFS, EIO})) return -1;
    std::string name;
    int d = resolve(p, true, &name);
    if (d < 0) return note("unlink", -d, false);
    auto it = I(d).ents.find(name);
    if (it == I(d).ents.end()) return note("unlink", ENOENT, false);
    int i = it->second.ino;
    if (I(i).type == K_DIR) return note("unlink", EISDIR, false);
    I(d).ents.erase(it);
    I(i).nlink--;
    drop_inode(i);
    if (logging()) logf("unlink(%s) = 0", p.c_str());
    return 0;
}
static bool fill_template(char* t, std::string& out)
{
    size_t n = strlen(t);
    if (n < 6 || strcmp(t + n - 6, "XXXXXX")) return false;
    out = t;
    do {
        char b[16];
        snprintf(b, sizeof b, "%06d", ++K.tmpseq);
        out.replace(n - 6, 6, b);
    } while (lookup(out) >= 0);
    return true;
}
int sim_mkstemp(char* t)
{
    if (enter("mkstemp", false, {EACCES, EMFILE, ENOSPC})) return -1;
    std::string p;
    if (!fill_template(t, p)) return note("mkstemp", EINVAL, false);
    int r = do_open(p, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (r < 0) return note("mkstemp", -r, false);
    memcpy(t, p.c_str(), p.size());
    if (logging()) logf("mkstemp(%s) = %d", t, r);
    return r;
}
char* sim_mkdtemp(char* t)
{
    if (enter("mkdtemp", false, {EACCES, ENOSPC})) return nullptr;
    std::string p;
    if (!fill_template(t, p)) {
        note("mkdtemp", EINVAL, false);
        return nullptr;
    }
    if (make("mkdtemp", p, K_DIR, 0700) < 0) return nullptr;
    memcpy(t, p.c_str(), p.size());
    return t;
}
static char* out_path(const char* call, const std::string& s, char* buf, size_t size)
{
    if (!buf) {
        size_t n = size ? size : s.size() + 1;
        if (n < s.size() + 1) {
            note(call, ERANGE, false);
            return nullptr;
        }
        buf = (char*)sim_malloc(n);
        if (!buf) {
            note(call, ENOMEM, true);
            return nullptr;
        }
    } else if (size < s.size() + 1) {
        note(call, ERANGE, false);
        return nullptr;
    }
    __tsan_memcpy(buf, s.c_str(), s.size() + 1);
    return buf;
}
char* sim_getcwd(char* buf, size_t size)
{
    if (enter("getcwd", false, {EACCES})) return nullptr;
    if (buf && !size) {
        note("getcwd", EINVAL, false);
        return nullptr;
    }
    std::string s = k_cwd();
    if (s.empty()) {
        note("getcwd", ENOENT, false);
        return nullptr;
    }
    return out_path("getcwd", s, buf, size);
}
char* sim_get_current_dir_name(void)
{
    if (enter("get_current_dir_name", false, {EACCES})) return nullptr;
    std::string s = k_cwd();
    if (s.empty()) {
        note("getcwd", ENOENT, false);
        return nullptr;
    }
    return out_path("get_current_dir_name", s, nullptr, 0);
}
int sim_chdir(const char* path)
{
    std::string p = in_str(path);
    if (enter("chdir", false, {EACCES, ENOMEM, EIO})) return -1;
    int d = lookup(p);
    if (d < 0) return note("chdir", -d, false);
    if (I(d).type != K_DIR) return note("chdir", ENOTDIR, false);
    k_chdir(p);
    if (logging()) logf("chdir(%s) = 0", p.c_str());
    return 0;
}
char* sim_realpath(const char* path, char* buf)
{
    std::string p = in_str(path);
    if (enter("realpath", false, {EACCES, EIO})) return nullptr;
    std::string r;
    int fd;
    if (sscanf(p.c_str(), "/proc/self/fd/%d", &fd) == 1) {
        Ofd* f = F(fd);
        if (!f) {
            note("realpath", ENOENT, false);
            return nullptr;
        }
        if (I(f->ino).type == K_DIR)
            r = path_of_dir(f->ino);
        else if (f->dir >= 0) {
            auto it = I(f->dir).ents.find(f->name);
            if (it != I(f->dir).ents.end() && it->second.id == f->dent) {
                r = path_of_dir(f->dir);
                r = (r == "/" ? "" : r) + "/" + f->name;
            }
        }
        if (r.empty()) {
            note("realpath", ENOENT, false);
            return nullptr;
        }
    } else {
        int i = lookup(p);
        if (i < 0) {
            note("realpath", -i, false);
            return nullptr;
        }
        std::string name;
        int d = resolve(p, true, &name);
        if (I(i).type == K_DIR)
            r = path_of_dir(i);
        else {
            r = path_of_dir(d);
            r = (r == "/" ? "" : r) + "/" + name;
        }
    }
    return out_path("realpath", r, buf, 4096);
}
// ------------------------------------------------------------------ sockets
int sim_socket(int, int type, int)
{
    if (enter("socket", false, {EMFILE, ENFILE, EACCES, ENOMEM})) return -1;
    int i = new_inode(K_SOCK, 0777);
    int r = new_fd(new_ofd(i, O_RDWR | (type & SOCK_NONBLOCK ? O_NONBLOCK : 0)), !!(type & SOCK_CLOEXEC));
    if (logging()) logf("socket() = %d", r);
    return ret("socket", r);
}
static Inode* sock(const char* call, int fd)
{
    Ofd* f = F(fd);
    if (!f) {
        note(call, EBADF, false);
        return nullptr;
    }
    if (I(f->ino).type != K_SOCK) {
        note(call, ENOTSOCK, false);
        return nullptr;
    }
    return &I(f->ino);
}
int sim_bind(int fd, const struct sockaddr* a, socklen_t n)
{
    std::string ad((const char*)a, n);
    if (enter("bind", false, {EACCES, ENOMEM})) return -1;
    Inode* s = sock("bind", fd);
    if (!s) return -1;
    if (s->sstate) return note("bind", EINVAL, false);
    for (auto* i : K.in)
        if (i->used && i->type == K_SOCK && i->sstate >= 1 && i->sstate <= 2 && i->addr == ad)
            return note("bind", EADDRINUSE, false);
    s->addr = ad;
    s->sstate = 1;
    return 0;
}
int sim_listen(int fd, int backlog)
{
    if (enter("listen", false, {EADDRINUSE})) return -1;
    Inode* s = sock("listen", fd);
    if (!s) return -1;
    if (s->sstate != 1 && s->sstate != 2) return note("listen", EINVAL, false);
    s->sstate = 2;
    s->backlog_max = std::max(backlog, 1);
    return 0;
}
static void queue_connection(int i, int si)
{
    int c = new_inode(K_SOCK, 0777);
    I(c).opens = 1;
    I(c).sstate = I(si).sstate = 3;
    I(c).peer = si;
    I(si).peer = c;
    I(i).backlog.push_back(c);
    wake(&io_wait);
}
int sim_connect(int fd, const struct sockaddr* a, socklen_t n)
{
    std::string ad((const char*)a, n);
    if (enter("connect", false, {ECONNREFUSED, ETIMEDOUT, EACCES})) return -1;
    Inode* s = sock("connect", fd);
    if (!s) return -1;
    if (s->sstate == 3) return note("connect", EISCONN, false);
    if (s->sstate == 2) return note("connect", EINVAL, false);
    int si = F(fd)->ino;
    for (int i = 1; i < (int)K.in.size(); ++i)
        if (I(i).used && I(i).type == K_SOCK && I(i).sstate == 2 && I(i).addr == ad) {
            if ((int)I(i).backlog.size() >= I(i).backlog_max) return note("connect", EAGAIN, false);
            queue_connection(i, si);
            if (logging()) logf("connect(%d) = 0", fd);
            return 0;
        }
    return note("connect", ECONNREFUSED, false);
}
int sim_accept(int fd, struct sockaddr* a, socklen_t* n)
{
    if (enter("accept", true, {EMFILE, ECONNABORTED, ENOMEM})) return -1;
    Inode* s = sock("accept", fd);
    if (!s) return -1;
    if (s->sstate != 2) return note("accept", EINVAL, false);
    int si = F(fd)->ino;
    while (I(si).backlog.empty()) {
        if (F(fd)->flags & O_NONBLOCK) return note("accept", EAGAIN, false);
        block_on(&io_wait);
        if (!F(fd)) fail("closed-in-use", "descriptor %d was closed while a thread was accepting from it", fd);
    }
    int c = I(si).backlog.front();
    I(si).backlog.erase(I(si).backlog.begin());
    int r = new_fd(new_ofd(c, O_RDWR), 0);
    I(c).opens--;
    if (a && n) {
        sa_family_t fam = AF_UNIX;
        std::string from = I(c).peer >= 0 && !I(I(c).peer).addr.empty() ? I(I(c).peer).addr : std::string((char*)&fam, sizeof fam);
        memcpy(a, from.data(), std::min<size_t>(from.size(), *n));
        *n = from.size();
    }
    if (logging()) logf("accept(%d) = %d", fd, r);
    return ret("accept", r);
}
}  // extern "C"
namespace sim {
int k_listen(const std::string& addr, int backlog)
{
    int i = new_inode(K_SOCK, 0777);
    I(i).addr = addr;
    I(i).sstate = 2;
    I(i).backlog_max = backlog;
    return new_fd(new_ofd(i, O_RDWR), 0);
}
std::vector<int> k_listeners()
{
    std::vector<int> v;
    for (int i = 1; i < (int)K.in.size(); ++i)
        if (I(i).used && I(i).type == K_SOCK && I(i).sstate == 2) v.push_back(i);
    return v;
}
int k_connect(int listener, const std::string& from)
{
    if ((int)I(listener).backlog.size() >= I(listener).backlog_max) return -1;
    int s = new_inode(K_SOCK, 0777);
    I(s).addr = from;
    int fd = new_fd(new_ofd(s, O_RDWR), 0);
    queue_connection(listener, s);
    return fd;
}
int k_accept(int fd)
{
    Inode& s = I(F(fd)->ino);
    if (s.backlog.empty()) return -1;
    int c = s.backlog.front();
    s.backlog.erase(s.backlog.begin());
    int r = new_fd(new_ofd(c, O_RDWR), 0);
    I(c).opens--;
    return r;
}
int k_backlog(int ino) { return I(ino).backlog.size(); }
int k_peer(int ino) { return I(ino).peer; }
bool k_peer_closed(int ino) { return I(ino).peer_closed; }
int k_sock_state(int ino) { return I(ino).sstate; }
std::string k_sock_addr(int ino) { return I(ino).addr; }
}  // namespace sim
extern "C" {
int sim_shutdown(int fd, int how)
{
    if (enter("shutdown", false, {ENOTCONN})) return -1;
    Inode* s = sock("shutdown", fd);
    if (!s) return -1;
    if (s->sstate != 3) return note("shutdown", ENOTCONN, false);
    if (how == SHUT_RD || how == SHUT_RDWR) s->rdshut = true;
    if (how == SHUT_WR || how == SHUT_RDWR) {
        s->wrshut = true;
        if (s->peer >= 0) I(s->peer).peer_closed = true;
    }
    wake(&io_wait);
    return 0;
}
int sim_poll(struct pollfd* p, nfds_t n, int timeout)
{
    if (enter("poll", true, {ENOMEM})) return -1;
    uint64_t until = timeout < 0 ? 0 : now_ns() + (uint64_t)timeout * 1000000 + 1;
    while (true) {
        int k = 0;
        for (nfds_t i = 0; i < n; ++i) {
            p[i].revents = 0;
            if (p[i].fd < 0) continue;
            Ofd* f = F(p[i].fd);
            if (!f)
                p[i].revents = POLLNVAL;
            else {
                if ((p[i].events & POLLIN) && readable(f)) p[i].revents |= POLLIN;
                if ((p[i].events & POLLOUT) && writable(f)) p[i].revents |= POLLOUT;
            }
            k += p[i].revents != 0;
        }
        if (k || (until && now_ns() >= until)) return k;
        block_on(&io_wait, until);
    }
}
int sim_select(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv)
{
    if (enter("select", true, {ENOMEM})) return -1;
    uint64_t dl = tv ? now_ns() + tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull : 0;
    if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0)) return note("select", EINVAL, false);
    fd_set ro, wo;
    while (true) {
        int n = 0;
        FD_ZERO(&ro);
        FD_ZERO(&wo);
        for (int i = 0; i < nfds; ++i) {
            if ((r && FD_ISSET(i, r)) || (w && FD_ISSET(i, w)) || (e && FD_ISSET(i, e))) {
                if (!F(i)) return note("select", EBADF, false);
            }
            if (r && FD_ISSET(i, r) && readable(F(i))) FD_SET(i, &ro), ++n;
            if (w && FD_ISSET(i, w) && writable(F(i))) FD_SET(i, &wo), ++n;
        }
        if (n || (tv && now_ns() >= dl)) {
            if (r) *r = ro;
            if (w) *w = wo;
            if (e) FD_ZERO(e);
            return n;
        }
        block_on(&io_wait, dl);
    }
}
void sim_perror(const char*) { step(); }

// ------------------------------------------------------------------ locales
static bool known_locale(const std::string& n)
{
    return n == "C" || n == "POSIX" || n == "en_US" || n == "de_DE" || n == "fr_FR";
}
static char* keep(const std::string& s, char*& slot)
{
    if (slot) {
        if (s == slot) return slot;
        sim_free(slot);   // the result of an earlier call is invalid
    }
    slot = (char*)heap_alloc(s.size() + 1);
    memcpy(slot, s.c_str(), s.size() + 1);
    return slot;
}
static const int lcats[12] = {LC_CTYPE, LC_NUMERIC, LC_TIME, LC_COLLATE, LC_MONETARY, LC_MESSAGES, LC_PAPER, LC_NAME, LC_ADDRESS,
                              LC_TELEPHONE, LC_MEASUREMENT, LC_IDENTIFICATION};
static std::string all_name()
{
    static const char* const nm[] = {"LC_CTYPE", "LC_NUMERIC", "LC_TIME", "LC_COLLATE", "LC_MONETARY", "LC_MESSAGES", "LC_PAPER", "LC_NAME",
                                     "LC_ADDRESS", "LC_TELEPHONE", "LC_MEASUREMENT", "LC_IDENTIFICATION"};
    bool same = true;
    for (int c : lcats) same = same && K.gloc[c] == K.gloc[lcats[0]];
    if (same) return K.gloc[lcats[0]];
    std::string s;
    for (int i = 0; i < 12; ++i) s += std::string(i ? ";" : "") + nm[i] + "=" + K.gloc[lcats[i]];
    return s;
}
static char* do_setlocale(int cat, const char* name)
{
    if (cat < 0 || cat >= NCAT) return nullptr;
    if (name) {
        if (fault(F_OOM)) return nullptr;
        std::string n = name;
        if (n.empty()) n = "C";
        if (cat == LC_ALL) {
            if (n.find(';') != std::string::npos) {
                size_t pos = 0;
                std::string v[12];
                for (int i = 0; i < 12; ++i) {
                    size_t eq = n.find('=', pos), sc = n.find(';', pos);
                    if (eq == std::string::npos) return nullptr;
                    v[i] = n.substr(eq + 1, sc == std::string::npos ? sc : sc - eq - 1);
                    if (!known_locale(v[i])) return nullptr;
                    pos = sc + 1;
                }
                for (int i = 0; i < 12; ++i) K.gloc[lcats[i]] = v[i];
            } else {
                if (!known_locale(n)) return nullptr;
                for (int c : lcats) K.gloc[c] = n;
            }
        } else {
            if (!known_locale(n)) return nullptr;
            K.gloc[cat] = n;
        }
        if (logging()) logf("setlocale(%d, %s)", cat, name);
    }
    return cat == LC_ALL ? keep(all_name(), K.allstr) : keep(K.gloc[cat], K.gstr[cat]);
}
// setlocale() must not be called concurrently
char* sim_setlocale(int cat, const char* name)
{
    step();
    if (K.in_setlocale) fail("data-race", "two threads call setlocale() at the same time");
    K.in_setlocale = true;
    step();
    char* p = do_setlocale(cat, name);
    step();
    K.in_setlocale = false;
    return p;
}
static void* mkloc(const std::vector<std::string>& n)
{
    void* p = heap_alloc(64);
    K.locnames[p] = n;
    return p;
}
static const std::vector<std::string>* locof(const char* call, locale_t l)
{
    static std::vector<std::string> g;
    if (l == LC_GLOBAL_LOCALE) {
        g.assign(K.gloc, K.gloc + NCAT);
        return &g;
    }
    auto it = K.locnames.find((void*)l);
    if (it == K.locnames.end()) fail("bad-locale", "%s of a locale object that does not exist", call);
    return &it->second;
}
}  // extern "C"
void* sim::k_newlocale(const std::string& name) { return mkloc(std::vector<std::string>(NCAT, name)); }
extern "C" {
locale_t sim_newlocale(int mask, const char* name, locale_t base)
{
    step();
    if (fault(F_OOM)) {
        note("newlocale", ENOMEM, true);
        return (locale_t)0;
    }
    if (!name) {
        note("newlocale", EINVAL, false);
        return (locale_t)0;
    }
    std::string n = *name ? name : "C";
    if (!known_locale(n)) {
        note("newlocale", ENOENT, false);
        return (locale_t)0;
    }
    std::vector<std::string> v(NCAT, "C");
    if (base) v = *locof("newlocale", base);
    for (int i = 0; i < NCAT; ++i)
        if (i != LC_ALL && (mask & (1 << i))) v[i] = n;
    if (base) {
        K.locnames.erase((void*)base);   // the base may not be used any longer
        sim_free((void*)base);
    }
    void* p = mkloc(v);
    if (logging()) logf("newlocale(%s) = %p", n.c_str(), p);
    return (locale_t)p;
}
locale_t sim_duplocale(locale_t l)
{
    step();
    if (fault(F_OOM)) {
        note("duplocale", ENOMEM, true);
        return (locale_t)0;
    }
    return (locale_t)mkloc(*locof("duplocale", l));
}
void sim_freelocale(locale_t l)
{
    step();
    locof("freelocale", l);
    if (l == LC_GLOBAL_LOCALE) fail("bad-locale", "freelocale of the global locale");
    for (int i = 0; i < fiber_count(); ++i)
        if (K.tloc[i] == (void*)l) fail("bad-locale", "a locale is freed while thread T%d uses it", i);
    if (logging()) logf("freelocale(%p)", (void*)l);
    K.locnames.erase((void*)l);
    sim_free((void*)l);
}
locale_t sim_uselocale(locale_t l)
{
    step();
    locale_t o = (locale_t)K.tloc[self()];
    if (l) {
        locof("uselocale", l);
        K.tloc[self()] = (void*)l;
    }
    return o;
}
struct lconv* sim_localeconv(void)
{
    static struct lconv c;
    static char dot[] = ".", comma[] = ",", empty[] = "";
    step();
    memset(&c, 0, sizeof c);
    c.decimal_point = K.gloc[LC_NUMERIC] == "de_DE" || K.gloc[LC_NUMERIC] == "fr_FR" ? comma : dot;
    c.thousands_sep = empty;
    c.currency_symbol = empty;
    return &c;
}
int sim_strcoll_l(const char* a, const char* b, locale_t l)
{
    locof("strcoll_l", l);
    return strcmp(a, b);
}
int sim_vsnprintf(char* s, size_t n, const char* f, va_list a)
{
    step();
    int64_t v;
    if (fault(F_ERR, &v, 2)) {
        fiber_errno() = v ? ENOMEM : EOVERFLOW;
        return -1;
    }
    int r = vsnprintf(s, n, f, a);
    if (r < 0) fiber_errno() = errno;
    return r;
}
int sim_vsscanf(const char* s, const char* f, va_list a)
{
    step();
    int64_t v;
    if (fault(F_ERR, &v, 2)) {
        fiber_errno() = v ? ENOMEM : EILSEQ;
        return -1;
    }
    int e = errno;
    errno = 0;
    int r = vsscanf(s, f, a);
    if (errno) fiber_errno() = errno;
    errno = e;
    return r;
}
int sim___isoc99_vsscanf(const char* s, const char* f, va_list a) { return sim_vsscanf(s, f, a); }
int sim___isoc23_vsscanf(const char* s, const char* f, va_list a) { return sim_vsscanf(s, f, a); }
size_t sim_strftime_l(char* s, size_t n, const char* f, const struct tm* t, locale_t l)
{
    locof("strftime_l", l);
    return strftime(s, n, f, t);
}
// ------------------------------------------------------------------ signals
int sim_sigaction(int sig, const struct sigaction* a, struct sigaction* o)
{
    step();
    if (sig < 1 || sig > 64) return note("sigaction", EINVAL, false);
    if (fault(F_ERR)) return note("sigaction", EINVAL, true);
    if (o) *o = K.sa[sig];
    if (a) K.sa[sig] = *a;
    step();
    return 0;
}
// restores the signal mask if the jump buffer contains one
void sim_siglongjmp(sigjmp_buf env, int v)
{
    if (env[0].__mask_was_saved) K.sigmask[self()] = 0;
    siglongjmp(env, v);
}
}
namespace sim {
struct sigaction& k_sigaction(int sig) { return K.sa[sig]; }
bool k_sigblocked(int sig) { return K.sigmask[self()] >> (sig - 1) & 1; }
void k_deliver(int sig, siginfo_t* si, void* uc)
{
    struct sigaction a = K.sa[sig];
    uint64_t old = K.sigmask[self()];
    K.sigmask[self()] |= 1ull << (sig - 1);
    if (a.sa_flags & SA_SIGINFO)
        a.sa_sigaction(sig, si, uc);
    else if (a.sa_handler)
        a.sa_handler(sig);
    K.sigmask[self()] = old;
}
}
