// File descriptors and names: C14, and with failing calls C24
#include "io.h"
using namespace sim;
// both variants of the interface
#define FCNTL(...) (r->op_index & 1 ? fcntl_tm(__VA_ARGS__) : fcntl_tx(__VA_ARGS__))

namespace {
enum { OPEN, CLOSE, DUP, READ, WRITE, LSEEK, PIPE, SOCKET, MKSTEMP, GETFD, SETFD, DUP2, BADUSE, OPENDIR, DIROP, FCNTL, FSTATX, MKDIR, LINK, UNLINK, STAT, CHMOD, MKFIFO, MKNOD, MKDTEMP, SYNC, SLEEP, NOPS };
const char* const names[] = {"open", "close", "dup", "read", "write", "lseek", "pipe", "socket", "mkstemp", "fcntl(F_GETFD)",
                             "fcntl(F_SETFD)", "dup2", "use-of-closed", "opendir", "directory", "fcntl", "fstat", "mkdir", "link", "unlink", "stat", "chmod", "mkfifo", "mknod", "mkdtemp", "sync", "sleep"};
enum { KEMPTY, KFILE, KPIPER, KPIPEW, KSOCK, KTMP, KDIR };
enum { D_FSTAT, D_FSYNC, D_FCHMOD, D_READ, D_PREAD, D_WRITE, D_PWRITE, D_LSEEK, D_RECV, D_LISTEN, D_SHUTDOWN, ND };
enum { C_SETFL, C_SETLK, C_SETLKW, C_GETLK, C_OWN, C_GETFL, NC };
const int NSLOT = 4, NPATH = 3;

// State of the descriptors of one thread. The same code runs inside the transactions (which descriptor to use)
// and in the reference model.
struct Slot {
    int kind = KEMPTY, fd = -1, path = -1, ofd = -1, cloexec = 0, wronly = 0;
    std::string name;
};
struct View {
    Slot s[NSLOT];
    std::map<int, std::set<int>> touched;   // files used in this transaction, and through which descriptors
    std::set<int> closed, paths;            // descriptors closed and files opened by path in this transaction
    bool may_touch(const Slot& x)
    {
        auto it = touched.find(x.ofd);
        return it == touched.end() || it->second.count(x.fd);
    }
    void touch(const Slot& x)
    {
        touched[x.ofd].insert(x.fd);
        if (x.kind == KFILE || x.kind == KDIR) paths.insert(x.path);
    }
    bool path_open(int p)
    {
        for (auto& x : s)
            if ((x.kind == KFILE || x.kind == KDIR) && x.path == p) return true;
        return false;
    }
    int free_slot()
    {
        for (int i = 0; i < NSLOT; ++i)
            if (s[i].kind == KEMPTY) return i;
        return -1;
    }
    int dup2_target(const Op& op) { return 50 + 4 * (int)(op.a[4] / 100) + free_slot(); }
    void begin() { touched.clear(); closed.clear(); paths.clear(); }
    // whether the operation can be performed in this state
    bool can(const Op& op)
    {
        Slot& x = s[op.a[0] % NSLOT];
        switch (op.code) {
        case OPEN: return free_slot() >= 0 && !path_open(op.a[1]) && !paths.count(op.a[1]);
        case OPENDIR: return free_slot() >= 0 && !path_open(NPATH) && !paths.count(NPATH);
        case DIROP: return x.kind == KDIR && may_touch(x);
        case SOCKET: case MKSTEMP: return free_slot() >= 0;
        case PIPE: {
            int n = 0;
            for (auto& y : s) n += y.kind == KEMPTY;
            return n >= 2;
        }
        case CLOSE: case GETFD: case SETFD: case FCNTL: case FSTATX: return x.kind != KEMPTY && may_touch(x);
        case DUP: return x.kind != KEMPTY && may_touch(x) && free_slot() >= 0;
        // dup2() acts immediately: onto a descriptor that this transaction has not closed
        case DUP2: return x.kind != KEMPTY && may_touch(x) && free_slot() >= 0 && !closed.count(dup2_target(op));
        case READ: if (x.wronly) return false;
        case WRITE: case LSEEK: return (x.kind == KFILE || x.kind == KTMP) && may_touch(x);
        case BADUSE: return op.a[1] >= 3 || !closed.empty();
        default: return true;
        }
    }
    // effect on the descriptors; v holds the new descriptors
    void apply(const Op& op, int fd0, int fd1, int ofd, const std::string& nm)
    {
        Slot& x = s[op.a[0] % NSLOT];
        switch (op.code) {
        case OPEN: case SOCKET: case MKSTEMP: case OPENDIR: {
            Slot& y = s[free_slot()];
            y.kind = op.code == OPEN ? KFILE : op.code == SOCKET ? KSOCK : op.code == OPENDIR ? KDIR : KTMP;
            y.fd = fd0;
            y.wronly = op.code == OPEN && op.a[2] == 3;
            y.path = op.code == OPEN ? op.a[1] : op.code == OPENDIR ? NPATH : -1;
            y.ofd = ofd;
            y.cloexec = 0;
            y.name = nm;
            closed.erase(fd0);
            touch(y);
            break;
        }
        case PIPE:
            for (int i = 0; i < 2; ++i) {
                Slot& y = s[free_slot()];
                y.kind = i ? KPIPEW : KPIPER;
                y.fd = i ? fd1 : fd0;
                y.ofd = ofd;   // both ends are one file
                y.cloexec = 0;
                closed.erase(y.fd);
                touch(y);
            }
            break;
        case DUP: case DUP2: {
            if (op.code == DUP) touch(x);
            Slot& y = s[free_slot()];
            y = x;
            y.fd = fd0;
            y.cloexec = op.code == DUP && op.a[1] == 2;
            closed.erase(fd0);
            if (op.code == DUP) touch(y);
            break;
        }
        case CLOSE:
            touch(x);
            closed.insert(x.fd);
            x = Slot();
            break;
        case SETFD: touch(x); x.cloexec = op.a[1] & 1; break;
        case READ: case WRITE: case LSEEK: case GETFD: case DIROP: case FCNTL: case FSTATX: touch(x); break;
        }
    }
};
int64_t geti(const std::string& v, int i)
{
    int64_t x = -1;
    if (v.size() >= 8u * (i + 1)) memcpy(&x, v.data() + 8 * i, 8);
    return x;
}

struct FdModel : Model {
    struct F {
        bool exists = false;
        std::string data;
    };
    View view[8];
    std::vector<int> used;                  // open descriptors
    std::map<int, int64_t> off;             // offsets of open file descriptions
    std::map<int, F> file[8];               // files of each thread
    std::map<int, std::string> tmp;         // contents of temporary files, by open file description
    std::set<std::string> tmps;             // their names
    int next_ofd = 1;
    int dirmode[8] = {0755, 0755, 0755, 0755, 0755, 0755, 0755, 0755};
    int last_thread = -1, last_tx = -1;
    bool partial_ok = false;
    const std::set<std::pair<int, int>>* taint = nullptr;   // files (-1: descriptor flags) changed by an irrevocable transaction that failed
    Model* clone() const override { return new FdModel(*this); }
    uint64_t hash() const override
    {
        uint64_t h = 7;
        for (int f : used) h = mix(h, f);
        for (int f : dirmode) h = mix(h, f);
        for (int t = 0; t < 8; ++t) {
            for (auto& s : view[t].s) h = mix(mix(mix(h, s.fd), s.kind), s.cloexec * 100 + s.path);
            for (auto& f : file[t]) h = mix(mix(h, std::hash<std::string>()(f.second.data)), f.second.exists);
        }
        for (auto& o : off) h = mix(h, o.second);
        for (auto& o : tmp) h = mix(h, std::hash<std::string>()(o.second));
        for (auto& o : tmps) h = mix(h, std::hash<std::string>()(o));
        return mix(h, last_thread * 100 + last_tx);
    }
    bool add(int64_t fd)
    {
        if (fd < 0) return false;
        if (std::find(used.begin(), used.end(), (int)fd) != used.end()) return false;
        used.push_back((int)fd);
        std::sort(used.begin(), used.end());
        return true;
    }
    std::string* content(int t, Slot& x)
    {
        return x.kind == KTMP ? &tmp[x.ofd] : &file[t][x.path].data;
    }
    bool apply(const Op& op, const std::string* v) override
    {
        int t = op.a[4] / 100, tx = op.a[4] % 100;
        View& w = view[t];
        if (t != last_thread || tx != last_tx) {
            w.begin();
            last_thread = t;
            last_tx = tx;
        }
        if (op.code >= MKDIR) return true;
        if (!w.can(op)) return !v || *v == "skip";
        if (!v) return true;   // operation has failed
        if (*v == "skip") return false;
        Slot& x = w.s[op.a[0] % NSLOT];
        int64_t a = geti(*v, 0), b = geti(*v, 1);
        switch (op.code) {
        case OPEN: {
            F& f = file[t][op.a[1]];
            if (!add(a)) return false;
            if (f.exists && op.a[2] == 1) return false;   // O_EXCL
            if (op.a[2] >= 2) f.data.clear();             // O_TRUNC
            f.exists = true;
            w.apply(op, a, -1, next_ofd, "");
            off[next_ofd++] = 0;
            return true;
        }
        case MKSTEMP: {
            std::string nm = v->substr(8);
            if (!add(a) || !tmps.insert(nm).second) return false;
            w.apply(op, a, -1, next_ofd, nm);
            off[next_ofd++] = 0;
            return true;
        }
        case SOCKET: case OPENDIR:
            if (!add(a)) return false;
            w.apply(op, a, -1, next_ofd++, "");
            return true;
        case DIROP:
            w.apply(op, 0, 0, 0, "");
            if (op.a[1] == D_FSTAT) return a == dirmode[t];
            if (op.a[1] == D_FCHMOD) dirmode[t] = 0700 + op.a[2];
            return a == 0;
        case FCNTL: case FSTATX:
            w.apply(op, 0, 0, 0, "");
            return a == 0;
        case PIPE:
            if (!add(a) || !add(b)) return false;
            w.apply(op, a, b, next_ofd, "");
            next_ofd += 2;
            return true;
        case DUP: case DUP2:
            if (!add(a)) return false;
            w.apply(op, a, -1, 0, "");
            return true;
        case CLOSE: {
            if (a) return false;
            auto it = std::find(used.begin(), used.end(), x.fd);
            if (it == used.end()) return false;
            used.erase(it);
            w.apply(op, 0, 0, 0, "");
            return true;
        }
        case GETFD:
            w.apply(op, 0, 0, 0, "");
            return a == x.cloexec || taint->count({t, -1});
        case SETFD:
            w.apply(op, 0, 0, 0, "");
            return a == 0;
        case READ: {
            w.apply(op, 0, 0, 0, "");
            std::string& d = *content(t, x);
            std::string s = (size_t)off[x.ofd] < d.size() ? d.substr(off[x.ofd], op.a[1]) : "";
            if (x.kind == KFILE && taint->count({t, x.path})) {
                s = v->substr(1);
            } else if (*v != "r" + s) {
                if (!partial_ok || v->size() < 2 || ("r" + s).compare(0, v->size(), *v)) return false;
                s = v->substr(1);
            }
            off[x.ofd] += s.size();
            return true;
        }
        case WRITE: {
            w.apply(op, 0, 0, 0, "");
            std::string& d = *content(t, x);
            std::string s = filltext(op.a[2], op.a[1]);
            int64_t o = off[x.ofd];
            if (a != op.a[1]) return false;
            if (!s.empty()) {
                if (d.size() < o + s.size()) d.resize(o + s.size(), 0);
                d.replace(o, s.size(), s);
            }
            off[x.ofd] += s.size();
            return true;
        }
        case LSEEK:
            w.apply(op, 0, 0, 0, "");
            off[x.ofd] = op.a[1];
            return a == op.a[1];
        }
        return false;
    }
};

struct FdScenario : IoScenario {
    int variant;
    explicit FdScenario(int v) : variant(v) {}
    std::vector<View> committed, cur;
    std::vector<char*> buf;
    std::vector<int> base_fds;
    std::map<std::string, int> shadow;   // effects that happen immediately: path -> mode, -1 directory
    bool relative = false;
    std::set<std::pair<int, int>> taint;
    std::vector<std::set<int>> truncated;
    void merge_taint(int t)
    {
        for (int p : truncated[t]) taint.insert({t, p});
        truncated[t].clear();
    }

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        int nt = r.range(1, 4);
        s.prog.cfg = {(int64_t)r.below(2), (int64_t)r.below(3)};   // relative names; descriptors that are open from the start
        if (variant == 0) {
            if (r.chance(0.4)) {
                swarm_faults(r, s.par, {F_OOM, F_EINTR, F_SHORT}, 0.05);
                if (r.chance(0.4)) s.par.oom_exact = r.range(1, 120);
            }
        } else {
            swarm_faults(r, s.par, {F_EINTR, F_SHORT, F_ERR, F_ERR, F_OOM}, 0.05);
            if (r.chance(0.1)) swarm_faults(r, s.par, {F_PTHREAD, F_ERR}, 0.1);
        }
        bool imm = r.chance(0.25);
        for (int t = 0; t < nt; ++t) {
            Thread th;
            int nx = r.range(1, 5);
            bool excl[NPATH];
            for (auto& e : excl) e = r.chance(0.5);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, 6);
                for (int i = 0; i < no; ++i) {
                    Op o;
                    static const int w[] = {OPEN, OPEN, OPEN, OPEN, CLOSE, CLOSE, CLOSE, DUP, DUP, READ, WRITE, WRITE, LSEEK, PIPE, SOCKET, MKSTEMP, GETFD, SETFD, DUP2, BADUSE};
                    o.code = w[r.below(sizeof w / sizeof *w)];
                    if (imm && r.chance(0.5)) o.code = r.range(MKDIR, SLEEP);
                    if (r.chance(0.12)) o.code = r.range(OPENDIR, FSTATX);
                    if (i && tx.ops.back().code == OPENDIR) o.code = DIROP;
                    if ((o.code == SETFD || o.code == DUP2 || o.code == BADUSE) && !r.chance(0.4)) o.code = CLOSE;
                    o.a[0] = r.below(NSLOT);
                    o.a[4] = t * 100 + x;
                    switch (o.code) {
                    case OPEN:
                        o.a[1] = r.below(NPATH);
                        o.a[2] = excl[o.a[1]] ? 1 : r.chance(0.25) ? r.range(2, 3) : 0;
                        o.a[3] = r.chance(0.3);
                        break;
                    case DUP: o.a[1] = r.below(3); break;
                    case READ: o.a[1] = r.range(0, 40); break;
                    case WRITE: o.a[1] = r.range(0, 40); o.a[2] = r.below(1000) + 1; break;
                    case LSEEK: o.a[1] = r.range(0, 50); break;
                    case SETFD: o.a[1] = r.below(2); break;
                    case DIROP: o.a[1] = r.below(r.chance(0.8) ? 3 : ND); o.a[2] = r.below(64); break;
                    case FCNTL: o.a[1] = r.below(NC); o.a[2] = r.below(64); break;
                    case BADUSE: o.a[1] = r.below(7); o.a[2] = r.below(6); break;
                    default: o.a[1] = r.below(4); o.a[2] = r.below(4); o.a[3] = o.code >= MKDIR && r.chance(0.4);
                    }
                    tx.ops.push_back(o);
                }
                if (r.chance(0.45)) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_IRREVOCABLE};
                    o.code = codes[r.below(5)];
                    o.a[0] = r.range(1, 2);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                th.txs.push_back(tx);
            }
            s.prog.th.push_back(th);
        }
    }
    std::string op_name(const Op& op) override
    {
        char b[128];
        snprintf(b, sizeof b, "%s(%lld, %lld, %lld)", op.code < NOPS ? names[op.code] : "?", (long long)op.a[0],
                 (long long)op.a[1], (long long)op.a[2]);
        return b;
    }
    std::string path(int t, int p) { return (relative ? "t" : "/d/t") + std::to_string(t) + "." + std::to_string(p); }
    std::string ipath(int t, int p) { return (relative ? "i" : "/d/i") + std::to_string(t) + "." + std::to_string(p); }
    std::string dir(int t) { return "/D" + std::to_string(t); }
    std::string abs(const std::string& p) { return p[0] == '/' ? p : "/d/" + p; }
    void setup() override
    {
        k_mkdir("/d");
        relative = sp->prog.cfg[0];
        if (relative) k_chdir("/d");
        k_mkfile("/x", "x");
        for (size_t i = 0; i < sp->prog.th.size(); ++i) k_mkdir(dir(i));
        for (int i = 0; i < sp->prog.cfg[1]; ++i) k_open("/x", O_RDONLY);
        base_fds = k_fds();
        committed.resize(sp->prog.th.size());
        cur.resize(sp->prog.th.size());
        truncated.resize(sp->prog.th.size());
        for (size_t i = 0; i < sp->prog.th.size(); ++i) {
            buf.push_back((char*)heap_alloc(576));
            memset(buf[i] + 512, 'u', 64);
            name_mem.push_back(std::string(64, 'u'));
        }
    }
    Model* initial() override
    {
        auto* m = new FdModel;
        m->used = base_fds;
        m->taint = &taint;
        m->partial_ok = result().fired[F_ERR] != 0;
        return m;
    }
    void on_begin(TxRun* r) override
    {
        IoScenario::on_begin(r);
        if (memcmp(buf[r->thread] + 512, name_mem[r->thread].data(), 64)) fail("not-rolled-back", "the template of mkstemp() or mkdtemp() has not been restored");
        merge_taint(r->thread);
        cur[r->thread] = committed[r->thread];
        cur[r->thread].begin();
    }
    std::vector<std::string> name_mem;   // templates in transactional memory, as committed
    void on_committed(TxRun* r) override
    {
        name_mem[r->thread] = std::string(buf[r->thread] + 512, 64);
        committed[r->thread] = cur[r->thread];
        truncated[r->thread].clear();
    }
    void after_threads() override
    {
        for (size_t t = 0; t < truncated.size(); ++t) merge_taint(t);
    }

    // the library removes files on a best-effort basis: not if the calls that it needs for this fail
    bool removal_failed()
    {
        for (size_t t = 0; t <= sp->prog.th.size() + 1; ++t)
            for (auto& e : k_errors(t)) {
                std::string c = e.call;
                if (e.injected && (c == "realpath" || c == "stat" || c == "fstat" || c == "unlink")) return true;
            }
        return false;
    }
    bool matches_final(Model* m, std::string& why) override
    {
        auto* h = (FdModel*)m;
        bool leftovers = removal_failed();
        char b[300];
        auto open_fds = k_fds();
        for (size_t i = 0; i < open_fds.size(); ++i) {
            int t = (open_fds[i] - 50) / 4;
            if (open_fds[i] >= 50 && taint.count({t, -2}) && !std::count(h->used.begin(), h->used.end(), open_fds[i]))
                open_fds.erase(open_fds.begin() + i--);
        }
        if (open_fds != h->used) {
            std::string a, c;
            for (int f : k_fds()) a += " " + std::to_string(f);
            for (int f : h->used) c += " " + std::to_string(f);
            why = "open descriptors are" + a + " instead of" + c;
            return false;
        }
        std::set<std::string> left;
        for (auto& n : k_list("/d")) left.insert(n);
        for (auto& s : shadow) left.erase(s.first.substr(3));
        for (auto& n : h->tmps) {
            if (!left.erase(n)) {
                why = "temporary file " + n + " does not exist";
                return false;
            }
        }
        for (size_t t = 0; t < sp->prog.th.size(); ++t) {
            if (k_perm(k_ino_of(dir(t))) != h->dirmode[t]) {
                snprintf(b, sizeof b, "directory %s has mode 0%o instead of 0%o", dir(t).c_str(), k_perm(k_ino_of(dir(t))), h->dirmode[t]);
                why = b;
                return false;
            }
            for (int p = 0; p < NPATH; ++p) {
                std::string pa = abs(path(t, p)), k = k_file(pa);
                auto& f = h->file[t][p];
                bool ex = false;
                for (auto& x : sp->prog.th[t].txs)
                    for (auto& o : x.ops)
                        if (o.code == OPEN && o.a[1] == p && o.a[2] == 1) ex = true;
                left.erase(pa.substr(3));
                if (!f.exists && (!ex || leftovers) && k == "") continue;   // file created by an aborted transaction
                std::string want = f.exists ? f.data : "<none>";
                if (taint.count({(int)t, p})) continue;
                if (k != want) {
                    snprintf(b, sizeof b, "file %s is '%.80s' instead of '%.80s'", pa.c_str(), k.c_str(), want.c_str());
                    why = b;
                    return false;
                }
            }
            for (auto& x : h->view[t].s)
                if (x.kind != KEMPTY) {
                    if (k_fd_cloexec(x.fd) != x.cloexec && !taint.count({(int)t, -1})) {
                        snprintf(b, sizeof b, "descriptor %d: close-on-exec is %d", x.fd, k_fd_cloexec(x.fd));
                        why = b;
                        return false;
                    }
                    if ((x.kind == KFILE || x.kind == KTMP) && k_offset(x.fd) != h->off[x.ofd]) {
                        snprintf(b, sizeof b, "descriptor %d: offset is %lld instead of %lld", x.fd, (long long)k_offset(x.fd),
                                 (long long)h->off[x.ofd]);
                        why = b;
                        return false;
                    }
                    if (x.kind == KTMP && k_content(k_fd_ino(x.fd)) != h->tmp[x.ofd]) {
                        why = "contents of temporary file " + x.name;
                        return false;
                    }
                }
        }
        if (!left.empty() && !leftovers) {
            why = "file " + *left.begin() + " was created by an aborted transaction and still exists";
            return false;
        }
        return true;
    }
    void final_checks() override
    {
        for (auto& s : shadow) {
            if (!k_exists(s.first)) fail("immediate-effect", "%s does not exist any longer", s.first.c_str());
            if (s.second >= 0 && k_perm(k_ino_of(s.first)) != s.second)
                fail("immediate-effect", "%s has mode 0%o instead of 0%o", s.first.c_str(), k_perm(k_ino_of(s.first)), s.second);
        }
    }
    static int dir_error(const Op& op)
    {
        static const int e[] = {0, 0, 0, EISDIR, EISDIR, EISDIR, EISDIR, EINVAL, ENOTSOCK, ENOTSOCK, ENOTSOCK};
        return e[op.a[1]];
    }
    bool legit_error(TxRun* r, int e) override
    {
        auto& ops = sp->prog.th[r->thread].txs[r->tx].ops;
        if (r->op_index >= (int)ops.size()) return false;
        const Op& op = ops[r->op_index];
        if (op.code == DIROP) return dir_error(op) == e;
        return e == EBADF && op.code == BADUSE;
    }
    // the failed operation may have had its effect on the file system already
    bool irreversible(TxRun* r) override
    {
        auto& ops = sp->prog.th[r->thread].txs[r->tx].ops;
        if (r->op_index >= (int)ops.size()) return false;
        int c = ops[r->op_index].code;
        return c == LINK || c == UNLINK || c == CHMOD;
    }
    // errors that the arguments explain: files that exist or do not exist
    bool expected_error(TxRun* r) override
    {
        if (IoScenario::expected_error(r)) return true;
        if (picotm_error_status() != PICOTM_ERRNO) return false;
        int e = picotm_error_as_errno();
        const KErr* c = cause(e);
        return c && !c->injected && (e == EEXIST || e == ENOENT || e == EMFILE || e == EISDIR || e == EPERM || e == ENOTDIR);
    }
    void fds_result(TxRun* r, const Op& op, int a, int b = -1, const std::string& nm = "")
    {
        for (int f : {a, b})
            if (f >= 0 && !k_is_open(f)) fail("wrong-result", "%s() returned %d, which is not open", names[op.code], f);
        // the descriptor is new: neither of this transaction nor of others
        for (auto& v : cur)
            for (auto& s : v.s)
                if (s.kind != KEMPTY && &v == &cur[r->thread] && (s.fd == a || (b >= 0 && s.fd == b)))
                    fail("descriptor-reused", "%s() returned descriptor %d, which the transaction already uses", names[op.code], s.fd);
        std::string v((char*)"", 0);
        int64_t x = a;
        v.append((char*)&x, 8);
        x = b;
        if (b >= 0) v.append((char*)&x, 8);
        v += nm;
        static int ofd = 1000;
        cur[r->thread].apply(op, a, b, ofd, nm);
        ofd += 2;
        rec(r, v.data(), v.size());
    }
    void exec(TxRun* r, const Op& op) override
    {
        View& w = cur[r->thread];
        char* b = buf[r->thread];
        int t = r->thread;
        if (op.code >= MKDIR) return immediate(r, op);
        if (!w.can(op)) return rec(r, "skip", 4);
        Slot& x = w.s[op.a[0] % NSLOT];
        switch (op.code) {
        case OPEN: {
            static const int fl[] = {O_RDWR | O_CREAT, O_RDWR | O_CREAT | O_EXCL, O_RDWR | O_CREAT | O_TRUNC};
            std::string p = path(t, op.a[1]);
            if (op.a[2] >= 2) truncated[t].insert(op.a[1]);
            int f;
            if (op.a[3]) {
                store_tx(b + 64, p.c_str(), p.size() + 1);
                f = op.a[2] == 3 ? creat_tx(b + 64, 0644) : open_tx(b + 64, fl[op.a[2]], 0644);
            } else
                f = op.a[2] == 3 ? creat_tm(p.c_str(), 0644) : open_tm(p.c_str(), fl[op.a[2]], 0644);
            if (op.a[2] >= 2 && !picotm_is_irrevocable()) fail("not-irrevocable", "open() with O_TRUNC cannot be rolled back");
            return fds_result(r, op, f);
        }
        case CLOSE: {
            int k = close_tx(x.fd);
            if (!k_is_open(x.fd)) fail("closed-early", "descriptor %d is closed before the transaction commits", x.fd);
            w.apply(op, 0, 0, 0, "");
            return rec_i(r, k);
        }
        case DUP: {
            int f = op.a[1] == 0 ? dup_tx(x.fd) : FCNTL(x.fd, op.a[1] == 1 ? F_DUPFD : F_DUPFD_CLOEXEC, 0);
            return fds_result(r, op, f);
        }
        case DUP2: {
            int want = w.dup2_target(op);
            truncated[t].insert(-2);   // not rolled back
            int f = dup2_tx(x.fd, want);
            if (f < 0) fail("error-hidden", "dup2() failed with errno %d, but the transaction continues", errno);
            if (f != want) fail("wrong-result", "dup2(%d, %d) returned %d", x.fd, want, f);
            if (!picotm_is_irrevocable()) fail("not-irrevocable", "dup2() cannot be rolled back");
            return fds_result(r, op, f);
        }
        case READ: {
            ssize_t k = read_tx(x.fd, b, op.a[1]);
            if (k < 0 || k > op.a[1]) fail("wrong-result", "read() returned %zd", k);
            std::string s(k, 0);
            if (k) load_tx(b, &s[0], k);
            w.apply(op, 0, 0, 0, "");
            s = "r" + s;
            return rec(r, s.data(), s.size());
        }
        case WRITE: {
            std::string s = filltext(op.a[2], op.a[1]);
            ssize_t k = write_tm(x.fd, s.data(), s.size());
            w.apply(op, 0, 0, 0, "");
            return rec_i(r, k);
        }
        case LSEEK: {
            off_t k = lseek_tx(x.fd, op.a[1], SEEK_SET);
            w.apply(op, 0, 0, 0, "");
            return rec_i(r, k);
        }
        case PIPE: {
            int fd[2] = {-1, -1};
            int k;
            if (op.a[2] & 1) {
                k = pipe_tx((int*)(b + 64));
                load_tx(b + 64, fd, sizeof fd);
            } else
                k = pipe_tm(fd);
            if (k) fail("wrong-result", "pipe() returned %d", k);
            return fds_result(r, op, fd[0], fd[1]);
        }
        case SOCKET: return fds_result(r, op, socket_tx(AF_UNIX, SOCK_STREAM, 0));
        case MKSTEMP: {
            std::string p = relative ? "sXXXXXX" : "/d/sXXXXXX";
            char n[32];
            strcpy(n, p.c_str());
            int f;
            if (op.a[2] & 1) {
                store_tx(b + 520, n, p.size() + 1);
                f = mkstemp_tx(b + 520);
                load_tx(b + 520, n, p.size() + 1);
            } else
                f = mkstemp_tm(n);
            if (!k_exists(n)) fail("wrong-result", "mkstemp() reports the name %s, which does not exist", n);
            return fds_result(r, op, f, -1, relative ? n : n + 3);
        }
        case GETFD: {
            int k = FCNTL(x.fd, F_GETFD);
            w.apply(op, 0, 0, 0, "");
            return rec_i(r, k);
        }
        case SETFD: {
            truncated[t].insert(-1);
            int k = FCNTL(x.fd, F_SETFD, (int)(op.a[1] & 1));
            if (!picotm_is_irrevocable()) fail("not-irrevocable", "F_SETFD cannot be rolled back");
            w.apply(op, 0, 0, 0, "");
            return rec_i(r, k);
        }
        case OPENDIR: {
            int f = open_tm(dir(t).c_str(), O_RDONLY | O_DIRECTORY);
            if (f >= 0 && k_fd_ino(f) != k_ino_of(dir(t))) fail("wrong-result", "open() of a directory has opened another file");
            return fds_result(r, op, f);
        }
        case DIROP: {
            ssize_t k = 0;
            struct stat st;
            switch (op.a[1]) {
            case D_FSTAT:
                k = fstat_tm(x.fd, &st);
                if (k || !S_ISDIR(st.st_mode) || (int)st.st_ino != k_fd_ino(x.fd)) fail("wrong-result", "fstat() of a directory returned %zd", k);
                k = st.st_mode & 07777;
                break;
            case D_FSYNC: k = fsync_tx(x.fd); break;
            case D_FCHMOD: k = fchmod_tx(x.fd, 0700 + op.a[2]); break;
            case D_READ: k = read_tm(x.fd, b, 4); break;
            case D_PREAD: k = pread_tm(x.fd, b, 4, 0); break;
            case D_WRITE: k = write_tm(x.fd, "abc", 3); break;
            case D_PWRITE: k = pwrite_tm(x.fd, "abc", 3, 0); break;
            case D_LSEEK: k = lseek_tx(x.fd, 3, SEEK_SET); break;
            case D_RECV: k = recv_tm(x.fd, b, 4, 0); break;
            case D_LISTEN: k = listen_tx(x.fd, 1); break;
            case D_SHUTDOWN: k = shutdown_tx(x.fd, SHUT_RD); break;
            }
            if (dir_error(op)) fail("error-hidden", "an operation that a directory does not have returned %zd", k);
            w.apply(op, 0, 0, 0, "");
            return rec_i(r, k);
        }
        case FSTATX: {
            struct stat* st = (struct stat*)(b + 64);
            int k = fstat_tx(x.fd, st);
            struct stat c;
            load_tx(st, &c, sizeof c);
            if (k == 0 && (int)c.st_ino != k_fd_ino(x.fd)) fail("wrong-result", "fstat() describes another file");
            w.apply(op, 0, 0, 0, "");
            return rec_i(r, k);
        }
        case FCNTL: {
            int k = 0, fl = k_fd_flags(x.fd);
            struct flock* l = (struct flock*)(b + 64);
            struct flock c;
            memset(&c, 0, sizeof c);
            c.l_type = op.a[2] & 1 ? F_RDLCK : F_WRLCK;
            c.l_start = op.a[2];
            c.l_len = op.a[2] / 2;
            char lk[80];
            snprintf(lk, sizeof lk, "%d %ld %ld %d", c.l_type, (long)c.l_start, (long)c.l_len, op.a[1] == C_SETLKW);
            switch (op.a[1]) {
            case C_SETFL:
                fl ^= O_ASYNC;
                k = FCNTL(x.fd, F_SETFL, fl);
                if (k == 0 && k_fd_flags(x.fd) != fl) fail("wrong-result", "fcntl(F_SETFL) has no effect");
                break;
            case C_SETLK: case C_SETLKW:
                store_tx(l, &c, sizeof c);
                k = r->op_index & 1 ? fcntl_tm(x.fd, op.a[1] == C_SETLK ? F_SETLK : F_SETLKW, &c) : fcntl_tx(x.fd, op.a[1] == C_SETLK ? F_SETLK : F_SETLKW, l);
                if (k == 0 && k_last_lock(x.fd) != lk) fail("wrong-result", "fcntl() has locked '%s' instead of '%s'", k_last_lock(x.fd).c_str(), lk);
                break;
            case C_GETLK:
                store_tx(l, &c, sizeof c);
                if (r->op_index & 1)
                    k = fcntl_tm(x.fd, F_GETLK, &c);
                else {
                    k = fcntl_tx(x.fd, F_GETLK, l);
                    load_tx(l, &c, sizeof c);
                }
                if (k == 0 && (c.l_type != F_UNLCK || c.l_start != op.a[2] || c.l_len != op.a[2] / 2)) fail("wrong-result", "fcntl(F_GETLK) returned type %d", c.l_type);
                break;
            case C_OWN:
                k = FCNTL(x.fd, F_SETOWN, (int)op.a[2]);
                if (k == 0 && k_owner(x.fd) != op.a[2]) fail("wrong-result", "fcntl(F_SETOWN) has no effect");
                if (k == 0 && FCNTL(x.fd, F_GETOWN) != op.a[2]) fail("wrong-result", "fcntl(F_GETOWN) returned another owner");
                break;
            case C_GETFL: {
                int v = FCNTL(x.fd, F_GETFL);
                if (v != fl) fail("wrong-result", "fcntl(F_GETFL) returned 0x%x instead of 0x%x", v, fl);
                break;
            }
            }
            if ((op.a[1] == C_SETFL || op.a[1] == C_SETLK || op.a[1] == C_SETLKW || op.a[1] == C_OWN) && !picotm_is_irrevocable())
                fail("not-irrevocable", "the change of the descriptor cannot be rolled back");
            w.apply(op, 0, 0, 0, "");
            return rec_i(r, k);
        }
        case BADUSE: {
            static const int bad[] = {-1, 90, 1000, 100000};
            int f = op.a[1] >= 3 ? bad[op.a[1] - 3] : *w.closed.begin();
            ssize_t k = op.a[2] == 2 && op.a[1] >= 3 ? dup2_tx(f, 80 + t) : op.a[2] & 1 ? close_tx(f) : op.a[1] & 1 ? write_tm(f, "x", 1) : read_tm(f, b, 1);
            fail("use-of-closed", "an operation on the closed descriptor %d succeeds with result %zd", f, k);
        }
        }
    }
    // operations on names have no way back; so they must run irrevocably
    void immediate(TxRun* r, const Op& op)
    {
        change(r, op);
        if (op.code != STAT && op.code != SYNC && op.code != SLEEP && !picotm_is_irrevocable())
            fail("not-irrevocable", "%s() has changed the file system, but can be rolled back", names[op.code]);
    }
    void change(TxRun* r, const Op& op)
    {
        int t = r->thread;
        std::string p = ipath(t, op.a[1]), q = ipath(t, op.a[2]), ap = abs(p), aq = abs(q);
        int k;
        struct stat st;
        bool tx = op.a[3];     // names in transactional memory
        char *tp = buf[t] + 64, *tq = buf[t] + 192;
        if (tx) {
            store_tx(tp, p.c_str(), p.size() + 1);
            store_tx(tq, q.c_str(), q.size() + 1);
        }
        auto has = [&](const std::string& x) { return shadow.count(x) != 0; };
        auto ex = [&](const std::string& x) {
            if (!k_exists(x)) fail("immediate-effect", "%s() succeeds, but %s does not exist", names[op.code], x.c_str());
        };
        switch (op.code) {
        case MKDIR:
            k = tx ? mkdir_tx(tp, 0755) : mkdir_tm(p.c_str(), 0755);
            if (k || has(ap)) fail("wrong-result", "mkdir(%s) returned %d", p.c_str(), k);
            ex(ap);
            shadow[ap] = -1;
            break;
        case MKFIFO:
            k = tx ? mkfifo_tx(tp, 0640) : mkfifo_tm(p.c_str(), 0640);
            if (k || has(ap)) fail("wrong-result", "mkfifo(%s) returned %d", p.c_str(), k);
            ex(ap);
            shadow[ap] = 0640;
            break;
        case LINK:
            k = tx ? link_tx(tp, tq) : link_tm(p.c_str(), q.c_str());
            if (k || has(aq) || !has(ap)) fail("wrong-result", "link(%s, %s) returned %d", p.c_str(), q.c_str(), k);
            ex(aq);
            if (k_ino_of(aq) != k_ino_of(ap)) fail("immediate-effect", "link(%s, %s) has linked another file", p.c_str(), q.c_str());
            shadow[aq] = -2;
            break;
        case UNLINK:
            k = tx ? unlink_tx(tp) : unlink_tm(p.c_str());
            if (k || !has(ap)) fail("wrong-result", "unlink(%s) returned %d", p.c_str(), k);
            if (k_exists(ap)) fail("immediate-effect", "unlink() succeeds, but %s exists", ap.c_str());
            shadow.erase(ap);
            break;
        case STAT:
            if (tx) {
                struct stat* ts = (struct stat*)(buf[t] + 320);
                k = op.a[2] & 1 ? stat_tx(tp, ts) : lstat_tx(tp, ts);
                load_tx(ts, &st, sizeof st);
            } else
                k = op.a[2] & 1 ? stat_tm(p.c_str(), &st) : lstat_tm(p.c_str(), &st);
            if (k || !has(ap) || (int)st.st_ino != k_ino_of(ap)) fail("wrong-result", "stat(%s) returned %d", p.c_str(), k);
            break;
        case CHMOD:
            k = tx ? chmod_tx(tp, 0600 + op.a[2]) : chmod_tm(p.c_str(), 0600 + op.a[2]);
            if (k || !has(ap)) fail("wrong-result", "chmod(%s) returned %d", p.c_str(), k);
            if (k_perm(k_ino_of(ap)) != 0600 + op.a[2]) fail("immediate-effect", "chmod() has no effect on %s", ap.c_str());
            for (auto& s : shadow)
                if (k_ino_of(s.first) == k_ino_of(ap)) s.second = 0600 + op.a[2];
            break;
        case MKNOD:
            k = tx ? mknod_tx(tp, (op.a[2] & 1 ? S_IFIFO : S_IFREG) | 0600, 0) : mknod_tm(p.c_str(), (op.a[2] & 1 ? S_IFIFO : S_IFREG) | 0600, 0);
            if (k || has(ap)) fail("wrong-result", "mknod(%s) returned %d", p.c_str(), k);
            ex(ap);
            shadow[ap] = 0600;
            break;
        case MKDTEMP: {
            char *nm = buf[t], *d;
            snprintf(nm, 64, "%s.XXXXXX", p.c_str());
            if (tx) {
                store_tx(buf[t] + 512, nm, strlen(nm) + 1);
                d = mkdtemp_tx(buf[t] + 512);
                load_tx(buf[t] + 512, nm, strlen(nm) + 1);
                if (d == buf[t] + 512) d = nm;
            } else
                d = mkdtemp_tm(nm);
            if (d != nm || strncmp(nm, p.c_str(), p.size()) || strstr(nm, "XXXXXX")) fail("wrong-result", "mkdtemp() returned %s", d ? d : "NULL");
            std::string a = abs(nm);
            if (has(a)) fail("wrong-result", "mkdtemp() returned the existing directory %s", nm);
            ex(a);
            shadow[a] = -1;
            break;
        }
        case SYNC: sync_tx(); break;
        case SLEEP: {
            uint64_t t0 = now_ns(), n = 1 + op.a[2] % 4;
            unsigned k = sleep_tx(n);
            if (k) fail("wrong-result", "sleep() returned %u", k);
            if (now_ns() - t0 < n * 1000000000) fail("wrong-result", "sleep(%d) returned after %d ms", (int)n, (int)((now_ns() - t0) / 1000000));
            sched_yield_tx();
            break;
        }
        }
    }
};
Reg r1("fildes", [](const RunSpec&) -> Scenario* { return new FdScenario(0); });
Reg r2("fildes_faults", [](const RunSpec&) -> Scenario* { return new FdScenario(1); });
}  // namespace
