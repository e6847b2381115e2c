// One table of file descriptors for all threads: C14. Transactions use, create and close descriptors by their numbers.
#include "io.h"
using namespace sim;

namespace {
enum { OPEN, CLOSE, DUP, DUP2, PIPE, SOCKET, MKSTEMP, PREAD, READ, WRITE, LSEEK, FSTAT, GETFD, SETFD, NOPS };
const char* const names[] = {"open", "close", "dup", "dup2", "pipe", "socket", "mkstemp", "pread", "read", "write", "lseek", "fstat", "fcntl(F_GETFD)", "fcntl(F_SETFD)"};
const int SIZE = 48;
bool creates(const Op& op) { return op.code == OPEN || op.code == PIPE || op.code == SOCKET || op.code == MKSTEMP; }

struct TabModel : Model {
    struct Ofd { int file; int64_t off; };
    struct Fd { int ofd; bool cloexec; };
    std::vector<std::string> file;
    std::map<int, Ofd> ofd;
    std::map<int, Fd> fd;
    Model* clone() const override { return new TabModel(*this); }
    uint64_t hash() const override
    {
        // numbers of open files are arbitrary: the first descriptor names them
        uint64_t h = 3;
        std::map<int, int> first;
        for (auto& s : file) h = mix(h, std::hash<std::string>()(s));
        for (auto& f : fd) {
            int o = first.emplace(f.second.ofd, f.first).first->second;
            const Ofd& x = ofd.at(f.second.ofd);
            h = mix(mix(mix(mix(mix(h, f.first), o), x.file), x.off), f.second.cloexec);
        }
        return h;
    }
    int fresh()
    {
        int i = 0;
        while (ofd.count(i)) ++i;
        return i;
    }
    void drop(int n)
    {
        int o = fd[n].ofd;
        fd.erase(n);
        for (auto& f : fd)
            if (f.second.ofd == o) return;
        ofd.erase(o);
    }
    static std::string num(int64_t v) { return std::string((char*)&v, sizeof v); }
    static int64_t val(const std::string& s)
    {
        int64_t x = -1;
        if (s.size() >= 8) memcpy(&x, s.data(), 8);
        return x;
    }
    bool apply(const Op& op, const std::string* v) override
    {
        if (!v || *v == "skip") return true;
        int n = op.a[0];
        auto i = fd.find(n);
        bool bad = i == fd.end();
        if (*v == "EBADF") return !creates(op) && bad;
        if (creates(op)) {
            for (size_t k = 0; k < v->size(); k += 8) {
                int64_t f = val(v->substr(k));
                if (fd.count(f)) return false;
                int o = fresh();
                ofd[o] = Ofd{op.code == OPEN ? (int)op.a[1] : -1, 0};
                fd[f] = Fd{o, false};
            }
            return true;
        }
        if (bad) return false;
        switch (op.code) {
        case CLOSE: drop(n); return val(*v) == 0;
        case DUP: {
            int64_t f = val(*v);
            if (fd.count(f)) return false;
            fd[f] = Fd{i->second.ofd, op.a[1] == 2};
            return true;
        }
        case DUP2: {
            int t = op.a[1], o = i->second.ofd;
            if (val(*v) != t) return false;
            if (t == n) return true;
            if (fd.count(t) && fd[t].ofd != o) drop(t);
            fd[t] = Fd{o, false};
            return true;
        }
        case GETFD: return val(*v) == i->second.cloexec;
        case SETFD: i->second.cloexec = op.a[1] & 1; return val(*v) == 0;
        case FSTAT: return val(*v) == ofd[i->second.ofd].file;
        }
        Ofd& x = ofd[i->second.ofd];
        if (x.file < 0) return false;
        std::string& d = file[x.file];
        switch (op.code) {
        case PREAD: return *v == "r" + (op.a[2] < (int)d.size() ? d.substr(op.a[2], op.a[1]) : "");
        case READ: {
            std::string s = x.off < (int64_t)d.size() ? d.substr(x.off, op.a[1]) : "";
            x.off += s.size();
            return *v == "r" + s;
        }
        case WRITE: {
            std::string s = filltext(op.a[2], op.a[1]);
            if (s.size() && d.size() < x.off + s.size()) d.resize(x.off + s.size(), 0);
            d.replace(x.off, s.size(), s);
            x.off += s.size();
            return val(*v) == op.a[1];
        }
        case LSEEK: x.off = op.a[1]; return val(*v) == x.off;
        }
        return true;
    }
};

struct ShareScenario : IoScenario {
    int nf = 2, base = 0;
    static const int LIMIT = 1024;
    std::vector<int> ino;
    std::vector<char*> buf;
    std::map<int, int> used[32];     // inode to the descriptor by which the attempt uses it
    std::set<int> multi;             // files that had several descriptors
    std::set<int> multi_fd;          // descriptors that referred to such a file at some time
    TabModel m0;

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        int nt = r.range(1, 4);
        nf = r.range(2, 12);
        int ni = r.range(1, 5);
        // close to the number of descriptors that picotm supports
        base = r.chance(0.08) ? LIMIT - r.range(1, 8) : 0;
        int lo = base ? base : 3;
        s.prog.cfg = {nf | base << 8};
        for (int i = 0; i < ni; ++i) {
            // file, or descriptor that is duplicated
            s.prog.cfg.push_back(i && r.chance(0.25) ? -1 - (int)r.below(i) : (int)r.below(nf));
        }
        if (r.chance(0.3)) {
            swarm_faults(r, s.par, {F_OOM, F_EINTR, F_SHORT}, 0.05);
            if (r.chance(0.4)) s.par.oom_exact = r.range(1, 120);
        }
        bool d2 = !base && r.chance(0.2), rw = r.chance(0.5);
        int spread = ni + r.range(0, 3);
        for (int t = 0; t < nt; ++t) {
            Thread th;
            int nx = r.range(1, 4);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, 5);
                bool irrev = false;
                for (int i = 0; i < no; ++i) {
                    Op o;
                    static const int w[] = {OPEN, OPEN, OPEN, CLOSE, CLOSE, CLOSE, CLOSE, DUP, DUP, PREAD, PREAD, PREAD, FSTAT, FSTAT, GETFD, SETFD, PIPE, SOCKET, MKSTEMP, LSEEK};
                    static const int w2[] = {READ, READ, WRITE, WRITE, LSEEK};
                    o.code = w[r.below(sizeof w / sizeof *w)];
                    if (rw && r.chance(0.4)) o.code = w2[r.below(5)];
                    if (d2 && !i && r.chance(0.3)) o.code = DUP2;   // not tracked: replaces only what the transaction has not used
                    if (o.code == SETFD || o.code == DUP2) irrev = true;
                    o.a[0] = lo + r.below(spread);
                    o.a[1] = r.below(20);
                    o.a[2] = r.below(SIZE);
                    o.a[4] = t;
                    switch (o.code) {
                    case OPEN: o.a[1] = r.below(nf); break;
                    case DUP: o.a[1] = r.below(3); break;
                    case DUP2: o.a[1] = 3 + r.below(spread + 1); break;
                    case LSEEK: o.a[1] = r.below(SIZE); break;
                    }
                    tx.ops.push_back(o);
                }
                if (r.chance(0.4)) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_IRREVOCABLE};
                    o.code = codes[r.below(4)];
                    if (irrev && o.code == OP_ERR_CODE) o.code = OP_CONFLICT;
                    o.a[0] = r.range(1, 2);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                if (r.chance(0.3)) {
                    Op o;
                    o.code = OP_DELAY;
                    o.a[0] = r.range(1, 400);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                th.txs.push_back(tx);
            }
            s.prog.th.push_back(th);
        }
    }
    std::string op_name(const Op& op) override
    {
        char b[128];
        snprintf(b, sizeof b, "%s(%lld, %lld, %lld)", op.code < NOPS ? names[op.code] : "?", (long long)op.a[0],
                 (long long)op.a[1], (long long)op.a[2]);
        return b;
    }
    std::string path(int i) { return "/f" + std::to_string(i); }
    void setup() override
    {
        auto& c = sp->prog.cfg;
        nf = c[0] & 255;
        base = c[0] >> 8;
        if (base) k_fd_min(base);
        for (int i = 0; i < nf; ++i) {
            m0.file.push_back(filltext(500 + i, SIZE));
            ino.push_back(k_mkfile(path(i), m0.file[i]));
        }
        std::vector<int> f;
        for (size_t i = 1; i < c.size(); ++i) {
            int src = c[i] < 0 ? std::min<int>(-1 - c[i], (int)f.size() - 1) : -1, n, o;
            if (src >= 0) {
                n = k_dup(f[src]);
                o = m0.fd[f[src]].ofd;
            } else {
                int k = c[i] < 0 ? 0 : c[i] % nf;
                n = k_open(path(k), O_RDWR);
                o = m0.fresh();
                m0.ofd[o] = TabModel::Ofd{k, 0};
            }
            m0.fd[n] = TabModel::Fd{o, false};
            f.push_back(n);
            note(n);
        }
        for (size_t i = 0; i < sp->prog.th.size(); ++i) buf.push_back((char*)heap_alloc(128));
    }
    Model* initial() override { return m0.clone(); }
    bool matches_final(Model* m, std::string& why) override
    {
        auto* h = (TabModel*)m;
        char b[200];
        for (int i = 0; i < nf; ++i)
            if (k_content(ino[i]) != h->file[i]) {
                snprintf(b, sizeof b, "the contents of file %d are wrong", i);
                why = b;
                return false;
            }
        std::set<int> all;
        for (int f : k_fds()) all.insert(f);
        for (auto& f : h->fd) all.insert(f.first);
        for (int f : all) {
            bool k = k_is_open(f), m = h->fd.count(f);
            if (k != m) {
                snprintf(b, sizeof b, "descriptor %d is %s instead of %s", f, k ? "open" : "closed", m ? "open" : "closed");
                why = b;
                return false;
            }
            auto& x = h->fd[f];
            auto& o = h->ofd[x.ofd];
            if (o.file < 0) continue;
            if (k_fd_ino(f) != ino[o.file] || k_offset(f) != o.off || k_fd_cloexec(f) != x.cloexec) {
                snprintf(b, sizeof b, "descriptor %d refers to inode %d at offset %lld, close-on-exec %d instead of %d, %lld, %d", f, k_fd_ino(f),
                         (long long)k_offset(f), k_fd_cloexec(f), ino[o.file], (long long)o.off, x.cloexec);
                why = b;
                return false;
            }
        }
        return true;
    }
    void teardown() override { for (int f : k_fds()) k_close(f); }
    void on_begin(TxRun* r) override
    {
        IoScenario::on_begin(r);
        used[r->thread].clear();
    }
    bool legit_error(TxRun* r, int e) override
    {
        auto& ops = sp->prog.th[r->thread].txs[r->tx].ops;
        if (e != EBADF || r->op_index >= (int)ops.size()) return false;
        const Op& op = ops[r->op_index];
        auto& a = r->cur();
        if (!a.res.empty() && a.res.back().op == r->op_index) return true;
        if (base && op.code < NOPS && (op.a[0] >= LIMIT || creates(op) || op.code == DUP)) {
            // too many descriptors
            rec(r, "skip", 4);
            return true;
        }
        if (op.code >= NOPS || creates(op)) return false;
        // picotm does not support the use of a file by several descriptors at the same time
        if (multi_fd.count(op.a[0])) rec(r, "skip", 4);
        else rec(r, "EBADF", 5);
        return true;
    }
    void on_recovery(TxRun* r) override
    {
        IoScenario::on_recovery(r);
        // effects of a failing irrevocable transaction remain
        if (r->cur().irrevocable) end_run("irrevocable transaction failed");
    }
    int new_fd(const char* call, int f)
    {
        if (f < 0 || !k_is_open(f)) fail("wrong-result", "%s() returned %d, which is not open", call, f);
        note(f);
        return f;
    }
    void note(int f)
    {
        int i = k_fd_ino(f), n = 0;
        for (int k : k_fds()) n += k_fd_ino(k) == i;
        if (n > 1) multi.insert(i);
        if (multi.count(i))
            for (int k : k_fds())
                if (k_fd_ino(k) == i) multi_fd.insert(k);
    }
    void exec(TxRun* r, const Op& op) override
    {
        int f = op.a[0], t = r->thread;
        char* b = buf[t];
        if (op.code >= PREAD && op.code <= LSEEK) {
            // a transaction uses a file by one of its descriptors
            fcntl_tx(f, F_GETFD);   // holds the table
            int i = k_fd_ino(f);
            if (i >= 0) {
                auto k = used[t].emplace(i, f);
                if (k.first->second != f || std::find(ino.begin(), ino.end(), i) == ino.end()) return rec(r, "skip", 4);
            }
        }
        switch (op.code) {
        case OPEN: return rec_i(r, new_fd("open", open_tm(path(op.a[1]).c_str(), O_RDWR)));
        case CLOSE: return rec_i(r, close_tx(f));
        case DUP: return rec_i(r, new_fd("dup", op.a[1] == 0 ? dup_tx(f) : fcntl_tx(f, op.a[1] == 1 ? F_DUPFD : F_DUPFD_CLOEXEC, 0)));
        case DUP2: {
            int k = dup2_tx(f, op.a[1]);
            return rec_i(r, new_fd("dup2", k));
        }
        case PIPE: {
            int fd[2] = {-1, -1};
            int k = pipe_tm(fd);
            if (k) fail("wrong-result", "pipe() returned %d", k);
            int64_t v[2] = {new_fd("pipe", fd[0]), new_fd("pipe", fd[1])};
            return rec(r, v, sizeof v);
        }
        case SOCKET: return rec_i(r, new_fd("socket", socket_tx(AF_UNIX, SOCK_STREAM, 0)));
        case MKSTEMP: {
            char n[16] = "/tXXXXXX";
            return rec_i(r, new_fd("mkstemp", mkstemp_tm(n)));
        }
        case PREAD: case READ: {
            ssize_t k = op.code == READ ? read_tx(f, b, op.a[1]) : pread_tx(f, b, op.a[1], op.a[2]);
            if (k < 0 || k > op.a[1]) fail("wrong-result", "%s() returned %zd", names[op.code], k);
            char s[64];
            s[0] = 'r';
            if (k) load_tx(b, s + 1, k);
            return rec(r, s, k + 1);
        }
        case WRITE: {
            ssize_t k;
            store_tx(b, filltext(op.a[2], op.a[1]).data(), op.a[1]);
            k = write_tx(f, b, op.a[1]);
            return rec_i(r, k);
        }
        case LSEEK: return rec_i(r, lseek_tx(f, op.a[1], SEEK_SET));
        case FSTAT: {
            struct stat st;
            int k = fstat_tm(f, &st);
            if (k) fail("wrong-result", "fstat() returned %d", k);
            int n = -1;
            for (int i = 0; i < nf; ++i)
                if (ino[i] == (int)st.st_ino) n = i;
            return rec_i(r, n);
        }
        case GETFD: return rec_i(r, fcntl_tx(f, F_GETFD));
        case SETFD: return rec_i(r, fcntl_tx(f, F_SETFD, (int)(op.a[1] & 1)));
        }
    }
};
Reg r1("fdshare", [](const RunSpec&) -> Scenario* { return new ShareScenario; });
}  // namespace
