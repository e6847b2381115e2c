// Regular files: C13, and with failing calls C24
#include "io.h"
using namespace sim;

namespace {
enum { READ, WRITE, PREAD, PWRITE, LSEEK, FSTAT, FSYNC, GETFL, FCHMOD, NOPS };
const char* const names[] = {"read", "write", "pread", "pwrite", "lseek", "fstat", "fsync", "fcntl(F_GETFL)", "fchmod"};

const int64_t BIG = (int64_t)1 << 62;

struct FileModel : Model {
    struct F {
        std::string data;
        int64_t off;
        int mode;
        bool append;
        int64_t pad = 0;   // of a file with a far part: the bytes kept before its start
    };
    std::vector<F> f;
    bool partial_ok = false;   // calls fail: reads may be short
    Model* clone() const override { return new FileModel(*this); }
    uint64_t hash() const override
    {
        uint64_t h = 3;
        for (auto& x : f) h = mix(mix(mix(h, std::hash<std::string>()(x.data)), x.off), x.mode);
        return h;
    }
    bool is(const std::string* v, const std::string& s) { return !v || *v == s; }
    static std::string num(int64_t v) { return std::string((char*)&v, sizeof v); }
    std::string read(const F& x, int64_t o, size_t n)
    {
        if ((size_t)o >= x.data.size()) return "";
        return x.data.substr(o, n);
    }
    void write(F& x, int64_t o, const std::string& d)
    {
        if (d.empty()) return;
        if (x.data.size() < o + d.size()) x.data.resize(o + d.size(), 0);
        x.data.replace(o, d.size(), d);
    }
    bool apply(const Op& op, const std::string* v) override
    {
        F& x = f[op.a[0]];
        if ((op.code == PREAD || op.code == PWRITE || (op.code == LSEEK && op.a[3] == SEEK_SET)) && op.a[2] < 0) return is(v, "EINVAL");
        if (op.code == LSEEK && op.a[2] < -BIG) return is(v, "EINVAL");
        if (op.code == LSEEK && op.a[2] > BIG) return is(v, "EOVERFLOW");
        switch (op.code) {
        case READ: case PREAD: {
            std::string s = read(x, op.code == READ ? x.off : op.a[2] + x.pad, op.a[1]);
            if (v && *v != "r" + s) {
                if (!partial_ok || v->size() < 2 || ("r" + s).compare(0, v->size(), *v)) return false;
                s = v->substr(1);
            }
            if (op.code == READ) x.off += s.size();
            return true;
        }
        case WRITE: {
            if (x.append && op.a[1]) x.off = x.data.size();
            write(x, x.off, filltext(op.a[3], op.a[1]));
            x.off += op.a[1];
            return is(v, num(op.a[1]));
        }
        case PWRITE: {
            int64_t o = x.append ? (int64_t)x.data.size() : op.a[2] + x.pad;  // as documented for Linux
            write(x, o, filltext(op.a[3], op.a[1]));
            return is(v, num(op.a[1]));
        }
        case LSEEK: {
            int64_t b = op.a[3] == SEEK_SET ? x.pad : op.a[3] == SEEK_CUR ? x.off : (int64_t)x.data.size();
            if (b + op.a[2] < 0) return is(v, "EINVAL");
            x.off = b + op.a[2];
            return is(v, num(x.off));
        }
        case FSTAT: return is(v, num(x.data.size() * 10000 + x.mode));
        case FCHMOD: x.mode = op.a[1]; return is(v, num(0));
        case FSYNC: return is(v, num(0));
        }
        return true;
    }
};

struct FileScenario : IoScenario {
    int variant;
    explicit FileScenario(int v) : variant(v) {}
    std::vector<int> fd, ino;
    std::vector<int64_t> far;   // where the contents of a file start
    enum { PAD = 4096 };        // so that relative seeks stay within
    int64_t shift(int i) { return far[i] ? far[i] - PAD : 0; }
    int64_t far_of(int i)
    {
        size_t k = 1 + 3 * sp->prog.cfg[0] + i;
        return k < sp->prog.cfg.size() ? sp->prog.cfg[k] : 0;
    }
    std::string content(int i) { return std::string(far_of(i) ? PAD : 0, 0) + filltext(500 + i, sp->prog.cfg[1 + 3 * i]); }
    std::vector<char*> buf;
    int nf = 1;
    size_t bufsz = 0;

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        int nt = r.range(1, 4);
        nf = r.range(1, 3);
        s.prog.cfg = {nf};
        bool big = r.chance(0.12);
        bool app = r.chance(0.2);
        bool exits = r.chance(0.05);
        for (int i = 0; i < nf; ++i) {
            s.prog.cfg.push_back(r.chance(0.2) ? 0 : big ? r.range(16370, 16400) : r.range(0, 100));  // size
            s.prog.cfg.push_back(r.chance(0.6) ? 0 : r.below(100));                                // offset
            s.prog.cfg.push_back(app && r.chance(0.5) ? O_APPEND : 0);
        }
        bool fars = r.chance(0.25);
        for (int i = 0; i < nf; ++i) {   // contents at large offsets
            int64_t b = 0;
            if (fars && r.chance(0.7)) {
                static const int sh[] = {14, 19, 20, 23, 24, 29, 30, 31, 31, 32, 32, 33, 36, 40, 45, 52, 61};
                b = (int64_t)1 << sh[r.below(sizeof sh / sizeof *sh)];
                if (r.chance(0.3)) b += 16384 * (int64_t)r.below(1 << r.range(1, 20));
                if (r.chance(0.3)) b -= r.below(100);
            }
            s.prog.cfg.push_back(b);
        }
        if (variant == 0) {
            if (r.chance(0.4)) {
                swarm_faults(r, s.par, {F_OOM, F_EINTR, F_SHORT}, 0.05);
                if (r.chance(0.3)) s.par.oom_exact = r.range(1, 80);
            }
        } else {
            swarm_faults(r, s.par, {F_EINTR, F_SHORT, F_ERR, F_ERR, F_OOM}, 0.08);
            if (r.chance(0.1)) swarm_faults(r, s.par, {F_PTHREAD, F_ERR}, 0.1);
        }
        for (int t = 0; t < nt; ++t) {
            Thread th;
            int nx = r.range(1, 4);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, 6);
                for (int i = 0; i < no; ++i) {
                    Op o;
                    static const int w[] = {READ, READ, READ, WRITE, WRITE, WRITE, PREAD, PREAD, PWRITE, PWRITE, LSEEK, LSEEK, LSEEK, FSTAT, FSTAT, FSYNC, GETFL, FCHMOD};
                    o.code = w[r.below(sizeof w / sizeof *w)];
                    o.a[0] = r.below(nf);
                    // Linux ignores the offset of pwrite() in append mode
                    if (o.code == PWRITE && s.prog.cfg[3 + 3 * o.a[0]]) o.code = WRITE;
                    switch (r.below(4)) {
                    case 0: o.a[1] = r.range(0, 5); break;
                    case 1: o.a[1] = r.range(28, 36); break;
                    default: o.a[1] = r.range(1, 80);
                    }
                    auto off = [&]() -> int64_t {
                        if (big && r.chance(0.5)) return r.range(16340, 16420);
                        switch (r.below(4)) {
                        case 0: return r.range(30, 34);
                        case 1: return r.range(60, 66);
                        default: return r.below(120);
                        }
                    };
                    o.a[2] = off();
                    o.a[3] = r.below(1000) + 1;
                    o.a[4] = r.below(3);
                    if (o.code == LSEEK) {
                        static const int wh[] = {SEEK_SET, SEEK_SET, SEEK_CUR, SEEK_CUR, SEEK_END};
                        o.a[3] = wh[r.below(5)];
                        if (o.a[3] != SEEK_SET) o.a[2] = r.chance(0.2) ? 0 : r.range(-40, 40);
                    }
                    if (r.chance(0.04)) {   // positions that don't exist
                        int64_t b = s.prog.cfg[1 + 3 * nf + o.a[0]];
                        if (o.code == PREAD || o.code == PWRITE || (o.code == LSEEK && o.a[3] == SEEK_SET)) {
                            o.a[2] = -r.range(1, 100);
                            if (o.code != LSEEK) o.a[1] = std::max<int64_t>(o.a[1], 1);
                        } else if (o.code == LSEEK)
                            o.a[2] = b && r.chance(0.7) ? INT64_MAX - r.below(100) : INT64_MIN + r.below(100);
                    }
                    if (o.code == FCHMOD) o.a[1] = 0400 + r.below(0377);
                    tx.ops.push_back(o);
                }
                if (r.chance(0.4)) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_IRREVOCABLE};
                    o.code = codes[r.below(4)];
                    o.a[0] = r.range(1, 2);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                if (exits && r.chance(0.2)) {
                    Op o;
                    o.code = OP_EXIT;
                    o.a[0] = r.below(4);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                if (r.chance(0.15)) {
                    Op o;
                    o.code = OP_DELAY;
                    o.a[0] = r.range(1, 400);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                th.txs.push_back(tx);
            }
            s.prog.th.push_back(th);
        }
    }
    std::string op_name(const Op& op) override
    {
        char b[128];
        snprintf(b, sizeof b, "%s(file %lld, %lld, %lld, %lld, %lld)", op.code < NOPS ? names[op.code] : "?", (long long)op.a[0],
                 (long long)op.a[1], (long long)op.a[2], (long long)op.a[3], (long long)op.a[4]);
        return b;
    }
    void setup() override
    {
        auto& c = sp->prog.cfg;
        nf = c[0];
        for (int i = 0; i < nf; ++i) {
            char p[32];
            snprintf(p, sizeof p, "/f%d", i);
            far.push_back(far_of(i));
            ino.push_back(k_mkfile(p, content(i)));
            k_base(ino.back(), shift(i));
            fd.push_back(k_open(p, O_RDWR | (int)c[3 + 3 * i]));
            k_seek(fd.back(), far[i] + c[2 + 3 * i]);
        }
        for (auto& t : sp->prog.th)
            for (auto& x : t.txs)
                for (auto& o : x.ops)
                    if (o.code < NOPS) bufsz = std::max(bufsz, (size_t)o.a[1] + 8);
        for (size_t i = 0; i < sp->prog.th.size(); ++i) buf.push_back((char*)heap_alloc(bufsz + 8));
        fds_before = k_fds();
    }
    Model* initial() override
    {
        auto* m = new FileModel;
        auto& c = sp->prog.cfg;
        for (int i = 0; i < nf; ++i)
            m->f.push_back({content(i), c[2 + 3 * i] + (far[i] ? PAD : 0), 0644, (c[3 + 3 * i] & O_APPEND) != 0, far[i] ? PAD : 0});
        m->partial_ok = result().fired[F_ERR] != 0;
        return m;
    }
    bool matches_final(Model* m, std::string& why) override
    {
        auto* h = (FileModel*)m;
        for (int i = 0; i < nf; ++i) {
            std::string k = k_content(ino[i]);
            auto& x = h->f[i];
            char b[256];
            if (k != x.data) {
                size_t d = 0;
                while (d < k.size() && d < x.data.size() && k[d] == x.data[d]) ++d;
                snprintf(b, sizeof b, "file %d has %zu bytes instead of %zu and differs from byte %zu on", i, k.size(),
                         x.data.size(), d);
                why = b;
                return false;
            }
            if (k_offset(fd[i]) - shift(i) != x.off) {
                snprintf(b, sizeof b, "file %d has offset %lld instead of %lld", i, (long long)k_offset(fd[i]), (long long)(x.off + shift(i)));
                why = b;
                return false;
            }
            if (!exited && k_perm(ino[i]) != x.mode) {
                snprintf(b, sizeof b, "file %d has mode 0%o instead of 0%o", i, k_perm(ino[i]), x.mode);
                why = b;
                return false;
            }
        }
        return true;
    }
    bool matches_exit(Model* m, std::string& why) override { return matches_final(m, why); }   // modes change at once, and are restored on roll-back
    void final_checks() override
    {
        if (k_fds() != fds_before) fail("fd-leak", "the set of open file descriptors has changed");
    }
    void teardown() override { for (int f : fd) k_close(f); }
    bool legit_error(TxRun* r, int e) override
    {
        if (r->op_index >= (int)sp->prog.th[r->thread].txs[r->tx].ops.size()) return false;
        const Op& op = sp->prog.th[r->thread].txs[r->tx].ops[r->op_index];
        bool seek = op.code == LSEEK, over = seek && op.a[2] > BIG;
        if (!seek && op.code != PREAD && op.code != PWRITE) return false;
        if (e != (over ? EOVERFLOW : EINVAL) || (op.a[2] >= 0 && !over)) return false;
        auto& a = r->cur();
        if (a.res.empty() || a.res.back().op != r->op_index) rec(r, over ? "EOVERFLOW" : "EINVAL", over ? 9 : 6);
        return true;
    }
    void exec(TxRun* r, const Op& op) override
    {
        int f = fd[op.a[0]];
        char* b = buf[r->thread];
        size_t n = op.a[1];
        int64_t pos = op.a[2] < 0 ? op.a[2] : far[op.a[0]] + op.a[2];
        switch (op.code) {
        case READ: case PREAD: {
            ssize_t k;
            char* p = b + (op.a[4] & 1) * 3;
            if (op.a[4] == 2) {   // memory of the transaction
                p = b;
                privatize_tx(p, n + 1, PICOTM_TM_PRIVATIZE_STORE);
                k = op.code == READ ? read_tm(f, p, n) : pread_tm(f, p, n, pos);
            } else
                k = op.code == READ ? read_tx(f, p, n) : pread_tx(f, p, n, pos);
            if (k < 0 || k > (ssize_t)n) fail("wrong-result", "%s() returned %zd for %zu bytes", names[op.code], k, n);
            std::string s(k, 0);
            if (k) load_tx(p, &s[0], k);
            s = "r" + s;
            rec(r, s.data(), s.size());
            return;
        }
        case WRITE: case PWRITE: {
            std::string s = filltext(op.a[3], n);
            ssize_t k;
            if (op.a[4] == 2)
                k = op.code == WRITE ? write_tm(f, s.data(), n) : pwrite_tm(f, s.data(), n, pos);
            else {
                if (n) store_tx(b + op.a[4], s.data(), n);
                k = op.code == WRITE ? write_tx(f, b + op.a[4], n) : pwrite_tx(f, b + op.a[4], n, pos);
            }
            rec_i(r, k);
            return;
        }
        case LSEEK: rec_i(r, lseek_tx(f, op.a[3] == SEEK_SET ? pos : op.a[2], (int)op.a[3]) - shift(op.a[0])); return;
        case FSTAT: {
            struct stat st;
            int k = fstat_tm(f, &st);
            if (k) fail("wrong-result", "fstat() returned %d", k);
            rec_i(r, (st.st_size - shift(op.a[0])) * 10000 + (st.st_mode & 07777));
            return;
        }
        case FSYNC: rec_i(r, fsync_tx(f)); return;
        case FCHMOD: rec_i(r, fchmod_tx(f, op.a[1])); return;
        case GETFL: {
            int k = fcntl_tx(f, F_GETFL);
            if ((k & O_ACCMODE) != O_RDWR) fail("wrong-result", "fcntl(F_GETFL) returned %x", k);
            return;
        }
        }
    }
};
Reg r1("file", [](const RunSpec&) -> Scenario* { return new FileScenario(0); });
Reg r2("file_faults", [](const RunSpec&) -> Scenario* { return new FileScenario(1); });
}  // namespace
