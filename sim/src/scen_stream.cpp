// Pipes, FIFOs, character devices and connected sockets: C15, and with failing calls C24
#include "io.h"
using namespace sim;

namespace {
enum { READ, WRITE, RECV, SEND, PEEK, FSTAT, GETFL, BADOP, STRATEGY, CHECK, NOPS };
const char* const names[] = {"read", "write", "recv", "send", "recv(MSG_PEEK)", "fstat", "fcntl(F_GETFL)", "unsupported", "recover from errors", "check"};
enum { PIPE_OUT, PIPE_IN, FIFO_OUT, FIFO_IN, CHR, SOCK, PAIR_A, PAIR_B, NKIND };
const char* const kinds[] = {"pipe-out", "pipe-in", "fifo-out", "fifo-in", "chardev", "socket", "pair-a", "pair-b"};
bool can_write(int k) { return k != PIPE_IN && k != FIFO_IN; }
bool can_read(int k) { return k != PIPE_OUT && k != FIFO_OUT; }
bool is_sock(int k) { return k >= SOCK; }

struct StreamModel : Model {
    struct E {
        int kind, nb;
        int64_t limit;          // length of the input, -1: unlimited
        std::string out;        // output of committed transactions
        int64_t pos = 0;        // input consumed
        const std::vector<std::pair<int64_t, int64_t>>* lost = nullptr;  // consumed by failed irrevocable transactions
        bool skip = false;
    };
    std::vector<E> e;
    bool partial_ok = false;
    Model* clone() const override { return new StreamModel(*this); }
    uint64_t hash() const override
    {
        uint64_t h = 5;
        for (auto& x : e) h = mix(mix(h, std::hash<std::string>()(x.out)), x.pos);
        return h;
    }
    static std::string num(int64_t v) { return std::string((char*)&v, sizeof v); }
    bool apply(const Op& op, const std::string* v) override
    {
        E& x = e[op.a[0]];
        switch (op.code) {
        case WRITE: case SEND: {
            std::string d = filltext(op.a[3], op.a[1]);
            if (v) {
                int64_t k;
                if (v->size() != 8) return false;
                memcpy(&k, v->data(), 8);
                if (k == op.a[1]) {
                } else if (k < op.a[1] && (x.nb || op.a[4] == 3 || partial_ok))
                    d.resize(std::max<int64_t>(k, 0));   // documented: partial result of an irrevocable write
                else
                    return false;
            }
            x.out += d;
            return true;
        }
        case READ: case RECV: case PEEK: {
            if (!v) return true;
            if (x.skip) return true;
            // input may have been consumed by failed transactions in the meantime
            // (which another transaction could only have peeked at)
            int64_t p = x.pos;
            for (;;) {
                int64_t q = p;
                for (auto& l : *x.lost)
                    if (l.first == p) q = std::max(q, l.second);
                if ((q == p || op.code == PEEK) && input(op, x, *v, p)) return true;
                if (q == p) return false;
                p = q;
            }
        }
        }
        return true;
    }
    // input starting at this position
    bool input(const Op& op, E& x, const std::string& v, int64_t p)
    {
        bool nb = x.nb || (op.code != READ && op.a[4] == 3);
        std::string s = v == "-" ? "" : v.substr(1);
        if (x.kind >= PAIR_A) {
            const std::string& src = e[x.kind == PAIR_A ? op.a[0] + 1 : op.a[0] - 1].out;
            std::string w = (size_t)p < src.size() ? src.substr(p, op.a[1]) : "";
            if (op.a[1] && w.empty() != (v == "-")) return false;
            if (partial_ok || (op.code == PEEK && s.empty() == w.empty()) ? w.compare(0, s.size(), s) != 0 : w != s) return false;
        } else {
            for (size_t i = 0; i < s.size(); ++i)
                if (s[i] != fillc(op.a[0] * 17 + 3, p + i)) return false;
            size_t want = op.a[1];
            if (x.limit >= 0 && p + (int64_t)want > x.limit) want = std::max<int64_t>(0, x.limit - p);
            if (s.size() > want) return false;
            if (v == "-" && !(nb && op.a[1])) return false;
            if (s.size() < want && !nb && !partial_ok && !(op.code == PEEK && !s.empty())) return false;
            if (s.empty() && v != "-" && want) return false;
        }
        if (op.code != PEEK && !s.empty()) x.pos = p + s.size();
        return true;
    }
};

struct StreamScenario : IoScenario {
    int variant;
    explicit StreamScenario(int v) : variant(v) {}
    struct E {
        int kind, nb, cap;
        int64_t limit;
        int fd = -1, ino = -1, host = -1;   // host: the other end
        int64_t pushed = 0;
        std::string drained;
        std::vector<std::pair<int64_t, int64_t>> lost_in, lost_out;
        bool skip = false, eof = false;
    };
    std::vector<E> e;
    std::vector<char*> buf;
    size_t bufsz = 0;
    int done_threads = 0;
    std::vector<std::map<int, size_t>> mark;
    std::vector<char> full;     // threads that recover from all errors
    std::vector<std::vector<size_t>> x0;    // number of transfers at the beginning of an attempt

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        int nt = r.range(1, 4), ne = r.range(1, 3);
        std::vector<int64_t> ks;
        for (int i = 0; i < ne; ++i) {
            int k = r.below(PAIR_A + 1);
            ks.push_back(k);
            if (k == PAIR_A) ks.push_back(PAIR_B);
        }
        ne = ks.size();
        s.prog.cfg = {ne, (int64_t)(r.next() >> 8), r.chance(0.3) ? 1000 : r.range(1, 4) * 100000};
        for (int i = 0; i < ne; ++i) {
            int k = ks[i];
            int nb = k >= PAIR_A ? 1 : r.chance(0.3);
            s.prog.cfg.push_back(k);
            s.prog.cfg.push_back(nb);
            s.prog.cfg.push_back(k >= PAIR_A ? 1 << 20 : r.chance(0.6) ? 4096 : r.range(4, 80));     // capacity
            s.prog.cfg.push_back(k == CHR || ((k == PIPE_IN || k == FIFO_IN) && r.chance(0.5)) ? r.range(0, 200) : -1);  // length of input
        }
        bool exits = r.chance(0.05), strategy = r.chance(0.25);
        if (variant == 0) {
            if (r.chance(0.4)) {
                swarm_faults(r, s.par, {F_OOM, F_EINTR, F_SHORT}, 0.05);
                if (r.chance(0.3)) s.par.oom_exact = r.range(1, 80);
            }
        } else {
            swarm_faults(r, s.par, {F_EINTR, F_SHORT, F_ERR, F_ERR, F_OOM}, 0.08);
            if (r.chance(0.1)) swarm_faults(r, s.par, {F_PTHREAD, F_ERR}, 0.1);
        }
        for (int t = 0; t < nt; ++t) {
            Thread th;
            int nx = r.range(1, 4);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, 6);
                bool reads = r.chance(0.35);     // reading makes a transaction irrevocable
                for (int i = 0; i < no; ++i) {
                    Op o;
                    o.a[0] = r.below(ne);
                    int k = ks[o.a[0]];
                    o.a[2] = k;
                    bool rd = can_read(k) && (!can_write(k) || r.chance(0.5)) && reads;
                    if (!rd && !can_write(k)) continue;
                    o.a[1] = r.chance(0.1) ? 0 : r.chance(0.1) ? r.range(80, 600) : r.range(1, 40);
                    if (rd && o.a[1] > 100) o.a[1] %= 100;
                    o.a[3] = r.below(1000) + 1;
                    o.a[4] = r.below(3);
                    if (rd) {
                        o.code = is_sock(k) && r.chance(0.5) ? (r.chance(0.25) ? PEEK : RECV) : READ;
                        if (o.code != READ && r.chance(0.3)) o.a[4] = 3;   // MSG_DONTWAIT
                    } else {
                        o.code = is_sock(k) && r.chance(0.5) ? SEND : WRITE;
                        if (o.code == SEND && r.chance(0.15)) o.a[4] = 3;
                    }
                    switch (r.below(24)) {
                    case 0: o.code = FSTAT; break;
                    case 1: o.code = GETFL; break;
                    case 2: if (r.chance(0.3)) o.code = BADOP, o.a[1] = r.below(6); break;
                    }
                    tx.ops.push_back(o);
                }
                if (r.chance(0.4)) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_IRREVOCABLE};
                    o.code = codes[r.below(4)];
                    o.a[0] = r.range(1, 2);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                if (r.chance(0.15)) {
                    Op o;
                    o.code = OP_DELAY;
                    o.a[0] = r.range(1, 400);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                if (strategy && r.chance(0.5)) {
                    Op o;
                    o.code = STRATEGY;
                    o.a[1] = r.below(2);
                    tx.ops.insert(tx.ops.begin() + (r.chance(0.7) ? 0 : r.below(tx.ops.size() + 1)), o);
                }
                if (exits && r.chance(0.2)) {
                    Op o;
                    o.code = OP_EXIT;
                    o.a[0] = r.below(4);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                Op c;
                c.code = CHECK;
                tx.ops.push_back(c);
                th.txs.push_back(tx);
            }
            s.prog.th.push_back(th);
        }
    }
    std::string op_name(const Op& op) override
    {
        char b[128];
        if (op.code == CHECK) return "check";
        if (op.code == STRATEGY) return op.a[1] ? "recover from all errors" : "recover from errors as usual";
        snprintf(b, sizeof b, "%s(%s %lld, %lld bytes, %lld, %lld)", op.code < NOPS ? names[op.code] : "?",
                 kinds[op.a[2]], (long long)op.a[0], (long long)op.a[1], (long long)op.a[3],
                 (long long)op.a[4]);
        return b;
    }
    void setup() override
    {
        auto& c = sp->prog.cfg;
        int ne = c[0];
        e.resize(ne);
        for (int i = 0; i < ne; ++i) {
            E& x = e[i];
            x.kind = c[3 + 4 * i];
            x.nb = c[4 + 4 * i];
            x.cap = c[5 + 4 * i];
            x.limit = c[6 + 4 * i];
            char p[32];
            snprintf(p, sizeof p, "/s%d", i);
            int fd[2];
            switch (x.kind) {
            case PIPE_OUT: k_pipe(fd); x.fd = fd[1]; x.host = fd[0]; break;
            case PIPE_IN: k_pipe(fd); x.fd = fd[0]; x.host = fd[1]; break;
            case FIFO_OUT: k_mkfifo(p); x.host = k_open(p, O_RDONLY | O_NONBLOCK); x.fd = k_open(p, O_WRONLY); break;
            case FIFO_IN: k_mkfifo(p); x.fd = k_open(p, O_RDONLY | O_NONBLOCK); x.host = k_open(p, O_WRONLY); break;
            case CHR: k_mkchr(p); x.fd = k_open(p, O_RDWR); break;
            case SOCK: k_socketpair(fd); x.fd = fd[0]; x.host = fd[1]; break;
            case PAIR_A: k_socketpair(fd); x.fd = fd[0]; e[i + 1].fd = fd[1]; break;
            }
            x.ino = k_fd_ino(x.fd);
            k_set_fl(x.fd, x.nb ? O_NONBLOCK : 0);
            k_capacity(x.host >= 0 ? k_fd_ino(x.host) : x.ino, x.cap);
        }
        for (int i = 0; i < ne; ++i)
            if (e[i].kind == CHR) push(i, e[i].limit);
        for (auto& t : sp->prog.th)
            for (auto& x : t.txs)
                for (auto& o : x.ops)
                    if (o.code < NOPS) bufsz = std::max(bufsz, (size_t)o.a[1] + 8);
        for (size_t i = 0; i < sp->prog.th.size(); ++i) buf.push_back((char*)heap_alloc(bufsz + 8));
        mark.resize(sp->prog.th.size());
        x0.resize(sp->prog.th.size());
        full.resize(sp->prog.th.size());
        spawn([this] { host(); });
        fds_before = k_fds();
    }
    void push(int i, int64_t n)
    {
        std::string s;
        for (int64_t k = 0; k < n; ++k) s += fillc(i * 17 + 3, e[i].pushed + k);
        e[i].pushed += n;
        k_push(e[i].ino, s);
    }
    // the other ends of the streams
    void host()
    {
        Rng r(sp->prog.cfg[1]);
        static char timer;
        while (done_threads < (int)sp->prog.th.size()) {
            for (size_t i = 0; i < e.size(); ++i) {
                E& x = e[i];
                if (x.host < 0) continue;
                if (can_read(x.kind) && !x.eof && r.chance(0.5)) {
                    int64_t n = r.range(1, 30);
                    if (k_in_transit(x.fd).size() < 64) {
                        if (x.limit >= 0) n = std::min(n, x.limit - x.pushed);
                        if (n) push(i, n);
                        if (x.limit >= 0 && x.pushed == x.limit && r.chance(0.5)) {
                            k_close(x.host);
                            x.eof = true;
                        }
                    }
                }
                if (can_write(x.kind) && r.chance(0.5)) x.drained += k_pull(x.host, r.range(1, 40));
            }
            block_on(&timer, now_ns() + sp->prog.cfg[2] * r.range(1, 10));
        }
    }
    void thread_end(int) override { ++done_threads; }
    void on_begin(TxRun* r) override
    {
        IoScenario::on_begin(r);
        mark[r->thread].clear();
        x0[r->thread].clear();
        for (auto& x : e) x0[r->thread].push_back(k_xfers(x.ino).size());
    }
    // an irrevocable transaction that fails leaves its effects behind
    void on_attempt_end(TxRun* r) override
    {
        auto& a = r->cur();
        if (!a.irrevocable || a.outcome == OUT_COMMITTED) return;
        for (size_t i = 0; i < e.size(); ++i) {
            E& x = e[i];
            auto& xf = k_xfers(x.ino);
            bool any = false;
            for (size_t k = x0[r->thread][i]; k < xf.size(); ++k)
                if (xf[k].fiber == self()) {
                    any = true;
                    (xf[k].input ? x.lost_in : x.lost_out).push_back({xf[k].pos, xf[k].pos + xf[k].len});
                }
            if (!any) continue;
            if (a.outcome == OUT_ABORTED)
                fail("effects-rolled-back", "an irrevocable transaction that has used stream %zu was rolled back", i);
            if (x.kind == PAIR_A) e[i + 1].skip = true;
            if (x.kind == PAIR_B) e[i - 1].skip = true;
            a.res.clear();
        }
    }
    Model* initial() override
    {
        auto* m = new StreamModel;
        for (auto& x : e) {
            StreamModel::E y;
            y.kind = x.kind;
            y.nb = x.nb;
            y.limit = x.limit;
            y.lost = &x.lost_in;
            y.skip = x.skip;
            m->e.push_back(y);
        }
        m->partial_ok = result().fired[F_ERR] != 0;
        return m;
    }
    bool matches_final(Model* m, std::string& why) override
    {
        auto* h = (StreamModel*)m;
        for (size_t i = 0; i < e.size(); ++i) {
            E& x = e[i];
            std::string t = k_total(x.ino), w = h->e[i].out;
            std::sort(x.lost_out.begin(), x.lost_out.end());   // recorded when a thread gets to it, not in order
            for (auto it = x.lost_out.rbegin(); it != x.lost_out.rend(); ++it) t.erase(it->first, it->second - it->first);
            char b[256];
            if (t != w) {
                size_t d = 0;
                while (d < t.size() && d < w.size() && t[d] == w[d]) ++d;
                snprintf(b, sizeof b, "%zu bytes were written to stream %zu (%s) instead of %zu, different from byte %zu on",
                         t.size(), i, kinds[x.kind], w.size(), d);
                why = b;
                return false;
            }
            int64_t c = k_consumed(x.ino).size(), p = h->e[i].pos;
            for (auto& l : x.lost_in) c -= l.second - l.first;
            for (auto& l : x.lost_in)
                if (l.first < h->e[i].pos && l.second > l.first) p -= l.second - l.first;
            if (!x.skip && c != p) {
                snprintf(b, sizeof b, "%lld bytes of input of stream %zu (%s) were consumed instead of %lld", (long long)c, i,
                         kinds[x.kind], (long long)p);
                why = b;
                return false;
            }
        }
        return true;
    }
    bool matches_exit(Model* m, std::string& why) override { return matches_final(m, why); }
    void final_checks() override
    {
        for (auto& x : e)
            if (!k_is_open(x.fd)) fail("closed", "descriptor %d was closed", x.fd);
        size_t n = 0;
        for (auto& x : e) n += 1 + (x.host >= 0 && !x.eof);
        if (k_fds().size() != n) fail("fd-leak", "%zu descriptors are open instead of %zu", k_fds().size(), n);
    }
    void teardown() override
    {
        for (auto& x : e) {
            k_close(x.fd);
            if (x.host >= 0 && !x.eof) k_close(x.host);
        }
    }
    bool legit_error(TxRun* r, int er) override
    {
        auto& ops = sp->prog.th[r->thread].txs[r->tx].ops;
        if (r->op_index >= (int)ops.size()) return false;
        if (full[r->thread] && er == EAGAIN) {
            const Op& op = ops[r->op_index];
            bool recv = op.code == RECV || op.code == PEEK || op.code == SEND;
            return (recv && op.a[4] == 3) || ((recv || op.code == READ || op.code == WRITE) && e[op.a[0]].nb);
        }
        if (ops[r->op_index].code != BADOP) return false;
        const Op& op = ops[r->op_index];
        static const int want[] = {ESPIPE, ESPIPE, ESPIPE, EINVAL, ENOTSOCK, EINVAL};
        if (op.a[1] == 4 && is_sock(e[op.a[0]].kind)) return er == EINVAL;
        return er == want[op.a[1]];
    }
    void exec(TxRun* r, const Op& op) override
    {
        char* b = buf[r->thread];
        auto& mk = mark[r->thread];
        for (auto& m : mk)
            if (k_total(e[m.first].ino).size() != m.second)
                fail("early-output", "output to stream %d (%s) left before the transaction committed", m.first, kinds[e[m.first].kind]);
        if (op.code == CHECK) return;
        if (op.code == STRATEGY) {
            auto want = op.a[1] ? PICOTM_LIBC_ERROR_RECOVERY_FULL : PICOTM_LIBC_ERROR_RECOVERY_AUTO;
            picotm_libc_set_error_recovery(want);
            if (picotm_libc_get_error_recovery() != want) fail("wrong-result", "strategy for errors is not the selected one");
            full[r->thread] = op.a[1];
            return;
        }
        E& x = e[op.a[0]];
        int f = x.fd;
        size_t n = op.a[1];
        switch (op.code) {
        case READ: case RECV: case PEEK: {
            static const int fl[] = {0, 0, 0, MSG_DONTWAIT};
            int flags = fl[op.a[4]] | (op.code == PEEK ? MSG_PEEK : 0);
            char* p = b + op.a[4];
            ssize_t k;
            if (op.a[4] == 2) {
                privatize_tx(p, n + 1, PICOTM_TM_PRIVATIZE_STORE);
                k = op.code == READ ? read_tm(f, p, n) : recv_tm(f, p, n, flags);
            } else
                k = op.code == READ ? read_tx(f, p, n) : recv_tx(f, p, n, flags);
            if (!picotm_is_irrevocable()) fail("not-irrevocable", "%s() from a stream cannot be rolled back", names[op.code]);
            if (k < 0) {
                if (full[r->thread]) fail("no-recovery", "%s() returned %zd although the thread recovers from all errors", names[op.code], k);
                if (fiber_errno() != EAGAIN) fail("wrong-result", "%s() returned %zd with errno %d", names[op.code], k, fiber_errno());
                return rec(r, "-", 1);
            }
            if (k > (ssize_t)n) fail("wrong-result", "%s() returned %zd for %zu bytes", names[op.code], k, n);
            std::string s(k, 0);
            if (k) load_tx(p, &s[0], k);
            s = "r" + s;
            return rec(r, s.data(), s.size());
        }
        case WRITE: case SEND: {
            std::string s = filltext(op.a[3], n);
            int flags = op.a[4] == 3 ? MSG_DONTWAIT : 0;
            ssize_t k;
            if (op.a[4] == 2)
                k = op.code == WRITE ? write_tm(f, s.data(), n) : send_tm(f, s.data(), n, flags);
            else {
                if (n) store_tx(b + op.a[4], s.data(), n);
                k = op.code == WRITE ? write_tx(f, b + op.a[4], n) : send_tx(f, b + op.a[4], n, flags);
            }
            if (k < 0 && full[r->thread]) fail("no-recovery", "%s() returned %zd although the thread recovers from all errors", names[op.code], k);
            if (k < 0 && fiber_errno() != EAGAIN) fail("wrong-result", "%s() returned %zd with errno %d", names[op.code], k, fiber_errno());
            if (!picotm_is_irrevocable()) {
                if (k != (ssize_t)n) fail("wrong-result", "%s() of %zu bytes returned %zd", names[op.code], n, k);
                mk[op.a[0]] = k_total(x.ino).size();
            }
            return rec_i(r, k);
        }
        case FSTAT: {
            struct stat st;
            int k = fstat_tm(f, &st);
            if (k || (int)st.st_ino != x.ino) fail("wrong-result", "fstat() returned %d", k);
            return;
        }
        case GETFL: {
            int k = fcntl_tx(f, F_GETFL);
            if (!!(k & O_NONBLOCK) != x.nb) fail("wrong-result", "fcntl(F_GETFL) returned %x", k);
            return;
        }
        case BADOP: {
            int64_t k;
            switch (op.a[1]) {
            case 0: k = lseek_tx(f, 1, SEEK_SET); break;
            case 1: k = pread_tm(f, b, 1, 0); break;
            case 2: k = pwrite_tm(f, "x", 1, 0); break;
            case 3: k = fsync_tx(f); break;
            case 4: k = is_sock(x.kind) ? fchmod_tx(f, 0600) : send_tm(f, "x", 1, 0); break;
            default: k = fchmod_tx(f, 0600);
            }
            fail("wrong-result", "unsupported operation %lld on stream %lld (%s) succeeds with result %lld", (long long)op.a[1],
                 (long long)op.a[0], kinds[x.kind], (long long)k);
        }
        }
    }
};
Reg r1("stream", [](const RunSpec&) -> Scenario* { return new StreamScenario(0); });
Reg r2("stream_faults", [](const RunSpec&) -> Scenario* { return new StreamScenario(1); });
}  // namespace
