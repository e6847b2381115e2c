// Connections: accept, connect, bind, listen and shutdown (C14, C15; with failing calls C24)
#include "io.h"
#include <deque>
using namespace sim;

namespace {
enum { SOCK, BIND, LISTEN, ACCEPT, CONNECT, SHUTDOWN, SEND, RECV, CLOSE, BAD, NOPS };
const char* const names[] = {"socket", "bind", "listen", "accept", "connect", "shutdown", "send", "recv", "close", "misuse"};
enum { KEMPTY, KNEW, KBOUND, KLISTEN, KCONN };
const int NSLOT = 3;

struct Slot {
    int kind = KEMPTY, fd = -1, ino = -1, peer = -1;   // peer: inode of the other side, which the host keeps open
    std::string addr, sent;
    int64_t pos = 0;              // input received
    int wshut = 0, rshut = 0;
    bool taint = false;           // changed by an irrevocable transaction that failed
    bool touched = false;         // changed by this attempt
};
struct NullModel : Model {
    Model* clone() const override { return new NullModel; }
    uint64_t hash() const override { return 1; }
    bool apply(const Op&, const std::string*) override { return true; }
};

struct ConnScenario : IoScenario {
    int variant;
    explicit ConnScenario(int v) : variant(v) {}
    struct Thr {
        Slot s[NSLOT];
        int free_slot()
        {
            for (int i = 0; i < NSLOT; ++i)
                if (s[i].kind == KEMPTY) return i;
            return -1;
        }
    };
    struct HC {                   // connection, the host's side
        int fd, ino;
        std::string addr, in;
        int64_t pushed = 0;
        int owner = -1;           // thread that has committed its use
    };
    struct End { int kind, ino, peer; std::string sent; bool taint, touched; };
    std::vector<Thr> com, cur;            // committed; of the attempt
    std::vector<std::vector<End>> gone;   // connections that a committed transaction has closed
    std::vector<std::vector<End>> going;
    std::deque<HC> hc;
    std::vector<int> lfd, lnb;    // listening descriptors of the program
    std::vector<int> hfd;         // listening descriptors of the host
    int regfd = -1, seq = 0, done_threads = 0;
    std::set<int> accepted;       // host connections that committed transactions have accepted
    std::vector<std::vector<int>> accepting;
    std::vector<char*> buf;

    static std::string haddr(int i) { return std::string("\1\0host", 6) + (char)('0' + i); }
    static std::string laddr(int i) { return std::string("\1\0app", 5) + (char)('0' + i); }

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        int nt = r.range(1, 4), nl = r.range(1, 2);
        s.prog.cfg = {nl, (int64_t)(r.next() >> 8), r.chance(0.3) ? 1000 : r.range(1, 4) * 100000, (int64_t)r.below(4)};
        if (variant == 0) {
            if (r.chance(0.5)) {
                swarm_faults(r, s.par, {F_OOM, F_EINTR, F_SHORT}, 0.05);
                if (r.chance(0.4)) s.par.oom_exact = r.range(1, 120);
            }
        } else {
            swarm_faults(r, s.par, {F_EINTR, F_SHORT, F_ERR, F_ERR, F_OOM}, 0.06);
            if (r.chance(0.1)) swarm_faults(r, s.par, {F_PTHREAD, F_ERR}, 0.1);
        }
        for (int t = 0; t < nt; ++t) {
            Thread th;
            int nx = r.range(1, 5);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, 6);
                for (int i = 0; i < no; ++i) {
                    static const int w[] = {SOCK, SOCK, BIND, LISTEN, ACCEPT, ACCEPT, ACCEPT, CONNECT, CONNECT, SHUTDOWN, SEND, SEND, SEND, RECV, RECV, CLOSE, CLOSE, BAD};
                    Op o;
                    o.code = w[r.below(sizeof w / sizeof *w)];
                    if (o.code == BAD && !r.chance(0.2)) o.code = ACCEPT;
                    o.a[0] = r.below(NSLOT);
                    switch (o.code) {
                    case SOCK: o.a[1] = r.chance(0.2) ? SOCK_NONBLOCK : 0; o.a[2] = r.chance(0.2); break;
                    case LISTEN: o.a[1] = r.range(1, 4); break;
                    case ACCEPT:
                        o.a[1] = r.below(nl + 1);      // nl: the listening socket in the slot
                        o.a[2] = r.chance(0.3) ? -1 : r.chance(0.7) ? r.range(2, 20) : r.range(0, 2);  // room for the address
                        o.a[3] = r.below(3);
                        break;
                    case SHUTDOWN: o.a[1] = r.below(3); break;
                    case SEND: case RECV: o.a[1] = r.range(1, 40); o.a[2] = r.below(1000); o.a[3] = r.below(2); break;
                    case BAD: o.a[1] = r.below(7); break;
                    }
                    tx.ops.push_back(o);
                    // typical sequences
                    if (o.code == SOCK && r.chance(0.6)) {
                        Op p;
                        p.code = r.chance(0.6) ? CONNECT : BIND;
                        p.a[0] = -1;   // the slot that was used last
                        tx.ops.push_back(p);
                        if (p.code == BIND && r.chance(0.7)) {
                            p.code = LISTEN;
                            p.a[1] = r.range(1, 4);
                            tx.ops.push_back(p);
                        }
                    }
                }
                if (r.chance(0.45)) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_ERR_CODE, OP_IRREVOCABLE};
                    o.code = codes[r.below(5)];
                    o.a[0] = r.range(1, 2);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                th.txs.push_back(tx);
            }
            s.prog.th.push_back(th);
        }
    }
    std::string op_name(const Op& op) override
    {
        char b[128];
        snprintf(b, sizeof b, "%s(%lld, %lld, %lld, %lld)", op.code < NOPS ? names[op.code] : "?", (long long)op.a[0],
                 (long long)op.a[1], (long long)op.a[2], (long long)op.a[3]);
        return b;
    }
    void setup() override
    {
        auto& c = sp->prog.cfg;
        k_mkfile("/x", "x");
        regfd = k_open("/x", O_RDWR);
        for (int i = 0; i < c[0]; ++i) {
            lfd.push_back(k_listen(laddr(i), 3));
            lnb.push_back(c[3] >> i & 1);
            k_set_fl(lfd[i], lnb[i] ? O_NONBLOCK : 0);
        }
        hfd.push_back(k_listen(haddr(0), 2));
        size_t nt = sp->prog.th.size();
        com.resize(nt);
        cur.resize(nt);
        gone.resize(nt);
        going.resize(nt);
        accepting.resize(nt);
        last.resize(nt);
        for (size_t i = 0; i < nt; ++i) buf.push_back((char*)heap_alloc(128));
        spawn([this] { host(); });
    }
    void host_accept()
    {
        for (int l : hfd) {
            int f = k_accept(l);
            if (f < 0) continue;
            HC h;
            h.fd = f;
            h.ino = k_fd_ino(f);
            hc.push_back(h);
        }
    }
    // the peers of the program
    void host()
    {
        Rng r(sp->prog.cfg[1]);
        static char timer;
        while (done_threads < (int)sp->prog.th.size()) {
            int n = 0;
            for (auto& h : hc) n += !h.addr.empty();
            auto ls = k_listeners();
            for (int l : ls) {
                bool own = false;
                for (int f : hfd) own |= k_fd_ino(f) == l;
                if (own || n > (k_backlog(l) ? 24 : 90) || !r.chance(0.5)) continue;
                HC h;
                // family, then a unique name
                h.addr = std::string("\1\0", 2) + "c" + std::to_string(seq);
                h.addr += std::string(r.below(8), 'x');
                h.fd = k_connect(l, h.addr);
                if (h.fd < 0) continue;
                ++seq;
                h.ino = k_fd_ino(h.fd);
                hc.push_back(h);
            }
            if (r.chance(0.7)) host_accept();
            for (auto& h : hc) {
                if (r.chance(0.5)) h.in += k_pull(h.fd, r.range(1, 40));
                int p = k_peer(h.ino);
                if (p >= 0 && r.chance(0.5) && h.pushed < 300) {
                    std::string s;
                    int64_t k = r.range(1, 30);
                    for (int64_t i = 0; i < k; ++i) s += fillc(h.ino * 31 + 5, h.pushed + i);
                    h.pushed += k;
                    k_push(p, s);
                }
            }
            block_on(&timer, now_ns() + sp->prog.cfg[2] * r.range(1, 10));
        }
    }
    void thread_end(int) override { ++done_threads; }
    Model* initial() override { return new NullModel; }
    HC* conn(int ino)
    {
        for (auto& h : hc)
            if (h.ino == ino) return &h;
        return nullptr;
    }
    std::vector<int> last;
    void on_begin(TxRun* r) override
    {
        IoScenario::on_begin(r);
        int t = r->thread;
        cur[t] = com[t];
        going[t].clear();
        accepting[t].clear();
        last[t] = 0;
    }
    void on_committed(TxRun* r) override
    {
        int t = r->thread;
        for (auto& s : cur[t].s) s.touched = false;
        com[t] = cur[t];
        gone[t].insert(gone[t].end(), going[t].begin(), going[t].end());
        for (int a : accepting[t])
            if (!accepted.insert(a).second) fail("accepted-twice", "two transactions have accepted the same connection");
    }
    void on_attempt_end(TxRun* r) override
    {
        auto& a = r->cur();
        int t = r->thread;
        if (a.outcome == OUT_COMMITTED) return;
        if (!a.irrevocable) return;
        bool any = false;
        for (int i = 0; i < NSLOT; ++i)
            if (cur[t].s[i].touched) {
                any = true;
                for (auto& c : com[t].s)
                    if (c.kind != KEMPTY && c.ino == cur[t].s[i].ino && c.fd == cur[t].s[i].fd) c.taint = true;
            }
        for (auto& g : going[t])
            if (g.touched) {
                any = true;
                for (auto& c : com[t].s)
                    if (c.kind != KEMPTY && c.ino == g.ino) c.taint = true;
            }
        if (any && a.outcome == OUT_ABORTED) fail("effects-rolled-back", "an irrevocable transaction was rolled back");
    }
    // only connections that cannot be had at the moment
    bool expected_error(TxRun* r) override
    {
        auto& ops = sp->prog.th[r->thread].txs[r->tx].ops;
        if (picotm_error_status() != PICOTM_ERRNO || r->op_index >= (int)ops.size()) return false;
        int e = picotm_error_as_errno();
        const Op& op = ops[r->op_index];
        if (legit_error(r, e)) return true;
        const KErr* c = cause(e);
        return c && e == EAGAIN && (op.code == ACCEPT || op.code == CONNECT);
    }
    bool legit_error(TxRun* r, int e) override
    {
        auto& ops = sp->prog.th[r->thread].txs[r->tx].ops;
        if (r->op_index >= (int)ops.size() || ops[r->op_index].code != BAD) return false;
        static const int want[] = {ENOTSOCK, ENOTSOCK, ENOTSOCK, EBADF, EINVAL, ENOTCONN, EINVAL};
        return e == want[ops[r->op_index].a[1]];
    }
    void irrevocable(const char* c)
    {
        if (!picotm_is_irrevocable()) fail("not-irrevocable", "%s() cannot be rolled back", c);
    }
    void new_fd(const char* c, int t, int fd)
    {
        if (fd < 0 || !k_is_open(fd)) fail("wrong-result", "%s() returned %d, which is not open", c, fd);
        for (auto& s : cur[t].s)
            if (s.kind != KEMPTY && s.fd == fd) fail("descriptor-reused", "%s() returned descriptor %d, which is in use", c, fd);
    }
    void exec(TxRun* r, const Op& op) override
    {
        int t = r->thread;
        Thr& w = cur[t];
        char* b = buf[t];
        Slot& x = w.s[op.a[0] < 0 ? last[t] : op.a[0]];
        for (auto& s : w.s)
            if (s.kind != KEMPTY && !k_is_open(s.fd)) fail("closed", "descriptor %d was closed by someone else", s.fd);
        int fs = w.free_slot();
        switch (op.code) {
        case SOCK: {
            if (fs < 0) return;
            int f = socket_tx(AF_UNIX, SOCK_STREAM | (int)op.a[1], 0);
            new_fd("socket", t, f);
            Slot& y = w.s[fs];
            y = Slot();
            y.kind = KNEW;
            y.fd = f;
            y.ino = k_fd_ino(f);
            last[t] = fs;
            return;
        }
        case BIND: {
            if (x.kind != KNEW || x.taint) return;
            std::string a = std::string("\1\0", 2) + "b" + std::to_string(t) + "." + std::to_string(r->tx) + "." + std::to_string(r->op_index);
            x.touched = true;
            store_tx(b, a.data(), a.size());
            int k = op.a[0] & 1 ? bind_tx(x.fd, (struct sockaddr*)b, a.size()) : bind_tm(x.fd, (const struct sockaddr*)a.data(), a.size());
            irrevocable("bind");
            if (k || k_sock_state(x.ino) != 1 || k_sock_addr(x.ino) != a) fail("wrong-result", "bind() returned %d", k);
            x.kind = KBOUND;
            x.addr = a;
            return;
        }
        case LISTEN: {
            if (x.kind != KBOUND || x.taint) return;
            x.touched = true;
            int k = listen_tx(x.fd, op.a[1]);
            irrevocable("listen");
            if (k || k_sock_state(x.ino) != 2) fail("wrong-result", "listen() returned %d", k);
            x.kind = KLISTEN;
            return;
        }
        case ACCEPT: {
            if (fs < 0) return;
            int l;
            if (op.a[1] < (int)lfd.size())
                l = lfd[op.a[1]];
            else if (x.kind == KLISTEN && !x.taint)
                l = x.fd;
            else
                return;
            int lino = k_fd_ino(l);
            socklen_t room = op.a[2], *lp = (socklen_t*)(b + 100);
            struct sockaddr* ap = (struct sockaddr*)(b + 8);
            int f;
            if (op.a[2] < 0) {
                f = accept_tx(l, nullptr, nullptr);
            } else {
                for (int i = 0; i < 40; i += 8) store_ulong_tx((unsigned long*)(b + 8 + i), 0x7e7e7e7e7e7e7e7eull);
                store_tx(lp, &room, sizeof room);
                if (op.a[3] == 2) {
                    privatize_tx(ap, 40, PICOTM_TM_PRIVATIZE_LOADSTORE);
                    privatize_tx(lp, sizeof *lp, PICOTM_TM_PRIVATIZE_LOADSTORE);
                    f = accept_tm(l, ap, lp);
                } else
                    f = accept_tx(l, ap, lp);
            }
            irrevocable("accept");
            new_fd("accept", t, f);
            Slot& y = w.s[fs];
            y = Slot();
            y.kind = KCONN;
            y.fd = f;
            y.ino = k_fd_ino(f);
            y.peer = k_peer(y.ino);
            last[t] = fs;
            HC* h = conn(y.peer);
            if (!h || h->addr.empty()) fail("wrong-result", "accept() returned %d, which is no connection", f);
            if (accepted.count(h->ino)) fail("accepted-twice", "accept() returned a connection that had been accepted before");
            accepting[t].push_back(h->ino);
            (void)lino;
            if (op.a[2] >= 0) {
                char got[40];
                socklen_t len;
                load_tx(ap, got, 40);
                load_tx(lp, &len, sizeof len);
                std::string want(40, 0x7e);
                want.replace(0, std::min<size_t>(room, h->addr.size()), h->addr.substr(0, room));
                if (len != h->addr.size() || std::string(got, 40) != want)
                    fail("wrong-address", "accept() with room for %u bytes returned an address of length %u (%s) instead of %zu (%s)", room, len,
                         hex(std::string(got, 20)).c_str(), h->addr.size(), hex(want.substr(0, 20)).c_str());
            }
            return;
        }
        case CONNECT: {
            if ((x.kind != KNEW && x.kind != KBOUND) || x.taint) return;
            std::string a = haddr(0);
            x.touched = true;
            store_tx(b, a.data(), a.size());
            int k = op.a[0] & 1 ? connect_tx(x.fd, (struct sockaddr*)b, a.size()) : connect_tm(x.fd, (const struct sockaddr*)a.data(), a.size());
            irrevocable("connect");
            if (k || k_sock_state(x.ino) != 3) fail("wrong-result", "connect() returned %d", k);
            x.kind = KCONN;
            x.peer = k_peer(x.ino);
            return;
        }
        case SHUTDOWN: {
            if (x.kind != KCONN || x.taint) return;
            x.touched = true;
            static const int how[] = {SHUT_RD, SHUT_WR, SHUT_RDWR};
            int k = shutdown_tx(x.fd, how[op.a[1]]);
            irrevocable("shutdown");
            if (k) fail("wrong-result", "shutdown() returned %d", k);
            if (op.a[1] != 0) x.wshut = 1;
            if (op.a[1] != 1) x.rshut = 1;
            if (op.a[1] != 0 && !k_peer_closed(x.peer)) fail("wrong-result", "shutdown() has no effect");
            return;
        }
        case SEND: {
            if (x.kind != KCONN || x.taint || x.wshut) return;
            std::string s = filltext(op.a[2], op.a[1]);
            x.touched = true;
            ssize_t k = op.a[3] ? send_tm(x.fd, s.data(), s.size(), 0) : write_tm(x.fd, s.data(), s.size());
            if (k < 0 && fiber_errno() == EAGAIN && picotm_is_irrevocable()) k = 0;
            if (k != (ssize_t)s.size() && !(picotm_is_irrevocable() && k >= 0)) fail("wrong-result", "send() of %zu bytes returned %zd", s.size(), k);
            x.sent += s.substr(0, k);
            return;
        }
        case RECV: {
            if (x.kind != KCONN || x.taint || x.rshut) return;
            x.touched = true;
            ssize_t k = recv_tx(x.fd, b, op.a[1], MSG_DONTWAIT);
            irrevocable("recv");
            if (k < 0) {
                if (fiber_errno() != EAGAIN) fail("wrong-result", "recv() returned %zd with errno %d", k, fiber_errno());
                return;
            }
            std::string s(k, 0);
            if (k) load_tx(b, &s[0], k);
            for (ssize_t i = 0; i < k; ++i)
                if (s[i] != fillc(x.peer * 31 + 5, x.pos + i)) fail("wrong-input", "byte %lld received from a connection is wrong", (long long)x.pos + i);
            x.pos += k;
            return;
        }
        case CLOSE: {
            if (x.kind == KEMPTY) return;
            int k = close_tx(x.fd);
            if (k) fail("wrong-result", "close() returned %d", k);
            if (!k_is_open(x.fd)) fail("closed-early", "descriptor %d is closed before the transaction commits", x.fd);
            going[t].push_back({x.kind, x.ino, x.peer, x.sent, x.taint, x.touched});
            x = Slot();
            return;
        }
        case BAD: {
            int k = 0;
            switch (op.a[1]) {
            case 0: k = accept_tx(regfd, nullptr, nullptr); break;
            case 1: k = listen_tx(regfd, 1); break;
            case 2: k = shutdown_tx(regfd, SHUT_RDWR); break;
            case 3: k = accept_tx(100, nullptr, nullptr); break;
            case 4: if (x.kind != KNEW || x.taint) return; k = accept_tx(x.fd, nullptr, nullptr); break;
            case 5: if (x.kind != KNEW || x.taint) return; k = shutdown_tx(x.fd, SHUT_RD); break;
            case 6: if (x.kind != KNEW || x.taint) return; k = listen_tx(x.fd, 2); break;
            }
            fail("wrong-result", "misuse %lld of a socket succeeds with result %d", (long long)op.a[1], k);
        }
        }
    }
    static std::string hex(const std::string& s)
    {
        std::string o;
        char b[4];
        for (unsigned char c : s) {
            snprintf(b, sizeof b, "%02x", c);
            o += b;
        }
        return o;
    }
    void received(int peer, const std::string& sent)
    {
        HC* h = conn(peer);
        if (!h) fail("wrong-connection", "a connection of the program has never reached the peer");
        std::string got = h->in + k_in_transit(h->fd);
        if (got != sent)
            fail("wrong-output", "%zu bytes arrived on a connection instead of the %zu bytes that committed transactions have sent", got.size(),
                 sent.size());
    }
    void final_checks() override
    {
        // connections that are still in the queue
        for (size_t n = hc.size() + 1; n != hc.size();) {
            n = hc.size();
            host_accept();
        }
        std::set<int> used;
        for (int f : lfd) used.insert(f);
        for (int f : hfd) used.insert(f);
        for (auto& h : hc) used.insert(h.fd);
        used.insert(regfd);
        std::set<int> peers;
        for (auto& t : com)
            for (auto& s : t.s) {
                if (s.kind == KEMPTY) continue;
                if (!used.insert(s.fd).second || k_fd_ino(s.fd) != s.ino) fail("closed", "descriptor %d is not the committed socket", s.fd);
                if (s.peer >= 0) peers.insert(s.peer);
                if (s.taint) continue;
                static const int st[] = {-1, 0, 1, 2, 3};
                if (k_sock_state(s.ino) != st[s.kind]) fail("wrong-state", "descriptor %d: socket is in state %d", s.fd, k_sock_state(s.ino));
                if (s.kind != KCONN) continue;
                received(s.peer, s.sent);
                if (k_peer_closed(s.peer) != (s.wshut != 0)) fail("wrong-state", "the peer sees an end of a connection that is open");
            }
        for (auto& v : gone)
            for (auto& g : v) {
                if (g.kind != KCONN) continue;
                if (!g.taint) received(g.peer, g.sent);
                if (!k_peer_closed(g.peer)) fail("wrong-state", "the peer does not see the end of a closed connection");
            }
        auto fds = k_fds();
        for (int f : fds)
            if (!used.count(f)) fail("fd-leak", "descriptor %d of an aborted transaction is open", f);
        if (fds.size() != used.size()) fail("closed", "%zu descriptors are open instead of %zu", fds.size(), used.size());
    }
};
Reg r1("connect", [](const RunSpec&) -> Scenario* { return new ConnScenario(0); });
Reg r2("connect_faults", [](const RunSpec&) -> Scenario* { return new ConnScenario(1); });
}  // namespace
