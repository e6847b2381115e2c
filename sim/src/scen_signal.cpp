// Signals and error recovery: C26
#include "tx.h"
#include "kern.h"
#include <cerrno>
extern "C" {
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-libc.h"
}
using namespace sim;

namespace {
// a[0] signal index, ...
enum { LD, ST, RAISE, ASYNC, ADD, REMOVE, CLEAR, ACQUIRE, RELEASE, BADNUM, NOPS };
const char* const names[] = {"load", "store", "raise", "asynchronous-signal", "add_signal", "remove_signal", "clear_signals",
                             "acquire_signal", "release_signal", "invalid-signal"};
const int NC = 4, NS = 4, NH = 2;
const int signums[NS] = {SIGFPE, SIGSEGV, SIGUSR1, 64};
const int PRE = 100;   // offset of operations that run before the transaction

struct CellModel : Model {
    unsigned long v[NC] = {0};
    Model* clone() const override { return new CellModel(*this); }
    uint64_t hash() const override
    {
        uint64_t h = 1;
        for (auto x : v) h = mix(h, x);
        return h;
    }
    bool apply(const Op& op, const std::string* r) override
    {
        unsigned long x;
        switch (op.code) {
        case LD:
            if (!r) return true;
            memcpy(&x, r->data(), sizeof x);
            return x == v[op.a[0]];
        case ST: v[op.a[0]] = op.a[1]; return true;
        }
        return true;
    }
};

struct Call { int handler, signum; siginfo_t* si; void* uc; };
struct TS {
    int added[NS] = {0};      // 1 recoverable, 2 not recoverable
    bool api = false;         // within add_signal(), remove_signal(), clear_signals()
    bool ready = false;       // has executed a transaction that has used the signal module
    bool in_tx = false;       // between begin and end of the transaction, in any phase
    bool exec = false;        // in code of the program within the execution phase
    siginfo_t si;             // of the signal that is being delivered
    bool pending = false;     // the recovery phase is acceptable
    bool delivering = false;
    std::vector<Call> calls;
    int seq = 0;
};
struct SigScenario;
SigScenario* SS;
void h_call(int h, int signum, siginfo_t* si, void* uc);
void h_orig(int s, siginfo_t* si, void* uc) { h_call(0, s, si, uc); }
void h_a(int s, siginfo_t* si, void* uc) { h_call(1, s, si, uc); }
void h_b(int s, siginfo_t* si, void* uc) { h_call(2, s, si, uc); }
void on_async(int s);

struct SigScenario : TxScenario {
    SigScenario() { SS = this; }
    ~SigScenario() { if (SS == this) SS = nullptr; }
    TS ts[8];
    unsigned long* cell = nullptr;
    // state of the process's signals: who handles it. -1 original, otherwise the handler for non-transactional code (0 none)
    int owner[NS];
    int busy[NS], epoch[NS];
    bool certain[NS];
    TS& me() { return ts[self()]; }

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        int nt = r.range(1, 4);
        bool conc = r.chance(0.35), async = r.chance(0.4), nonrec = r.chance(0.4);
        if (r.chance(0.3)) swarm_faults(r, s.par, {F_ERR}, 0.2);
        s.prog.cfg = {(int64_t)r.below(1 << NS), (int64_t)r.below(1 << NS), conc, async};
        for (int t = 0; t < nt; ++t) {
            Thread th;
            int nx = r.range(1, 5);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                auto api = [&](bool pre) {
                    Op o;
                    o.code = r.chance(0.65) ? ADD : r.chance(0.8) ? REMOVE : CLEAR;
                    o.a[0] = r.below(NS);
                    o.a[1] = nonrec && r.chance(0.7) ? 2 : 1;
                    if (r.chance(0.05)) {
                        o.code = BADNUM;
                        o.a[0] = r.below(5);
                        o.a[1] = r.below(4);
                    }
                    if (pre) o.code += PRE;
                    return o;
                };
                auto sig = [&] {
                    Op o;
                    o.code = async && r.chance(0.6) ? ASYNC : RAISE;
                    o.a[0] = r.below(NS);
                    o.a[1] = r.below(nt);
                    o.a[2] = r.chance(0.5) ? r.range(0, 30) : r.range(0, 600);
                    return o;
                };
                int np = x == 0 ? r.range(1, 3) : r.range(0, 2);
                for (int i = 0; i < np; ++i) {
                    Op o = r.chance(0.7) ? api(true) : sig();
                    if (o.code < PRE) o.code += PRE;
                    if (conc && r.chance(0.4)) {
                        o.code = PRE + (r.chance(0.5) ? ACQUIRE : RELEASE);
                        o.a[1] = r.below(NH + 1);
                    }
                    tx.ops.push_back(o);
                }
                int no = r.range(1, 6);
                for (int i = 0; i < no; ++i) {
                    Op o;
                    double k = r.below(1000) / 1000.0;
                    if (k < 0.35) {
                        o.code = LD;
                        o.a[0] = r.below(NC);
                    } else if (k < 0.7) {
                        o.code = ST;
                        o.a[0] = r.below(NC);
                        o.a[1] = t * 1000 + x * 10 + i + 1;
                    } else if (k < 0.92)
                        o = sig();
                    else
                        o = api(false);
                    tx.ops.push_back(o);
                }
                if (r.chance(0.3)) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_ERR_ERRNO, OP_IRREVOCABLE};
                    o.code = codes[r.below(4)];
                    o.a[0] = r.range(1, 2);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                th.txs.push_back(tx);
            }
            s.prog.th.push_back(th);
        }
    }
    std::string op_name(const Op& op) override
    {
        char b[128];
        int c = op.code >= PRE ? op.code - PRE : op.code;
        snprintf(b, sizeof b, "%s%s(%lld, %lld, %lld)", op.code >= PRE ? "[before the transaction] " : "", c < NOPS ? names[c] : "?",
                 (long long)op.a[0], (long long)op.a[1], (long long)op.a[2]);
        return b;
    }
    void setup() override
    {
        cell = (unsigned long*)heap_alloc(NC * sizeof *cell);
        memset(cell, 0, NC * sizeof *cell);
        struct sigaction a;
        memset(&a, 0, sizeof a);
        a.sa_flags = SA_SIGINFO;
        a.sa_sigaction = h_orig;
        for (int i = 0; i < NS; ++i) {
            k_sigaction(signums[i]) = a;
            owner[i] = -1;
            busy[i] = epoch[i] = 0;
            certain[i] = true;
        }
        set_async_hook(on_async);
        for (int i = 0; i < NS; ++i)
            if (sp->prog.cfg[0] >> i & 1) acquire(i, sp->prog.cfg[1] >> i & 1);
    }
    Model* initial() override { return new CellModel; }
    bool matches_final(Model* m, std::string& why) override
    {
        for (int i = 0; i < NC; ++i)
            if (cell[i] != ((CellModel*)m)->v[i]) {
                why = "cell " + std::to_string(i);
                return false;
            }
        return true;
    }

    // ---- the process's signals
    typedef void (*Handler)(int, siginfo_t*, void*);
    static Handler handler(int h) { return h == 1 ? h_a : h == 2 ? h_b : nullptr; }
    void acquire(int s, int h)
    {
        struct picotm_error e;
        memset(&e, 0, sizeof e);
        int n = k_errors(self()).size();
        int ep = ++epoch[s];
        bool was = certain[s] && !busy[s];
        busy[s]++;
        picotm_libc_acquire_proc_signal(signums[s], handler(h), &e);
        busy[s]--;
        bool err = picotm_error_is_set(&e);
        if (err != (n != (int)k_errors(self()).size())) fail("wrong-result", "acquire_proc_signal() %s", err ? "fails" : "does not fail");
        settle(s, was && ep == epoch[s], err ? owner[s] : owner[s] == -1 ? h : owner[s], err);
        if (!err && certain[s] && k_sigaction(signums[s]).sa_sigaction == h_orig) fail("not-acquired", "signal %d is not acquired", signums[s]);
    }
    void release(int s)
    {
        struct picotm_error e;
        memset(&e, 0, sizeof e);
        int n = k_errors(self()).size();
        int ep = ++epoch[s];
        bool was = !busy[s];
        busy[s]++;
        picotm_libc_release_proc_signal(signums[s], &e);
        busy[s]--;
        bool err = picotm_error_is_set(&e);
        if (err != (n != (int)k_errors(self()).size())) fail("wrong-result", "release_proc_signal() %s", err ? "fails" : "does not fail");
        settle(s, was && ep == epoch[s] && (!err || certain[s]), err ? owner[s] : -1, false);
        if (!err && certain[s] && k_sigaction(signums[s]).sa_sigaction != h_orig)
            fail("not-released", "signal %d has been released, but its handler has not been restored", signums[s]);
    }
    // alone: the operation did not overlap others on this signal
    void settle(int s, bool alone, int o, bool)
    {
        ++epoch[s];
        certain[s] = alone;
        if (alone) owner[s] = o;
    }

    // ---- delivery
    void deliver(int s, bool async)
    {
        TS& t = me();
        if (k_sigblocked(signums[s])) {
            if (t.delivering) return;   // the handler for this signal runs
            fail("signal-blocked", "signal %d is blocked, but no handler runs", signums[s]);
        }
        if (t.delivering) return;
        if (async && t.added[s] == 1) return;   // documented as unsafe
        if (async && t.api) {
            async_signal(self(), s, 1);
            return;
        }
        siginfo_t* si = &t.si;
        memset(si, 0, sizeof *si);
        si->si_signo = signums[s];
        si->si_code = 1 + t.seq % 5;
        si->si_value.sival_int = 100 * self() + ++t.seq;
        t.calls.clear();
        int ep = epoch[s];
        bool sure = certain[s] && !busy[s];
        int own = owner[s];
        bool rec = sure && own != -1 && t.added[s] && t.in_tx;
        t.pending = (!sure || own != -1) && t.added[s] && t.in_tx;
        t.delivering = true;
        if (logging()) logf("signal %d arrives%s", signums[s], async ? " asynchronously" : "");
        k_deliver(signums[s], si, &t);
        t.delivering = t.pending = false;
        if (logging()) logf("signal %d has been handled", signums[s]);
        sure = sure && ep == epoch[s];
        if (rec && sure && !async && t.exec)
            fail("signal-lost", "signal %d does not start the transaction's recovery", signums[s]);
        if (t.calls.size() > 1) fail("handled-twice", "%zu handlers were called for signal %d", t.calls.size(), signums[s]);
        if (sure && t.calls.size() != (own != 0)) fail("not-handled", "%zu handlers were called for signal %d", t.calls.size(), signums[s]);
        if (t.calls.size()) {
            Call& c = t.calls[0];
            if (c.signum != signums[s] || c.si != si || c.uc != &t) fail("wrong-arguments", "the handler was called with other arguments");
            if (sure && c.handler != (own == -1 ? 0 : own)) fail("wrong-handler", "handler %d was called for signal %d", c.handler, signums[s]);
        }
    }
    void api(int code, const Op& op)
    {
        TS& t = me();
        struct picotm_error e;
        memset(&e, 0, sizeof e);
        int s = op.a[0] % NS;
        switch (code) {
        case ADD:
            t.api = true;
            picotm_libc_add_signal(signums[s], op.a[1] == 1, &e);
            if (picotm_error_is_set(&e)) fail("wrong-result", "add_signal() fails");
            t.added[s] = op.a[1];
            t.ready = true;
            break;
        case REMOVE:
            t.api = true;
            picotm_libc_remove_signal(signums[s]);
            t.added[s] = 0;
            break;
        case CLEAR:
            t.api = true;
            picotm_libc_clear_signals();
            for (auto& a : t.added) a = 0;
            break;
        case BADNUM: {
            static const int bad[] = {-1, NSIG, NSIG + 1, 100000, -100000};
            int b = bad[op.a[0]];
            if (op.a[1] == 0) picotm_libc_add_signal(b, true, &e);
            if (op.a[1] == 1) picotm_libc_acquire_proc_signal(b, h_a, &e);
            if (op.a[1] < 2) {
                if (!picotm_error_is_set(&e) || e.status != PICOTM_ERRNO || e.value.errno_hint != EINVAL)
                    fail("wrong-result", "signal %d is accepted", b);
            } else if (op.a[1] == 2)
                picotm_libc_remove_signal(b);
            else
                picotm_libc_release_proc_signal(b, &e);
            break;
        }
        case RAISE: deliver(s, false); break;
        case ASYNC:
            if (op.a[1] < (int)sp->prog.th.size()) async_signal(1 + op.a[1], s, op.a[2]);
            break;
        case ACQUIRE: acquire(s, op.a[1]); break;
        case RELEASE: release(s); break;
        }
        t.api = false;
    }
    void before_tx(int t, int x) override
    {
        for (auto& o : sp->prog.th[t].txs[x].ops)
            if (o.code >= PRE && o.code < PRE + NOPS) api(o.code - PRE, o);
        me().in_tx = true;
    }
    void on_begin(TxRun* r) override { me().exec = true; }
    void exec(TxRun* r, const Op& op) override
    {
        TS& t = me();
        if (op.code >= PRE) return;
        switch (op.code) {
        case LD: {
            unsigned long v = load_ulong_tx(cell + op.a[0]);
            rec(r, &v, sizeof v);
            return;
        }
        case ST: store_ulong_tx(cell + op.a[0], op.a[1]); return;
        case ADD:
            if (!t.ready) return;
        }
        api(op.code, op);
    }
    void on_attempt_end(TxRun* r) override { me().exec = false; }
    void on_committed(TxRun* r) override { me().in_tx = false; }
    bool async_error(TxRun* r) override { return signal_explains(); }
    bool signal_explains()
    {
        TS& t = me();
        if (picotm_error_status() != PICOTM_SIGINFO_T || !t.pending) return false;
        const siginfo_t* i = picotm_error_as_siginfo_t();
        if (i->si_signo != t.si.si_signo || i->si_code != t.si.si_code || i->si_value.sival_int != t.si.si_value.sival_int) return false;
        for (int s = 0; s < NS; ++s)
            if (signums[s] == i->si_signo && picotm_error_is_non_recoverable() != (t.added[s] == 2))
                fail("wrong-error", "the error of signal %d is%s non-recoverable", i->si_signo, t.added[s] == 2 ? " not" : "");
        return true;
    }
    void on_recovery(TxRun* r) override
    {
        TS& t = me();
        if (t.calls.size() && t.delivering) fail("handled-twice", "signal started recovery and was handled outside of the transaction");
        t.delivering = t.pending = false;
        if (k_sigblocked(SIGFPE) || k_sigblocked(SIGSEGV) || k_sigblocked(SIGUSR1))
            fail("signal-blocked", "a signal is still blocked in the recovery phase");
        // rolled back: signals are not for the transaction any longer
        if (!picotm_error_is_non_recoverable() && (r->nattempts & 1)) {
            int s = (r->nattempts / 2 + r->tx) % NS;
            t.in_tx = false;
            deliver(s, false);
            t.in_tx = true;
        }
    }
    bool want_restart(TxRun* r) override
    {
        bool y = TxScenario::want_restart(r);
        if (!y) me().in_tx = false;
        return y;
    }
    void thread_end(int) override
    {
        me().in_tx = false;
    }
    void thread_released(int t) override
    {
        if (t & 1) deliver(t / 2 % NS, false);
        me().added[0] = me().added[1] = me().added[2] = me().added[3] = 0;
    }
    void final_checks() override
    {
        for (int s = 0; s < NS; ++s) {
            release(s);
            if (k_sigaction(signums[s]).sa_sigaction != h_orig)
                fail("not-released", "the original handler of signal %d has not been restored", signums[s]);
        }
    }
};
void h_call(int h, int signum, siginfo_t* si, void* uc) { SS->me().calls.push_back({h, signum, si, uc}); }
void on_async(int s) { SS->deliver(s, true); }
Reg r1("signal", [](const RunSpec&) -> Scenario* { return new SigScenario; });
}  // namespace
