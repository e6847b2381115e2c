#include "tx.h"
extern "C" {
void exit_tx(int);
void _exit_tx(int);
void _Exit_tx(int);
void abort_tx(void);
}
#include <cerrno>
#include <csignal>

namespace sim {

int faults_of_thread(int fiber)
{
    int n = 0;
    for (auto& f : result().faults)
        if (f.fiber == fiber && f.kind != F_CLOCK && f.kind != F_SPURIOUS && f.kind != F_CASFAIL) ++n;
    return n;
}

void swarm(Rng& r, Params& p)
{
    static const double bursts[] = {2, 4, 8, 15, 30, 60, 150, 400, 2000};
    p.mean_burst = bursts[r.below(9)];
    switch (r.below(6)) {
    case 0: p.policy = 1; break;
    case 1: case 2: p.policy = 2; p.mean_burst = p.mean_burst / 3 + 1; break;
    default: p.policy = 0;
    }
    static const int ns[] = {20, 50, 200, 1000, 20000, 1000000, 5000000};
    p.ns_per_step = r.chance(0.6) ? ns[r.below(3)] : ns[r.below(7)];
    p.heap_reuse = r.below(2);
    p.max_faults = 0;
    if (r.chance(0.3)) {
        p.rate[F_CASFAIL] = 0.05;
        p.rate[F_SPURIOUS] = 0.2;
        p.rate[F_CLOCK] = r.chance(0.5) ? 0.05 : 0;
        p.max_faults = 20;
    }
}
void swarm_faults(Rng& r, Params& p, std::initializer_list<FaultKind> kinds, double rate)
{
    for (FaultKind k : kinds)
        if (r.chance(0.6)) p.rate[k] = rate * (r.chance(0.5) ? 1 : 0.2);
    p.max_faults = p.max_faults ? p.max_faults : r.range(1, 4);
}

TxScenario::~TxScenario()
{
    for (auto& v : runs)
        for (auto* r : v) delete r;
}

std::string TxScenario::describe(const Prog& p, int thread, int tx, const Op& op)
{
    char b[96];
    switch (op.code) {
    case OP_CONFLICT: snprintf(b, sizeof b, "conflict(first %lld attempts)", (long long)op.a[0]); return b;
    case OP_ERR_CODE: snprintf(b, sizeof b, "error_code(%lld; first %lld attempts)", (long long)op.a[1], (long long)op.a[0]); return b;
    case OP_ERR_ERRNO: snprintf(b, sizeof b, "error_errno(%lld; first %lld attempts)", (long long)op.a[1], (long long)op.a[0]); return b;
    case OP_EXIT: snprintf(b, sizeof b, "exit(variant %lld)", (long long)op.a[0]); return b;
    case OP_ERR_SIGINFO: snprintf(b, sizeof b, "error_signal(%lld; first %lld attempts)", (long long)op.a[1], (long long)op.a[0]); return b;
    case OP_IRREVOCABLE: return "irrevocable()";
    case OP_DELAY: snprintf(b, sizeof b, "delay(%lld steps)", (long long)op.a[0]); return b;
    case OP_SLEEP: snprintf(b, sizeof b, "delay(%lld ms)", (long long)op.a[0]); return b;
    }
    std::string s = op_name(op);
    return s.empty() ? Scenario::describe(p, thread, tx, op) : s;
}

void TxScenario::rec(TxRun* r, const void* p, size_t n)
{
    Attempt& a = r->cur();
    a.res.push_back({r->op_index, std::string((const char*)p, n)});
    a.last = now_step();
    uint64_t h = n;
    for (size_t i = 0; i < n; ++i) h = h * 1099511628211ull + ((const unsigned char*)p)[i];
    observe(h);
    if (logging()) {
        std::string t;
        char b[8];
        for (size_t i = 0; i < n && i < 40; ++i) {
            snprintf(b, sizeof b, "%02x", ((const unsigned char*)p)[i]);
            t += b;
        }
        logf("tx %d.%d op %d %s -> %s", r->thread + 1, r->tx, r->op_index,
             describe(sp->prog, r->thread, r->tx, sp->prog.th[r->thread].txs[r->tx].ops[r->op_index]).c_str(), t.c_str());
    }
}
void TxScenario::rec_i(TxRun* r, int64_t v) { rec(r, &v, sizeof v); }

static TxScenario* the_scenario;

// The attempt has been rolled back: errno is what it was when the attempt began. The allocator may have failed
// before picotm saved errno.
void TxScenario::errno_restored(TxRun* r, const char* when)
{
    int want = r->errno_mark, e = fiber_errno();
    r->errno_mark = 0;
    if (!check_errno || !want || e == want) return;
    if (e == ENOMEM && failed_allocs(self()) > r->allocs_before) return;
    if (result().fired[F_PTHREAD]) return;
    fail("errno", "%s errno is %d (%s) instead of %d, its value when the attempt began", when, e, strerror(e), want);
}

void TxScenario::begin_attempt(TxRun* r)
{
    if (r->started && r->cur().outcome == OUT_OPEN) errno_restored(r, "after a roll-back");
    if (r->started && r->cur().outcome == OUT_OPEN) {
        r->cur().outcome = OUT_ABORTED;
        if (irrev_thread == r->thread) irrev_thread = -1;
        on_attempt_end(r);
    }
    r->nattempts++;
    r->started = true;
    r->fiber = self();
    r->raised = 0;
    r->att.emplace_back();
    Attempt& a = r->cur();
    a.begin = a.last = now_step();
    a.irrevocable = picotm_is_irrevocable();
    a.res.reserve(8);
    r->faults_before = faults_of_thread(self());
    r->allocs_before = failed_allocs(self());
    result().attempts++;
    if (a.irrevocable) {
        result().irrevocables++;
        irrev_thread = r->thread;
    }
    if (logging()) logf("tx %d.%d attempt %d begins%s", r->thread + 1, r->tx, r->nattempts, a.irrevocable ? " (irrevocable)" : "");
    if (r->nattempts > 200 && !a.irrevocable)
        fail("starvation", "attempt %d of transaction T%d.%d still does not run irrevocably", r->nattempts, r->thread + 1, r->tx);
    on_begin(r);
    if (check_errno) fiber_errno() = r->errno_mark = 3000 + r->nattempts % 8;
}

// Nothing will happen until this fiber's wait times out. If no other transaction is running, the locks that it waits for
// are free and nobody has woken it. (A wake-up can be missed, but the time out is then short.)
void TxScenario::on_idle(int fiber, uint64_t ns)
{
    if (ns < 100000000 || !inside[fiber] || result().fired[F_PTHREAD]) return;
    for (int i = 0; i < 64; ++i)
        if (i != fiber && inside[i]) return;
    fail("lost-wake-up", "a transaction of thread T%d waits %llu ms for a lock although no other transaction is running", fiber,
         (unsigned long long)ns / 1000000);
}

// a transaction ends the process: it has committed, the others have no effects
void TxScenario::on_exit()
{
    TxRun* me = nullptr;
    bool others = false;
    for (auto& v : runs)
        for (auto* r : v) {
            if (!r->started) continue;
            if (r->cur().outcome == OUT_RECOVERED && !r->cur().handled) others = true;
            if (r->cur().outcome != OUT_OPEN) continue;
            if (r->fiber == self())
                me = r;
            else if (r->cur().commit || r->cur().irrevocable)
                others = true;
        }
    if (!me || !me->cur().exits) return;
    if (others) end_run("exit while other transactions commit");
    Attempt& a = me->cur();
    a.outcome = OUT_COMMITTED;
    a.end = now_step();
    exited = true;
    result().committed++;
    if (logging()) logf("tx %d.%d has ended the process", me->thread + 1, me->tx);
    check_history();
    end_run("exit");
}

void TxScenario::exec_op(TxRun* r, const Op& op)
{
    switch (op.code) {
    case OP_CONFLICT:
        if (r->nattempts <= op.a[0] && !picotm_is_irrevocable()) picotm_resolve_conflict(nullptr);
        return;
    case OP_ERR_CODE:
        if (r->nattempts <= op.a[0]) {
            r->raised = op.code;
            r->raised_val = op.a[1];
            picotm_recover_from_error_code((enum picotm_error_code)op.a[1]);
        }
        return;
    case OP_ERR_ERRNO:
        if (r->nattempts <= op.a[0]) {
            r->raised = op.code;
            r->raised_val = op.a[1];
            picotm_recover_from_errno((int)op.a[1]);
        }
        return;
    case OP_ERR_SIGINFO:
        if (r->nattempts <= op.a[0]) {
            r->raised = op.code;
            r->raised_val = op.a[1];
            siginfo_t si;
            memset(&si, 0, sizeof si);
            si.si_signo = (int)op.a[1];
            picotm_recover_from_siginfo_t(&si);
        }
        return;
    case OP_IRREVOCABLE:
        if (!picotm_is_irrevocable()) picotm_irrevocable();
        return;
    case OP_DELAY:
        for (int i = 0; i < op.a[0]; ++i) step();
        return;
    case OP_EXIT:
        r->cur().exits = true;
        before_commit(r);
        r->cur().last = now_step();
        set_exit_hook([] { the_scenario->on_exit(); });
        switch (op.a[0]) {
        case 0: exit_tx(0);
        case 1: _exit_tx(0);
        case 2: _Exit_tx(0);
        default: abort_tx();
        }
    case OP_SLEEP: {
        static char sleeper;
        block_on(&sleeper, now_ns() + (uint64_t)op.a[0] * 1000000 + 1);
        return;
    }
    default:
        exec(r, op);
        r->cur().last = now_step();
    }
}

void TxScenario::before_commit(TxRun* r)
{
    r->cur().commit = now_step();
    if (logging()) logf("tx %d.%d attempt %d commits", r->thread + 1, r->tx, r->nattempts);
}

// in the recovery phase; true: restart
bool TxScenario::recovery(TxRun* r)
{
    result().recoveries++;
    if (!r->started) {  // begin itself failed before the first attempt
        r->att.emplace_back();
        r->started = true;
        r->nattempts++;
    }
    Attempt& a = r->cur();
    a.outcome = OUT_RECOVERED;
    if (irrev_thread == r->thread) irrev_thread = -1;
    int st = (int)picotm_error_status();
    bool nonrec = picotm_error_is_non_recoverable();
    if (!nonrec) errno_restored(r, "in the recovery phase");
    int64_t v = -1;
    switch (st) {
    case PICOTM_ERROR_CODE: v = picotm_error_as_error_code(); break;
    case PICOTM_ERRNO: v = picotm_error_as_errno(); break;
    case PICOTM_SIGINFO_T: v = picotm_error_as_siginfo_t()->si_signo; break;
    }
    observe(mix(st, v));
    if (logging()) logf("tx %d.%d attempt %d in recovery: status %d value %lld%s", r->thread + 1, r->tx, r->nattempts, st,
                        (long long)v, nonrec ? " non-recoverable" : "");
    on_attempt_end(r);
    r->cur().handled = true;
    bool faulted = faults_of_thread(self()) > r->faults_before;
    if (async_error(r)) {
    } else if (r->raised && !faulted) {
        int est = r->raised == OP_ERR_CODE ? PICOTM_ERROR_CODE : r->raised == OP_ERR_ERRNO ? PICOTM_ERRNO : PICOTM_SIGINFO_T;
        if (st != est || v != r->raised_val)
            fail("wrong-error", "recovery phase reports status %d value %lld instead of status %d value %lld", st,
                 (long long)v, est, (long long)r->raised_val);
        if (nonrec) fail("wrong-error", "error raised in the execution phase is reported as non-recoverable");
    } else if (!faulted && !expected_error(r)) {
        fail("unexplained-error", "recovery phase entered with status %d value %lld although nothing failed", st,
             (long long)v);
    }
    if (nonrec && !a.commit && !r->raised && st != PICOTM_SIGINFO_T && faults_of_thread(self()) == r->faults_before + 1 &&
        failed_allocs(self()) == r->allocs_before + 1 && !irreversible(r))
        fail("wrong-error", "a failed allocation in the execution phase is reported as non-recoverable");
    on_recovery(r);
    if (nonrec) end_run("non-recoverable error");
    r->raised = 0;
    if (want_restart(r)) {
        r->restarts++;
        r->faults_before = faults_of_thread(self());
        r->allocs_before = failed_allocs(self());
        return true;
    }
    return false;
}

void TxScenario::after(TxRun* r)
{
    r->end = now_step();
    Attempt& a = r->cur();
    if (a.outcome == OUT_OPEN) {
        a.outcome = OUT_COMMITTED;
        a.end = now_step();
        r->committed = true;
        if (irrev_thread == r->thread) irrev_thread = -1;
        result().committed++;
        if (logging()) logf("tx %d.%d committed", r->thread + 1, r->tx);
        on_attempt_end(r);
        on_committed(r);
    }
}

__attribute__((noinline)) void TxScenario::exec_tx(TxRun* r)
{
    TxRun* volatile vr = r;
    TxScenario* volatile self_ = this;
    r->begin = now_step();
    r->faults_before = faults_of_thread(self());
    r->allocs_before = failed_allocs(self());
    inside[self()] = true;
    picotm_begin
        self_->begin_attempt(vr);
        const auto& ops = self_->sp->prog.th[vr->thread].txs[vr->tx].ops;
        for (vr->op_index = 0; vr->op_index < (int)ops.size(); vr->op_index = vr->op_index + 1) {
            step();
            self_->exec_op(vr, ops[vr->op_index]);
        }
        self_->before_commit(vr);
    picotm_commit
        if (self_->recovery(vr)) picotm_restart();
    picotm_end
    self_->inside[self()] = false;
    self_->after(vr);
}

void TxScenario::run_thread(int t)
{
    thread_begin(t);
    for (auto* r : runs[t]) {
        before_tx(t, r->tx);
        exec_tx(r);
    }
    thread_end(t);
    picotm_release();
    thread_released(t);
}

void TxScenario::main()
{
    the_scenario = this;
    sp = &spec();
    const Prog& p = sp->prog;
    runs.resize(p.th.size());
    for (size_t t = 0; t < p.th.size(); ++t)
        for (size_t i = 0; i < p.th[t].txs.size() * repeats(); ++i) {
            size_t x = i % p.th[t].txs.size();
            auto* r = new TxRun;
            r->thread = t;
            r->tx = x;
            runs[t].push_back(r);
        }
    set_idle_hook([](int f, uint64_t ns) { the_scenario->on_idle(f, ns); });
    setup();
    for (size_t t = 0; t < p.th.size(); ++t)
        spawn([this, t] { run_thread(t); });
    join_all();
    faults_enabled(false);
    int overl = 0;
    for (auto& v : runs)
        for (auto* r : v)
            if (r->nattempts > 1) ++overl;
    result().nontrivial = result().committed >= 2 && (result().nsw > p.th.size() * 2);
    after_threads();
    check_history();
    final_checks();
    teardown();
    if (check_leaks) {
        HeapStat h = heap_stat();
        if (h.live_blocks) {
            std::string l;
            heap_report_leaks(l, 8);
            fail("leak", "%zu heap blocks (%zu bytes) are still allocated after all threads have released their state:%s",
                 h.live_blocks, h.live_bytes, l.c_str());
        }
        if (sync_objects())
            fail("leak", "%d mutexes or other synchronisation objects have not been destroyed after all threads have released their state", sync_objects());
        if (locks_held()) fail("leak", "%d locks are still held after all threads have ended", locks_held());
    }
}

// ------------------------------------------------------------------ serializability
namespace {
struct Item {
    TxRun* r;
    Attempt* a;
    bool effect;  // committed
    uint64_t lo, hi;  // real time: serialization point within
};
struct Search {
    TxScenario* sc;
    std::vector<Item> items;
    bool final_check;
    size_t budget = 200000;
    std::set<std::pair<uint64_t, uint64_t>> seen;

    static bool apply_item(TxScenario* sc, Model* m, const Item& it)
    {
        const auto& ops = sc->sp->prog.th[it.r->thread].txs[it.r->tx].ops;
        size_t k = 0;
        size_t n = it.effect ? ops.size() : (it.a->res.empty() ? 0 : (size_t)it.a->res.back().op + 1);
        for (size_t i = 0; i < n; ++i) {
            if (ops[i].code == OP_EXIT && it.a->exits) break;
            if (ops[i].code >= 1000) continue;
            if (k < it.a->res.size() && it.a->res[k].op == (int)i) {
                if (!m->apply(ops[i], &it.a->res[k].v)) return false;
                ++k;
            } else if (!m->apply(ops[i], nullptr))
                return false;
        }
        return true;
    }
    bool dfs(uint64_t done, Model* m)
    {
        if (budget == 0) return true;  // undecided: no alarm
        --budget;
        uint64_t all = (items.size() == 64) ? ~0ull : (1ull << items.size()) - 1;
        if (done == all) {
            std::string why;
            return !final_check || sc->final_ok(m, why);
        }
        if (!seen.insert({done, m->hash()}).second) return false;
        for (size_t i = 0; i < items.size(); ++i) {
            if (done >> i & 1) continue;
            bool ok = true;
            for (size_t k = 0; k < items.size() && ok; ++k)
                if (k != i && !(done >> k & 1) && items[k].hi < items[i].lo) ok = false;
            if (!ok) continue;
            Model* c = m->clone();
            bool r = apply_item(sc, c, items[i]);
            if (r) {
                if (items[i].effect)
                    r = dfs(done | 1ull << i, c);
                else
                    r = dfs(done | 1ull << i, m);
            }
            delete c;
            if (r) return true;
        }
        return false;
    }
};
}  // namespace

std::string TxScenario::history_text()
{
    std::string o;
    for (auto& v : runs)
        for (auto* r : v) {
            for (auto& a : r->att) {
                if (a.outcome != OUT_COMMITTED) continue;
                char b[64];
                snprintf(b, sizeof b, " T%d.%d[%llu-%llu]", r->thread + 1, r->tx, (unsigned long long)a.begin,
                         (unsigned long long)a.end);
                o += b;
            }
        }
    return o;
}

void TxScenario::check_history()
{
    std::vector<Item> com;
    for (auto& v : runs)
        for (auto* r : v)
            for (auto& a : r->att)
                if (a.outcome == OUT_COMMITTED) com.push_back({r, &a, true, a.begin, a.end});
    std::sort(com.begin(), com.end(), [](const Item& x, const Item& y) { return x.a->commit < y.a->commit; });
    Model* m = initial();
    std::vector<Model*> pre;
    bool ok = true;
    size_t bad = 0;
    for (auto& it : com) {
        pre.push_back(m->clone());
        if (!Search::apply_item(this, m, it)) {
            ok = false;
            break;
        }
        ++bad;
    }
    std::string why;
    bool fin = ok && final_ok(m, why);
    pre.push_back(m->clone());
    auto cleanup = [&] {
        for (auto* x : pre) delete x;
        delete m;
    };
    if (!ok || !fin) {
        bool found = false;
        if (com.size() <= 20) {
            Search s;
            s.sc = this;
            s.items = com;
            s.final_check = true;
            Model* i = initial();
            found = s.dfs(0, i);
            delete i;
        }
        if (!found) {
            std::string t = ok ? "" : describe(sp->prog, com[bad].r->thread, com[bad].r->tx, Op());
            char b[160];
            if (!ok)
                snprintf(b, sizeof b, "results of transaction T%d.%d fit no order", com[bad].r->thread + 1, com[bad].r->tx);
            else
                snprintf(b, sizeof b, "final state fits no order: %s", why.c_str());
            cleanup();
            fail(ok ? "final-state" : "not-serializable", "%zu committed transactions have no sequential explanation: %s;%s",
                 com.size(), b, history_text().c_str());
        }
        cleanup();
        return;
    }
    // attempts that were rolled back
    if (check_opacity) {
        for (auto& v : runs)
            for (auto* r : v)
                for (auto& a : r->att) {
                    if (a.outcome == OUT_COMMITTED || a.res.empty()) continue;
                    Item it{r, &a, false, a.begin, a.last};
                    size_t lo = 0, hi = 0;
                    for (size_t i = 0; i < com.size(); ++i) {
                        if (com[i].a->end < a.begin) lo = i + 1;
                        if (com[i].a->commit < a.last) hi = i + 1;
                    }
                    if (hi < lo) hi = lo;
                    bool found = false;
                    for (size_t k = lo; k <= hi && !found; ++k) {
                        Model* c = pre[k]->clone();
                        found = Search::apply_item(this, c, it);
                        delete c;
                    }
                    if (!found && com.size() < 20) {
                        Search s;
                        s.sc = this;
                        s.items = com;
                        s.items.push_back(it);
                        s.final_check = true;
                        Model* i = initial();
                        found = s.dfs(0, i);
                        delete i;
                    }
                    if (!found) {
                        int th = r->thread + 1, tx = r->tx;
                        cleanup();
                        fail("not-opaque", "a rolled-back attempt of transaction T%d.%d has seen a state that no order produces",
                             th, tx);
                    }
                }
    }
    cleanup();
}

}  // namespace sim
