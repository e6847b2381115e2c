// Data per address of the ptrdata module: C19
#include "tx.h"
extern "C" {
#include "picotm/picotm-ptrdata.h"
}
using namespace sim;

namespace {
enum { SET, CLEAR, GET, SSET, SCLEAR, SGET, SCAS, NOPS };
const char* const names[] = {"ptr_set_data", "ptr_clear_data", "ptr_get_data", "ptr_set_shared_data", "ptr_clear_shared_data",
    "ptr_get_shared_data", "ptr_test_and_set_shared_data"};
// keys that share and do not share the directories of the maps
const uint64_t addrs[] = {0x0, 0x1, 0xff, 0x100, 0x101, 0xff00, 0x10000, 0x7f12345678, 0x7f12345679, 0x7f12345778, 0x8000000000000000, 0xffffffffffffffff,
    0x0100000000000000, 0x00ff00ff00ff00ff};
const int NADDR = sizeof addrs / sizeof *addrs;

struct NullModel : Model {
    Model* clone() const override { return new NullModel; }
    bool apply(const Op&, const std::string*) override { return true; }
    uint64_t hash() const override { return 1; }
};
struct Ev {   // an operation on shared data
    uint64_t inv, ret;
    int kind, thread;
    uint64_t a, b, res;
};
struct PtrScenario : TxScenario {
    bool own;              // every thread has addresses of its own; threads release their state at any time
    int nt = 0, running_threads = 0;
    bool ready = false, released[16] = {0};
    std::map<uint64_t, uint64_t> local[16], mine[16];
    std::map<uint64_t, std::vector<Ev>> hist;
    uint64_t ctr = 1;
    explicit PtrScenario(bool o) : own(o) {}

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        nt = r.range(1, 4);
        bool fa = r.chance(0.35);
        if (fa) swarm_faults(r, s.par, {F_OOM}, 0.05);
        if (r.chance(0.15)) s.par.oom_exact = r.range(1, 40);
        s.par.rate[F_CASFAIL] = r.chance(0.5) ? 0.2 : 0;
        int na = r.range(1, 4);
        std::vector<int> set;
        for (int i = 0; i < na; ++i) set.push_back(r.below(NADDR));
        s.prog.cfg = {(int64_t)r.below(2)};   // operations also between transactions
        for (int t = 0; t < nt; ++t) {
            Thread T;
            int nx = r.range(1, 4);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, 5);
                for (int i = 0; i < no; ++i) {
                    Op o;
                    o.code = r.chance(0.45) ? r.range(SET, GET) : r.range(SSET, SCAS);
                    o.a[0] = own ? (int64_t)r.below(NADDR / 4) * 4 + t : r.pick(set);
                    if (own && o.a[0] >= NADDR) o.a[0] = t;
                    o.a[1] = r.below(4);      // 0: the expected data is NULL, 1: the data seen last, 2: any
                    o.a[2] = r.below(6);      // 0: NULL is set
                    o.a[3] = r.below(8);      // 0: before the transaction, 1: release before
                    tx.ops.push_back(o);
                }
                if (r.chance(0.4)) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_ERR_CODE, OP_IRREVOCABLE, OP_DELAY};
                    o.code = codes[r.below(4)];
                    o.a[0] = o.code == OP_DELAY ? r.range(1, 200) : r.range(1, 2);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                T.txs.push_back(tx);
            }
            s.prog.th.push_back(T);
        }
    }
    std::string op_name(const Op& op) override
    {
        char b[120];
        snprintf(b, sizeof b, "%s(0x%llx)", op.code < NOPS ? names[op.code] : "?", (unsigned long long)addrs[op.a[0] % NADDR]);
        return b;
    }
    void setup() override { nt = running_threads = sp->prog.th.size(); }
    Model* initial() override { return new NullModel; }
    uint64_t seen[16] = {0};

    // one operation; false if it reports an error
    bool op_(int t, const Op& op, struct picotm_error* e)
    {
        uint64_t a = addrs[op.a[0] % NADDR];
        const void* p = (const void*)a;
        uint64_t val = op.a[2] ? (uint64_t)(t + 1) << 32 | ctr++ << 4 : 0;
        memset(e, 0, sizeof *e);
        if (op.code <= GET && logging()) logf("  T%d %s(%llx) %llx", t + 1, names[op.code], (unsigned long long)a, (unsigned long long)val);
        switch (op.code) {
        case SET:
            ptr_set_data(p, (void*)val, e);
            if (picotm_error_is_set(e)) return false;
            local[t][a] = val;
            return true;
        case CLEAR:
            ptr_clear_data(p, e);
            if (picotm_error_is_set(e)) return false;
            local[t][a] = 0;
            return true;
        case GET: {
            uint64_t v = (uint64_t)ptr_get_data(p, e);
            if (picotm_error_is_set(e)) return false;
            observe(v);
            if (v != local[t][a])
                fail("local-data", "T%d reads the data %llx of address %llx instead of %llx", t + 1, (unsigned long long)v, (unsigned long long)a,
                     (unsigned long long)local[t][a]);
            return true;
        }
        }
        Ev ev;
        ev.kind = op.code;
        ev.thread = t;
        ev.a = ev.b = ev.res = 0;
        if (op.code == SCAS && op.a[1]) ev.b = op.a[1] == 1 ? seen[t] : own && mine[t].count(a) ? mine[t][a] : op.a[1] == 2 ? seen[t] : (uint64_t)1 << 32 | 16;
        ev.inv = now_step();
        switch (op.code) {
        case SSET: ptr_set_shared_data(p, (void*)val, e); ev.a = val; break;
        case SCLEAR: ptr_clear_shared_data(p, e); break;
        case SGET: ev.res = (uint64_t)ptr_get_shared_data(p, e); break;
        case SCAS: ev.res = ptr_test_and_set_shared_data(p, (void*)ev.b, (void*)val, e); ev.a = val; break;
        }
        ev.ret = now_step();
        if (picotm_error_is_set(e)) return false;
        observe(ev.res);
        if (op.code == SGET) seen[t] = ev.res;
        if (logging()) logf("  T%d %s(%llx) %llx %llx -> %llx", t + 1, names[op.code], (unsigned long long)a, (unsigned long long)ev.a, (unsigned long long)ev.b,
                            (unsigned long long)ev.res);
        if (own) {
            // other threads may or may not have kept the data while this one did not use the module
            if (!mine[t].count(a)) {
                if (!released[t]) mine[t][a] = 0;
                else if (op.code == SGET) mine[t][a] = ev.res;
                else if (op.code == SCAS) {
                    if (ev.res) mine[t][a] = ev.a;
                    return true;
                }
            }
            uint64_t& m = mine[t][a];
            if (op.code == SGET && ev.res != m)
                fail("shared-data", "T%d reads the shared data %llx of address %llx instead of %llx", t + 1, (unsigned long long)ev.res,
                     (unsigned long long)a, (unsigned long long)m);
            if (op.code == SCAS && ev.res != (m == ev.b))
                fail("shared-data", "T%d: test-and-set of address %llx %s", t + 1, (unsigned long long)a, ev.res ? "succeeded" : "failed");
            if (op.code == SCLEAR || op.code == SSET || (op.code == SCAS && ev.res)) m = ev.a;
        } else
            hist[a].push_back(ev);
        return true;
    }
    bool oom()
    {
        for (auto& f : result().faults)
            if (f.fiber == self() && f.kind == F_OOM) return true;
        return false;
    }
    bool is_oom(struct picotm_error* e)
    {
        return (e->status == PICOTM_ERROR_CODE && e->value.error_hint == PICOTM_OUT_OF_MEMORY) || (e->status == PICOTM_ERRNO && e->value.errno_hint == 12);
    }
    void exec(TxRun* r, const Op& op) override
    {
        struct picotm_error e;
        if (!op_(r->thread, op, &e)) {
            if (!oom() || !is_oom(&e)) fail("unexplained-error", "%s reports an error although nothing failed", op_name(op).c_str());
            // the module's user goes on or reports the error
            if (op.a[1] & 1) picotm_recover_from_error(&e);
        }
    }
    void before_tx(int t, int x) override
    {
        if (x == 0) return;
        for (auto& op : sp->prog.th[t].txs[x].ops) {
            if (op.code >= NOPS) continue;
            if (op.a[3] == 1 && (own || nt == 1)) {
                if (logging()) logf("T%d releases its state", t + 1);
                picotm_release();
                local[t].clear();
                mine[t].clear();
                released[t] = true;
                hist.clear();
                return;
            }
            if (op.a[3] == 0 && sp->prog.cfg[0]) {
                struct picotm_error e;
                if (!op_(t, op, &e) && (!oom() || !is_oom(&e)))
                    fail("unexplained-error", "%s reports an error although nothing failed", op_name(op).c_str());
            }
        }
    }
    // The shared data live while a thread uses the module. Thread 0 starts to use it before the others and ends last.
    void thread_begin(int t) override
    {
        if (own) return;
        if (t == 0) {
            // the error is handled like in a module, within a transaction
            struct picotm_error e;
            do {
                memset(&e, 0, sizeof e);
                struct picotm_error* pe = &e;
                picotm_begin
                    ptr_set_shared_data((void*)0x5555, (void*)1, pe);
                picotm_commit
                    picotm_restart();
                picotm_end
            } while (picotm_error_is_set(&e));
            ready = true;
            wake(&ready);
        }
        while (!ready) block_on(&ready);
    }
    void thread_end(int t) override
    {
        --running_threads;
        wake(&running_threads);
        if (own) return;
        while (t == 0 && running_threads) block_on(&running_threads);
    }
    // ------------------------------------------------------------ linearizability of one address
    bool linear(const std::vector<Ev>& v, std::string& done, uint64_t val, std::set<std::pair<std::string, uint64_t>>& memo)
    {
        uint64_t first = ~0ull;
        bool all = true;
        for (size_t i = 0; i < v.size(); ++i)
            if (!done[i]) {
                first = std::min(first, v[i].ret);
                all = false;
            }
        if (all) return true;
        if (!memo.insert({done, val}).second) return false;
        for (size_t i = 0; i < v.size(); ++i) {
            if (done[i] || v[i].inv > first) continue;
            uint64_t n = val;
            switch (v[i].kind) {
            case SSET: case SCLEAR: n = v[i].a; break;
            case SGET:
                if (v[i].res != val) continue;
                break;
            case SCAS:
                if (v[i].res != (val == v[i].b)) continue;
                if (v[i].res) n = v[i].a;
                break;
            }
            done[i] = 1;
            if (linear(v, done, n, memo)) return true;
            done[i] = 0;
        }
        return false;
    }
    void final_checks() override
    {
        for (auto& h : hist) {
            auto& v = h.second;
            std::string done(v.size(), 0);
            std::set<std::pair<std::string, uint64_t>> memo;
            if (linear(v, done, 0, memo)) continue;
            std::string t;
            for (auto& e : v) {
                char b[160];
                snprintf(b, sizeof b, " [T%d %llu-%llu %s %llx %llx = %llx]", e.thread + 1, (unsigned long long)e.inv, (unsigned long long)e.ret, names[e.kind],
                         (unsigned long long)e.b, (unsigned long long)e.a, (unsigned long long)e.res);
                t += b;
            }
            fail("not-linearizable", "no order of the operations on the shared data of address %llx explains their results:%s", (unsigned long long)h.first,
                 t.c_str());
        }
    }
};
Reg r1("ptrdata", [](const RunSpec&) -> Scenario* { return new PtrScenario(false); });
Reg r2("ptrdata_own", [](const RunSpec&) -> Scenario* { return new PtrScenario(true); });
}  // namespace
