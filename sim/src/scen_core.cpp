// Core: module life cycle, errors, irrevocability, progress, module locks (C04-C08)
#include "tx.h"
#include <cerrno>
extern "C" {
#include "picotm/picotm-lib-rwstate.h"
struct picotm_rwlock;
void picotm_rwlock_init(struct picotm_rwlock*);
void picotm_rwlock_uninit(struct picotm_rwlock*);
void picotm_rwlock_try_rdlock(struct picotm_rwlock*, struct picotm_error*);
void picotm_rwlock_try_wrlock(struct picotm_rwlock*, bool, struct picotm_error*);
void picotm_rwlock_unlock(struct picotm_rwlock*);
}
using namespace sim;

namespace {
enum { CRD, CWR, CADD, EVENT, EXTERNAL, NREAD, REGISTER };
const int MAXCELLS = 6, MAXMODS = 4;
enum { CB_BEGIN, CB_PREPARE, CB_APPLY, CB_UNDO, CB_APPLY_EVENT, CB_UNDO_EVENT, CB_FINISH, CB_RELEASE };
const char* const cb_names[] = {"begin", "prepare_commit", "apply", "undo", "apply_event", "undo_event", "finish", "release"};

struct CoreScenario;
CoreScenario* CS;

struct Tr { int cb, mod; int head; uintptr_t tail; bool failed; };
struct ModInst {   // one registered module of one thread
    int kind;      // 0 cell module, 1.. instrumented
    int thread;
    bool registered = false;
    unsigned long id = 0;
    bool released = false;
    struct picotm_module_ops ops;
};
struct ThreadState {
    ModInst mod[MAXMODS + 1];
    std::vector<int> order;          // registered kinds
    std::vector<Tr> trace;           // callbacks since the last boundary
    std::vector<std::pair<int, std::pair<int, uintptr_t>>> log;  // events of the current attempt
    unsigned char* st = nullptr;     // rwstates of the cells, in simulated memory
    std::map<int, int64_t> wb;       // write-back values
    bool active = false;             // between begin and finish
    bool irrev = false;
    bool cb_failed = false;          // a callback reported an error in this attempt
    int cb_fail = 0;                 // kind of that error: 1 error, 2 conflict, 3 revocable
    int cb_where = -1;
    int64_t cb_errno = 0;
    int nfailed = 0;                 // callbacks failed since the last recovery
    int ext = 0;                     // external effects in this attempt
    int nbegun = 0;
};

struct CellModel : Model {
    int64_t v[MAXCELLS];
    Model* clone() const override { return new CellModel(*this); }
    uint64_t hash() const override
    {
        uint64_t h = 1;
        for (auto x : v) h = mix(h, x);
        return h;
    }
    bool apply(const Op& op, const std::string* r) override
    {
        int64_t x = 0;
        if (r) memcpy(&x, r->data(), sizeof x);
        switch (op.code) {
        case CRD: return !r || x == v[op.a[0]];
        case CWR: v[op.a[0]] = op.a[1]; return true;
        case CADD:
            if (r && x != v[op.a[0]]) return false;
            v[op.a[0]] += op.a[1];
            return true;
        }
        return true;
    }
};

struct CoreScenario : TxScenario {
    int kind;   // 4..8
    int ncells = 3, nmods = 2;
    int nullmask = 0;
    bool dirty = false;   // some transaction could not be rolled back: its locks stay held
    char* locks = nullptr;
    int64_t* cells = nullptr;
    std::vector<ThreadState> ts;
    std::set<int> rd[MAXCELLS], wr[MAXCELLS];
    int ext_total = 0, ext_expected = 0;
    explicit CoreScenario(int k) : kind(k) { CS = this; }
    ~CoreScenario() { if (CS == this) CS = nullptr; }

    struct picotm_rwlock* lk(int i) { return (struct picotm_rwlock*)(locks + 8 * i); }
    struct picotm_rwstate* st(int t, int i) { return (struct picotm_rwstate*)(ts[t].st + i); }

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        int nt;
        switch (kind) {
        case 6: nt = r.chance(0.12) ? r.range(14, 22) : r.range(2, 8); break;
        case 8: nt = r.chance(0.1) ? r.range(14, 22) : r.range(2, 6); break;
        default: nt = r.range(1, 4);
        }
        int nc = r.range(1, kind == 6 || kind == 8 ? 3 : 5);
        int nm = kind == 7 ? r.range(1, MAXMODS - 1) : r.range(0, 2);
        int nm_mask = r.chance(0.5) ? 0 : (int)r.below(256);
        if (kind == 7 || kind == 4) {
            if (r.chance(0.5)) swarm_faults(r, s.par, {F_EXIT}, r.chance(0.5) ? 0.05 : 0.01);
        }
        if (kind == 4 || kind == 5) {
            if (r.chance(0.4)) swarm_faults(r, s.par, {F_OOM}, 0.05);
            if (r.chance(0.2)) s.par.oom_exact = r.range(1, 60);
        }
        if ((kind == 4 || kind == 6) && r.chance(0.05)) swarm_faults(r, s.par, {F_PTHREAD}, 0.002);
        s.prog.cfg = {nc, nm, nm_mask};
        int perr = kind == 4 ? 50 : kind == 5 ? 60 : kind == 6 ? 10 : 25;
        for (int t = 0; t < nt; ++t) {
            Thread th;
            int nx = nt > 8 ? r.range(1, 2) : r.range(1, 4);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, nt > 8 ? 3 : 6);
                for (int i = 0; i < no; ++i) {
                    Op o;
                    int c = r.below(100);
                    o.a[0] = r.below(nc);
                    if (nm && c < (kind == 7 ? 50 : 15)) {
                        if (r.chance(0.15)) {
                            o.code = REGISTER;
                            o.a[0] = 1 + r.below(nm);
                        } else {
                            o.code = EVENT;
                            o.a[0] = 1 + r.below(nm);
                            o.a[1] = r.below(5);
                            o.a[2] = r.below(1000);
                        }
                    } else if (c < 60) {
                        o.code = CRD;
                    } else if (c < 80) {
                        o.code = CWR;
                        o.a[1] = r.range(1, 1000);
                        o.a[2] = r.below(2);
                    } else if (c < 96) {
                        o.code = CADD;
                        o.a[1] = r.range(1, 1000);
                        o.a[2] = r.below(2);
                    } else
                        o.code = NREAD;
                    tx.ops.push_back(o);
                }
                if ((int)r.below(100) < perr) {
                    Op o;
                    static const int codes4[] = {OP_ERR_CODE, OP_ERR_ERRNO, OP_ERR_SIGINFO, OP_CONFLICT};
                    static const int codes5[] = {OP_IRREVOCABLE, EXTERNAL, EXTERNAL, OP_ERR_CODE};
                    static const int codes[] = {OP_CONFLICT, OP_ERR_CODE, OP_IRREVOCABLE, OP_CONFLICT};
                    o.code = (kind == 4 ? codes4 : kind == 5 ? codes5 : codes)[r.below(4)];
                    o.a[0] = r.range(1, kind == 6 ? 14 : 3);
                    if (o.code == OP_ERR_CODE || o.code == OP_ERR_ERRNO || o.code == OP_ERR_SIGINFO) o.a[0] = r.range(1, 3);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                    if (kind == 5 && r.chance(0.3)) {
                        Op e;
                        e.code = OP_ERR_ERRNO;
                        e.a[0] = r.range(1, 4);
                        e.a[1] = r.range(1, 20);
                        tx.ops.push_back(e);
                    }
                }
                if (r.chance(kind == 6 ? 0.4 : kind == 8 ? 0.3 : 0.12)) {
                    Op o;
                    o.code = r.chance(0.4) ? OP_DELAY : OP_SLEEP;
                    o.a[0] = o.code == OP_DELAY ? r.range(1, 300) : r.range(200, 2500);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                th.txs.push_back(tx);
            }
            s.prog.th.push_back(th);
        }
    }
    std::string op_name(const Op& op) override
    {
        static const char* n[] = {"read", "write", "add", "event", "external", "number_of_restarts", "register_module"};
        char b[128];
        snprintf(b, sizeof b, "%s(%lld,%lld,%lld)", op.code < 7 ? n[op.code] : "?", (long long)op.a[0], (long long)op.a[1],
                 (long long)op.a[2]);
        return b;
    }

    // ------------------------------------------------------------ callbacks
    // decides whether this callback fails
    bool cb_fault(ThreadState& s, int cb, struct picotm_error* e)
    {
        int64_t v = 0;
        if (!fault(F_EXIT, &v, 1000)) return false;
        s.cb_failed = true;
        ++s.nfailed;
        s.cb_where = cb;
        s.cb_errno = 1 + v % 40;
        s.cb_fail = 1;
        // nobody owns a transaction whose roll-back has failed
        if (cb == CB_UNDO || cb == CB_UNDO_EVENT || cb == CB_FINISH) {
            s.active = s.irrev = false;
            dirty = true;
        }
        if (cb == CB_PREPARE && v % 3 == 1) {
            s.cb_fail = 2;
            picotm_error_set_conflicting(e, nullptr);
        } else if (cb == CB_PREPARE && v % 3 == 2 && !picotm_is_irrevocable()) {
            s.cb_fail = 3;
            picotm_error_set_revocable(e);
        } else
            picotm_error_set_errno(e, (int)s.cb_errno);
        return true;
    }
    void on_cb(ModInst* m, int cb, int head, uintptr_t tail, struct picotm_error* e)
    {
        step();
        int t = m->thread;
        if (logging()) logf("  module %d of T%d: %s %d %lu", m->kind, t + 1, cb_names[cb], head, (unsigned long)tail);
        if (self() != t + 1) fail("wrong-thread", "callback %s of a module of T%d runs in T%d", cb_names[cb], t + 1, self());
        if (m->released) fail("released-module", "callback %s after release", cb_names[cb]);
        ThreadState& s = ts[t];
        bool failed = false;
        if (e && m->kind > 0) failed = cb_fault(s, cb, e);
        s.trace.push_back({cb, m->kind, head, tail, failed});
    }
    void activate(int t, bool irrev)
    {
        for (size_t k = 0; k < ts.size(); ++k)
            if ((int)k != t && ts[k].active && (irrev || ts[k].irrev))
                fail("not-alone", "%s transaction of T%d executes while %s transaction of T%zu is running",
                     irrev ? "irrevocable" : "a", t + 1, ts[k].irrev ? "an irrevocable" : "a", k + 1);
        ts[t].active = true;
        ts[t].irrev = irrev;
    }
    // cell module
    static void cell_apply_event(uint16_t head, uintptr_t tail, void* data, struct picotm_error* e)
    {
        auto* m = (ModInst*)data;
        CS->on_cb(m, CB_APPLY_EVENT, head, tail, nullptr);
        if (head & 0x100) {
            step();
            CS->cells[head & 0xff] = (int64_t)tail;
        }
    }
    static void cell_undo_event(uint16_t head, uintptr_t tail, void* data, struct picotm_error* e)
    {
        auto* m = (ModInst*)data;
        CS->on_cb(m, CB_UNDO_EVENT, head, tail, nullptr);
        if (!(head & 0x100)) {
            step();
            CS->cells[head & 0xff] = (int64_t)tail;
        }
    }
    static void cell_begin(void* data, struct picotm_error* e)
    {
        auto* m = (ModInst*)data;
        CS->on_cb(m, CB_BEGIN, 0, 0, nullptr);
        CS->activate(m->thread, picotm_is_irrevocable());
    }
    static void cell_prepare(void* data, int irrev, struct picotm_error* e)
    {
        auto* m = (ModInst*)data;
        CS->on_cb(m, CB_PREPARE, 0, 0, nullptr);
        CS->check_prepare_arg(m, irrev);
    }
    void check_prepare_arg(ModInst* m, int irrev) {}
    static void cell_apply(void* data, struct picotm_error* e) { CS->on_cb((ModInst*)data, CB_APPLY, 0, 0, nullptr); }
    static void cell_undo(void* data, struct picotm_error* e) { CS->on_cb((ModInst*)data, CB_UNDO, 0, 0, nullptr); }
    static void cell_finish(void* data, struct picotm_error* e)
    {
        auto* m = (ModInst*)data;
        CS->on_cb(m, CB_FINISH, 0, 0, nullptr);
        int t = m->thread;
        for (int i = 0; i < CS->ncells; ++i) {
            CS->rd[i].erase(t);
            CS->wr[i].erase(t);
            picotm_rwstate_unlock(CS->st(t, i), CS->lk(i));
            if (picotm_rwstate_get_status(CS->st(t, i)) != PICOTM_RWSTATE_UNLOCKED)
                fail("lock-state", "lock %d is held after unlock", i);
        }
        CS->ts[t].wb.clear();
        CS->ts[t].active = false;
        CS->ts[t].irrev = false;
    }
    static void any_release(void* data)
    {
        auto* m = (ModInst*)data;
        CS->on_cb(m, CB_RELEASE, 0, 0, nullptr);
        m->released = true;
    }
    static void mod_begin(void* d, struct picotm_error* e) { CS->on_cb((ModInst*)d, CB_BEGIN, 0, 0, e); }
    static void mod_prepare(void* d, int, struct picotm_error* e) { CS->on_cb((ModInst*)d, CB_PREPARE, 0, 0, e); }
    static void mod_apply(void* d, struct picotm_error* e) { CS->on_cb((ModInst*)d, CB_APPLY, 0, 0, e); }
    static void mod_undo(void* d, struct picotm_error* e) { CS->on_cb((ModInst*)d, CB_UNDO, 0, 0, e); }
    static void mod_finish(void* d, struct picotm_error* e) { CS->on_cb((ModInst*)d, CB_FINISH, 0, 0, e); }
    static void mod_apply_event(uint16_t h, uintptr_t t, void* d, struct picotm_error* e) { CS->on_cb((ModInst*)d, CB_APPLY_EVENT, h, t, e); }
    static void mod_undo_event(uint16_t h, uintptr_t t, void* d, struct picotm_error* e) { CS->on_cb((ModInst*)d, CB_UNDO_EVENT, h, t, e); }

    void ensure_module(TxRun* r, int kind_)
    {
        ThreadState& s = ts[r->thread];
        ModInst& m = s.mod[kind_];
        if (m.registered) return;
        m.kind = kind_;
        m.thread = r->thread;
        memset(&m.ops, 0, sizeof m.ops);
        if (kind_ == 0) {
            m.ops = {cell_begin, cell_prepare, cell_apply, cell_undo, cell_apply_event, cell_undo_event, cell_finish, any_release};
        } else {
            m.ops = {mod_begin, mod_prepare, mod_apply, mod_undo, mod_apply_event, mod_undo_event, mod_finish, any_release};
            int mask = (int)(nullmask * (uint64_t)(kind_ * 2 + 1) >> 1);
            if (mask & 1) m.ops.begin = nullptr;
            if (mask & 2) m.ops.prepare_commit = nullptr;
            if (mask & 4) m.ops.apply = nullptr;
            if (mask & 8) m.ops.undo = nullptr;
            if (mask & 16) m.ops.finish = nullptr;
            if (mask & 32) m.ops.release = nullptr;
            if ((mask & 192) == 64) m.ops.apply_event = nullptr;
            if ((mask & 192) == 128) m.ops.undo_event = nullptr;
        }
        struct picotm_error e;
        memset(&e, 0, sizeof e);
        unsigned long id = picotm_register_module(&m.ops, &m, &e);
        if (picotm_error_is_set(&e)) picotm_recover_from_error(&e);
        m.registered = true;
        m.id = id;
        for (int k : s.order)
            if (s.mod[k].id == id) fail("module-id", "two modules of a thread have been given the same number %lu", id);
        s.order.push_back(kind_);
    }
    void append(TxRun* r, int kind_, int head, uintptr_t tail)
    {
        ThreadState& s = ts[r->thread];
        struct picotm_error e;
        memset(&e, 0, sizeof e);
        picotm_append_event(s.mod[kind_].id, (uint16_t)head, tail, &e);
        if (picotm_error_is_set(&e)) picotm_recover_from_error(&e);
        s.log.push_back({kind_, {head, tail}});
    }

    // ------------------------------------------------------------ life cycle
    bool has(int kind_, int t, int cb)
    {
        auto& o = ts[t].mod[kind_].ops;
        switch (cb) {
        case CB_BEGIN: return o.begin;
        case CB_PREPARE: return o.prepare_commit;
        case CB_APPLY: return o.apply;
        case CB_UNDO: return o.undo;
        case CB_FINISH: return o.finish;
        case CB_APPLY_EVENT: return o.apply_event;
        case CB_UNDO_EVENT: return o.undo_event;
        }
        return false;
    }
    std::string trace_text(const std::vector<Tr>& v)
    {
        std::string s;
        for (auto& x : v) {
            char b[80];
            snprintf(b, sizeof b, " %s(m%d%s)%s", cb_names[x.cb], x.mod,
                     x.cb == CB_APPLY_EVENT || x.cb == CB_UNDO_EVENT ? ("," + std::to_string(x.head)).c_str() : "",
                     x.failed ? "!" : "");
            s += b;
        }
        return s;
    }
    // consumes one round of module callbacks 'cb': each module once, in any order. Stops after a failed
    // callback and returns false.
    bool round(int t, std::vector<Tr>& v, size_t& p, int cb, const std::vector<int>& mods, const char* where)
    {
        std::set<int> want;
        for (int k : mods)
            if (has(k, t, cb)) want.insert(k);
        while (!want.empty()) {
            if (p >= v.size() || v[p].cb != cb || !want.count(v[p].mod))
                fail("life-cycle", "%s: expected %s of %zu modules of T%d, got%s", where, cb_names[cb], want.size(), t + 1,
                     trace_text(std::vector<Tr>(v.begin() + std::min(p, v.size()), v.end())).c_str());
            want.erase(v[p].mod);
            if (v[p++].failed) return false;
        }
        return true;
    }
    bool events(int t, std::vector<Tr>& v, size_t& p, bool undo, const char* where)
    {
        auto& l = ts[t].log;
        for (size_t i = 0; i < l.size(); ++i) {
            auto& e = undo ? l[l.size() - 1 - i] : l[i];
            if (!has(e.first, t, undo ? CB_UNDO_EVENT : CB_APPLY_EVENT)) continue;
            if (p >= v.size() || v[p].cb != (undo ? CB_UNDO_EVENT : CB_APPLY_EVENT) || v[p].mod != e.first ||
                v[p].head != e.second.first || v[p].tail != e.second.second)
                fail("event-order", "%s: operation %zu of %zu of T%d (module %d, %d) is not %s in order; got%s", where, i, l.size(),
                     t + 1, e.first, e.second.first, undo ? "undone" : "applied",
                     trace_text(std::vector<Tr>(v.begin() + std::min(p, v.size()), v.end())).c_str());
            if (v[p++].failed) return false;
        }
        return true;
    }
    std::vector<int> begun;   // scratch

    // checks the callbacks since the last boundary. 'end': 0 next attempt has begun, 1 committed, 2 in recovery
    void boundary(TxRun* r, int end, bool nonrec)
    {
        int t = r->thread;
        ThreadState& s = ts[t];
        auto& v = s.trace;
        size_t p = 0;
        bool had = s.nbegun > 0;   // an attempt was running before
        bool complete = true;
        if (had) {
            if (end == 1) {
                bool ok = round(t, v, p, CB_PREPARE, s.order, "commit") && round(t, v, p, CB_APPLY, s.order, "commit") &&
                          events(t, v, p, false, "commit") && round(t, v, p, CB_FINISH, s.order, "commit");
                if (!ok) fail("life-cycle", "T%d committed although a callback failed:%s", t + 1, trace_text(v).c_str());
            } else {
                if (p < v.size() && v[p].cb == CB_PREPARE) {
                    if (round(t, v, p, CB_PREPARE, s.order, "commit")) {
                        // after the point of no return
                        complete = round(t, v, p, CB_APPLY, s.order, "commit") && events(t, v, p, false, "commit") &&
                                   round(t, v, p, CB_FINISH, s.order, "commit");
                        if (complete) fail("life-cycle", "T%d was rolled back after a complete commit:%s", t + 1, trace_text(v).c_str());
                        if (end == 0 || !nonrec)
                            fail("error-kind", "an error while committed effects are applied is reported as recoverable (T%d):%s",
                                 t + 1, trace_text(v).c_str());
                    }
                }
                if (complete) {
                    bool ok = round(t, v, p, CB_UNDO, s.order, "roll-back") && events(t, v, p, true, "roll-back") &&
                              round(t, v, p, CB_FINISH, s.order, "roll-back");
                    if (!ok) {
                        complete = false;
                        if (end == 0 || !nonrec)
                            fail("error-kind", "an error during roll-back is reported as recoverable (T%d):%s", t + 1,
                                 trace_text(v).c_str());
                    }
                }
            }
        }
        if (complete && end == 0) {
            bool ok = round(t, v, p, CB_BEGIN, s.order, "begin");
            if (!ok) fail("life-cycle", "T%d executes although a module failed to begin", t + 1);
        }
        if (complete && end == 2 && p < v.size() && v[p].cb == CB_BEGIN) {
            // begin has failed
            std::vector<int> b;
            bool f = false;
            while (p < v.size() && v[p].cb == CB_BEGIN) {
                f = v[p].failed;
                if (!f) b.push_back(v[p].mod);
                ++p;
            }
            for (int k : s.order)
                if (!has(k, t, CB_BEGIN)) {
                    // modules without begin function count as begun if they come before the failed one
                }
            if (!f) fail("life-cycle", "T%d is in its recovery phase although all modules began:%s", t + 1, trace_text(v).c_str());
            // clean-up of the modules that began
            std::set<int> want(b.begin(), b.end()), got;
            while (p < v.size() && v[p].cb == CB_FINISH) {
                if (!got.insert(v[p].mod).second) fail("life-cycle", "module %d is cleaned up twice", v[p].mod);
                if (v[p].failed && !nonrec) fail("error-kind", "a failing clean-up is reported as recoverable");
                if (v[p].failed) complete = false;
                ++p;
            }
            if (complete)
                for (int k : want)
                    if (has(k, t, CB_FINISH) && !got.count(k))
                        fail("life-cycle", "module %d has begun but is not cleaned up after another module failed:%s", k,
                             trace_text(v).c_str());
            for (int k : got)
                if (!want.count(k) && has(k, t, CB_BEGIN)) fail("life-cycle", "module %d is cleaned up without begin", k);
        }
        if (complete && p != v.size())
            fail("life-cycle", "unexpected callbacks in T%d:%s", t + 1, trace_text(std::vector<Tr>(v.begin() + p, v.end())).c_str());
        v.clear();
        s.log.clear();
        s.nbegun = end == 0;
    }

    void setup() override
    {
        CS = this;
        ncells = sp->prog.cfg[0];
        nmods = sp->prog.cfg[1];
        nullmask = sp->prog.cfg[2];
        locks = (char*)heap_alloc(8 * MAXCELLS);
        memset(locks, 0, 8 * MAXCELLS);
        cells = (int64_t*)heap_alloc(8 * MAXCELLS);
        for (int i = 0; i < MAXCELLS; ++i) {
            picotm_rwlock_init(lk(i));
            cells[i] = 100 + i;
        }
        ts.clear();
        ts.resize(sp->prog.th.size());
        for (auto& s : ts) {
            s.st = (unsigned char*)heap_alloc(16);
            for (int i = 0; i < MAXCELLS; ++i) picotm_rwstate_init((struct picotm_rwstate*)(s.st + i));
        }
    }
    Model* initial() override
    {
        auto* m = new CellModel;
        for (int i = 0; i < MAXCELLS; ++i) m->v[i] = 100 + i;
        return m;
    }
    bool matches_final(Model* m, std::string& why) override
    {
        for (int i = 0; i < MAXCELLS; ++i)
            if (((CellModel*)m)->v[i] != cells[i]) {
                why = "cell " + std::to_string(i) + " is " + std::to_string(cells[i]);
                return false;
            }
        return true;
    }
    void on_begin(TxRun* r) override
    {
        ThreadState& s = ts[r->thread];
        boundary(r, 0, false);
        s.nbegun = 1;
        s.cb_failed = false;
        s.cb_fail = 0;
        s.nfailed = 0;
        s.ext = 0;
        if (!s.mod[0].registered) activate(r->thread, picotm_is_irrevocable());
        ensure_module(r, 0);
        if (!s.active) fail("life-cycle", "T%d executes without begin", r->thread + 1);
    }
    void on_attempt_end(TxRun* r) override
    {
        ThreadState& s = ts[r->thread];
        Attempt& a = r->cur();
        if (a.outcome == OUT_ABORTED) {
            if (a.irrevocable && s.cb_fail < 2 && !dirty)
                fail("irrevocable-aborted", "irrevocable attempt %d of T%d.%d was rolled back and restarted", r->nattempts,
                     r->thread + 1, r->tx);
            if (s.ext) fail("external-effect", "an attempt with an external effect was rolled back and restarted");
        }
    }
    void on_committed(TxRun* r) override
    {
        boundary(r, 1, false);
        ThreadState& s = ts[r->thread];
        int n = 0;
        for (auto& o : sp->prog.th[r->thread].txs[r->tx].ops) n += o.code == EXTERNAL;
        if (s.ext != n) fail("external-effect", "%d external effects in committed T%d.%d instead of %d", s.ext, r->thread + 1, r->tx, n);
        if (s.active) fail("life-cycle", "T%d committed without clean-up", r->thread + 1);
    }
    void on_recovery(TxRun* r) override
    {
        bool nonrec = picotm_error_is_non_recoverable();
        ThreadState& s = ts[r->thread];
        bool failed_cb = false;
        int where = -1;
        for (auto& x : s.trace)
            if (x.failed) {
                failed_cb = true;
                where = x.cb;
            }
        boundary(r, 2, nonrec);
        if (nonrec && !failed_cb && !result().fired[F_PTHREAD])
            fail("error-kind", "error is reported as non-recoverable although no module failed");
        if (nonrec && failed_cb && (where == CB_BEGIN || where == CB_PREPARE))
            fail("error-kind", "error in %s is reported as non-recoverable", cb_names[where]);
        // an error during clean-up of another error may replace that one
        if (failed_cb && s.nfailed == 1 && s.cb_fail == 1 && !result().fired[F_OOM] && !result().fired[F_PTHREAD] && !r->raised) {
            if (picotm_error_status() != PICOTM_ERRNO || picotm_error_as_errno() != s.cb_errno)
                fail("wrong-error", "recovery phase reports status %d value %d instead of the module's errno %lld",
                     (int)picotm_error_status(), picotm_error_as_errno(), (long long)s.cb_errno);
        }
        if (!nonrec) {
            if (s.active && s.mod[0].registered) fail("life-cycle", "T%d is in its recovery phase without roll-back", r->thread + 1);
            s.active = false;
            s.irrev = false;
        }
        s.cb_failed = false;
    }
    bool expected_error(TxRun* r) override { return ts[r->thread].cb_failed; }

    void acquired(int t, int i, bool w)
    {
        for (int o : wr[i])
            if (o != t) fail("lock-exclusion", "T%d holds lock %d for %s while T%d holds it for writing", t + 1, i, w ? "writing" : "reading", o + 1);
        if (w)
            for (int o : rd[i])
                if (o != t) fail("lock-exclusion", "T%d holds lock %d for writing while T%d holds it for reading", t + 1, i, o + 1);
        (w ? wr : rd)[i].insert(t);
    }
    void lock(TxRun* r, int i, bool w)
    {
        int t = r->thread;
        struct picotm_error e;
        memset(&e, 0, sizeof e);
        auto before = picotm_rwstate_get_status(st(t, i));
        if (w)
            picotm_rwstate_try_wrlock(st(t, i), lk(i), &e);
        else
            picotm_rwstate_try_rdlock(st(t, i), lk(i), &e);
        if (picotm_error_is_set(&e)) {
            if (picotm_rwstate_get_status(st(t, i)) != before) fail("lock-state", "failed acquisition changed the state of lock %d", i);
            if (before == PICOTM_RWSTATE_WRLOCKED || (before == PICOTM_RWSTATE_RDLOCKED && !w))
                fail("lock-state", "acquiring lock %d again failed", i);
            if (picotm_error_is_conflicting(&e)) {
                // somebody else must hold the lock or wait for it, or must have done so during the call
            }
            if (picotm_is_irrevocable() && !dirty && !result().fired[F_PTHREAD])
                fail("lock-state", "irrevocable T%d cannot acquire lock %d", t + 1, i);
            picotm_recover_from_error(&e);
        }
        acquired(t, i, w);
    }
    void exec(TxRun* r, const Op& op) override
    {
        int t = r->thread;
        ThreadState& s = ts[t];
        switch (op.code) {
        case CRD: {
            int i = op.a[0];
            lock(r, i, false);
            step();
            int64_t v = s.wb.count(i) ? s.wb[i] : cells[i];
            rec_i(r, v);
            break;
        }
        case CWR: case CADD: {
            int i = op.a[0];
            int64_t v = op.a[1];
            if (op.code == CADD) {
                lock(r, i, false);
                step();
                int64_t old = s.wb.count(i) ? s.wb[i] : cells[i];
                rec_i(r, old);
                v += old;
            }
            lock(r, i, true);
            if (op.a[2] || s.wb.count(i)) {
                append(r, 0, i | 0x100, (uintptr_t)v);
                s.wb[i] = v;
            } else {
                append(r, 0, i, (uintptr_t)cells[i]);
                step();
                cells[i] = v;
            }
            break;
        }
        case REGISTER:
            ensure_module(r, op.a[0]);
            break;
        case EVENT:
            ensure_module(r, op.a[0]);
            append(r, op.a[0], op.a[1], op.a[2]);
            break;
        case EXTERNAL:
            if (!picotm_is_irrevocable()) picotm_irrevocable();
            ++s.ext;
            ++ext_total;
            break;
        case NREAD: {
            unsigned long n = picotm_number_of_restarts();
            if (!faults_of_thread(self()) && (long)n != r->nattempts - 1)
                fail("restart-count", "picotm_number_of_restarts() is %lu in attempt %d", n, r->nattempts);
            break;
        }
        }
    }
    void thread_end(int t) override
    {
        if (ts[t].trace.size()) fail("life-cycle", "callbacks outside of a transaction:%s", trace_text(ts[t].trace).c_str());
    }
    void final_checks() override
    {
        for (size_t t = 0; t < ts.size(); ++t) {
            for (auto& m : ts[t].mod)
                if (m.registered && m.ops.release && !m.released) fail("life-cycle", "module %d of T%zu is not released", m.kind, t + 1);
            for (auto& x : ts[t].trace)
                if (x.cb != CB_RELEASE) fail("life-cycle", "callbacks outside of a transaction:%s", trace_text(ts[t].trace).c_str());
        }
        // all locks are free again
        for (int i = 0; i < ncells; ++i)
            for (int k = 0; k < 8; ++k)
                if (locks[8 * i + k] != 0)
                    fail("lock-state", "lock %d is not in its initial state at the end (byte %d is %02x)", i, k,
                         (unsigned char)locks[8 * i + k]);
    }
};
#define R(n, k) Reg r##k(n, [](const RunSpec&) -> Scenario* { return new CoreScenario(k); });
R("core_errors", 4)
R("core_irrevocable", 5)
R("core_progress", 6)
R("core_modules", 7)
R("core_locks", 8)
}  // namespace
