// Deterministic simulator: fibers, scheduler, clock, heap, pthreads, tsan hooks, emulated TLS.
#include "sim.h"
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <cerrno>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" {
extern char __start_pt_data[] __attribute__((weak));
extern char __stop_pt_data[] __attribute__((weak));
extern char __start_pt_bss[] __attribute__((weak));
extern char __stop_pt_bss[] __attribute__((weak));
void sim_ctx_switch(void** save_sp, void* load_sp);
}

namespace sim {

const char* const fault_names[F_NKINDS] = {"oom", "eintr", "syserr", "short", "spurious_wakeup",
                                           "weak_cas_failure", "clock_jump", "pthread_error", "callback_error"};

uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 29)) * 0xbf58476d1ce4e5b9ull;
    return z ^ (z >> 32);
}

// ------------------------------------------------------------------ state
enum FState { FS_UNUSED, FS_RUN, FS_BLOCKED, FS_DONE };
static const int MAXF = 48;
static const uintptr_t STACK_BASE = 0x300000000000ull;
static const size_t STACK_STRIDE = 0x100000, STACK_SIZE = 0x40000, STACK_CLEAR = 0xa000;
static const int NTLS = 64;

struct Vol { uint64_t lstep; int to; };

struct Fiber {
    int id;
    FState st;
    void* sp;
    std::function<void()>* fn;
    uint64_t lsteps;
    const void* obj;
    uint64_t deadline;
    bool timed_out;
    int err;
    int prio;
    uint32_t fidx[F_NKINDS];
    char* tls[NTLS];
    size_t tls_used;
    size_t vpos, fpos;
    std::vector<Vol> vol, forced;  // explicit schedule
    char* stack;
    void* cpp_eh[2];
    uint64_t vc[MAXF];
    bool cond;                     // waits for a condition variable, until the deadline at most
    uint64_t async_at;             // asynchronous signal once the fiber has done this many steps; 0 none
    int async_sig;
};

struct FKey {
    int fiber, kind;
    uint32_t idx;
    bool operator<(const FKey& o) const
    {
        if (fiber != o.fiber) return fiber < o.fiber;
        if (kind != o.kind) return kind < o.kind;
        return idx < o.idx;
    }
};

static struct {
    bool init;
    Fiber f[MAXF];
    int nf;
    Fiber* cur;
    void* main_sp;
    jmp_buf env;
    const RunSpec* spec;
    RunResult* res;
    Rng rng;
    int64_t countdown;
    uint64_t steps, ns, hash, sig;
    int last_atomic;
    int nopreempt;
    bool async_armed;
    void (*async_hook)(int);
    void (*exit_hook)();
    void (*idle_hook)(int, uint64_t);
    bool faults_on;
    int nfaults;
    uint32_t alloc_count;
    int failed_allocs[64];
    uint64_t cur_burst;
    int stall;
    uint64_t stall_until;
    std::map<FKey, int64_t> fx;
    bool keep_log;
    bool done;
    int tls_next;
    int locks;
    bool syncing_only;
    uint64_t fair_from;
    uint64_t ns_step;
} S;

static char* tls_area;  // MAXF * TLS_SIZE
static const size_t TLS_SIZE = 65536;
static const uintptr_t TLS_BASE = 0x2f0000000000ull;

static char* snap_data;
static char* snap_bss;

static std::map<std::string, ScenarioFactory>& factories()
{
    static std::map<std::string, ScenarioFactory> m;
    return m;
}
void register_scenario(const char* n, ScenarioFactory f) { factories()[n] = f; }
Scenario* make_scenario(const RunSpec& sp)
{
    auto it = factories().find(sp.scenario);
    if (it == factories().end()) {
        fprintf(stderr, "unknown scenario %s\n", sp.scenario.c_str());
        exit(2);
    }
    return it->second(sp);
}
std::string Scenario::describe(const Prog&, int, int, const Op& op)
{
    char b[160];
    snprintf(b, sizeof b, "op%d(%lld,%lld,%lld,%lld,%lld)", op.code, (long long)op.a[0], (long long)op.a[1],
             (long long)op.a[2], (long long)op.a[3], (long long)op.a[4]);
    return b;
}

// ------------------------------------------------------------------ failing, logging
void logf(const char* fmt, ...)
{
    if (!S.keep_log) return;
    char b[1024];
    int n = snprintf(b, sizeof b, "[%8llu %10.6fs T%d] ", (unsigned long long)S.steps, S.ns / 1e9,
                     S.cur ? S.cur->id : -1);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b + n, sizeof b - n, fmt, ap);
    va_end(ap);
    if (S.res->log.size() < 20000) S.res->log.push_back(b);
}
bool logging() { return S.keep_log; }

void fail(const char* cls, const char* fmt, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    S.res->violated = true;
    S.res->cls = cls;
    S.res->what = b;
    uint64_t h = 0;
    for (const char* p = cls; *p; ++p) h = h * 131 + *p;
    S.hash = mix(S.hash, h);
    logf("VIOLATION %s: %s", cls, b);
    _longjmp(S.env, 1);
}
void end_run(const char* why)
{
    S.res->aborted = true;
    logf("run ended: %s", why);
    _longjmp(S.env, 1);
}
void observe(uint64_t v) { S.hash = mix(S.hash, v); }
int failed_allocs(int fiber) { return S.failed_allocs[fiber & 63]; }
RunResult& result() { return *S.res; }
const RunSpec& spec() { return *S.spec; }
int self() { return S.cur ? S.cur->id : -1; }
bool on_fiber() { return S.cur != nullptr; }
uint64_t now_step() { return S.steps; }
uint64_t now_ns() { return S.ns; }
void faults_enabled(bool on) { S.faults_on = on; }
int fiber_count() { return S.nf; }
static int dummy_errno;
int& fiber_errno() { return S.cur ? S.cur->err : dummy_errno; }
// synchronisation objects that have been initialised, but not destroyed
static std::vector<const void*> sync_objs;
static void sync_add(const void* p) { sync_objs.push_back(p); }
static void sync_remove(const void* p)
{
    for (size_t i = sync_objs.size(); i-- > 0;)
        if (sync_objs[i] == p) {
            sync_objs.erase(sync_objs.begin() + i);
            return;
        }
}
int sync_objects() { return sync_objs.size(); }
int locks_held() { return S.locks; }

// ------------------------------------------------------------------ scheduler
static int64_t draw_burst()
{
    double m = S.spec->par.mean_burst;
    double u = ((S.rng.next() >> 11) + 1) * 0x1.0p-53;
    double v = -__builtin_log(u) * m;
    if (v > 1e6) v = 1e6;
    return 1 + (int64_t)v;
}

static bool in_fair() { return S.steps >= S.fair_from; }

// counts a step; the fair phase begins at exactly the same step in a search and in its replay
static inline void bump()
{
    if (__builtin_expect(++S.steps == S.fair_from, 0)) {
        S.countdown = 1;
        if (S.ns_step < 20000) S.ns_step = 20000;  // waiting times pass quickly now
    }
}

static void set_countdown()
{
    if (in_fair()) {
        S.countdown = 400;
        return;
    }
    if (S.spec->is_explicit) {
        Fiber* f = S.cur;
        while (f->vpos < f->vol.size() && f->vol[f->vpos].lstep <= f->lsteps) ++f->vpos;
        if (f->vpos < f->vol.size())
            S.countdown = (int64_t)(f->vol[f->vpos].lstep - f->lsteps);
        else
            S.countdown = 1ll << 40;
    } else {
        S.countdown = draw_burst();
    }
    if (S.countdown < 1) S.countdown = 1;
}

void set_idle_hook(void (*h)(int, uint64_t)) { S.idle_hook = h; }

static void expire_deadlines()
{
    for (int i = 0; i < S.nf; ++i) {
        Fiber& f = S.f[i];
        if (f.st == FS_BLOCKED && f.deadline && f.deadline <= S.ns) {
            f.st = FS_RUN;
            f.timed_out = true;
        }
    }
}

static int candidates(int* c)
{
    int n = 0;
    for (int i = 0; i < S.nf; ++i)
        if (S.f[i].st == FS_RUN) c[n++] = i;
    return n;
}

static void check_progress()
{
    if (S.steps > S.spec->par.max_steps) {
        std::string st;
        char b[64];
        for (int i = 0; i < S.nf; ++i) {
            snprintf(b, sizeof b, " T%d:%s", i,
                     S.f[i].st == FS_RUN ? "running" : S.f[i].st == FS_BLOCKED ? "blocked" : "done");
            st += b;
        }
        fail("no-progress", "not finished after %llu steps (fair since %llu, no faults since %llu):%s",
             (unsigned long long)S.steps, (unsigned long long)S.spec->par.fair_from,
             (unsigned long long)S.spec->par.fault_stop, st.c_str());
    }
}

// Chooses who runs next. forced: the current fiber cannot or does not want to continue.
static int choose(bool forced)
{
    int c[MAXF];
    expire_deadlines();
    int n = candidates(c);
    if (!n) {
        uint64_t best = 0;
        for (int i = 0; i < S.nf; ++i)
            if (S.f[i].st == FS_BLOCKED && S.f[i].deadline && (!best || S.f[i].deadline < best))
                best = S.f[i].deadline;
        if (!best) {
            std::string st;
            char b[96];
            for (int i = 0; i < S.nf; ++i)
                if (S.f[i].st == FS_BLOCKED) {
                    snprintf(b, sizeof b, " T%d waits for %p", i, S.f[i].obj);
                    st += b;
                }
            fail("deadlock", "all threads are blocked:%s", st.c_str());
        }
        if (S.idle_hook)
            for (int i = 0; i < S.nf; ++i)
                if (S.f[i].st == FS_BLOCKED && S.f[i].deadline == best && S.f[i].cond) S.idle_hook(i, best - S.ns);
        S.ns = best;
        expire_deadlines();
        n = candidates(c);
    }
    check_progress();
    int cur = S.cur->id;
    if (in_fair()) {
        for (int i = 0; i < n; ++i)
            if (c[i] > cur) return c[i];
        return c[0];
    }
    int pick = -1;
    if (S.spec->is_explicit) {
        Fiber* f = S.cur;
        if (forced) {
            while (f->fpos < f->forced.size() && f->forced[f->fpos].lstep < f->lsteps) ++f->fpos;
            if (f->fpos < f->forced.size() && f->forced[f->fpos].lstep == f->lsteps) {
                int t = f->forced[f->fpos++].to;
                for (int i = 0; i < n; ++i)
                    if (c[i] == t) pick = t;
            }
            if (pick < 0) {
                pick = c[0];
                for (int i = 0; i < n; ++i)
                    if (c[i] > cur) {
                        pick = c[i];
                        break;
                    }
            }
        } else {
            pick = cur;
            if (f->vpos < f->vol.size() && f->vol[f->vpos].lstep == f->lsteps) {
                int t = f->vol[f->vpos++].to;
                for (int i = 0; i < n; ++i)
                    if (c[i] == t) pick = t;
            }
        }
        return pick;
    }
    // search mode
    if (n == 1) return c[0];
    if (S.stall >= 0 && S.steps > S.stall_until) S.stall = -1;
    if (S.stall < 0 && S.rng.below(400) == 0) {
        S.stall = c[S.rng.below(n)];
        S.stall_until = S.steps + 1 + S.rng.below(20000);
    }
    if (S.spec->par.policy == 1) {
        if (!forced || S.cur_burst > 3000) S.cur->prio = -(int)(S.steps & 0x3fffffff);
        int best = -1;
        for (int i = 0; i < n; ++i)
            if (c[i] != S.stall && !(forced && c[i] == cur) && (best < 0 || S.f[c[i]].prio > S.f[best].prio))
                best = c[i];
        if (best < 0) best = c[S.rng.below(n)];
        return best;
    }
    for (int tries = 0; tries < 8; ++tries) {
        pick = c[S.rng.below(n)];
        if (pick == S.stall) continue;
        if (pick == cur) continue;
        break;
    }
    return pick;
}

static void vc_switch(Fiber*) {}

static void go(int to, bool forced)
{
    Fiber* from = S.cur;
    if (to != from->id) {
        S.cur_burst = 0;
        S.res->nsw++;
        if (!in_fair()) {
            S.res->sw.push_back({forced ? from->id | 0x100 : from->id, from->lsteps, to});
        }
        S.hash = mix(S.hash, (uint64_t)to << 32 | from->id | (uint64_t)from->lsteps << 40);
        S.cur = &S.f[to];
        set_countdown();
        sim_ctx_switch(&from->sp, S.cur->sp);
        // back in 'from' (S.cur was set by whoever switched to us)
        vc_switch(from);
    } else {
        if (forced && !in_fair()) S.res->sw.push_back({from->id | 0x100, from->lsteps, to});
        set_countdown();
    }
}

static void preempt()
{
    if (S.nopreempt > 0) {
        S.countdown = 1;
        return;
    }
    int to = choose(false);
    go(to, false);
}

static void deliver_async(Fiber* f)
{
    if (!f->async_at || f->lsteps < f->async_at || S.nopreempt > 0 || !S.async_hook) return;
    f->async_at = 0;
    f->cond = false;
    S.async_hook(f->async_sig);
}
void async_signal(int fiber, int sig, uint64_t delay)
{
    Fiber* f = &S.f[fiber];
    f->async_sig = sig;
    f->async_at = f->lsteps + delay + 1;
    S.async_armed = true;
}
void set_exit_hook(void (*h)()) { S.exit_hook = h; }
void set_async_hook(void (*h)(int)) { S.async_hook = h; }

static inline void do_step()
{
    Fiber* f = S.cur;
    if (!f) return;
    bump();
    f->lsteps++;
    S.cur_burst++;
    S.ns += S.ns_step;
    if (--S.countdown <= 0) preempt();
    if (__builtin_expect(S.async_armed, 0)) deliver_async(f);
}
// plain memory accesses: in the sync-only policy they take time but are no preemption points
static inline void do_step_plain()
{
    Fiber* f = S.cur;
    if (!f) return;
    if (S.syncing_only) {
        bump();
        S.ns += S.ns_step;
        if (__builtin_expect(S.steps > S.fair_from, 0)) do_step();
        return;
    }
    do_step();
}

void step(int w)
{
    while (w-- > 0) do_step();
}
void yield_now()
{
    if (!S.cur || S.nopreempt > 0) return;
    do_step();
    int to = choose(true);
    go(to, true);
}
void no_preempt(int d) { S.nopreempt += d; }

void block_on(const void* obj, uint64_t deadline)
{
    Fiber* f = S.cur;
    f->obj = obj;
    f->deadline = deadline;
    f->timed_out = false;
    f->st = FS_BLOCKED;
    do {
        bump();
        int to = choose(true);
        if (to == f->id) {
            if (!in_fair()) S.res->sw.push_back({f->id | 0x100, f->lsteps, to});
            set_countdown();
            break;
        }
        go(to, true);
    } while (f->st == FS_BLOCKED);
    f->deadline = 0;
    f->obj = nullptr;
}
void wake(const void* obj)
{
    for (int i = 0; i < S.nf; ++i)
        if (S.f[i].st == FS_BLOCKED && S.f[i].obj == obj) {
            S.f[i].st = FS_RUN;
            S.f[i].timed_out = false;
        }
}

static void fiber_main()
{
    Fiber* f = S.cur;
    (*f->fn)();
    f->st = FS_DONE;
    wake(&S.nf);
    if (f->id == 0) {
        S.done = true;
        void* dummy;
        S.cur = nullptr;
        sim_ctx_switch(&dummy, S.main_sp);
    }
    while (true) {
        int to = choose(true);
        go(to, true);
    }
}

static void init_fiber(Fiber* f)
{
    uintptr_t top = (uintptr_t)f->stack + STACK_SIZE;
    memset((void*)(top - STACK_CLEAR), 0x5a, STACK_CLEAR);
    uintptr_t* sp = (uintptr_t*)(top - 64);
    *--sp = 0;                       // return address of fiber_main (alignment)
    *--sp = (uintptr_t)&fiber_main;  // return address of the switch
    for (int i = 0; i < 6; ++i) *--sp = 0;
    sp -= 5;                         // floating-point environment
    uint32_t mxcsr = 0x1f80;
    uint32_t env[7] = {0xffff037f, 0xffff0000, 0xffffffff, 0, 0, 0, 0xffff0000};
    memcpy(sp, &mxcsr, 4);
    memcpy((char*)sp + 8, env, sizeof env);
    f->sp = sp;
}

int spawn(std::function<void()> fn)
{
    if (S.nf >= MAXF) fail("harness", "too many fibers");
    Fiber* f = &S.f[S.nf];
    f->id = S.nf++;
    f->st = FS_RUN;
    delete f->fn;
    f->fn = new std::function<void()>(std::move(fn));
    f->lsteps = 0;
    f->obj = nullptr;
    f->deadline = 0;
    f->err = 0;
    f->async_at = 0;
    f->cond = false;
    f->prio = S.spec->is_explicit ? 0 : (int)S.rng.below(1000000);
    memset(f->fidx, 0, sizeof f->fidx);
    memset(f->tls, 0, sizeof f->tls);
    f->tls_used = 0;
    f->vpos = f->fpos = 0;
    init_fiber(f);
    return f->id;
}
void join_all()
{
    while (true) {
        bool all = true;
        for (int i = 0; i < S.nf; ++i)
            if (i != S.cur->id && S.f[i].st != FS_DONE) all = false;
        if (all) return;
        block_on(&S.nf);
    }
}

bool fault(FaultKind k, int64_t* val, int64_t maxval)
{
    Fiber* f = S.cur;
    if (!f) return false;
    uint32_t idx = f->fidx[k]++;
    if (!S.faults_on || S.steps >= S.spec->par.fault_stop) return false;
    int64_t v = 0;
    if (S.spec->is_explicit) {
        auto it = S.fx.find({f->id, (int)k, idx});
        if (it == S.fx.end()) return false;
        v = it->second;
        if (maxval > 0 && v >= maxval) v = v % maxval;
    } else {
        double r = S.spec->par.rate[k];
        bool hit = false;
        if (k == F_OOM && S.spec->par.oom_exact) {
            hit = ++S.alloc_count == S.spec->par.oom_exact;
        } else {
            if (r <= 0 || S.nfaults >= S.spec->par.max_faults) return false;
            hit = S.rng.chance(r);
        }
        if (!hit) return false;
        v = maxval > 0 ? (int64_t)S.rng.below(maxval) : 0;
    }
    S.nfaults++;
    S.res->fired[k]++;
    S.res->faults.push_back({f->id, (int)k, idx, v});
    S.hash = mix(S.hash, 0xfa000000ull + k * 65536 + idx + ((uint64_t)v << 32));
    logf("FAULT %s #%u val=%lld", fault_names[k], idx, (long long)v);
    if (val) *val = v;
    return true;
}

// ------------------------------------------------------------------ heap
static const uintptr_t HEAP_BASE = 0x100000000000ull;
static const size_t HEAP_SIZE = 1ull << 28;
struct Blk {
    uint32_t magic;
    uint32_t state;  // 1 live, 2 freed
    uint64_t size;
    uint64_t cap;    // bytes after the header up to the next block
    uint64_t seq;
    Blk* next;       // free list / quarantine
    uint32_t off;    // offset of user data from header
    uint32_t user;   // allocated by scenario code
};
static const uint32_t BMAGIC = 0xb10cb10c;
static struct {
    char* base;
    uint8_t* shadow;  // per 16 bytes: 0 invalid, 1..16 valid bytes, 0xfd freed
    size_t top, high;
    uint64_t seq;
    size_t live_blocks, live_bytes;
    std::map<size_t, std::vector<Blk*>> freelist;
    std::vector<Blk*> all;
    std::vector<Blk*> quarantine;
} H;

static size_t heap_hdr() { return (sizeof(Blk) + 15) & ~(size_t)15; }

static void heap_reset()
{
    memset(H.shadow, 0, H.top / 16 + 64);
    H.top = 4096;
    H.seq = 0;
    H.live_blocks = H.live_bytes = 0;
    H.freelist.clear();
    H.all.clear();
    H.quarantine.clear();
}

static void heap_set_shadow(Blk* b, char* p, bool live)
{
    size_t g0 = ((uintptr_t)p - HEAP_BASE) / 16;
    size_t n = b->size;
    size_t full = n / 16;
    if (live) {
        memset(H.shadow + g0, 16, full);
        if (n % 16) H.shadow[g0 + full] = n % 16;
    } else {
        memset(H.shadow + g0, 0xfd, (n + 15) / 16);
    }
}

static std::map<uintptr_t, Blk*>* blk_by_ptr_dummy;

static Blk* blk_of(void* p)
{
    uintptr_t a = (uintptr_t)p;
    if (a < HEAP_BASE + 4096 || a >= HEAP_BASE + H.top || (a & 15)) return nullptr;
    Blk* b = (Blk*)(a - heap_hdr());
    if (b->magic != BMAGIC || b->off != heap_hdr()) return nullptr;
    return b;
}

static void* do_alloc(size_t n, size_t align, bool user)
{
    (void)blk_by_ptr_dummy;
    if (align < 16) align = 16;
    if (n > (1u << 26)) return nullptr;
    size_t cap = ((n + 15) & ~(size_t)15) + 16;
    Blk* b = nullptr;
    if (S.spec && S.spec->par.heap_reuse) {
        auto it = H.freelist.find(cap);
        if (it != H.freelist.end())
            for (size_t i = it->second.size(); i-- && !b;)
                if (((uintptr_t)it->second[i] + heap_hdr()) % align == 0) {
                    b = it->second[i];
                    it->second.erase(it->second.begin() + i);
                }
    }
    char* p;
    if (!b) {
        uintptr_t a = HEAP_BASE + H.top + heap_hdr();
        a = (a + align - 1) & ~(uintptr_t)(align - 1);
        p = (char*)a;
        b = (Blk*)(p - heap_hdr());
        size_t newtop = a + cap - HEAP_BASE;
        if (newtop + 65536 > HEAP_SIZE) return nullptr;
        H.top = newtop;
        b->magic = BMAGIC;
        b->off = heap_hdr();
        b->cap = cap;
        H.all.push_back(b);
    } else {
        p = (char*)b + heap_hdr();
    }
    b->state = 1;
    b->size = n;
    b->seq = ++H.seq;
    b->user = user;
    b->next = nullptr;
    memset(p, 0xa5, n);
    memset(p + n, 0xee, cap - n);
    heap_set_shadow(b, p, true);
    H.live_blocks++;
    H.live_bytes += n;
    return p;
}

static void blk_check(Blk* b)
{
    char* p = (char*)b + heap_hdr();
    for (size_t i = b->size; i < b->cap; ++i)
        if ((unsigned char)p[i] != 0xee)
            fail("heap-overrun", "write past the end of a heap block of %zu bytes (offset %zu)", (size_t)b->size, i);
    if (b->state == 2)
        for (size_t i = 0; i < b->size; ++i)
            if ((unsigned char)p[i] != 0xdd)
                fail("use-after-free", "write to a freed heap block of %zu bytes (offset %zu)", (size_t)b->size, i);
}

static void do_free(void* p)
{
    if (!p) return;
    Blk* b = blk_of(p);
    if (!b) fail("bad-free", "free of %p, which is no heap block", p);
    if (b->state != 1) fail("double-free", "second free of a heap block of %zu bytes", (size_t)b->size);
    blk_check(b);
    b->state = 2;
    memset(p, 0xdd, b->size);
    heap_set_shadow(b, (char*)p, false);
    H.live_blocks--;
    H.live_bytes -= b->size;
    if (S.spec && S.spec->par.heap_reuse && !((uintptr_t)p & 0)) {
        if (b->cap == ((b->size + 15) & ~(size_t)15) + 16) H.freelist[b->cap].push_back(b);
    }
}

static void heap_final_check()
{
    for (Blk* b : H.all) blk_check(b);
}

HeapStat heap_stat()
{
    HeapStat h = {0, 0};
    for (Blk* b : H.all)
        if (b->state == 1 && !b->user) {
            h.live_blocks++;
            h.live_bytes += b->size;
        }
    return h;
}
void heap_report_leaks(std::string& out, int max)
{
    char t[96];
    for (Blk* b : H.all)
        if (b->state == 1 && !b->user && max-- > 0) {
            snprintf(t, sizeof t, " [#%llu %zu bytes]", (unsigned long long)b->seq, (size_t)b->size);
            out += t;
        }
}
void* heap_alloc(size_t n, size_t align)
{
    void* p = do_alloc(n, align, true);
    memset(p, 0, n);
    return p;
}
bool heap_is_live(const void* p)
{
    Blk* b = blk_of((void*)p);
    return b && b->state == 1;
}
size_t heap_size_of(const void* p)
{
    Blk* b = blk_of((void*)p);
    return b && b->state == 1 ? b->size : 0;
}
uint64_t heap_mark() { return H.seq; }
size_t heap_live_since(uint64_t mark)
{
    size_t n = 0;
    for (Blk* b : H.all)
        if (b->state == 1 && !b->user && b->seq > mark) ++n;
    return n;
}

static inline void check_access(uintptr_t a, size_t n, bool wr)
{
    if (__builtin_expect(a - HEAP_BASE < HEAP_SIZE, 0)) {
        uintptr_t o = a - HEAP_BASE, e = o + n;
        for (uintptr_t g = o / 16; g * 16 < e; ++g) {
            uint8_t s = H.shadow[g];
            uintptr_t end = e - g * 16 > 16 ? 16 : e - g * 16;
            if (__builtin_expect(s > 16 || end > s, 0)) {
                fail(s == 0xfd ? "use-after-free" : "heap-overrun", "%s of %zu bytes at invalid heap address %p",
                     wr ? "write" : "read", n, (void*)a);
            }
        }
    } else if (__builtin_expect(a < 65536, 0)) {
        fail("null-deref", "%s of %zu bytes through pointer %p", wr ? "write" : "read", n, (void*)a);
    }
}

// ------------------------------------------------------------------ races on user memory
struct Watch { uintptr_t beg, end; };

void user_races(void*, size_t) {}

// ------------------------------------------------------------------ runs
static uint64_t g_runs;  // number of runs of this process

static void on_signal(int sig, siginfo_t* si, void*)
{
    if (sig == SIGVTALRM && (!S.spec || !S.res)) return;
    if (!S.spec || !S.res) _exit(3);
    if (sig == SIGVTALRM) {
        static uint64_t last_steps;
        static uint64_t last_hash;
        static uint64_t last_run;
        static int stuck;
        if (g_runs == last_run && S.steps == last_steps && S.hash == last_hash && S.cur) {
            // the main thread also evaluates the oracles
            if (++stuck < (S.cur->id ? 1 : 12)) return;
            stuck = 0;
            fail("hang", "thread T%d does not return from code without scheduling points", S.cur->id);
        }
        stuck = 0;
        last_steps = S.steps;
        last_hash = S.hash;
        last_run = g_runs;
        return;
    }
    fail("crash", "signal %d at address %p in thread T%d", sig, si ? si->si_addr : nullptr, S.cur ? S.cur->id : -1);
}

static void global_init()
{
    if (S.init) return;
    S.init = true;
    auto map = [](uintptr_t base, size_t n) {
        void* p = mmap((void*)base, n, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        if (p != (void*)base) {
            fprintf(stderr, "cannot map simulator memory at %lx\n", (unsigned long)base);
            exit(2);
        }
        return (char*)p;
    };
    H.base = map(HEAP_BASE, HEAP_SIZE);
    H.shadow = (uint8_t*)map(HEAP_BASE + 0x10000000000ull, HEAP_SIZE / 16 + 4096);
    tls_area = map(TLS_BASE, TLS_SIZE * MAXF);
    for (int i = 0; i < MAXF; ++i) {
        S.f[i].stack = map(STACK_BASE + i * STACK_STRIDE, STACK_SIZE);
        S.f[i].id = i;
    }
    H.top = 4096;
    size_t nd = __stop_pt_data - __start_pt_data, nb = __stop_pt_bss - __start_pt_bss;
    snap_data = (char*)malloc(nd + 1);
    snap_bss = (char*)malloc(nb + 1);
    memcpy(snap_data, __start_pt_data, nd);
    memcpy(snap_bss, __start_pt_bss, nb);
    static char alt[65536];
    stack_t ss = {};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
    struct itimerval it = {{5, 0}, {5, 0}};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

void run(const RunSpec& sp, RunResult& res, bool keep_log)
{
    global_init();
    ++g_runs;
    memcpy(__start_pt_data, snap_data, __stop_pt_data - __start_pt_data);
    memcpy(__start_pt_bss, snap_bss, __stop_pt_bss - __start_pt_bss);
    S.spec = nullptr;
    heap_reset();
    kern_reset();
    S.spec = &sp;
    S.res = &res;
    S.rng = Rng(mix(sp.seed, 0x5c4ed));
    S.steps = 0;
    S.ns = 1000ull * 1000000000ull;
    S.hash = 0x1234;
    S.sig = 0;
    S.last_atomic = -1;
    S.nopreempt = 0;
    S.async_armed = false;
    S.async_hook = nullptr;
    S.exit_hook = nullptr;
    sync_objs.clear();
    S.idle_hook = nullptr;
    S.faults_on = true;
    S.nfaults = 0;
    S.alloc_count = 0;
    memset(S.failed_allocs, 0, sizeof S.failed_allocs);
    S.cur_burst = 0;
    S.stall = -1;
    S.keep_log = keep_log;
    S.done = false;
    S.tls_next = 0;
    S.locks = 0;
    S.syncing_only = sp.par.policy == 2;
    S.fair_from = sp.par.fair_from;
    S.ns_step = sp.par.ns_per_step;
    S.nf = 0;
    S.fx.clear();
    for (int i = 0; i < MAXF; ++i) {
        S.f[i].st = FS_UNUSED;
        S.f[i].vol.clear();
        S.f[i].forced.clear();
    }
    if (sp.is_explicit) {
        for (auto& f : sp.faults) S.fx[{f.fiber, f.kind, f.idx}] = f.val;
        for (auto& w : sp.sw) {
            Fiber& f = S.f[w.fiber & 0xff];
            (w.fiber & 0x100 ? f.forced : f.vol).push_back({w.lstep, w.to});
        }
    }
    Scenario* sc = make_scenario(sp);
    if (_setjmp(S.env) == 0) {
        spawn([sc] { sc->main(); });
        S.cur = &S.f[0];
        set_countdown();
        sim_ctx_switch(&S.main_sp, S.cur->sp);
        if (_setjmp(S.env) == 0) heap_final_check();
    }
    S.cur = nullptr;
    delete sc;
    res.hash = mix(S.hash, S.steps);
    res.steps = S.steps;
    res.sim_ns = S.ns - 1000ull * 1000000000ull;
    res.sig = S.sig;
    S.spec = nullptr;
}

}  // namespace sim

using namespace sim;

asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $40, %rsp
    stmxcsr (%rsp)
    fnstenv 8(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldenv 8(%rsp)
    addq $40, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

// ------------------------------------------------------------------ emulated TLS
extern "C" {
struct emutls_control {
    size_t size, align;
    uintptr_t index;
    void* value;
};
void* __emutls_get_address(emutls_control* c)
{
    if (!S.cur) {
        fprintf(stderr, "thread-local access outside of the simulation\n");
        _exit(3);
    }
    if (!c->index) {
        c->index = ++S.tls_next;
        if (c->index >= NTLS) {
            fprintf(stderr, "too many TLS variables\n");
            _exit(3);
        }
    }
    char*& p = S.cur->tls[c->index];
    if (!p) {
        size_t u = (S.cur->tls_used + 63) & ~(size_t)63;
        if (u + c->size > TLS_SIZE) {
            fprintf(stderr, "TLS area too small\n");
            _exit(3);
        }
        p = tls_area + S.cur->id * TLS_SIZE + u;
        S.cur->tls_used = u + c->size;
        if (c->value)
            memcpy(p, c->value, c->size);
        else
            memset(p, 0, c->size);
    }
    return p;
}

// ------------------------------------------------------------------ tsan interface
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}

static inline void acc(void* p, size_t n, bool wr)
{
    if (!S.cur) return;
    do_step_plain();
    check_access((uintptr_t)p, n, wr);
}
#define RW(n)                                               \
    void __tsan_read##n(void* p) { acc(p, n, false); }      \
    void __tsan_write##n(void* p) { acc(p, n, true); }      \
    void __tsan_unaligned_read##n(void* p) { acc(p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { acc(p, n, true); } \
    void __tsan_read_write##n(void* p) { acc(p, n, true); } \
    void __tsan_unaligned_read_write##n(void* p) { acc(p, n, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, size_t n) { acc(p, n, false); }
void __tsan_write_range(void* p, size_t n) { acc(p, n, true); }

void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if (!S.cur || n == 0) return memcpy(d, s, n);
    check_access((uintptr_t)s, n, false);
    check_access((uintptr_t)d, n, true);
    size_t i = 0;
    while (i < n) {
        size_t k = n - i > 8 ? 8 : n - i;
        if (n > 256 && n - i > 64) k = 64;
        do_step_plain();
        memmove((char*)d + i, (const char*)s + i, k);
        i += k;
    }
    return d;
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    if (!S.cur || n == 0) return memmove(d, s, n);
    check_access((uintptr_t)s, n, false);
    check_access((uintptr_t)d, n, true);
    do_step_plain();
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    if (!S.cur || n == 0) return memset(d, c, n);
    check_access((uintptr_t)d, n, true);
    do_step_plain();
    return memset(d, c, n);
}
// the same for calls that the compiler keeps as calls
void* sim_memcpy(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { return __tsan_memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { return __tsan_memset(d, c, n); }

static inline void atomic_point(const volatile void* a, size_t n, bool wr)
{
    if (!S.cur) return;
    do_step();
    if (S.cur->id != S.last_atomic) {
        S.last_atomic = S.cur->id;
        S.sig = mix(S.sig, ((uintptr_t)a << 6) ^ (unsigned)S.cur->id);
    }
    check_access((uintptr_t)a, n, wr);
}

#define ATOMIC(bits, T)                                                                           \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { atomic_point(a, sizeof(T), false); return *a; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { atomic_point(a, sizeof(T), true); *a = v; }  \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { atomic_point(a, sizeof(T), true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { atomic_point(a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { atomic_point(a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { atomic_point(a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { atomic_point(a, sizeof(T), true); T o = *a; *a = o | v; return o; }  \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { atomic_point(a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { atomic_point(a, sizeof(T), true); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int)         \
    {                                                                                             \
        atomic_point(a, sizeof(T), true);                                                         \
        if (*a == *c) { *a = v; return 1; }                                                       \
        *c = *a;                                                                                  \
        return 0;                                                                                 \
    }                                                                                             \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int fm)      \
    {                                                                                             \
        if (S.cur && fault(F_CASFAIL)) { *c = *a; return 0; }                                     \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, m, fm);                     \
    }                                                                                             \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int)               \
    {                                                                                             \
        atomic_point(a, sizeof(T), true);                                                         \
        T o = *a;                                                                                 \
        if (o == c) *a = v;                                                                       \
        return o;                                                                                 \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { do_step(); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ libc: heap
void* sim_malloc(size_t n)
{
    do_step();
    if (fault(F_OOM)) {
        S.failed_allocs[self() & 63]++;
        fiber_errno() = ENOMEM;
        return nullptr;
    }
    void* p = do_alloc(n, 16, false);
    if (!p) fiber_errno() = ENOMEM;
    return p;
}
void sim_free(void* p)
{
    do_step();
    do_free(p);
}
void* sim_calloc(size_t n, size_t m)
{
    size_t t;
    if (__builtin_mul_overflow(n, m, &t)) {
        fiber_errno() = ENOMEM;
        return nullptr;
    }
    void* p = sim_malloc(t);
    if (p) memset(p, 0, t);
    return p;
}
void* sim_realloc(void* o, size_t n)
{
    if (!o) return sim_malloc(n);
    Blk* b = blk_of(o);
    if (!b || b->state != 1) fail("bad-free", "realloc of %p, which is no live heap block", o);
    if (!n) {
        sim_free(o);
        return nullptr;
    }
    void* p = sim_malloc(n);
    if (!p) return nullptr;
    memcpy(p, o, b->size < n ? b->size : n);
    do_free(o);
    return p;
}
int sim_posix_memalign(void** out, size_t align, size_t n)
{
    do_step();
    if (align < sizeof(void*) || (align & (align - 1))) return EINVAL;
    if (fault(F_OOM)) {
        S.failed_allocs[self() & 63]++;
        return ENOMEM;
    }
    void* p = do_alloc(n, align, false);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void* sim_aligned_alloc(size_t align, size_t n)
{
    void* p = nullptr;
    if (sim_posix_memalign(&p, align < 8 ? 8 : align, n)) {
        fiber_errno() = ENOMEM;
        return nullptr;
    }
    return p;
}
size_t sim_malloc_usable_size(void* p)
{
    if (!p) return 0;
    Blk* b = blk_of(p);
    if (!b || b->state != 1) fail("use-after-free", "malloc_usable_size of %p, which is no live heap block", p);
    return b->size;
}
char* sim_strdup(const char* s)
{
    size_t n = strlen(s) + 1;
    char* p = (char*)sim_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
int* sim___errno_location(void) { return &fiber_errno(); }

// ------------------------------------------------------------------ libc: termination
void sim___assert_fail(const char* e, const char* file, unsigned line, const char* fn)
{
    const char* b = strrchr(file, '/');
    fail("assert", "assertion '%s' failed in %s (%s)", e, fn, b ? b + 1 : file);
    (void)line;
}
void sim_abort(void)
{
    if (S.exit_hook) S.exit_hook();
    fail("abort", "abort() called");
}
void sim_exit(int c)
{
    if (S.exit_hook) S.exit_hook();
    fail("exit", "exit(%d) called", c);
}
void sim__exit(int c)
{
    if (S.exit_hook) S.exit_hook();
    fail("exit", "_exit(%d) called", c);
}
void sim__Exit(int c)
{
    if (S.exit_hook) S.exit_hook();
    fail("exit", "_Exit(%d) called", c);
}
void sim___stack_chk_fail(void) { fail("crash", "stack smashed"); }

// ------------------------------------------------------------------ libc: time
int sim_clock_gettime(clockid_t, struct timespec* ts)
{
    do_step();
    int64_t v;
    if (fault(F_CLOCK, &v, 4000)) S.ns += (uint64_t)v * 1000000ull;
    ts->tv_sec = S.ns / 1000000000ull;
    ts->tv_nsec = S.ns % 1000000000ull;
    return 0;
}
int sim_nanosleep(const struct timespec* rq, struct timespec* rm)
{
    do_step();
    uint64_t d = rq->tv_sec * 1000000000ull + rq->tv_nsec;
    if (fault(F_EINTR)) {
        if (rm) {
            rm->tv_sec = rq->tv_sec;
            rm->tv_nsec = rq->tv_nsec / 2;
        }
        fiber_errno() = EINTR;
        return -1;
    }
    static int sleeper;
    block_on(&sleeper, S.ns + d + 1);
    return 0;
}
unsigned sim_sleep(unsigned s)
{
    do_step();
    static int sleeper;
    int64_t v;
    if (s && fault(F_EINTR, &v, s)) {
        // a signal arrives after v seconds and some fraction
        unsigned left = s - (unsigned)v % s;
        block_on(&sleeper, S.ns + (s - left) * 1000000000ull + 1);
        fiber_errno() = EINTR;
        return left;
    }
    block_on(&sleeper, S.ns + s * 1000000000ull + 1);
    return 0;
}
int sim_sched_yield(void)
{
    yield_now();
    return 0;
}

// ------------------------------------------------------------------ libc: pthreads
struct SMutex { uint32_t magic; int32_t owner; };
struct SRw { uint32_t magic; int32_t writer; int32_t readers; uint64_t rmask; };
struct SCond { uint32_t magic; int32_t clock; uint32_t gen; };
static const uint32_t MM = 0x6d757478, MR = 0x72776c6b, MC = 0x636f6e64;
static_assert(sizeof(SMutex) <= sizeof(pthread_mutex_t) && sizeof(SRw) <= sizeof(pthread_rwlock_t) &&
                  sizeof(SCond) <= sizeof(pthread_cond_t), "size");

static int perr(int def)
{
    return def;
}
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*)
{
    do_step();
    if (fault(F_PTHREAD)) return perr(EAGAIN);
    SMutex* s = (SMutex*)m;
    s->magic = MM;
    s->owner = -1;
    sync_add(m);
    return 0;
}
static SMutex* mtx(pthread_mutex_t* m, const char* what)
{
    SMutex* s = (SMutex*)m;
    check_access((uintptr_t)m, sizeof *m, true);
    if (s->magic == 0) {
        s->magic = MM;
        s->owner = -1;
    }
    if (s->magic != MM) fail("bad-lock", "%s of a mutex that is not initialised", what);
    return s;
}
int sim_pthread_mutex_destroy(pthread_mutex_t* m)
{
    do_step();
    SMutex* s = mtx(m, "destruction");
    if (s->owner >= 0) fail("bad-lock", "destruction of a locked mutex");
    s->magic = 0xdead;
    sync_remove(m);
    return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t* m)
{
    do_step();
    SMutex* s = mtx(m, "lock");
    while (s->owner >= 0) {
        block_on(m);
        s = mtx(m, "lock");
    }
    s->owner = S.cur->id;
    S.locks++;
    return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m)
{
    do_step();
    SMutex* s = mtx(m, "trylock");
    if (s->owner >= 0) return EBUSY;
    s->owner = S.cur->id;
    S.locks++;
    return 0;
}
static void mtx_unlock(pthread_mutex_t* m)
{
    SMutex* s = mtx(m, "unlock");
    if (s->owner != S.cur->id) fail("bad-lock", "unlock of a mutex that the thread does not hold");
    s->owner = -1;
    S.locks--;
    wake(m);
}
int sim_pthread_mutex_unlock(pthread_mutex_t* m)
{
    do_step();
    mtx_unlock(m);
    return 0;
}
int sim_pthread_condattr_init(pthread_condattr_t* a)
{
    memset(a, 0, sizeof *a);
    if (fault(F_PTHREAD)) return perr(ENOMEM);
    sync_add(a);
    return 0;
}
int sim_pthread_condattr_destroy(pthread_condattr_t* a)
{
    sync_remove(a);
    return 0;
}
int sim_pthread_condattr_setclock(pthread_condattr_t*, clockid_t) { return 0; }
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    do_step();
    if (fault(F_PTHREAD)) return perr(EAGAIN);
    SCond* s = (SCond*)c;
    s->magic = MC;
    s->gen = 0;
    sync_add(c);
    return 0;
}
static SCond* cnd(pthread_cond_t* c, const char* what)
{
    SCond* s = (SCond*)c;
    check_access((uintptr_t)c, sizeof *c, true);
    if (s->magic == 0) s->magic = MC;
    if (s->magic != MC) fail("bad-lock", "%s of a condition variable that is not initialised", what);
    return s;
}
int sim_pthread_cond_destroy(pthread_cond_t* c)
{
    do_step();
    SCond* s = cnd(c, "destruction");
    for (int i = 0; i < S.nf; ++i)
        if (S.f[i].st == FS_BLOCKED && S.f[i].obj == c)
            fail("bad-lock", "destruction of a condition variable with waiters");
    s->magic = 0xdead;
    sync_remove(c);
    return 0;
}
int sim_pthread_cond_signal(pthread_cond_t* c)
{
    do_step();
    cnd(c, "signal");
    for (int i = 0; i < S.nf; ++i)  // wakes at least one
        if (S.f[i].st == FS_BLOCKED && S.f[i].obj == c) {
            S.f[i].st = FS_RUN;
            S.f[i].timed_out = false;
            break;
        }
    return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t* c)
{
    do_step();
    cnd(c, "broadcast");
    wake(c);
    return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
{
    do_step();
    cnd(c, "wait");
    SMutex* s = mtx(m, "wait");
    if (s->owner != S.cur->id) fail("bad-lock", "wait with a mutex that the thread does not hold");
    S.res->suspended++;
    mtx_unlock(m);
    bool to = false;
    if (fault(F_SPURIOUS)) {
        yield_now();
    } else {
        S.cur->cond = deadline != 0;
        block_on(c, deadline);
        S.cur->cond = false;
        to = S.cur->timed_out;
    }
    while (mtx(m, "lock")->owner >= 0) block_on(m);
    mtx(m, "lock")->owner = S.cur->id;
    S.locks++;
    return to ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, 0); }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
    uint64_t d = t->tv_sec * 1000000000ull + t->tv_nsec;
    if (!d) d = 1;
    return cond_wait(c, m, d);
}
int sim_pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t*)
{
    do_step();
    if (fault(F_PTHREAD)) return perr(EAGAIN);
    SRw* s = (SRw*)r;
    s->magic = MR;
    s->writer = -1;
    s->readers = 0;
    s->rmask = 0;
    sync_add(r);
    return 0;
}
static SRw* rwl(pthread_rwlock_t* r, const char* what)
{
    SRw* s = (SRw*)r;
    check_access((uintptr_t)r, sizeof *r, true);
    if (s->magic == 0) {
        s->magic = MR;
        s->writer = -1;
        s->readers = 0;
        s->rmask = 0;
    }
    if (s->magic != MR) fail("bad-lock", "%s of a rwlock that is not initialised", what);
    return s;
}
int sim_pthread_rwlock_destroy(pthread_rwlock_t* r)
{
    do_step();
    SRw* s = rwl(r, "destruction");
    if (s->writer >= 0 || s->readers) fail("bad-lock", "destruction of a locked rwlock");
    s->magic = 0xdead;
    sync_remove(r);
    return 0;
}
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* r)
{
    do_step();
    SRw* s = rwl(r, "rdlock");
    if (s->writer == S.cur->id) return EDEADLK;
    while (s->writer >= 0) {
        block_on(r);
        s = rwl(r, "rdlock");
    }
    s->readers++;
    s->rmask |= 1ull << S.cur->id;
    S.locks++;
    return 0;
}
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* r)
{
    do_step();
    SRw* s = rwl(r, "wrlock");
    if (s->writer == S.cur->id) return EDEADLK;
    while (s->writer >= 0 || s->readers) {
        block_on(r);
        s = rwl(r, "wrlock");
    }
    s->writer = S.cur->id;
    S.locks++;
    return 0;
}
int sim_pthread_rwlock_unlock(pthread_rwlock_t* r)
{
    do_step();
    SRw* s = rwl(r, "unlock");
    if (s->writer >= 0) {
        if (s->writer != S.cur->id) fail("bad-lock", "unlock of a rwlock that another thread holds for writing");
        s->writer = -1;
    } else {
        if (!s->readers) fail("bad-lock", "unlock of a rwlock that nobody holds");
        s->readers--;
        if (!s->readers) s->rmask = 0;
    }
    S.locks--;
    wake(r);
    return 0;
}
pthread_t sim_pthread_self(void) { return (pthread_t)(0x7000 + (S.cur ? S.cur->id : 0)); }
}
