// Deterministic simulator for picotm: core interface.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <set>
#include <functional>
#include <algorithm>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s = 1;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
    bool chance(double p) { return (next() >> 11) * 0x1.0p-53 < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- programs
struct Op {
    int code = 0;
    int64_t a[5] = {0, 0, 0, 0, 0};
};
struct Tx {
    std::vector<Op> ops;
};
struct Thread {
    std::vector<Tx> txs;
};
struct Prog {
    std::vector<int64_t> cfg;
    std::vector<Thread> th;
};

// ---------------------------------------------------------------- faults, schedule
enum FaultKind {
    F_OOM,        // allocation fails
    F_EINTR,      // system call interrupted
    F_ERR,        // system call fails with an error number (val)
    F_SHORT,      // transfer is partial (val)
    F_SPURIOUS,   // condition variable wakes up without reason
    F_CASFAIL,    // weak compare-and-exchange fails without reason
    F_CLOCK,      // clock jumps forward (val: milliseconds)
    F_PTHREAD,    // initialisation/locking primitive returns an error (val)
    F_EXIT,       // scenario specific (module callback failure, ...)
    F_NKINDS
};
extern const char* const fault_names[F_NKINDS];

struct Fault {
    int fiber, kind;
    uint32_t idx;
    int64_t val;
};
struct Switch {
    int fiber;
    uint64_t lstep;
    int to;
};

struct Params {
    double mean_burst = 100;      // mean number of steps between preemptions
    int policy = 0;               // 0 uniform, 1 priorities, 2 sync points only
    int ns_per_step = 50;
    int heap_reuse = 0;           // 0 quarantine, 1 LIFO reuse
    double rate[F_NKINDS] = {0};  // fault rates
    int max_faults = 0;
    uint64_t fault_stop = 200000;   // faults stop at this step
    uint64_t fair_from = 400000;    // fair scheduling from this step
    uint64_t max_steps = 4000000;   // progress bound
    uint32_t oom_exact = 0;         // if non-zero: exactly this allocation (counted over all threads) fails
};

struct RunSpec {
    std::string scenario;
    uint64_t seed = 0;
    Params par;
    Prog prog;
    bool is_explicit = false;
    std::vector<Fault> faults;
    std::vector<Switch> sw;
};

struct RunResult {
    bool violated = false;
    std::string cls;   // short, stable class of the violation
    std::string what;  // text
    uint64_t hash = 0;
    uint64_t steps = 0, nsw = 0, sim_ns = 0;
    uint64_t fired[F_NKINDS] = {0};
    uint64_t sig = 0;    // signature of the interleaving at synchronisation operations
    bool nontrivial = false;
    bool aborted = false; // run ended early without verdict (documented non-recoverable state)
    uint64_t committed = 0, attempts = 0, recoveries = 0, irrevocables = 0, suspended = 0;
    std::vector<Fault> faults;
    std::vector<Switch> sw;
    std::vector<std::string> log;
};

// ---------------------------------------------------------------- scenarios
struct Scenario {
    virtual ~Scenario() {}
    virtual void gen(Rng& rng, RunSpec& spec) = 0;  // fills par and prog
    virtual void main() = 0;                        // runs on fiber 0
    virtual std::string describe(const Prog& p, int thread, int tx, const Op& op);
};
typedef Scenario* (*ScenarioFactory)(const RunSpec&);
void register_scenario(const char* name, ScenarioFactory f);
struct Reg {
    Reg(const char* n, ScenarioFactory f) { register_scenario(n, f); }
};
Scenario* make_scenario(const RunSpec& spec);
void run(const RunSpec& spec, RunResult& res, bool keep_log = false);

// ---------------------------------------------------------------- services for scenario code (run on fibers)
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void end_run(const char* why);   // stop the run without a verdict
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool logging();
void observe(uint64_t v);                     // contributes to the run's hash
int spawn(std::function<void()> fn);          // returns fiber id
void join_all();
int self();                                   // fiber id
uint64_t now_step();
uint64_t now_ns();
void step(int w = 1);                         // scheduling point
void yield_now();                             // voluntary yield
void block_on(const void* obj, uint64_t deadline_ns = 0);  // until wake(obj) or deadline
void wake(const void* obj);
bool fault(FaultKind k, int64_t* val = nullptr, int64_t maxval = 0);
void faults_enabled(bool on);
void async_signal(int fiber, int sig, uint64_t delay);   // arrives after that many steps of the fiber
void set_idle_hook(void (*h)(int fiber, uint64_t ns));   // called if nothing can happen until the fiber's wait for a condition times out
void set_exit_hook(void (*h)());                  // called if the program ends the process
void set_async_hook(void (*h)(int));
void no_preempt(int d);                       // +1/-1: nested disabling of preemption
RunResult& result();
int failed_allocs(int fiber);    // allocations of the library that have failed
const RunSpec& spec();
int& fiber_errno();
bool on_fiber();
// live allocations in the simulated heap made by code under test
struct HeapStat { size_t live_blocks, live_bytes; };
HeapStat heap_stat();
void heap_report_leaks(std::string& out, int max);
void* heap_alloc(size_t n, size_t align = 16);   // for scenario code; never fails; tracked as user memory
bool heap_is_live(const void* p);
size_t heap_size_of(const void* p);
uint64_t heap_mark();                            // sequence number: allocations later than this
size_t heap_live_since(uint64_t mark);
int sync_objects();                             // mutexes etc. that have been initialised, but not destroyed
int locks_held();                               // mutexes, rwlocks held by anyone
int fiber_count();
void user_races(void* p, size_t n);              // watch this range for data races
typedef void (*access_hook)(uintptr_t addr, unsigned size, bool write);

struct Kernel;
Kernel& kern();
void kern_reset();
}  // namespace sim
