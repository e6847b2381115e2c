// Transaction runner, recorded histories and the serializability oracle.
#pragma once
#include "sim.h"
#include "pt.h"
extern "C" {
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-error.h"
}

namespace sim {

// operation codes shared by all scenarios; a[0] = number of attempts in which it triggers (from the first)
enum {
    OP_CONFLICT = 1000,  // explicit conflict: rolls back and retries
    OP_ERR_CODE,         // error code a[1]
    OP_ERR_ERRNO,        // errno a[1]
    OP_ERR_SIGINFO,      // signal number a[1]
    OP_IRREVOCABLE,      // picotm_irrevocable() if not irrevocable yet
    OP_DELAY,            // a[0] steps pass (slow thread)
    OP_SLEEP,            // a[0] milliseconds of simulated time pass
    OP_EXIT,             // ends the process; a[0]: how
};

struct Res {
    int op;             // index of the operation
    std::string v;      // observed result
};

enum { OUT_OPEN, OUT_ABORTED, OUT_COMMITTED, OUT_RECOVERED };

struct Attempt {
    uint64_t begin = 0, last = 0, commit = 0, end = 0;
    int outcome = OUT_OPEN;
    bool irrevocable = false;
    bool exits = false;     // ends the process
    bool handled = false;   // the scenario knows that it has failed
    std::vector<Res> res;
};

struct Model {
    virtual ~Model() {}
    virtual Model* clone() const = 0;
    // executes the operation; false if the model cannot produce the observed result. 'v' is null for
    // operations without result.
    virtual bool apply(const Op& op, const std::string* v) = 0;
    virtual uint64_t hash() const = 0;
    virtual std::string dump() const { return ""; }
};

struct TxRun {
    int thread, tx;
    uint64_t begin = 0, end = 0;     // first begin, final end
    bool committed = false, started = false;
    int restarts = 0;                // restarts from the recovery phase
    int nattempts = 0;
    int op_index = 0;
    int fiber = -1;
    int faults_before = 0, allocs_before = 0;
    // the error that the program raised in the current attempt, if any
    int raised = 0;                  // op code
    int64_t raised_val = 0;
    int errno_mark = 0;              // value of errno at the begin of the attempt; 0: not checked
    std::vector<Attempt> att;
    Attempt& cur() { return att.back(); }
};

struct TxScenario : Scenario {
    RunSpec const* sp = nullptr;
    std::vector<std::vector<TxRun*>> runs;
    bool inside[64] = {false};     // fibers that execute a transaction
    void on_idle(int fiber, uint64_t ns);
    int max_restarts = 1;
    bool check_leaks = true;       // resource conservation at the end
    bool check_opacity = true;
    bool check_errno = true;       // rolled-back attempts leave errno as it was
    bool err_any = false;          // any error is acceptable in the recovery phase
    int running = 0;               // number of transactions in their execution phase
    int irrev_thread = -1;
    ~TxScenario();

    // to be provided
    virtual void setup() {}
    virtual void teardown() {}
    virtual void after_threads() {}                  // all threads have ended, before the history is judged
    // performs the operation inside the transaction. Results go to rec().
    virtual void exec(TxRun* r, const Op& op) = 0;
    virtual Model* initial() = 0;
    virtual bool matches_final(Model* m, std::string& why) { return true; }
    virtual bool matches_exit(Model* m, std::string& why) { return true; }   // as matches_final(), after a call of exit()
    bool exited = false;
    bool final_ok(Model* m, std::string& why) { return exited ? matches_exit(m, why) : matches_final(m, why); }
    void on_exit();
    virtual void on_begin(TxRun*) {}                 // after a successful begin
    virtual void on_attempt_end(TxRun*) {}           // attempt was aborted (detected at next begin) or ended
    virtual void on_committed(TxRun*) {}
    virtual void on_recovery(TxRun*) {}
    virtual bool expected_error(TxRun*) { return false; }   // scenario-specific explanation of an error
    virtual bool async_error(TxRun*) { return false; }      // an event outside of the program explains the error
    virtual bool irreversible(TxRun*) { return false; }     // the current operation acts immediately and for good
    virtual bool want_restart(TxRun* r) { return r->restarts < max_restarts; }
    virtual int repeats() { return 1; }              // of each thread's transactions
    virtual void thread_begin(int) {}
    virtual void before_tx(int t, int x) {}          // before each transaction
    virtual void thread_released(int) {}             // after picotm_release()
    virtual void thread_end(int) {}
    virtual std::string op_name(const Op& op) { return ""; }

    void rec(TxRun* r, const void* p, size_t n);
    void rec_i(TxRun* r, int64_t v);

    void main() override;
    std::string describe(const Prog& p, int thread, int tx, const Op& op) override;
    void run_thread(int t);
    void exec_tx(TxRun* r);
    void begin_attempt(TxRun* r);
    void before_commit(TxRun* r);
    void errno_restored(TxRun* r, const char* when);
    bool recovery(TxRun* r);
    void after(TxRun* r);
    void exec_op(TxRun* r, const Op& op);
    void check_history();
    virtual void final_checks() {}
    std::string history_text();
};

// common swarm parameters
void swarm(Rng& r, Params& p);
void swarm_faults(Rng& r, Params& p, std::initializer_list<FaultKind> kinds, double rate);
int faults_of_thread(int fiber);
}  // namespace sim
