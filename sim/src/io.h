// Base of the scenarios that run on the simulated kernel.
#pragma once
#include "tx.h"
#include "kern.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/un.h>
extern "C" {
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-libc.h"
#define template template_
#define restrict
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/sched.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/stat-tm.h"
#include "picotm/sys/socket.h"
#include "picotm/sys/socket-tm.h"
#undef template
#undef restrict
}

namespace sim {
inline char fillc(int64_t seed, size_t i) { return (char)(mix(seed * 37, i) % 94 + 33); }
inline std::string filltext(int64_t seed, size_t n)
{
    std::string s(n, 0);
    for (size_t i = 0; i < n; ++i) s[i] = fillc(seed, i);
    return s;
}

struct IoScenario : TxScenario {
    size_t err_mark[64] = {0};      // errors of the thread before the attempt
    std::vector<int> fds_before;

    void on_begin(TxRun*) override { err_mark[self()] = k_errors(self()).size(); }
    // errors that the attempt may report without a fault
    virtual bool legit_error(TxRun* r, int e) { return false; }
    // failed call of this attempt that returned this errno
    const KErr* cause(int e)
    {
        auto& v = k_errors(self());
        for (size_t i = err_mark[self()]; i < v.size(); ++i)
            if (v[i].err == e) return &v[i];
        return nullptr;
    }
    bool expected_error(TxRun* r) override
    {
        if (picotm_error_status() != PICOTM_ERRNO) return false;
        return legit_error(r, picotm_error_as_errno());
    }
    bool oom_happened(TxRun* r)
    {
        for (auto& f : result().faults)
            if (f.fiber == self() && f.kind == F_OOM) return true;
        return false;
    }
    // an error number comes from a call that failed with it, from a failed allocation or from the application
    void on_recovery(TxRun* r) override
    {
        int st = (int)picotm_error_status();
        bool oom = oom_happened(r);
        if (r->raised && faults_of_thread(self()) == r->faults_before) return;
        if (st == PICOTM_CONFLICTING)
            fail("conflict-reported", "a conflict is reported to the application as an error");
        if (st == PICOTM_REVOCABLE) fail("wrong-error", "a revocable operation is reported as an error");
        if (st == PICOTM_ERROR_CODE) {
            int c = picotm_error_as_error_code();
            if (r->raised == OP_ERR_CODE && c == r->raised_val) return;
            if (c == PICOTM_OUT_OF_MEMORY && oom) return;
            fail("wrong-error", "recovery phase reports error code %d", c);
        }
        if (st != PICOTM_ERRNO) return;
        int e = picotm_error_as_errno();
        if (r->raised == OP_ERR_ERRNO && e == r->raised_val) return;
        if (cause(e)) return;
        if (oom && e == ENOMEM) return;
        if (legit_error(r, e)) return;
        // the initialisation of a lock of the operating system failed
        if (e == EAGAIN || e == ENOMEM)
            for (auto& f : result().faults)
                if (f.fiber == self() && f.kind == F_PTHREAD) return;
        fail("wrong-errno", "recovery phase reports errno %d (%s), but no call of this attempt failed with it", e, strerror(e));
    }
};
}  // namespace sim
