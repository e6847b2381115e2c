"""Which scenarios decide which property."""
CORE = "picotm core (src/)"
TM = "tm module"
TXLIB = "txlib module"
LIBC = "libc module"
LIBM = "libm module"
COMPONENTS = {
    "real": "all C sources in /repo/src and /repo/modules/*/src, compiled from the working tree",
    "stub": "pthread mutex/rwlock/cond, malloc family, clocks and sleeping, errno, thread-local storage, assert/abort: "
            "simulated; memcpy family: instrumented reimplementation; kernel (files, sockets, pipes, cwd, locale): in-memory model",
}
PROPS = {
    "C01": dict(scenarios={"tm": 1}, components=[CORE, TM]),
    "C02": dict(scenarios={"tm_rollback": 1, "tm_privatize": 0.6}, components=[CORE, TM]),
    "C03": dict(scenarios={"tm_privatize": 1}, components=[CORE, TM]),
    "C04": dict(scenarios={"core_errors": 1, "tm_rollback": 0.3}, components=[CORE, TM],
                oracle="the expected error, roll-back automaton and serializability of the committed rest"),
    "C05": dict(scenarios={"core_irrevocable": 1, "fildes": 0.2, "connect": 0.15, "stream": 0.15}, components=[CORE, LIBC],
                oracle="invariants on which transactions are active, checked at every begin, and counts of external effects"),
    "C06": dict(scenarios={"core_progress": 1, "tm": 0.3}, components=[CORE, TM],
                oracle="a bound on steps, retries and simulated time once faults stop, and deadlock detection"),
    "C07": dict(scenarios={"core_modules": 1}, components=[CORE],
                oracle="an automaton of the module life cycle run over the recorded callbacks"),
    "C08": dict(scenarios={"core_locks": 1}, components=[CORE],
                oracle="independently tracked lock ownership, checked at every acquisition"),
    "C09": dict(scenarios={"txlist": 1, "txlib_mixed": 0.2, "nodes": 0.15}, components=[CORE, TM, TXLIB, LIBC]),
    "C10": dict(scenarios={"txmultiset": 1, "txlib_mixed": 0.2, "nodes": 0.15}, components=[CORE, TM, TXLIB, LIBC]),
    "C11": dict(scenarios={"txqueue": 1, "txlib_mixed": 0.2, "nodes": 0.15}, components=[CORE, TM, TXLIB, LIBC]),
    "C12": dict(scenarios={"txstack": 1, "txlib_mixed": 0.2, "nodes": 0.15}, components=[CORE, TM, TXLIB, LIBC]),
    "C13": dict(scenarios={"file": 1}, components=[CORE, LIBC]),
    "C14": dict(scenarios={"fildes": 1, "connect": 0.4, "fdshare": 0.5}, components=[CORE, TM, LIBC],
                oracle="a serializability check of the recorded history against a reference model of the descriptor table, and a "
                       "comparison with the simulated kernel's open files at the end of every transaction"),
    "C15": dict(scenarios={"stream": 1, "stream_faults": 0.4, "connect": 0.3}, components=[CORE, TM, LIBC],
                oracle="a serializability check of the recorded history against a reference model of the streams, and a comparison "
                       "with the byte sequences that crossed the simulated kernel's streams"),
    "C16": dict(scenarios={"heap": 1, "nodes": 0.3}, components=[CORE, TM, LIBC, TXLIB]),
    "C17": dict(scenarios={"settings": 1, "settings_faults": 0.6, "fildes": 0.15, "fildes_faults": 0.2, "connect_faults": 0.15, "stream_faults": 0.15, "mixed_faults": 0.15}, components=[CORE, TM, LIBC, LIBM],
                oracle="a serializability check of the recorded history against a reference model of the settings, and a comparison "
                       "with errno, floating-point environment, locale and working directory outside of transactions"),
    "C18": dict(scenarios={"lifecycle": 1, "steady": 0.5, "core_modules": 0.2, "ptrdata_own": 0.2, "settings": 0.2}, components=[CORE, TM, LIBC, LIBM, TXLIB, "ptrdata and arithmetic modules"],
                oracle="the simulated heap's live blocks, lock registry and file descriptors after the last release, and a joint reference "
                       "model of all subsystems for the threads that start again afterwards"),
    "C19": dict(scenarios={"ptrdata": 1, "ptrdata_own": 0.6}, components=[CORE, "ptrdata module"],
                oracle="a linearizability check of the recorded operations on each shared address and a per-thread model of local data"),
    "C21": dict(scenarios={"math": 1}, components=[CORE, TM, LIBC, LIBM],
                oracle="the C function called in a clean environment under the same rounding mode, and a model of errno, exception "
                       "flags and rounding mode across roll-backs"),
    "C20": dict(scenarios={"string": 1}, components=[CORE, TM, LIBC]),
    "C25": dict(scenarios={"stdc": 1}, components=[CORE, TM, LIBC],
                oracle="a serializability check of the recorded history in which the C function is applied to a model of the memory"),
    "C26": dict(scenarios={"signal": 1}, components=[CORE, TM, LIBC],
                oracle="a model of who owns each signal, which handlers ran and which error the recovery phase saw, and a "
                       "serializability check of the memory that the transactions wrote"),
    "C23": dict(scenarios={"mixed": 1, "mixed_faults": 0.6, "nodes": 0.4}, components=[CORE, TM, LIBC, LIBM, TXLIB, "ptrdata and arithmetic modules"],
                oracle="a serializability check of the recorded history against one joint reference model of memory, data structures, "
                       "files, pipes, heap, working directory and input stream, and a comparison of all of their final states with it"),
    "C24": dict(scenarios={"file_faults": 1, "fildes_faults": 1, "stream_faults": 1, "connect_faults": 0.7}, components=[CORE, LIBC],
                oracle="the simulated kernel's record of injected system-call failures, short transfers and interruptions, compared "
                       "with the errors reported, and a serializability check of the recorded history"),
}
LEVEL_NOTES = {
    "C01": "seeded search over schedules and workloads; mostly 2-4 threads (at times up to 18), 16 transactions, arenas of 64 to 1600 bytes",
    "C02": "seeded search over schedules, roll-backs, errors and allocation failures",
    "C03": "seeded search; workloads mix privatisation with loads and stores of the same blocks",
    "C04": "seeded search over errors raised by the application, failing callbacks, allocation and pthread failures",
    "C05": "seeded search; 1-4 threads with external effects inside irrevocable transactions, and operations of the libc "
           "module that have no way back (dup2, O_TRUNC, mkdir, link, unlink, chmod, connect, accept, stream reads, ...)",
    "C06": "seeded search, progress within a step bound under a fair phase, up to 22 threads on 1-3 locks, clock jumps",
    "C07": "seeded search with up to 4 modules per thread, optional callbacks left out, failing callbacks",
    "C09": "seeded search; 2-4 threads, up to 16 transactions, 1-3 lists, roll-backs and allocation failures",
    "C10": "seeded search; 2-4 threads, up to 16 transactions, 1-3 multisets with duplicates, roll-backs and allocation failures",
    "C11": "seeded search; 2-4 threads, up to 16 transactions, 1-3 queues, roll-backs and allocation failures",
    "C12": "seeded search; 2-4 threads, up to 16 transactions, 1-3 stacks, roll-backs and allocation failures",
    "C13": "seeded search; 1-4 threads, up to 16 transactions on 1-3 files, with 64-byte windows at offsets between 0 and 2^62, through shared and private "
           "descriptors, roll-backs, allocation failures",
    "C14": "seeded search; 1-4 threads, up to 16 transactions over open, creat, mkstemp, dup, dup2, pipe, socket, accept, connect, "
           "bind, listen, shutdown, fcntl, close and I/O, with a simulated peer, descriptor numbers reused by the kernel and descriptors "
           "shared by threads",
    "C15": "seeded search; 1-4 threads, up to 16 transactions on 1-4 pipes, FIFOs, sockets and character devices with a simulated "
           "peer, full and non-blocking streams, short transfers, interruptions and failures",
    "C24": "seeded search; EINTR, short transfers, EIO, ENOSPC, EMFILE and other errors injected into every simulated system call",
    "C16": "seeded search; 1-4 threads, up to 16 transactions on 1-4 blocks of 0-96 bytes, roll-backs, allocation failures, "
           "impossible sizes",
    "C20": "seeded search; 1-4 threads, up to 12 transactions over 30 functions on a 272-byte arena",
    "C17": "seeded search; 1-4 threads over chdir, fchdir, getcwd, setlocale, uselocale, newlocale, duplocale, freelocale, errno and "
           "the floating-point environment, roll-backs, allocation and system-call failures",
    "C19": "seeded search; 1-4 threads, up to 16 transactions, 1-4 addresses that share directories of the maps or do not, "
           "allocation failures, state released and reused",
    "C21": "seeded search; 1-3 threads, 200 functions over special and random arguments, pending errno values, exception flags and "
           "rounding modes, roll-backs",
    "C18": "seeded search; 1-6 threads in one or two generations, state released between transactions and at thread end, up to 3 "
           "transactions per thread over all modules, allocation and pthread failures; repetition of up to 4 transactions up to 60 times",
    "C25": "seeded search; 1-4 threads, up to 12 transactions over 65 formats for printing and scanning, sorting with 6 element sizes, "
           "dates and random numbers; allocation failures and failing calls",
    "C26": "seeded search; 1-4 threads, 4 signals, raised in code of the program and arriving at arbitrary steps of the library, "
           "signals acquired and released concurrently, failing sigaction()",
    "C23": "seeded search; 1-4 threads, up to 16 transactions of up to 8 operations over 2-6 subsystems at once, conflicts, errors, "
           "irrevocability, allocation and system-call failures",
    "C08": "seeded search with 2-22 threads on 1-3 locks, ownership tracked independently",
}
NOT_APPLICABLE = {
    "C22": "arithmetic and casts are pure functions of their arguments: no concurrency, time, I/O or multi-party behaviour; their "
           "errors are used as sources of errors in C04",
}
