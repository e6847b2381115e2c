import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Transactional memory is serializable and attempts see consistent views",
 "Transactions that load and store shared memory through the transactional-memory interface behave as if the committed ones had run one after the other, in an order compatible with real time, and shared memory ends up as that order leaves it. A transaction sees its own earlier stores. No attempt, not even one that is later rolled back, observes a mixture of states that no such order could produce.",
 ["schedules","programs","histories"],
 "every set of concurrent transactions of loads and stores of every width, alignment and length, under every thread interleaving",
 "The tests increment counters from a few threads under whatever interleavings the OS produces and check only the final value; they never check reads of rolled-back attempts, odd alignments shared between threads, or a chosen interleaving.",
 ["modules/tm/src/vmem_tx.c","modules/tm/src/page.c","modules/tm/src/frame.c","modules/tm/src/framemap.c","modules/tm/src/module.c","src/picotm-lib-rwlock.c","src/picotm-lib-rwstate.c","modules/tm/include/picotm/picotm-tm.h"],
 [("two-phase locking per memory block with redo buffer","modules/tm/src/page.c tm_page_ld/tm_page_st/tm_page_xchg"),("page lookup per transaction","modules/tm/src/vmem_tx.c"),("frame map and frame locks","modules/tm/src/framemap.c, frame.c"),("reader/writer lock","src/picotm-lib-rwlock.c")],
 [("frame rwlock","owner(s) of a memory block","modules/tm/src/frame.h"),("page buffer","transaction-private copy of a block","modules/tm/src/page.h")],
 ["load_*_tx/loadcpy_tx results","shared memory after all commits"])
p("C02","A rolled-back transaction leaves shared memory untouched, byte for byte",
 "Whatever a transaction stored to shared memory, if the attempt ends in a conflict, an explicit restart or a recovered error, none of its stores remains visible to anyone once it is rolled back, and bytes next to the ones it wrote are never changed. When it commits, exactly the bytes it stored change, to the values stored last.",
 ["schedules","programs","fault_sequences"],
 "every sequence of stores of any width and alignment, ended by commit, conflict, restart or an error injected at any operation, with other threads running in between",
 "Tests roll back only in a few fixed places and compare single variables, never the neighbouring bytes, and never with an allocation failure in the middle of a store.",
 ["modules/tm/src/page.c","modules/tm/src/vmem_tx.c","modules/tm/src/module.c","src/picotm_tx.c","src/picotm.c"],
 [("commit copies exactly the buffered bits","modules/tm/src/page.c tm_page_apply"),("undo of pages and lock release","modules/tm/src/page.c tm_page_undo, vmem_tx.c"),("rollback driver","src/picotm_tx.c picotm_tx_rollback")],
 [("page bits","which bytes of a block are buffered or discarded","modules/tm/src/page.h")],
 ["bytes of the shared arena between and after transactions"])
p("C03","Privatised memory is usable directly, isolated, and committed or rolled back",
 "After a transaction privatises a range of memory for loading and/or storing, direct accesses to that range by the transaction are isolated from all other transactions until it ends. Direct writes to a range privatised for storing persist on commit and are completely reverted on rollback. Ranges privatised up to a terminating character cover everything up to and including that character. Discarding a part of a range affects neither the rest of it nor its roll-back.",
 ["schedules","programs","inputs"],
 "every mix of privatisation modes, ranges, terminator positions and ordinary transactional accesses, under every interleaving and rollback point",
 "Tests privatise whole aligned buffers from few threads; overlaps with earlier transactional stores, unaligned ranges, block-crossing terminators and rollback of direct writes are not sampled.",
 ["modules/tm/src/page.c","modules/tm/src/vmem_tx.c","modules/tm/include/picotm/picotm-tm.h"],
 [("write-through pages with saved original","modules/tm/src/page.c, vmem_tx.c prepare_page_privatize"),("terminator search","modules/tm/src/page.c tm_page_ld_c and the c-variants")],
 [("page flags","write-back or write-through mode of a block","modules/tm/src/page.h")],
 ["contents of privatised ranges seen by the owner, by other transactions and after the end"])
p("C04","Errors reach the recovery phase with their cause, from a rolled-back state",
 "If an operation inside a transaction fails (memory exhaustion, a failing system call, an error reported by a module or by the application), the transaction's effects so far are rolled back and control arrives once in its recovery phase, which can read exactly the error that occurred. Errors before the commit point are reported as recoverable; a failure while committed effects are being applied is reported as non-recoverable. From the recovery phase the transaction can be restarted or abandoned, and later transactions of every thread work normally.",
 ["fault_sequences","schedules","programs"],
 "every operation of every transaction as a failure point, every error kind, combined with conflicts and every interleaving",
 "Tests provoke one or two hand-picked errors single-threaded; allocation failures and module failures at arbitrary points do not happen in them.",
 ["src/picotm.c","src/picotm_tx.c","src/picotm_log.c","src/picotm_event.c","src/picotm_module.c","src/picotm-error.c","src/table.c"],
 [("error to restart-mode dispatch","src/picotm.c restart_tx_from_error, __picotm_begin"),("commit and rollback with point of no return","src/picotm_tx.c picotm_tx_commit, picotm_tx_rollback"),("error value setters","src/picotm-error.c")],
 [("thread error","cause reported to the recovery phase","src/picotm.c")],
 ["picotm_error_status, picotm_error_as_*, picotm_error_is_non_recoverable in the recovery phase; shared state after recovery"])
p("C05","An irrevocable transaction runs alone and is never rolled back by a conflict",
 "While a transaction runs irrevocably no other transaction executes or commits, and it is not rolled back because of conflicts. Every operation that has no way back makes its transaction irrevocable before its effect happens, so the effect happens once per committed transaction and never for an attempt that is rolled back. When the irrevocable transaction ends, in success or in error recovery, the others continue.",
 ["schedules","programs","fault_sequences"],
 "every interleaving of revocable and irrevocable transactions, reached on request, through an irrevocable operation, or through repeated conflicts, with and without errors",
 "No test overlaps an irrevocable transaction with revocable ones in a controlled way, and none observes mutual exclusion directly.",
 ["src/picotm_lock_manager.c","src/picotm_tx.c","src/picotm.c"],
 [("exclusive owner under reader/writer lock","src/picotm_lock_manager.c picotm_lock_manager_make_irrevocable, picotm_lock_manager_wait_irrevocable, picotm_lock_manager_release_irrevocability"),("retry limit switches to irrevocable mode","src/picotm_tx.c picotm_tx_begin")],
 [("exclusive lock owner","transaction that currently runs alone","src/picotm_lock_manager.h")],
 ["overlap of executing transactions; count of irrevocable effects"])
p("C06","Transactions make progress: no deadlock, lost wake-up or endless retry",
 "Once faults stop, every started transaction commits or reaches its recovery phase within a bounded number of scheduler steps under a fair scheduler, whatever locks it contends for, however long other transactions have been running and whatever the clock did. A transaction that keeps conflicting is given exclusive execution after a bounded number of retries. Threads suspended while waiting for a lock are resumed or time out, and waiting never corrupts the state of the lock or of other waiters.",
 ["schedules","fault_sequences","programs"],
 "every interleaving of lock acquisition, suspension, wake-up, time-out and release, with spurious wake-ups, slow threads and clock jumps",
 "The suspension path needs transactions older than a second, which the tests practically never produce, and a hang is only observable as a test time-out under interleavings nobody controls.",
 ["src/picotm_lock_manager.c","src/picotm_lock_owner.c","src/picotm-lib-rwlock.c","src/picotm_os_cond.c","src/picotm_os_mutex.c","src/picotm_os_rwlock.c","src/picotm_os_timespec.c","src/picotm_tx.c"],
 [("waiter lists with hand-over-hand locking","src/picotm_lock_manager.c"),("timed suspension","src/picotm_lock_owner.c, src/picotm_os_cond.c"),("retry counting","src/picotm_tx.c")],
 [("waiter list","threads waiting for a lock","src/picotm-lib-rwlock.c"),("timestamp","start of the transaction","src/picotm_lock_owner.h")],
 ["steps until all transactions end; simulated time of suspensions; number of retries"])
p("C07","Modules see each transaction's life cycle exactly once and in order",
 "Every module that takes part in a transaction is asked to prepare before anything is applied; a commit applies the recorded operations of all modules in the order they were recorded, and a rollback undoes them in exactly the reverse order; in both cases each recorded operation is handled once, and clean-up follows once per module after that. If preparation fails nothing is applied and everything is undone. A module's callbacks never run for operations recorded in another transaction or attempt.",
 ["programs","schedules","fault_sequences"],
 "every set of up to the maximum number of modules, every sequence of recorded operations, and a failure in every callback and allocation",
 "The tests contain no module that records the sequence of its callbacks; ordering across modules and failing callbacks are never examined.",
 ["src/picotm_tx.c","src/picotm_module.c","src/picotm_log.c","src/picotm_event.c","src/table.c","include/picotm/picotm-module.h"],
 [("event log","src/picotm_log.c"),("forward and reverse walk","src/picotm_event.c"),("module walk","src/picotm_tx.c, src/table.c tabwalk_1")],
 [("event log","operations recorded by the running attempt","src/picotm_log.h")],
 ["sequence of callbacks received by instrumented modules"])
p("C08","Module locks give readers/writer exclusion with correct upgrade and release",
 "At no time is a lock held for writing by one transaction and held in any way by another; several transactions can hold it for reading. A transaction can upgrade from reading to writing only if it is the sole holder, acquiring again what is held succeeds, and releasing returns the lock to the state as if it had never been taken. A failed attempt to acquire reports a conflict and leaves the lock as it was.",
 ["schedules","histories","programs"],
 "every sequence of read, write, upgrade and release requests by any number of threads, under every interleaving",
 "The exclusion depends on a multi-field atomic word updated by compare-and-swap; tests do not control the interleavings of these updates.",
 ["src/picotm-lib-rwlock.c","src/picotm-lib-rwstate.c","include/picotm/picotm-lib-rwlock.h","include/picotm/picotm-lib-rwstate.h"],
 [("packed lock word","src/picotm-lib-rwlock.c"),("per-transaction lock state","src/picotm-lib-rwstate.c")],
 [("lock word","counter, writer bit, waiter index","include/picotm/picotm-lib-rwlock.h")],
 ["set of holders tracked by the simulator at each grant and release"])
for id,nm,noun,f,ops in [
 ("C09","list","list","txlist","front, back, insertion at any position, erase, traversal, size and emptiness"),
 ("C10","multiset","multiset","txmultiset","insertion, erase, lookup, bounds, counting, ordered traversal, size and emptiness"),
 ("C11","queue","queue","txqueue","push, pop, front, back, size and emptiness"),
 ("C12","stack","stack","txstack","push, pop, top, size and emptiness")]:
    order={"C09":"keeps the order given by the insertions","C10":"keeps its entries sorted by key, with duplicates","C11":"is first in, first out","C12":"is last in, first out"}[id]
    p(id,f"The transactional {nm} is an atomic, isolated {nm}",
     f"Concurrent transactions on shared {nm}s return the same results and leave the same contents as some one-after-the-other execution of the committed transactions in real-time order, where the {nm} {order}. A transaction sees its own changes; nobody sees the changes of an attempt that is later rolled back, which disappear without a trace. No entry is ever lost, duplicated or linked into two places, including when an operation fails for lack of memory.",
     ["schedules","programs","histories","fault_sequences"],
     f"every program of {ops} on one or more {nm}s, under every interleaving, restart and allocation failure",
     f"The tests use a handful of fixed programs, mostly one thread per operation, check only that they terminate or a final count, and never fail an allocation half-way.",
     [f"modules/txlib/src/{f}_tx.c",f"modules/txlib/src/{f}_state.c",f"modules/txlib/src/{f}_entry.c",f"modules/txlib/src/{f}.c","modules/txlib/src/txlib_tx.c","modules/txlib/src/txlib_event.c","modules/txlib/src/txlib_module.c"],
     [(f"operations with events for undo/apply",f"modules/txlib/src/{f}_tx.c"),("event recording","modules/txlib/src/txlib_tx.c, txlib_event.c"),(f"entry linking",f"modules/txlib/src/{f}_entry.c, {f}_state.c")],
     [(f"{f} state",f"shared head of the {nm} and its lock",f"modules/txlib/include/picotm/picotm-{f}-state.h")],
     ["results of every operation; contents after all transactions ended"])
p("C13","Reads and writes of regular files are transactional",
 "Reads, writes, positioned reads and writes and seeks on regular files by concurrent transactions give the results and leave the contents, size and offset that some one-after-the-other execution of the committed transactions would. A transaction reads back its own writes; writes of a rolled-back transaction never reach the file and its offset does not move. On commit every written byte reaches the file exactly where it was written. A transaction that ends the process (exit and its kin) commits first.",
 ["schedules","programs","histories","fault_sequences"],
 "every program of file operations of any offset and length on shared and private descriptors, with short transfers, end-of-file, interrupted and failing calls, under every interleaving",
 "Tests write and read back small fixed patterns; overlapping ranges across record borders, end-of-file reads followed by commits, and rollbacks of mixed operations are not sampled.",
 ["modules/libc/src/fildes/regfile_tx.c","modules/libc/src/fildes/regfile.c","modules/libc/src/fildes/seekbuf_tx.c","modules/libc/src/fildes/seekbuf.c","modules/libc/src/fildes/rwlockmap.c","modules/libc/src/fildes/rwcountermap.c","modules/libc/src/fildes/iooptab.c","modules/libc/src/fildes/ioop.c","modules/libc/src/fildes/fildes_tx.c"],
 [("record locks on file regions","modules/libc/src/fildes/seekbuf_tx.c, rwcountermap.c, rwlockmap.c"),("write set and read set","modules/libc/src/fildes/iooptab.c"),("offset and size handling","modules/libc/src/fildes/regfile_tx.c")],
 [("record lock map","locks on regions of a file","modules/libc/src/fildes/rwlockmap.c")],
 ["results of calls; contents, size and offsets in the simulated kernel"])
p("C14","File descriptors are opened, duplicated and closed transactionally",
 "A descriptor opened, duplicated or created in a transaction that rolls back does not exist afterwards, and neither does a file the transaction created; one closed in a transaction stays usable until commit, is closed exactly once on commit and stays open on rollback. No sequence of commits, rollbacks and failing calls leaks a descriptor, closes one twice or closes one that does not belong to the transaction, and a descriptor number reused by the kernel is not confused with its former owner. Operations on descriptors that are not open report the error that the system would.",
 ["programs","schedules","fault_sequences"],
 "every program of open, dup, close, pipe, socket, fcntl and I/O calls with failures injected in any system call or allocation, under every interleaving",
 "Tests open one or two files and never fail a call between the creation of a descriptor and its registration, nor count the descriptors that remain.",
 ["modules/libc/src/fildes/fildes_tx.c","modules/libc/src/fildes/fd.c","modules/libc/src/fildes/fd_tx.c","modules/libc/src/fildes/fdtab.c","modules/libc/src/fildes/filetab.c","modules/libc/src/fildes/file.c","modules/libc/src/fildes/openoptab.c","modules/libc/src/fildes/pipeoptab.c"],
 [("descriptor table with states and references","modules/libc/src/fildes/fdtab.c, fd.c"),("open-file tables","modules/libc/src/fildes/*tab.c"),("deferred open/close events","modules/libc/src/fildes/fildes_tx.c")],
 [("fd state","unused, in use, closing","modules/libc/src/fildes/fd.h")],
 ["descriptor table of the simulated kernel; order and count of close calls"])
p("C15","Stream output leaves on commit only, once and in order",
 "Data a transaction writes to a pipe, FIFO, socket or character device is transferred only when the transaction commits, exactly once, unmodified and in program order; a rolled-back attempt transfers nothing. Input that was consumed is never consumed again by a retry or lost by a rollback.",
 ["schedules","programs","fault_sequences"],
 "every program of stream writes, sends, reads and receives mixed with other operations and rollbacks, including partial and interrupted transfers at commit",
 "Tests write a fixed string once per transaction; partial transfers at commit and retries after writes are not produced.",
 ["modules/libc/src/fildes/fifo_tx.c","modules/libc/src/fildes/socket_tx.c","modules/libc/src/fildes/chrdev_tx.c","modules/libc/src/fildes/pipebuf_tx.c","modules/libc/src/fildes/sockbuf_tx.c","modules/libc/src/fildes/chrdevbuf_tx.c","modules/libc/src/fildes/ioop.c","modules/libc/src/fildes/fildes_tx.c"],
 [("write-back of buffered output at commit","modules/libc/src/fildes/fifo_tx.c, socket_tx.c, chrdev_tx.c"),("irrevocability before consuming input","modules/libc/src/fildes/*_tx.c read/recv")],
 None,["bytes that arrive in the simulated kernel's streams"])
p("C16","Heap memory follows the transaction: no leak, no double free, no early free",
 "Memory allocated in a transaction is usable until it is freed and disappears if the transaction rolls back; memory freed in a transaction stays intact until commit and survives a rollback. Over any history each block is released exactly once, reallocation preserves contents, sizes and alignment are as requested, and an allocation that cannot be satisfied is reported as an error instead of yielding a short block.",
 ["programs","schedules","fault_sequences","inputs"],
 "every program of allocation, reallocation and release of every size and alignment, with failures and rollbacks anywhere",
 "Tests allocate a few blocks without tracking the allocator underneath, so a leak, a double release or an early release on one of the paths is invisible.",
 ["modules/libc/src/allocator/allocator_tx.c","modules/libc/src/allocator/module.c","modules/libc/src/stdlib-tm.c","modules/libc/src/stdlib.c","modules/libc/src/string-tm.c"],
 [("deferred free and compensating free","modules/libc/src/allocator/allocator_tx.c"),("reallocation by copy","modules/libc/src/stdlib-tm.c")],
 None,["calls that reach the underlying allocator, contents of blocks"])
p("C17","Process-wide and thread-wide settings follow the transaction",
 "The current working directory, the process and thread locale, errno and the floating-point environment changed inside a transaction keep their new value if it commits and are restored to the value at transaction start if it rolls back, and no other transaction observes a value that is later rolled back. Concurrent transactions that read or change these settings behave as if executed one after the other.",
 ["schedules","programs","fault_sequences"],
 "every program that reads and changes these settings, rolled back by conflict, restart or error at any point, from several threads",
 "Tests change each setting once in a transaction that commits; a rollback after the change, or two threads, are rarely or never exercised.",
 ["modules/libc/src/cwd/cwd_tx.c","modules/libc/src/cwd/cwd.c","modules/libc/src/locale/locale_tx.c","modules/libc/src/locale/locale.c","modules/libc/src/error/error_tx.c","modules/libc/src/error/module.c","modules/libm/src/fpu_tx.c","modules/libm/src/module.c"],
 [("cwd lock and undo","modules/libc/src/cwd/cwd_tx.c"),("locale lock and undo","modules/libc/src/locale/locale_tx.c"),("saved errno","modules/libc/src/error/error_tx.c"),("saved floating-point environment","modules/libm/src/fpu_tx.c")],
 None,["setting as seen by the application and by the simulated kernel"])
p("C18","All resources are returned: threads, locks and module state leave nothing behind",
 "When all threads have released their transactional state, everything the library allocated or initialised has been released exactly once, and using transactions again afterwards works. Concurrent first use, use and release of shared state by any number of threads initialises it exactly once before anyone uses it and tears it down only after the last user, also when an initialisation fails. Between transactions no lock or reference of a finished transaction remains, and a thread that executes the same transactions again and again does not make the library's state grow with their number.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of thread start, first use of each module, release and re-initialisation, with a failure in any initialisation step",
 "Tests start all threads at once and never look for leaks at thread end, never fail initialisation, and do not control the race between last release and first use.",
 ["include/picotm/picotm-lib-shared-state.h","include/picotm/picotm-lib-global-state.h","include/picotm/picotm-lib-thread-state.h","include/picotm/picotm-lib-ref.h","src/picotm-lib-shared-ref-obj.c","src/picotm-lib-shared-treemap.c","src/picotm.c","src/picotm_lock_manager.c"],
 [("reference-counted shared state","include/picotm/picotm-lib-shared-state.h, picotm-lib-ref.h"),("thread state","include/picotm/picotm-lib-thread-state.h"),("lock-owner registry","src/picotm_lock_manager.c")],
 None,["simulated heap, mutexes and descriptors after the last release"])
p("C19","Data attached to addresses is exact per thread and atomic when shared",
 "Thread-local data that a module attaches to an address is what the same thread reads there until it replaces or clears the data, across commits, roll-backs and any other addresses in use, and is never visible to another thread or under another address. Shared data of an address behave as one atomic register for all threads, whether or not a thread has stored data itself: set, test-and-set, get and clear of all threads take effect one at a time, in an order consistent with real time, as long as some thread uses the module. An operation that reports an error has no effect; everything allocated is released after the last user.",
 ["schedules","histories","fault_sequences"],
 "every sequence and interleaving of operations on any set of addresses, inside and between transactions that commit or roll back, with failing allocations and threads that release and reuse their state",
 "The tests attach data to very few addresses in one thread, never fail an allocation and never race two first operations on one address.",
 ["modules/ptrdata/src/ptrdata_tx.c","modules/ptrdata/src/ptrdata.c","modules/ptrdata/src/module.c","src/picotm-lib-treemap.c","src/picotm-lib-shared-treemap.c"],
 [("maps from address to data","src/picotm-lib-treemap.c, src/picotm-lib-shared-treemap.c"),("atomic shared values","modules/ptrdata/src/ptrdata.c"),("per-thread and shared module state","modules/ptrdata/src/module.c")],
 None,["results of all operations on an address"])
p("C20","String and memory functions act as in C on transactional memory",
 "Called in a transaction on shared memory, the string and memory functions of the C library interface return what the C functions return on the memory as the transaction sees it, including its own earlier stores, and change memory the same way. What they read and write is isolated and rolled back as for ordinary transactional accesses.",
 ["inputs","programs","schedules"],
 "every string and memory function, on every content, alignment, length and overlap, mixed with transactional stores, under interleavings and rollback",
 "The existing tests do not exercise the string functions on contended or previously stored memory at all.",
 ["modules/libc/src/string-tm.c","modules/libc/src/string.c","modules/tm/src/vmem_tx.c","modules/tm/src/page.c"],
 [("privatisation of operands","modules/libc/src/string-tm.c"),("pass-through to C library","modules/libc/src/string.c")],
 None,["results and memory contents compared with the C library on a model"])
p("C21","Mathematical functions act as in C and report exactly their own errors",
 "Called in a transaction, a mathematical function returns, under the rounding mode in effect, what the C function returns for the arguments, including results stored through pointers and signgam. A real-valued function enters the recovery phase with EDOM, ERANGE or the C function's errno if and only if this call causes an error (errno set, or an invalid, divide-by-zero or overflow exception; an underflow may count as one), whatever errno value and exception flags were pending before. Errno, exception flags, rounding mode and stored results are restored when the transaction rolls back, also after complex-valued functions, and concurrent transactions do not influence each other's results.",
 ["programs","fault_sequences","schedules"],
 "every function and argument, after every sequence of earlier calls, pending exceptions, errno values and rounding modes, rolled back by conflict, restart or error at any point, from several threads",
 "Tests call each function once with one argument in a fresh environment in a transaction that commits; what a call inherits from and leaves to the environment across roll-backs is never looked at.",
 ["modules/libm/src/math.c","modules/libm/src/complex.c","modules/libm/src/matherr.c","modules/libm/src/fpu_tx.c","modules/libc/src/error/error_tx.c"],
 [("errno and FE flags saved, cleared and checked around each call","modules/libm/src/matherr.c"),("saved environment","modules/libm/src/fpu_tx.c")],
 None,["results, errors and floating-point environment as the application sees them"])
p("C22","Checked arithmetic and casts are exact or enter recovery",
 "Each checked arithmetic operation and cast returns the mathematically exact result, or, if the result does not fit the type or is undefined, enters the recovery phase with the matching error instead of returning.",
 ["inputs"],
 "every operation, type and operand value",
 "Tests sample boundary values; the property is a pure function of its operands.",
 ["modules/arithmetic/include/picotm/picotm-arithmetic.h","modules/cast/include/picotm/picotm-cast.h","modules/arithmetic/src/arithmetic.c","modules/cast/src/cast.c"],
 [("range tests before the operation","modules/arithmetic/include/picotm/picotm-arithmetic.h, modules/cast/include/picotm/picotm-cast.h")])
p("C23","One transaction over several subsystems commits or rolls back as a whole",
 "A transaction that mixes shared memory, data structures, files, streams and heap memory takes effect in all of them or in none of them, and other transactions observe all of its effects on the shared state or none.",
 ["schedules","programs","fault_sequences"],
 "every mix of operations across subsystems, ended by commit, conflict, restart or an error at any operation, under every interleaving",
 "Almost every test uses one subsystem at a time; none checks two subsystems against each other after a rollback.",
 ["src/picotm_tx.c","src/picotm.c","modules/tm/src/module.c","modules/txlib/src/txlib_module.c","modules/libc/src/fildes/module.c","modules/libc/src/allocator/module.c"],
 [("common commit and rollback of all modules","src/picotm_tx.c"),("module registration on first use","modules/*/src/*module.c")],
 None,["joint state of all subsystems against a joint sequential model"])
p("C24","Failing, interrupted and partial system calls are handled faithfully",
 "An interrupted system call is repeated, a partial transfer is completed or reported with its true length, and a failing call is reported with the error number the system returned, inside a transaction exactly as documented for error recovery; none of these events makes a transaction report success for something that did not happen or repeat an effect that did. The thread's recovery strategy decides whether a call that cannot proceed on a non-blocking descriptor returns this or starts recovery. A lock conflict is never reported to the application as an error, and a failure before the commit point is reported as recoverable unless the transaction has executed an operation that cannot be taken back.",
 ["fault_sequences","programs","schedules"],
 "every system call made by a transaction, failing with every error number, interrupted, or transferring partially, at every call",
 "The tests run against a healthy kernel; no call ever fails, is interrupted or is short.",
 ["modules/libc/src/fildes","modules/libc/src/unistd.c","modules/libc/src/unistd-tm.c","modules/libc/src/fcntl.c","modules/libc/src/sys_stat.c","modules/libc/src/sys_socket.c","modules/libc/src/cwd","modules/libc/src/error"],
 [("retry on interruption","modules/libc/src/compat/temp_failure_retry.h"),("errno conversion","modules/libc/src/fildes/*_tx.c")],
 None,["error reported in the recovery phase against the injected one; effects in the simulated kernel"])
p("C25","Formatting, scanning, sorting and date functions act as in C in transactions",
 "Called in a transaction on shared memory, snprintf, sscanf, qsort, rand_r, strftime and strptime return what the C functions return on the memory as the transaction sees it, and change the memory that their arguments refer to (buffers, converted values, array elements, seeds, broken-down times) the same way, and no other memory. What they read and write is isolated and rolled back as for ordinary transactional accesses. A conversion that picotm does not support and a call that fails start recovery with the errno of the error; the end of the input is a result, not an error.",
 ["inputs","programs","fault_sequences","schedules"],
 "every format with every sequence of conversions and arguments, on every content, alignment and length of the buffers, mixed with transactional stores, under interleavings, failing calls and rollback",
 "No test calls the formatting, scanning or sorting functions; strftime is called once on private memory.",
 ["modules/libc/src/stdio.c","modules/libc/src/stdio-tm.c","modules/libc/src/stdlib.c","modules/libc/src/stdlib-tm.c","modules/libc/src/time.c","modules/tm/src/vmem_tx.c"],
 [("privatisation of variable arguments","modules/libc/src/stdio.c"),("pass-through to C library, errors","modules/libc/src/stdio-tm.c")],
 None,["results and memory contents compared with the C library on a model"])
p("C26","A signal that arrives in a transaction starts its recovery, others are handled",
 "A signal that has been acquired from the process and added on a thread starts the recovery of that thread's running transaction: its effects are rolled back and the recovery phase sees the signal's information, as a non-recoverable error unless the signal was added as recoverable. At all other times (outside of a transaction or after its roll-back, not added, removed or cleared) the handler for non-transactional code that was given when the signal was acquired runs exactly once with the signal's arguments; a signal that was not acquired or has been released reaches the process's own handler. Handling a signal leaves it unblocked and deliverable again, never hangs, whatever the thread was doing, and does not affect transactions of other threads.",
 ["schedules","programs","fault_sequences"],
 "every point at which a signal arrives, every sequence of acquiring, releasing, adding, removing and clearing signals by several threads, failing sigaction() calls, conflicts, errors and restarts",
 "The tests raise one signal in the middle of otherwise empty transactions and always want recovery; none arrives outside of a transaction, during commit or roll-back or while signals are being acquired.",
 ["modules/libc/src/signal/sigstate.c","modules/libc/src/signal/signal_tx.c","modules/libc/src/signal/module.c","src/picotm.c","include/picotm/picotm.h"],
 [("ownership of the process's signals","modules/libc/src/signal/sigstate.c"),("signals of a thread, running transaction","modules/libc/src/signal/signal_tx.c"),("signal mask across the jump","include/picotm/picotm.h")],
 None,["handlers called, error seen by the recovery phase, disposition and mask of the simulated process"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
