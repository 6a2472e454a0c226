# What each property's check runs.
CONFIGS = {
    # default Linux build: futex events, native semaphores, pthread mutexes
    "A": [],
    # assertions off, and pthread functions allowed to return EINTR (BOOST_SYNC_HAS_PTHREAD_EINTR_BUG)
    "An": ["-DNDEBUG", "-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG"],
    # no futex: semaphore-based auto_reset_event, emulated manual_reset_event
    "B": ["-DBOOST_SYNC_USE_PTHREAD"],
    # neither POSIX semaphores nor POSIX timeouts: all emulations; bool-based spin_mutex
    "C": ["-DBOOST_SYNC_USE_PTHREAD", "-DVCFG_NO_SEM", "-DATOMIC_BOOL_LOCKFREE=2"],
    "Cn": ["-DBOOST_SYNC_USE_PTHREAD", "-DVCFG_NO_SEM", "-DATOMIC_BOOL_LOCKFREE=2", "-DNDEBUG", "-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG"],
    # no static initializers: constructors call pthread_mutex_init and pthread_cond_init and can fail
    "I": ["-DVCFG_NO_STATIC_INIT"],
    "CI": ["-DBOOST_SYNC_USE_PTHREAD", "-DVCFG_NO_SEM", "-DATOMIC_BOOL_LOCKFREE=2", "-DVCFG_NO_STATIC_INIT"],
    # Boost.DateTime with nanosecond resolution
    "D": ["-DBOOST_DATE_TIME_POSIX_TIME_STD_CONFIG"],
    # compiler thread-local storage for the thread-specific manager
    "T": ["-DBOOST_SYNC_USE_COMPILER_TLS"],
    "Tn": ["-DBOOST_SYNC_USE_COMPILER_TLS", "-DNDEBUG"],
    # as for a compiler without rvalue references, variadic templates and uniform initialization (emulated moves etc.)
    "L": ["-DBOOST_NO_CXX11_RVALUE_REFERENCES", "-DBOOST_NO_CXX11_VARIADIC_TEMPLATES", "-DBOOST_NO_CXX11_UNIFIED_INITIALIZATION_SYNTAX"],
    # the Windows implementation on a model of the Windows API (fake/win/w32.hpp, vrt/w32.inc)
    "W": ["-DVCFG_WIN", "-I@VERIF@/fake/win"],
    # as built for Windows XP
    "W5": ["-DVCFG_WIN", "-I@VERIF@/fake/win", "-DBOOST_USE_WINAPI_VERSION=0x0501"],
    "Wn": ["-DVCFG_WIN", "-I@VERIF@/fake/win", "-DNDEBUG"],
    # the libdispatch (macOS) semaphore on a model of libdispatch's semaphores (fake/mac); the rest as in C
    "M": ["-DBOOST_SYNC_USE_PTHREAD", "-DVCFG_NO_SEM", "-DBOOST_SYNC_DETAIL_USE_DISPATCH_SEMAPHORES", "-DVCFG_DISPATCH", "-I@VERIF@/fake/mac"],
}
# A crash, failed assertion, escaped exception or misuse of memory or of an OS object during the operations a property
# is about refutes every property: the operation didn't do what it is specified to do.
GENERIC_KINDS = {"crash", "abort", "terminate", "exception", "memory", "misuse", "sanitizer"}

SCHED = ("each case draws a program (threads, operations, arguments), a scheduling strategy (random, sticky, PCT, run-to-block) and fault rates "
         "(spurious wake-ups, EINTR, weak CAS failures, racing timeouts) from (seed, index) and runs the real code on a deterministic scheduler. ")


def J(h, mode, cfg, quick, thorough=None, **kw):
    return dict(h=h, mode=mode, cfg=cfg, quick=quick, thorough=thorough if thorough is not None else quick * 12, **kw)


VRT_ASSUME = ["pthread/semaphore/futex calls behave as in vrt's models of them (POSIX/Linux semantics)",
              "held on the executions run; not a proof"]

PROPS = {
    "C01": dict(
        level="exploration", kinds={"exclusion", "leaked-failure"},
        rule=SCHED + "Non-trivial: an acquisition was contended or an exact try-lock expectation was checked; distinct by hash of the interleaving.",
        assumptions=VRT_ASSUME,
        jobs=[J("h_mutex", "C01", "A", 300000), J("h_mutex", "C01", "An", 150000), J("h_mutex", "C01", "C", 300000), J("h_mutex", "C01", "Cn", 150000), J("h_mutex", "C01", "W", 150000), J("h_mutex", "C01", "Wn", 60000), J("h_mutex", "C01", "L", 60000)]),
    "C02": dict(
        level="exploration", kinds={"leaked-failure", "stuck-free", "deadlock", "livelock", "dishonest-try"},
        rule=SCHED + "Half of the cases are one-at-a-time sequences with an exact expectation of every result. Non-trivial: contended, or expectation checked.",
        assumptions=VRT_ASSUME,
        jobs=[J("h_mutex", "C02", "A", 300000), J("h_mutex", "C02", "An", 150000), J("h_mutex", "C02", "C", 300000), J("h_mutex", "C02", "Cn", 150000), J("h_mutex", "C02", "W", 150000), J("h_mutex", "C02", "Wn", 60000)]),
}
for pid, cfgs in (("C03", ("A", "An", "C", "Cn", "W", "M")), ("C04", ("A", "An", "B", "C", "Cn", "W", "M")), ("C05", ("A", "An", "B", "Cn", "W"))):
    PROPS[pid] = dict(
        level="exploration", kinds={"linearizability", "stuck", "deadlock", "livelock"},
        rule=SCHED + "The recorded history of every run is searched for an explanation by the sequential model, with blocked threads required to be justified at every instant when nothing can run. Non-trivial: at least two operations overlapped; distinct by hash of the interleaving.",
        assumptions=VRT_ASSUME,
        jobs=[J("h_ev", pid, c, 500000 if c in "ABC" else 250000 if c not in "WM" else 100000) for c in cfgs])
PROPS["C06"] = dict(
    level="exploration", kinds={"race", "stale-data"},
    rule=SCHED + "Plain data travels with the ownership or the signal under a vector-clock race detector; loads may return any value the C++11 memory model permits. Non-trivial: at least one hand-over of data; distinct by hash of the interleaving.",
    assumptions=VRT_ASSUME + ["atomics follow the C++11 model as implemented by vrt (no load buffering/out-of-thin-air)"],
    jobs=[J("h_hb", "C06", "A", 1000000), J("h_hb", "C06", "An", 400000), J("h_hb", "C06", "B", 600000), J("h_hb", "C06", "C", 600000), J("h_hb", "C06", "Cn", 400000), J("h_hb", "C06", "W", 300000), J("h_hb", "C06", "M", 200000)])

for pid, kinds in (("C07", {"early", "late", "not-obtained", "bogus", "bad-time", "deadlock", "livelock"}), ("C08", {"early", "late", "not-obtained", "bad-time", "deadlock", "livelock"})):
    PROPS[pid] = dict(
        level="exploration", kinds=kinds,
        rule="each case draws a primitive, a form of timed call, a time type and value (boundary, random and log-uniform offsets from the current time, both signs; random positions of the clocks within the second) and a scenario (never available, available, becomes available, disturbed, clock adjusted), "
             "runs the real call on the virtual clock and compares the time and the result of its return with exact arithmetic. Non-trivial: the call returned and was judged; distinct by hash of case and interleaving.",
        assumptions=VRT_ASSUME + ["a timed OS call ends exactly at its deadline unless woken (virtual clock)", "every clock read takes 1 ns"],
        jobs=[J("h_time", pid, c, 1000000 if c in "AC" else 400000) for c in ("A", "An", "B", "C", "Cn", "D", "W")] + [J("h_time", pid, "M", 200000)])
PROPS["C09"] = dict(
    level="exploration", kinds={"lost", "deadlock", "livelock"},
    rule=SCHED + "Token hand-out (every consumer must get its token) and census cases (who was waiting at a notification must be released by notify_all, somebody by notify_one). Timed waits have deadlines that only pass when nothing else can run. Non-trivial: all threads came through; distinct by hash of the interleaving.",
    assumptions=VRT_ASSUME,
    jobs=[J("h_cv", "C09", c, 800000 if c in "AC" else 400000 if c != "W" else 200000) for c in ("A", "An", "C", "Cn", "W")])
PROPS["C10"] = dict(
    level="exploration", kinds={"exclusion", "lock-not-held", "untruth", "wrong-error", "race", "deadlock", "livelock"},
    rule=SCHED + "Predicates may throw, user locks may fail to unlock or to re-lock, OS calls inside the wait may fail. Whoever returns from a wait or runs a predicate has to own the lock alone, by a probe from outside as well as by the lock object. Non-trivial: a wait was judged; distinct by hash of the interleaving.",
    assumptions=VRT_ASSUME,
    jobs=[J("h_cv", "C10", c, 800000 if c in "AC" else 400000 if c not in "WL" else 200000) for c in ("A", "An", "C", "Cn", "W", "L")])

LOCKS = ("each case is a random sequence of 3-40 operations over up to 3 lock objects of each kind, 2 mock lockables and scoped guards, with every acquiring or converting operation of a lockable free to succeed, fail or throw; "
         "a reference model predicts the operations on the lockables and the state of every object, and after each operation the claims held on the lockables are compared with their owners. Distinct by the sequence of operations and outcomes.")
PROPS["C11"] = dict(
    level="exploration", kinds={"conservation", "wrong-op", "untruth", "misuse-op", "misuse-false"}, rule=LOCKS,
    assumptions=["the lock templates don't depend on the type of the lockable", "unlock operations of a lockable don't throw", "held on the executions run; not a proof"],
    jobs=[J("h_locks", "C11", c, n) for c, n in (("A", 1500000), ("An", 1500000), ("L", 600000))])
PROPS["C12"] = dict(
    level="exploration", kinds={"misuse-op", "misuse-accepted", "wrong-code", "misuse-changed", "misuse-false"}, rule=LOCKS + " Most member calls are made from whatever state the object is in, right or wrong.",
    assumptions=["the lock templates don't depend on the type of the lockable", "held on the executions run; not a proof"],
    jobs=[J("h_locks", "C12", c, n) for c, n in (("A", 1500000), ("An", 1500000), ("L", 600000))])

TSS = ("each case (in a forked process, as the library's manager is a process-wide singleton) draws a program over several thread_specific_ptr objects, exit functions and threads that start, end, store, replace, release, create and destroy objects concurrently and from inside clean-ups, and runs the real code, "
       "including its pthread-key destructors, on the deterministic scheduler against a reference model. ")
TSS_ASSUME = VRT_ASSUME + ["pthread keys and thread-exit destructors behave as in vrt's model of them"]
for pid, kinds in (("C13", {"wrong-value", "deadlock", "livelock"}),
                   ("C14", {"cleanup-twice", "cleanup-missing", "cleanup-wrong", "cleanup-unexpected", "deadlock", "livelock"}),
                   ("C15", {"exit-order", "exit-missing", "exit-twice", "exit-thread", "exit-values", "leak-function", "deadlock", "livelock"}),
                   ("C16", {"early-unlock", "lost", "cleanup-missing", "exit-missing", "race", "deadlock", "livelock"})):
    PROPS[pid] = dict(
        level="exploration", kinds=kinds,
        rule=TSS + "Non-trivial: at least one observation of the property was checked; distinct by hash of the interleaving.",
        assumptions=TSS_ASSUME,
        jobs=[J("h_tss", pid, c, 60000 if c in "AT" else 24000 if c[0] not in "WL" else 8000, min_chunk=200) for c in ("A", "T", "An", "Tn", "W", "W5", "L")])

PROPS["C17"] = dict(
    level="fault_enumeration", kinds={"wrong-error", "swallowed", "not-absorbed", "side-effect", "deadlock", "livelock", "race"},
    rule="every scenario (operation x state x form) is run with every failing call (function x position 1..4 x error code) in each of 13 build configurations; the passes after the first repeat this with other schedules and arguments. "
         "Non-trivial: the fault was reached and its report and the state left behind were judged; distinct by fault point and interleaving.",
    assumptions=VRT_ASSUME + ["a failing system call has no effect but its error code"],
    jobs=[J("h_fault", "C17", c, 100000, min_chunk=200) for c in ("A", "An", "B", "C", "Cn", "I", "CI")] + [J("h_fault", "C17", "T", 20000, min_chunk=200)]
        + [J("h_fault", "C17", c, n, min_chunk=200) for c, n in (("W", 40000), ("Wn", 20000), ("W5", 20000), ("M", 20000), ("L", 20000))])
C18_JOBS = [J("h_life", "C18", c, n, flavour="vrtub") for c, n in (("A", 100000), ("An", 30000), ("B", 40000), ("C", 60000), ("Cn", 20000), ("I", 20000), ("CI", 20000), ("W", 20000), ("M", 10000))]
C18_JOBS += [J("h_tss", "C18", c, n, flavour="vrtub", min_chunk=200) for c, n in (("A", 20000), ("T", 20000), ("An", 6000), ("Tn", 6000), ("W", 4000), ("W5", 4000))]
C18_JOBS += [J("h_time", "C18", c, n, flavour="vrtub") for c, n in (("A", 60000), ("C", 40000), ("D", 40000), ("W", 40000))]
C18_JOBS += [J("h_fault", "C17", c, 5000, flavour="vrtub", min_chunk=200) for c in ("A", "C")]
C18_JOBS += [J("n_stress", m, c, n, flavour=f, min_chunk=20, timeout=600) for m, c, f, n in (
    ("stress", "A", "asan", 1200), ("signals", "A", "asan", 500), ("stress", "A", "tsan", 800), ("signals", "A", "tsan", 300), ("stress", "B", "asan", 600), ("stress", "B", "tsan", 400), ("stress", "C", "asan", 600),
    ("stress", "C", "tsan", 400), ("stress", "Tn", "asan", 500), ("stress", "T", "tsan", 300), ("signals", "B", "asan", 300), ("signals", "Tn", "plain", 600),
    ("stress", "A", "gasan", 600), ("stress", "A", "gcc", 1200), ("signals", "A", "gcc", 500), ("stress", "B", "gcc", 600), ("stress", "T", "gasan", 300),
    ("stress", "A", "memcheck", 320), ("signals", "A", "memcheck", 100), ("stress", "C", "memcheck", 160), ("stress", "Tn", "memcheck", 160), ("stress", "B", "memcheck", 160))]
PROPS["C18"] = dict(
    level="exploration", kinds={"race", "leak", "hang", "wrong-result", "wrong-value", "stale-data", "deadlock", "livelock"},
    rule="four families: (1) objects on a watched heap destroyed at the earliest allowed moment under the deterministic scheduler with the race detector on, (2) thread-specific storage with heap accounting, (3) time conversions with trapping undefined behaviour, "
         "(4) real threads under AddressSanitizer+LeakSanitizer+UBSan under ThreadSanitizer, and under valgrind's memcheck (uninitialized values), and as g++ builds them for C++11, with signals interrupting them. Distinct by hash of the interleaving (1-3) or by round (4).",
    assumptions=["held on the executions run; not a proof", "native runs depend on the machine's scheduling"],
    jobs=C18_JOBS)
