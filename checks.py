# Which client programs decide which property, and which violation kinds belong to it.
GENERIC = {"crash", "use-after-free", "dangling-stack", "destroyed-in-use", "double-free", "bad-free", "stack-overflow",
           "endless-loop", "uncaught-exception", "terminate", "abort", "assertion", "native-misuse", "setup-or-teardown-blocked",
           "memory-exhaustion", "harness", "monitor-overflow"}
MAXS = {"quick": 300, "thorough": 3000}
MAXSTATES = {"quick": 12000000, "thorough": 60000000}
DEADLINE = {"quick": 500, "thorough": 5400}
TECHNIQUE = "explicit-state model checking of the compiled headers: exhaustive exploration of all interleavings under a controlled scheduler"
LEVEL_NOTE = ("Exhaustive within the client programs listed in the evidence (threads, operations per thread, nesting); the transition relation is "
              "the compiled code of /repo/include. Trusted: engine/mc.cpp, its model of pthreads/semaphores/clocks, sequentially consistent reads (weak orders are judged by "
              "happens-before race detection), 64-bit state hashes.")
ASSUMPTIONS = ["native pthread/semaphore primitives behave as POSIX specifies", "atomic loads return the latest value of the interleaving; memory orders are judged by happens-before",
               "accesses inside libstdc++.so and mem* functions are not tracked", "no 64-bit state hash collision"]
SELFTEST = {"racy": "race", "cvlost": "deadlock", "mprlx": "race", "dead": "deadlock", "rec": "stack-overflow", "dang": "race"}
NOTES = ""

LIBS = {}
for g in "SPIN FAIR ALT CHECKED POSIX FAIRS ALTS CHECKEDS".split():
    LIBS["lock_" + g] = dict(src="h_lock.cpp", defs=["G_" + g])
    LIBS["lockA_" + g] = dict(src="h_lock.cpp", defs=["G_" + g], asserts=True)

for g in "FAIRS ALTS CHECKEDS".split(): LIBS["lockM_" + g] = dict(src="h_lock.cpp", defs=["G_" + g, "MACROS"])
for g in "FAIR ALT CHECKED POSIX FAIRS ALTS CHECKEDS".split(): LIBS["crowd_" + g] = dict(src="h_lock.cpp", defs=["G_" + g, "CROWD"], wide=True)
for g in "GENERIC POSIX".split(): LIBS["sem_" + g] = dict(src="h_sem.cpp", defs=["G_" + g])
for g in "LATCH BARRIER".split(): LIBS["lb_" + g] = dict(src="h_lb.cpp", defs=["G_" + g])
LIBS["lbA_LATCH"] = dict(src="h_lb.cpp", defs=["G_LATCH"], asserts=True); LIBS["lbA_BARRIER"] = dict(src="h_lb.cpp", defs=["G_BARRIER"], asserts=True)
LIBS["semA_GENERIC"] = dict(src="h_sem.cpp", defs=["G_GENERIC"], asserts=True); LIBS["semA_POSIX"] = dict(src="h_sem.cpp", defs=["G_POSIX"], asserts=True)

for g in "THROW ABORT OFF".split(): LIBS["chk_" + g] = dict(src="h_checked.cpp", defs=["A_" + g])
LIBS["chk_ABOFF"] = dict(src="h_checked.cpp", defs=["A_ABORT", "A_OFF"])
LIBS["chkA_THROW"] = dict(src="h_checked.cpp", defs=["A_THROW"], asserts=True)

EXCL = ["SPIN", "FAIR", "ALT", "CHECKED", "POSIX"]
SHARED = ["FAIRS", "ALTS", "CHECKEDS"]
def L(groups, rx, a=""): return [("lock%s_%s" % (a, g), rx) for g in groups]
def tiered(quick, more):
    return lambda t: quick + (more if t == "thorough" else [])
RW = r"^posix\.(rwlock|shared).*/"
NRW = r"^(?!posix\.(rwlock|shared))"

PROPS = {}
def prop(i, kinds, quick, thorough, note, **kw):
    PROPS[i] = dict(kinds=kinds, select=tiered(quick, thorough), note=note, **kw)

TRYK = ["try-false", "try-true", "try-blocks"]
PROG = ["timeout-false", "deadlock", "livelock", "stuck-waiter", "unlock-blocks", "try-blocks", "recursive-blocks", "left-locked"]
NT = ["SPIN", "FAIR", "ALT", "POSIX"]
prop("C01", ["exclusion", "race", "visibility"],
     L(EXCL[1:], NRW + r".*/(mix3x1|mix2x2|spur3x1|lock4x1)$") + L(["SPIN"], ".") + L(["FAIR", "ALT", "POSIX"], NRW + r".*/(lt3x2|timed4x1)$"),
     L(EXCL, NRW + r".*/(mix|lt|spur|lock|timed)"), "All exclusive types under most general clients with guarded plain data.")
prop("C02", PROG,
     L(EXCL[1:], NRW + r".*/(mix3x1|mix2x2|spur3x1|lock4x1)$") + L(["SPIN"], ".") + L(["FAIR", "ALT", "POSIX"], NRW + r".*/(lt3x2|timed4x1)$") + L(EXCL, NRW + r".*/(mix2x2|lt2x2)$", "A"),
     L(EXCL, NRW + r".*/(mix|lt|spur|lock|timed)"), "From every reachable state the ordinary steps can finish; quiescent states are judged by the lock monitor.")
AFTER_FAILED = [k + "@failed" for k in ["exclusion", "race", "order", "deadlock", "livelock", "stuck-waiter", "unlock-blocks", "recursive-false", "recursive-blocks", "left-locked", "timeout-false"]]
prop("C03", TRYK + AFTER_FAILED,
     L(EXCL[1:], NRW + r".*/(mix3x1|mix2x2|spur3x1|lock4x1)$") + L(["SPIN"], ".") + L(["FAIR", "ALT", "POSIX"], NRW + r".*/(lt3x2)$"),
     L(EXCL, NRW + r".*/(mix|lt|spur|lock|timed)"), "Every try_lock answer is linearizable against the abstract lock.")
prop("C04", ["early-timeout", "timeout-false", "timed-blocks", "exclusion", "race", "stuck-waiter", "deadlock", "livelock", "order", "left-locked", "try-false", "try-true"],
     L(["FAIR", "ALT", "CHECKED", "POSIX", "FAIRS", "ALTS", "CHECKEDS"], r"/(clk2x2|jump|spur2x1|must|pre2x2)") + L(["FAIR", "ALT", "POSIX", "FAIRS", "ALTS"], r"/clk3x1") + L(["CHECKED", "CHECKEDS"], r"/clk3x1\.steady"),
     L(["FAIR", "ALT", "CHECKED", "POSIX", "FAIRS", "ALTS", "CHECKEDS"], r"/(clk|jump|spur|must|timed|pre)"), "Virtual clocks; every timed call is decided at every reachable point of time, for steady, system and user clocks.")
prop("C05", ["stuck-waiter", "livelock", "deadlock", "order", "try-false", "try-true", "timeout-false", "left-locked", "recursive-false", "exclusion"],
     L(["FAIR", "ALT", "POSIX"], r"/(timed4x1|timed3x2|mix2x2)$") + L(["FAIRS", "ALTS", "POSIX"], r"/(timedx4x1|timeds4x1|timed2w4x1|timed3x2|mix2x2)$") +
     L(["CHECKED", "CHECKEDS"], r"/(mix2x2|timed2w4x1)$") + L(["CHECKED"], r"/timed4x1$"),
     L(["FAIR", "ALT", "POSIX", "CHECKED", "FAIRS", "ALTS", "CHECKEDS"], r"/(timed|mix)"), "After failing attempts at every point the remaining threads are judged by the policy as if the attempt had been withdrawn.")
prop("C06", ["recursive-false", "recursive-blocks", "exclusion", "race", "visibility", "try-false", "try-true", "stuck-waiter", "left-locked", "deadlock", "livelock", "unlock-blocks", "timeout-false", "order"],
     L(["FAIR", "ALT", "CHECKED", "POSIX"], r"/rec") , L(["FAIR", "ALT", "CHECKED", "POSIX"], r"recursive.*/(mix|lt)"), "Nesting up to depth 4 through lock, try and timed calls with contenders.")
prop("C07", ["exclusion", "race", "visibility"],
     L(["FAIRS", "ALTS"], r"/(mix3x1|mix2x2|rw4x1|rw3x2|spur3x1)$") + L(["POSIX"], RW + "(mix|rw|spur)") + L(["CHECKEDS"], r"/(mix3x1|mix2x2|rw4x1)$"),
     L(SHARED + ["POSIX"], r"/(mix|rw|spur|timed)"), "All shared types under most general reader/writer clients with guarded plain data.")
prop("C08", PROG + TRYK + ["order"],
     L(["FAIRS", "ALTS"], r"/(mix3x1|mix2x2|rw4x1|rw3x2|spur3x1)$") + L(["POSIX"], RW + "(mix|rw|spur)") + L(["CHECKEDS"], r"/(mix3x1|mix2x2|rw4x1)$") + L(SHARED, r"/mix2x2$", "A"),
     L(SHARED + ["POSIX"], r"/(mix|rw|spur|timed)"), "Progress from every reachable state; quiescent states are judged by the policy's abstract lock.")
POL = ["order", "stuck-waiter", "timeout-false", "exclusion", "deadlock", "livelock"] + TRYK
prop("C09", POL, L(["ALTS"], r"/(mix3x1|mix2x2|rw4x1|rw3x2|timedx4x1|timeds4x1|timed2w4x1|timed3x2)$") + L(["CHECKEDS"], r"/(mix3x1|mix2x2|rw4x1|timedx4x1|timed2w4x1)$"),
     L(["ALTS", "CHECKEDS"], r"/(mix|rw|timed|spur)"), "WriterPrefer: waiting writers bar readers in the abstract lock; ReaderPrefer: availability depends on owners only.")
prop("C10", POL, L(["FAIR"], r"/(mix3x1|mix2x2|lt3x2|lock4x1|timed4x1|timed3x2|spur3x1|rec4x1d1)$"), L(["FAIR"], r"/(mix|lt|lock|timed|spur|rec)"), "Abstract FIFO lock.")
prop("C11", POL, L(["FAIRS"], r"task/(mix3x1|mix2x2|rw4x1|rw3x2|timedx4x1|timeds4x1|timed2w4x1|timed3x2|spur3x1)$"), L(["FAIRS"], r"task/(mix|rw|timed|spur)"), "Abstract FIFO reader/writer lock.")
prop("C12", POL, L(["FAIRS"], r"phase/(mix3x1|mix2x2|rw4x1|rw3x2|timedx4x1|timeds4x1|timed2w4x1|timed3x2|spur3x1)$"), L(["FAIRS"], r"phase/(mix|rw|timed|spur)"), "Abstract phase-fair reader/writer lock.")

SEMK = ["permits", "try-false", "timeout-false", "early-timeout", "timed-blocks", "try-blocks", "stuck-waiter", "spurious-error", "visibility", "race", "deadlock", "livelock", "order"]
prop("C17", SEMK, [("sem_GENERIC", r"^(?!count/clkspur\.custom)"), ("semA_GENERIC", r"/(mix2x2|acq|lock2x2|clk2x2)")], [("sem_GENERIC", ".")], "All permits accounted for by a reference counter.")
prop("C18", SEMK, [("sem_POSIX", "."), ("semA_POSIX", r"/(mix2x2|acq|lock2x2|clk2x2)")], [], "As C17 over modelled POSIX semaphores with interruption of every wait.")
LBK = ["completion", "early-release", "order", "stuck-waiter", "deadlock", "livelock", "race", "visibility", "try-false", "try-blocks"]
prop("C19", LBK, [("lb_LATCH", "."), ("lbA_LATCH", "2x2")], [], "Reference counter; every wait judged at every quiescent point.")
prop("C20", LBK, [("lb_BARRIER", r"^barrier\.(comp|plain)"), ("lbA_BARRIER", r"^barrier\.(comp|plain)/.*2x")], [], "Reference phase machine.",
     assumptions=["the state after 2^32-4 phases equals the initial one except for the words that count phases"])
prop("C21", LBK, [("lb_BARRIER", r"^barrier\.drop"), ("lbA_BARRIER", r"^barrier\.drop/.*2x")], [], "Reference phase machine with dropping threads.")

MISK = ["missed-misuse", "false-misuse", "wrong-error", "wrong-reaction", "exclusion", "race", "visibility", "early-timeout", "timeout-false", "timed-blocks", "order", "stuck-waiter", "deadlock", "livelock", "left-locked",
        "recursive-false", "recursive-blocks", "unlock-blocks"] + TRYK
prop("C13", MISK + ["false-deadlock", "missed-deadlock"], [("chk_THROW", "^mis/.*/(one|two|three2)"), ("chkA_THROW", "^mis/.*/(one|two2t)")], [], "Every operation sequence, right or wrong, against a reference ownership model.")
prop("C14", ["missed-deadlock", "deadlock", "livelock", "wrong-error", "false-misuse"], [("chk_THROW", r"^dead/.*/(2t|3t2m2|3t3m|3t2m3b|timed|nest|try|new|ring)"), ("chk_THROW", "^dead/mixed"), ("chk_THROW", "^dead/mutex/")], [("chk_THROW", "^dead/")],
     "At every point where nothing can move no cycle of waiting threads may exist in the reference wait-for graph.")
prop("C15", [k for k in MISK if k not in ("deadlock", "missed-misuse")] + ["false-deadlock", "deadlock@report", "missed-deadlock@report", "missed-misuse@report"], [("chk_THROW", "^dead/"), ("chkA_THROW", "^dead/.*(2t2m3|2t2m4)")], [], "A report is accepted only if a cycle existed in the reference wait-for graph at some moment of the call; all later behaviour is judged as if the request had not been made.")
prop("C16", MISK + ["false-deadlock", "missed-deadlock"], [("chk_ABORT", "^mis/.*/(one|two)"), ("chk_ABORT", "^dead/.*/(2t2m|3t2m2p|timed2)"), ("chk_ABORT", "^dead/mixed/.*3t"), ("chk_OFF", "^mis/.*/(one|two2)"), ("chk_OFF", "^dead/.*/(2t2m|3t2m2p|timed2)"), ("chk_ABOFF", "^mis/.*/(one|two2t)"), ("chk_ABOFF", "^dead/.*/2t2m3")],
     [("chk_ABORT", "."), ("chk_OFF", "."), ("chk_ABOFF", ".")], "As C13-C15 in the other configurations; an abort is accepted only where the reference model has an error.")

for a in ("", "A"): LIBS["sl%s" % a] = dict(src="h_shared_lock.cpp", std="c++14", asserts=bool(a))
prop("C22", ["extra-call", "wrong-call", "missing-call", "extra-unlock", "wrong-state", "wrong-error", "wrong-result", "visibility", "race", "left-locked", "deadlock", "livelock"],
     [("sl", "."), ("slA", ".")], [], "Every reachable state of up to two (thorough: three) lock objects over two mutexes, side by side with std::shared_lock; and threads over a real mutex.")

for a in ("", "A"): LIBS["scoped%s" % a] = dict(src="h_scoped.cpp", asserts=bool(a))
prop("C23", ["extra-unlock", "missing-unlock", "left-locked", "not-held", "relock", "extra-call", "race", "deadlock", "livelock"],
     [("scoped", "."), ("scopedA", "real/two$")], [], "Every answer of failing and throwing mutexes; all interleavings of threads locking up to four mutexes in all orders.")

LIBS["backoff"] = dict(src="h_backoff.cpp"); LIBS["backoffM"] = dict(src="h_backoff.cpp", defs=["MACROS"])
prop("C27", ["interval", "yields", "stale-state", "default", "exclusion", "race", "visibility", "left-locked", "deadlock", "livelock", "stuck-waiter", "order"] + TRYK,
     [("backoff", "."), ("backoffM", "."), ("lock_SPIN", ".")], [], "The deterministic state machine of each policy is unrolled until it is periodic; all interleavings of the spin mutexes under every policy.")

LIBS["destroy"] = dict(src="h_destroy.cpp"); LIBS["destroyA"] = dict(src="h_destroy.cpp", asserts=True)
prop("C24", ["use-after-free", "dangling-stack", "destroyed-in-use", "double-free", "bad-free", "race", "deadlock", "livelock", "visibility"],
     [("destroy", "."), ("destroyA", "/(last2|destroyer2|sem2|2own|2x1)$")], [], "The memory of the object is freed as soon as a thread knows it may; every interleaving of the others' last instructions.")

LIBS["lock_WIN"] = dict(src="h_lock.cpp", defs=["G_WIN"], inc=["shim/win"]); LIBS["sem_WIN"] = dict(src="h_sem.cpp", defs=["G_WIN"], inc=["shim/win"])
LIBS["lock_APPLE"] = dict(src="h_lock.cpp", defs=["G_APPLE"], inc=["shim/apple"]); LIBS["sem_GCD"] = dict(src="h_sem.cpp", defs=["G_GCD"], inc=["shim/apple"])

for g in "FAIR ALT CHECKED POSIX FAIRS ALTS CHECKEDS GENERIC".split(): LIBS["args_" + g] = dict(src="h_args.cpp", defs=["G_" + g])
LIBS["args_WIN"] = dict(src="h_args.cpp", defs=["G_WIN"], inc=["shim/win"]); LIBS["args_GCD"] = dict(src="h_args.cpp", defs=["G_GCD"], inc=["shim/apple"])

LIBS["plat_POSIX"] = dict(src="h_plat.cpp", defs=["G_POSIX"]); LIBS["plat_WIN"] = dict(src="h_plat.cpp", defs=["G_WIN"], inc=["shim/win"])
for g in ("GCD", "APPLE"): LIBS["plat_" + g] = dict(src="h_plat.cpp", defs=["G_" + g], inc=["shim/apple"])

for g in "SPIN FAIR ALT CHECKED FAIRS ALTS CHECKEDS POSIX SEM LB".split(): LIBS["scale_" + g] = dict(src="h_scale.cpp", defs=["G_" + g])
ARGK = ["early-timeout", "timeout-false", "timed-blocks", "exclusion", "wrong-result", "permits", "deadlock", "livelock"]
_p = PROPS["C04"]; _p["select"] = (lambda f: lambda t: f(t) + [("args_" + g, r"^(?!posix.sem)") for g in "FAIR ALT CHECKED POSIX FAIRS ALTS CHECKEDS".split()])(_p["select"])
_p = PROPS["C06"]; _p["select"] = (lambda f: lambda t: f(t) + [("args_" + g, r"recursive.*k0m2") for g in "FAIR ALT CHECKED POSIX".split()])(_p["select"]); _p["kinds"] = _p["kinds"] + ["timed-blocks"]
_p = PROPS["C17"]; _p["select"] = (lambda f: lambda t: f(t) + [("args_GENERIC", ".")])(_p["select"])
_p = PROPS["C18"]; _p["select"] = (lambda f: lambda t: f(t) + [("args_POSIX", "^posix.sem"), ("plat_POSIX", ".")])(_p["select"]); _p["kinds"] = _p["kinds"] + ["wrong-result"]
def more(i, sel, kinds=()):
    p = PROPS[i]; p["select"] = (lambda f: lambda t: f(t) + sel)(p["select"]); p["kinds"] = p["kinds"] + [k for k in kinds if k not in p["kinds"]]
more("C01", [("args_" + g, r"^(?!posix.sem)") for g in "FAIR ALT CHECKED POSIX".split()]); more("C07", [("args_" + g, ".") for g in "FAIRS ALTS CHECKEDS".split()] + [("args_POSIX", "rwlock")])
XG = ["SPIN", "FAIR", "ALT", "CHECKED", "POSIX"]
def LS(groups, rx): return [("scale_" + g, rx) for g in groups]
AGE = NRW + r".*/age"
for i in ("C01", "C02", "C03"): more(i, LS(["SPIN", "FAIR", "ALT", "CHECKED"], "/age$") + LS(["POSIX"], "^posix.*/age$") + L(["FAIR", "ALT", "CHECKED", "POSIX"], AGE), ["try-false"] if i != "C02" else [])
more("C04", LS(["FAIR", "ALT", "CHECKED", "FAIRS", "ALTS", "CHECKEDS"], "timed.*/s?age$") + LS(["POSIX"], "^posix.*/age$"))
more("C06", LS(["FAIR", "ALT", "CHECKED", "POSIX"], "recursive.*/(depth|age)$"))
for i in ("C07", "C08", "C09"): more(i, [("lockM_ALTS", "."), ("lockM_CHECKEDS", ".")] + ([] if i == "C09" else [("lockM_FAIRS", ".")]))
more("C11", [("lockM_FAIRS", ".")])
F5 = L(["FAIR", "ALT", "POSIX"], NRW + r".*/(lock|lt)5x1$"); R5 = L(["FAIRS", "ALTS"], r"/rw5x1[rw]$") + L(["POSIX"], RW + r"rw5x1[rw]$")
for i in ("C01", "C02", "C03"): more(i, F5)
for i in ("C07", "C08"): more(i, R5)
more("C05", L(["FAIR", "ALT", "FAIRS", "ALTS", "POSIX"], r"/timed5x1$")); more("C09", L(["ALTS"], r"/(rw5x1[rw]|timed5x1)$"))
more("C10", L(["FAIR"], r"/(lock|lt|timed)5x1$")); more("C11", L(["FAIRS"], r"task/(rw5x1[rw]|timed5x1)$")); more("C12", L(["FAIRS"], r"phase/(rw5x1[rw]|timed5x1)$"))
for i in ("C07", "C08"): more(i, LS(SHARED, "/(s?age|readers)$") + L(SHARED, "/aged") + L(["POSIX"], RW + "aged"))
more("C09", LS(["ALTS", "CHECKEDS"], "/(s?age|readers)$") + L(["ALTS", "CHECKEDS"], "/aged"), ["left-locked"])
more("C10", LS(["FAIR"], "/age$") + L(["FAIR"], "/age"), ["left-locked"])
more("C11", LS(["FAIRS"], "task/(s?age|readers)$") + L(["FAIRS"], "task/aged"), ["left-locked"])
more("C12", LS(["FAIRS"], "phase/(s?age|readers)$") + L(["FAIRS"], "phase/aged"), ["left-locked"])
more("C13", LS(["CHECKED", "CHECKEDS"], ".") + [("chk_THROW", "^dead/.*/new")])
more("C17", LS(["SEM"], ".")); more("C18", LS(["POSIX"], "^sem"))
more("C19", LS(["LB"], "^latch")); more("C20", LS(["LB"], "^barrier/(expected|phases|big)")); more("C21", LS(["LB"], "^barrier/(drops|big)"))
# many threads, long histories (no race tracking)
def LC(groups, rx): return [("crowd_" + g, rx) for g in groups]
XC = LC(["FAIR", "ALT", "CHECKED"], ".") + LC(["POSIX"], NRW + ".")
SC = LC(["FAIRS", "ALTS", "CHECKEDS"], ".") + LC(["POSIX"], "rwlock")
more("C01", XC); more("C02", XC); more("C03", LC(["FAIR", "ALT", "CHECKED"], "/(deep|barge|crowdt)") + LC(["POSIX"], NRW + ".*/(deep|barge|crowdt)"))
more("C04", LC(["FAIR", "ALT", "CHECKED", "POSIX"], "/(crowdu|barge6u|deep3x3u)") + LC(["FAIRS", "ALTS", "CHECKEDS"], "/(crowd[urs]*u|barge[56]s?u)"))
more("C05", LC(["FAIR", "ALT", "CHECKED", "POSIX", "FAIRS", "ALTS", "CHECKEDS"], "/(crowdt|crowd[rs]?u|barge)") + LC(["FAIRS", "ALTS"], "/deep3x2u"))
more("C07", SC); more("C08", SC)
more("C09", LC(["ALTS", "CHECKEDS"], ".")); more("C10", LC(["FAIR"], ".")); more("C11", LC(["FAIRS"], "task/")); more("C12", LC(["FAIRS"], "phase/"))
for g in "GENERIC POSIX".split(): LIBS["crowdsem_" + g] = dict(src="h_sem.cpp", defs=["G_" + g, "CROWD"], wide=True)
LIBS["crowd_WIN"] = dict(src="h_lock.cpp", defs=["G_WIN", "CROWD"], inc=["shim/win"], wide=True); LIBS["crowdsem_WIN"] = dict(src="h_sem.cpp", defs=["G_WIN", "CROWD"], inc=["shim/win"], wide=True)
LIBS["crowd_APPLE"] = dict(src="h_lock.cpp", defs=["G_APPLE", "CROWD"], inc=["shim/apple"], wide=True); LIBS["crowdsem_GCD"] = dict(src="h_sem.cpp", defs=["G_GCD", "CROWD"], inc=["shim/apple"], wide=True)
for g in "LATCH BARRIER".split(): LIBS["crowdlb_" + g] = dict(src="h_lb.cpp", defs=["G_" + g, "CROWD"], wide=True)
more("C17", [("crowdsem_GENERIC", ".")]); more("C18", [("crowdsem_POSIX", ".")]); more("C19", [("crowdlb_LATCH", ".")]); more("C20", [("crowdlb_BARRIER", "^barrier.(comp|plain)")]); more("C21", [("crowdlb_BARRIER", "^barrier.drop")])
SHK = sorted(set(TRYK + PROG + ARGK + SEMK + ["recursive-false", "handles", "visibility", "race", "order", "wrong-error"]))
SHA = ["the platform calls behave as their documentation says (modelled by shim/)"]
prop("C25", SHK, [("lock_WIN", "."), ("sem_WIN", "."), ("args_WIN", "."), ("plat_WIN", "."), ("crowd_WIN", "^(?!win.native_mutex/(deep3x2|barge6u)$)"), ("crowdsem_WIN", "^(?!.*timedfast)")], [("crowd_WIN", "."), ("crowdsem_WIN", ".")], "The wrappers compiled against a model of the Win32 primitives, with early timeouts and failing calls.", assumptions=SHA)
prop("C26", SHK, [("lock_APPLE", "."), ("sem_GCD", "."), ("args_GCD", "."), ("plat_GCD", "."), ("plat_APPLE", "."), ("crowd_APPLE", "."), ("crowdsem_GCD", ".")], [], "The wrappers compiled against a model of os_unfair_lock and dispatch semaphores.", assumptions=SHA)

# the same clients with the assertions of the library compiled in: no correct use may trip one
T7 = ["FAIR", "ALT", "CHECKED", "FAIRS", "ALTS", "CHECKEDS"]
more("C01", L(["FAIR", "ALT", "CHECKED"], r"/(mix2x2|lock4x1)$", "A")); more("C03", L(["FAIR", "ALT", "CHECKED"], r"/mix2x2$", "A"))
more("C04", L(T7, r"/(pre2x2|clk2x2\.steady)", "A")); more("C05", L(T7, r"/mix2x2$", "A") + L(["FAIR", "ALT"], r"/timed4x1$", "A") + L(["FAIRS", "ALTS"], r"/timed[xs]4x1$", "A"))
more("C06", L(["FAIR", "ALT", "CHECKED"], r"/rec[23]", "A")); more("C07", L(["FAIRS", "ALTS", "CHECKEDS"], r"/(mix2x2|rw4x1)$", "A")); more("C08", L(["FAIRS", "ALTS"], r"/rw4x1$", "A"))
more("C09", L(["ALTS"], r"/(mix2x2|timed[xs]4x1|rw4x1)$", "A")); more("C10", L(["FAIR"], r"/(mix2x2|timed4x1|lock4x1)$", "A"))
more("C11", L(["FAIRS"], r"task/(mix2x2|timed[xs]4x1|rw4x1)$", "A")); more("C12", L(["FAIRS"], r"phase/(mix2x2|timed[xs]4x1|rw4x1)$", "A"))

# other configurations of the wrappers: no static initialiser for recursive mutexes; waits that may end early by up to a tick
LIBS["lock_POSIXNI"] = dict(src="h_lock.cpp", defs=["G_POSIX", "NOINIT"]); LIBS["leak_STDNI"] = dict(src="h_leak.cpp", defs=["G_STD", "NOINIT"])
LIBS["lock_WIN0"] = dict(src="h_lock.cpp", defs=["G_WIN", "YAMC_WIN_ACCURATE_TIMEOUT=0"], inc=["shim/win"], drop=["early-timeout"]); LIBS["sem_WIN0"] = dict(src="h_sem.cpp", defs=["G_WIN", "YAMC_WIN_ACCURATE_TIMEOUT=0"], inc=["shim/win"], drop=["early-timeout"])
NIR = r"native_recursive_mutex/"
more("C01", [("lock_POSIXNI", NIR + "(mix2x2|lock4x1)$")]); more("C02", [("lock_POSIXNI", NIR + "(mix2x2|lock4x1)$")]); more("C03", [("lock_POSIXNI", NIR + "mix2x2$")]); more("C06", [("lock_POSIXNI", NIR + "rec")])
more("C25", [("lock_WIN0", "."), ("sem_WIN0", ".")])

for g in ("P1", "P2", "P3"): LIBS["interop_" + g] = dict(src="h_interop.cpp", defs=[g])
prop("C28", ["exclusion", "visibility", "race", "not-held", "wrong-result", "early-timeout", "left-locked", "deadlock", "livelock"], [("interop_" + g, ".") for g in ("P1", "P2", "P3")], [], "Clients that use the mutexes through condition_variable_any, unique_lock, shared_lock and std::lock.")

LIBS["leak_STD"] = dict(src="h_leak.cpp", defs=["G_STD"]); LIBS["leak_WIN"] = dict(src="h_leak.cpp", defs=["G_WIN"], inc=["shim/win"]); LIBS["leak_GCD"] = dict(src="h_leak.cpp", defs=["G_GCD"], inc=["shim/apple"])
prop("C29", ["leak", "missed-misuse", "handles", "native-misuse"], [("leak_STD", "."), ("leak_STDNI", "^posix"), ("leak_WIN", "."), ("leak_GCD", ".")], [], "Heap blocks and native objects are counted before the first and after the last lifetime of every interleaving.")

# diagnostics switched on
LIBS["chkV_THROW"] = dict(src="h_checked.cpp", defs=["A_THROW", "YAMC_CHECK_VERBOSE=1"]); LIBS["chkV_ABORT"] = dict(src="h_checked.cpp", defs=["A_ABORT", "YAMC_CHECK_VERBOSE=1"])
LIBS["lockT_FAIRS"] = dict(src="h_lock.cpp", defs=["G_FAIRS", "YAMC_DEBUG_TRACING=2"])
more("C13", [("chkV_THROW", r"^mis/.*/(one|two2sp)")]); more("C14", [("chkV_THROW", r"^dead/.*/2t2m")]); more("C15", [("chkV_THROW", r"^dead/.*/2t2m")])
more("C16", [("chkV_ABORT", r"^mis/.*/one")])
more("C11", [("lockT_FAIRS", r"task/(mix2x2|timed[xs]4x1)$")]); more("C12", [("lockT_FAIRS", r"phase/(mix2x2|timed[xs]4x1)$")]); more("C07", [("lockT_FAIRS", r"/(mix2x2|rw3x1)$")])

NOT_APPLICABLE = []
_done = set(PROPS)
for _n in range(1, 30):
    _p = "C%02d" % _n
    if _p not in _done: NOT_APPLICABLE.append(dict(property=_p, reason="check not built yet"))
