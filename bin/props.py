"""What each check builds and runs."""
import json, os, subprocess, sys
import vlib, iface, layout
from vlib import *

SEQ_RULE = "a generated case counts as non-trivial when it has at least two operations and at least one of them changed the object's value; distinct by the text of the case"


SCALE = float(os.environ.get("VERIF_SCALE", "1")) # for mutation campaigns: less search per check


# ---------------------------------------------------------------- sequential differential harness
def seq_program(c, cfg, sets, extra=[], cxx=None, flags=None, ldflags=[]):
    if cfg:
        cxx, flags, _ = ALLCONFIGS[cfg]
    flags = flags + extra
    jobs = [(cxx, flags + ["-DVF_SET=%d" % s], H + "/seq_types.cpp") for s in sets]
    jobs += [(cxx, ["-O1", "-std=gnu++17"] + [f for f in extra if f.startswith("-fsanitize")], H + "/seq_main.cpp")]
    jobs += c.lib_objs(cxx, flags)
    return {"cxx": cxx, "jobs": jobs, "ldflags": ldflags + [f for f in extra if f.startswith("-fsanitize")]}


def runs(c, cfg):
    """whether programs of this configuration can be run here"""
    return cfg not in CONFIGS32 or c.has32()


def all32(sets, extra=[], no=()):
    return [(n, sets, NOIPC + extra) for n in CONFIGS32 if n != "gcc32-nofutex" and n not in no]


X87 = ("gcc32-asm-i586", "gcc32-asm-sse") # floating point values are computed in wider registers


def seq_check(c, plan, cases, shards=2, mode="model", env=None, wrapper=None, confirm=3):
    """plan: [(config, sets, extra flags)]"""
    plan = [p for p in plan if runs(c, p[0])]
    progs = {}
    for cfg, sets, extra in plan:
        progs[cfg] = seq_program(c, cfg, sets, extra)
    built = c.build(progs)
    bad = [n for n in built if isinstance(built[n], CompileFailure)]
    for n in bad:
        if not ALLCONFIGS[n][2]:
            raise c.build_failure(n, built[n])
        c.notes.append("configuration %s skipped: its shim does not compile against this tree" % n)
    thunks = []
    for n, exe in built.items():
        if n in bad:
            continue
        c.configs.append(n)
        for k in range(shards):
            args = ["--seed", str(c.seed * 1000003 + k * 7919 + len(thunks)), "--cases", str(int(cases * SCALE)), "--mode", mode]
            header = {"kind": "seq", "config": n, "sets": [p[1] for p in plan if p[0] == n][0], "extra": [p[2] for p in plan if p[0] == n][0], "mode": mode, "env": env, "wrapper": wrapper, "racy": mode == "neighbour"}
            thunks.append(lambda n=n, exe=exe, args=args, k=k, header=header: c.run_harness("%s.%s.%d" % (n, mode, k), exe, args, header, env=env, wrapper=wrapper, confirm=confirm))
    c.pool(thunks, NCPU // 2 if mode == "neighbour" else NCPU)
    c.rule = SEQ_RULE


NOIPC = ["-DVF_NO_IPC"]


def c01(c):
    s = [1, 2, 3, 4, 5]
    t = [1, 2, 3, 4]
    plan = [("gcc-O0-baseline", s, []), ("gcc-O1-avx", t, []), ("clang-O1-avx", t, NOIPC), ("gcc-fallback", t, NOIPC),
            ("gcc-asm", t, NOIPC), ("gcc-asm-noflag", [1, 2, 3], NOIPC), ("gcc-noflag", [1, 2, 3], NOIPC), ("gcc-sync", [1, 2, 3, 4], NOIPC),
            ("gcc32-asm", [1, 2, 3], NOIPC), ("gcc32-asm-i586", [2], NOIPC)]
    if c.thorough:
        plan = [(n, s, []) for n in CONFIGS if n != "gcc-nofutex"] + all32(s)
    seq_check(c, plan, 2000000 if c.thorough else 120000)


def c02(c):
    plan = [(n, [10], []) for n in CONFIGS if c.thorough or n not in ("clang-asm", "gcc-asm-noflag", "gcc-nofutex")] + (all32([10], no=X87) if c.thorough else [("gcc32-asm", [10], NOIPC)])
    seq_check(c, plan, 3000000 if c.thorough else 150000)


def c05(c):
    s = [1, 2, 3, 4, 10, 20, 21, 22]
    plan = [("gcc-O0-baseline", s, []), ("gcc-O1-avx", [1, 2, 3, 10, 20, 21, 22], []), ("gcc-asm", [1, 2, 3, 10, 20], NOIPC), ("gcc-fallback", [20, 21, 22], NOIPC), ("clang-O1-avx", [2, 10, 20, 21, 22], NOIPC), ("gcc32-asm", [2, 20], NOIPC)]
    if c.thorough:
        plan = [(n, s + [5], []) for n in CONFIGS if n != "gcc-nofutex"] + all32([2, 3, 4, 5, 20, 21, 22])
    seq_check(c, plan, 1000000 if c.thorough else 80000, mode="footprint")
    seq_check(c, plan, 60000 if c.thorough else 4000, mode="neighbour", shards=1)


SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
SANENV = {"ASAN_OPTIONS": "exitcode=10:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:detect_leaks=1", "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=10", "LSAN_OPTIONS": "exitcode=10"}


def c03(c):
    s = [20, 21, 22]
    plan = [("gcc-O0-baseline", s, []), ("gcc-O1-avx", s, []), ("clang-O1-avx", s, NOIPC), ("gcc-fallback", s, NOIPC), ("gcc-asm", s, NOIPC), ("gcc-sync", s, NOIPC),
            ("gcc32-asm", [20, 21], NOIPC), ("gcc32-asm-i586", [20], NOIPC)]
    if c.thorough:
        plan = [(n, s, []) for n in CONFIGS if n != "gcc-nofutex"] + all32(s)
    seq_check(c, plan, 2000000 if c.thorough else 80000)


def c16(c):
    s = [1, 2, 3, 4, 10, 20, 21, 22]
    plan = [("gcc-O0-baseline", [1, 2, 4, 20, 21, 22], SAN + NOIPC), ("gcc-O1-avx", [3, 10], SAN + NOIPC + ["-O0"]), ("clang-O1-avx", [2, 10, 22], SAN + NOIPC), ("gcc-fallback", [2, 22], SAN + NOIPC + ["-O0"]), ("gcc32-asm", [2, 20], UBT + NOIPC)]
    if c.thorough:
        plan = [(n, s + [5], SAN) for n in CONFIGS if n != "gcc-nofutex"] + all32([1, 2, 3, 4, 20, 21, 22], UBT)
    mark(c, "start"); seq_check(c, plan, 300000 if c.thorough else 25000, mode="ub", env=SANENV); mark(c, "sanitized histories")
    vg = ["valgrind", "-q", "--error-exitcode=10", "--exit-on-first-error=yes"]
    plan = [("gcc-O1-baseline", [1, 10, 21, 22], NOIPC), ("gcc-fallback", [10, 22], NOIPC + ["-O0"])]
    seq_check(c, plan, 30000 if c.thorough else 1500, mode="ub", wrapper=vg); mark(c, "valgrind")
    eng_check(c, ["ub-base", "ub-fallback", "ub-pthread"] + (["ub-pthread-cw"] if c.thorough else []), "wn_main.cpp", "ub", 10**9 if c.thorough else 60000, 300 if c.thorough else 12)


# ---------------------------------------------------------------- controlled execution (eng.cpp)
ENGF = ["-O1", "-g", "-std=gnu++17", "-fsanitize=thread", "--param=tsan-distinguish-volatile=1"]
WRAP = "-Wl," + ",".join("--wrap=" + f for f in "memcpy memmove memset memcmp malloc calloc realloc aligned_alloc posix_memalign free atexit".split())
GX = ["-include", S + "/genextra.hpp"]
NF = ["-include", S + "/nofutex.hpp"]
CW = ["-DBOOST_ATOMIC_HAS_PTHREAD_COND_CLOCKWAIT"]
FBK = ["-DBOOST_ATOMIC_FORCE_FALLBACK"]
# name: (flags of user code, flags of the library, flags of the harness, depends on a shim)
ENGINES = {
    "base": ([], [], [], False),
    "weak": (GX, GX, ["-DVF_TSO"], True),              # no inline assembly, so the engine can delay stores
    "fallback": (FBK, [], [], False),
    "pthread": (NF, NF, [], True),
    "pthread-cw": (NF + CW, NF + CW, [], True),
    "pool0": (FBK, ["-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=0"], [], False),
    "pool1": ([], ["-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=1"], [], False),
    "pool1-fallback": (FBK, ["-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=1"], [], False),
    # -DVF_BIG: up to 20 threads and objects; the library searches its tables with each of the three implementations
    "pool0-big": (FBK, ["-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=0"], ["-DVF_BIG"], False),
    "pool1-big-sse2": (FBK, ["-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=1", "-UBOOST_ATOMIC_USE_SSE41"], ["-DVF_BIG"], False),
    "pool0-pthread": (FBK + NF, NF + ["-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=0", "-UBOOST_ATOMIC_USE_SSE41", "-UBOOST_ATOMIC_USE_SSE2"], ["-DVF_BIG"], True),
}

UBT = ["-fsanitize=undefined", "-fsanitize-trap=undefined"] # a report is an illegal instruction, which the harness turns into a failing case
ENGINES.update({"ub-fallback": (FBK + UBT, ["-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=0"] + UBT, ["-DVF_BIG"], False),
                "ub-base": (UBT, UBT + ["-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=1", "-UBOOST_ATOMIC_USE_SSE41"], ["-DVF_BIG"], False),
                "ub-pthread": (FBK + NF + UBT, NF + UBT + ["-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=0", "-UBOOST_ATOMIC_USE_SSE41", "-UBOOST_ATOMIC_USE_SSE2"], ["-DVF_BIG"], True),
                "ub-pthread-cw": (NF + CW + UBT, NF + CW + UBT, [], True)})


def eng_program(name, main, sets=(1, 2, 3), src="concobj.cpp", std=None):
    uf, lf, hf, _ = ENGINES[name]
    big = [f for f in hf if f == "-DVF_BIG"]
    jobs = [("g++", ENGF + uf + [f for f in hf if f not in big] + ["-DVF_SET=%d" % s], H + "/" + src) for s in sets]
    jobs += [("g++", ENGF + lf + ["-DBOOST_ATOMIC_SOURCE"] + extra + (["@lp"] if f == "lock_pool.cpp" else []), os.path.join(REPO, "src", f)) for f, extra in LIBSRC]
    jobs += [("g++", ["@nobase", "-w", "-g", "-O2", "-std=gnu++17"] + big, H + "/eng.cpp"), ("g++", ["@nobase", "-w", "-g", "-O1", "-std=gnu++17"] + hf, H + "/" + main)]
    return {"cxx": "g++", "jobs": jobs, "ldflags": [WRAP, "-ldl"]}


def eng_check(c, engines, main, mode, cases, budget, procs=NCPU, sets=(1, 2, 3), src="concobj.cpp", weights=None):
    built = c.build({n: eng_program(n, main, sets, src) for n in engines})
    use = []
    for n in engines:
        if isinstance(built[n], CompileFailure):
            if not ENGINES[n][3]:
                raise c.build_failure(n, built[n])
            c.notes.append("build %s skipped: its shim does not compile against this tree" % n)
        else:
            use.append(n); c.configs.append(n)
    thunks = []
    for k in range(max(procs, len(use))):
        n = use[k % len(use)]
        args = ["--seed", str(c.seed * 1000003 + k * 7919), "--cases", str(cases), "--budget", str(max(1, int(budget * SCALE))), "--mode", mode]
        header = {"kind": "eng", "engine": n, "main": main, "sets": list(sets), "src": src, "mode": mode}
        thunks.append(lambda n=n, k=k, args=args, header=header: c.run_harness("%s.%s.%d" % (n, mode, k), built[n], args, header, timeout=budget + 200))
    c.pool(thunks)


WN_RULE = "a generated program and schedule counts as non-trivial when another thread changes or notifies the object of a wait during that wait, or the wait times out; distinct by the program and its schedule seed (on the real kernel: every scenario of at least two threads or processes on one object, except timed waits none of which timed out)"


def wn(mode, engines, quick, thorough_engines=None):
    def f(c):
        c.rule = WN_RULE
        if c.thorough:
            eng_check(c, thorough_engines or list(ENGINES), "wn_main.cpp", mode, 10**9, 600, procs=2 * NCPU)
        else:
            eng_check(c, engines, "wn_main.cpp", mode, quick, 40)
    return f


# the real kernel: threads or processes (xp_main.cpp)
XP_SCEN = {"C07": 0b0011100, "C09": 0b0100000, "C10": 0}


def xp_program(c, cfg):
    cxx, flags, _ = ALLCONFIGS[cfg]
    jobs = [(cxx, flags + ["-DVF_SET=%d" % s], H + "/concobj.cpp") for s in (1, 2, 3)]
    jobs += [("g++", ["@nobase", "-w", "-O2", "-std=gnu++17"], H + "/xp_main.cpp")] + c.lib_objs(cxx, flags)
    return {"cxx": cxx, "jobs": jobs, "ldflags": []}


def xp_check(c, mode, cfgs, budget):
    built = c.build({n: xp_program(c, n) for n in cfgs if runs(c, n)})
    use = usable(c, built, lambda n: ALLCONFIGS[n][2])
    c.pool([lambda n=n, k=k: c.run_harness("%s.%s" % (n, mode), built[n], ["--seed", str(c.seed * 1000003 + 31 * k), "--cases", str(10**9), "--budget", str(max(1, int(budget * SCALE))), "--mode", mode, "--extra", str(XP_SCEN[c.prop])],
                                         {"kind": "xp", "build": n, "mode": mode, "racy": True, "evidence_stands": True}, timeout=budget + 150) for k, n in enumerate(use)], 2)


def also(f, mode, quick, thorough):
    def g(c):
        f(c)
        xp_check(c, mode, *(thorough if c.thorough else quick))
    return g


c07 = also(wn("wake", ["base", "weak", "fallback", "pthread"], 100000), "threads", (["gcc-O1-avx", "gcc-fallback", "gcc-nofutex", "gcc32-asm"], 6), (["gcc-O1-avx", "gcc-fallback", "gcc-nofutex", "clang-O1-avx", "gcc-asm", "gcc32-asm", "gcc32-nofutex", "gcc32-asm-i586", "gcc32-time64"], 60))
c08 = wn("value", ["base", "weak", "fallback", "pthread"], 60000)
c09 = also(wn("timed", ["base", "fallback", "pthread", "pthread-cw"], 120000), "threads", (["gcc-O1-avx", "gcc-fallback", "gcc-nofutex", "gcc32", "gcc32-time64", "gcc32-nofutex"], 6), (["gcc-O1-avx", "gcc-fallback", "gcc-nofutex", "clang-O1-avx", "gcc32", "gcc32-time64", "gcc32-nofutex", "gcc32-fallback"], 60))
c10 = also(wn("ipc", ["base", "weak"], 60000, ["base", "weak"]), "procs", (["gcc-O1-avx", "gcc-asm", "gcc32-asm"], 8), (["gcc-O1-avx", "gcc-asm", "clang-O1-avx", "gcc-O2-avx", "gcc32-asm", "gcc32-asm-i586", "gcc32-time64"], 60))
c11 = wn("oom", ["base", "fallback", "pool0", "pthread", "pool0-big", "pool0-pthread"], 60000)
c15 = wn("pool", ["fallback", "pool0", "pool1", "pool0-pthread", "pool0-big", "pool1-big-sse2"], 100000)


# ---------------------------------------------------------------- linearizability: engine and real threads (lin_main.cpp)
LIN_RULE = "a generated program counts as non-trivial when at least two threads modify the object (engine runs: and the schedule switched at least three times); distinct by the text of program and schedule"
CONC = ["-DVF_CONC", "-DVF_CONC_IPC"]
ENGINES["weak16"] = (["-mcx16"] + GX, ["-mcx16"] + GX, ["-DVF_TSO"], True)
SETS4 = (30, 31, 32, 33)


def conc_eng_program(name, main, sets):
    uf, lf, hf, shim = ENGINES[name]
    ENGINES[name + "+c"] = (uf + CONC, lf, hf, shim)
    return eng_program(name + "+c", main, sets, "seq_types.cpp")


def conc_native_program(c, cfg, main, sets, extra=[]):
    cxx, flags, _ = ALLCONFIGS[cfg]
    flags = flags + extra
    jobs = [(cxx, flags + ["-DVF_CONC", "-DVF_SET=%d" % s], H + "/seq_types.cpp") for s in sets]
    jobs += [("g++", ["@nobase", "-w", "-O2", "-std=gnu++17", "-DVF_NATIVE"], H + "/" + main)] + c.lib_objs(cxx, flags)
    return {"cxx": cxx, "jobs": jobs, "ldflags": []}


def usable(c, built, shimmed):
    """drops shim builds that do not compile, reports others that do not"""
    use = []
    for n in built:
        if isinstance(built[n], CompileFailure):
            if not shimmed(n):
                raise c.build_failure(n, built[n])
            c.notes.append("build %s skipped: its shim does not compile against this tree" % n)
        else:
            use.append(n); c.configs.append(n)
    return use


def conc_check(c, main, mode, engines, natives, cases, budget, procs, nat_budget, sets=SETS4, nat_extra=[], sets_of={}):
    natives = [n for n in natives if runs(c, n)]
    progs = {"e:" + n: conc_eng_program(n, main, sets_of.get(n, sets)) for n in engines}
    progs.update({"n:" + n: conc_native_program(c, n, main, sets, nat_extra) for n in natives})
    built = c.build(progs)
    use = usable(c, built, lambda n: (ENGINES if n[0] == "e" else ALLCONFIGS)[n[2:]][2 if n[0] == "n" else 3])
    def thunk(n, k, cases, budget, header):
        args = ["--seed", str(c.seed * 1000003 + k * 7919), "--cases", str(cases), "--budget", str(max(1, int(budget * SCALE))), "--mode", mode]
        return lambda: c.run_harness("%s.%s.%d" % (n[2:], mode, k), built[n], args, header, timeout=budget + 300)
    es = [n for n in use if n[0] == "e"]
    c.pool([thunk(es[k % len(es)], k, cases, budget, {"kind": "conc", "build": es[k % len(es)], "main": main, "sets": list(sets_of.get(es[k % len(es)][2:], sets)), "mode": mode}) for k in range(max(procs, len(es)) if es else 0)])
    ns = [n for n in use if n[0] == "n"]
    c.pool([thunk(n, 100 + k, 10**9, nat_budget, {"kind": "conc", "build": n, "main": main, "sets": list(sets), "mode": mode, "extra": nat_extra, "racy": True, "evidence_stands": True}) for k, n in enumerate(ns)], 2)


def c04(c):
    c.rule = LIN_RULE
    if c.thorough:
        conc_check(c, "lin_main.cpp", "lin", ["base", "weak16", "fallback", "pthread", "pool0"], [n for n in ALLCONFIGS if n not in ("gcc-nofutex", "gcc32-nofutex")], 10**9, 500, 2 * NCPU, 60)
    else:
        conc_check(c, "lin_main.cpp", "lin", ["weak16", "fallback"], ["gcc-asm", "gcc-asm-noflag", "gcc-O1-avx", "gcc-noflag", "gcc32-asm", "gcc32"], 60000, 20, NCPU, 6)


# ---------------------------------------------------------------- memory orders (mp_main.cpp, sig_main.cpp)
SYN = ["-include", S + "/sync.hpp"]
ENGINES["sync"] = (SYN, SYN, ["-DVF_TSO"], True)
MP_RULE = "a generated program counts as non-trivial when (mode mp) at least one operation provably read from a releasing one of another thread and plain data was checked, (mode sc) two threads each modify one object and then access the other, (trap probes) always; distinct by the text of program and schedule"
SIG_FLAGS = {"gcc-O2-avx": [], "gcc-asm": ["-O2"], "gcc-asm-noflag": ["-O2"], "gcc-noflag": ["-O2"], "clang-O1-avx": ["-O2"], "gcc-sync": ["-O2"], "clang-asm": ["-O2"], "gcc-O0-baseline": [], "gcc-genextra": ["-O2"]}


def sig_program(c, cfg, s):
    cxx, flags, _ = ALLCONFIGS[cfg]
    flags = [f for f in flags if not f.startswith("-std=")] + ["-std=gnu++17"] + SIG_FLAGS.get(cfg, [])
    return {"cxx": cxx, "jobs": [(cxx, flags + ["-DVF_SET=%d" % s], H + "/sig_main.cpp")] + c.lib_objs(cxx, flags), "ldflags": []}


def sig_check(c, cfgs, cases, sets_of=None):
    built = c.build({"%s.sig%d" % (n, s): sig_program(c, n, s) for n in cfgs for s in (sets_of or {}).get(n, (1, 2, 3, 4))})
    use = usable(c, built, lambda n: ALLCONFIGS[n.split(".sig")[0]][2])
    c.pool([lambda n=n: c.run_harness(n, built[n], ["--seed", str(c.seed), "--cases", str(cases)], {"kind": "sig", "build": n}) for n in use])


def c06(c):
    c.rule = MP_RULE
    if c.thorough:
        conc_check(c, "mp_main.cpp", "mp", ["weak", "fallback", "sync", "pthread"], [], 10**9, 400, 2 * NCPU, 0)
        conc_check(c, "mp_main.cpp", "sc", ["weak", "fallback", "sync", "weak16"], [n for n in ALLCONFIGS if n not in ("gcc-nofutex", "gcc32-nofutex")], 10**9, 200, NCPU, 40)
        sig_check(c, list(SIG_FLAGS), 20000)
    else:
        conc_check(c, "mp_main.cpp", "mp", ["weak16", "fallback", "sync"], [], 60000, 16, NCPU, 0, sets_of={"sync": (30, 31)})
        conc_check(c, "mp_main.cpp", "sc", ["weak16", "fallback"], ["gcc-asm", "gcc-O1-avx", "gcc32-asm"], 60000, 8, NCPU // 2, 4)
        sig_check(c, ["gcc-O2-avx", "gcc-asm", "gcc-noflag", "clang-O1-avx"], 3000, {"gcc-O2-avx": (1, 4), "gcc-noflag": (2, 3), "clang-O1-avx": (2,)})


# ---------------------------------------------------------------- generated configurations (caps_main.cpp)
CAPS_RULE = "every evaluation is one stated relation between reports of one type in one generated configuration, one link of all operations of a type without the library, or one concurrent run through two mappings; distinct by configuration, type and relation"
CAPS_TYPES = 37


def some32(c, r, f, p):
    """turns a generated configuration into a 32-bit one now and then"""
    q, m = r.random(), r.choice([["-msse2"], ["-msse2"], ["-msse2", "-mfpmath=sse"], ["-mavx"], ["-march=pentium3"], ["-march=i586"], []])
    if q >= p or not c.has32():
        return f
    # gcc never uses inline assembly for 64-bit integers there on its own, and runs out of registers without optimization
    return [x for x in f if x not in ("-mcx16", "-mavx", "-fPIE") and (x not in NOATOMIC) and not x.startswith("-march")] + ["-m32"] + m


def caps_config(r):
    cxx = r.choice(["g++", "clang++"])
    f = ["-std=%s" % r.choice(["c++11", "c++14", "c++17", "c++20", "c++23", "gnu++11", "gnu++17", "gnu++20"]), r.choice(["-O0", "-O0", "-O1", "-O1", "-O2"])]
    f += r.choice([[], [], ["-mcx16"], ["-mcx16"], ["-mcx16", "-mavx"], ["-mavx"], ["-march=x86-64-v2"], ["-march=sandybridge"], ["-march=x86-64-v3"]])
    k = r.random()
    if k < 0.12:
        f += FBK
    elif k < 0.3:
        f += NOATOMIC
    k = r.random()
    if "-DBOOST_ATOMIC_FORCE_FALLBACK" not in f and k < 0.25:
        f += SYN if k < 0.15 else NF # not genextra.hpp: it takes away the x86 fence that the compiler back end relies on
    for p, o in ((0.2, "-DBOOST_ATOMIC_NO_FLOATING_POINT"), (0.25, "-fshort-wchar"), (0.2, "-mlong-double-64"), (0.2, "-funsigned-char"), (0.15, "-fshort-enums"), (0.1, "-fno-exceptions"), (0.1, "-fno-char8_t"), (0.12, "-U__GCC_ASM_FLAG_OUTPUTS__"), (0.15, "-fPIE"), (0.1, "-DNDEBUG")):
        if r.random() < p:
            f.append(o)
    if "-mlong-double-64" in f and cxx == "clang++":
        f.remove("-mlong-double-64") # its library calls for long double would be the wrong ones
    return cxx, f


def caps_cmd(cxx, f, types, exe):
    mask = 0
    for t in types:
        mask |= 1 << t
    return [cxx, "-w", "-pthread", "-I" + REPO + "/include", "-I" + H, "-DBOOST_ATOMIC_NO_LIB"] + flags32(cxx, f) + ["-DVF_TYPES=%dull" % mask, H + "/caps_main.cpp", "-o", exe]


def caps_build(c, tag, cmd):
    cmd = cmd[:-2] + c.link32(cmd) + cmd[-2:]
    k = cmd.index(H + "/caps_main.cpp")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode == 0:
        return True
    if p.returncode < 0 or re.search(r"internal compiler error|Killed|No space|Cannot allocate|virtual memory", p.stdout):
        raise Infra("compiler could not run: " + p.stdout[-300:])
    und = sorted(set(re.findall(r"undefined reference to `([^']*)'", p.stdout)))
    why = "operations reported lock-free need %s from outside the program (%s)" % (", ".join(und[:4]), " ".join(cmd[6:k - 1])) if und else None
    if not why and "-include" in cmd:
        c.notes.append("a configuration was skipped: its shim does not compile against this tree")
        return False
    if not why:
        raise c.build_failure(tag, CompileFailure(cmd[:-1] + ["/dev/null"], p.stdout))
    raise c.violation(tag, why, {"kind": "build", "cmd": cmd[:-1] + ["/dev/null"]}, p.stdout[:20000])


def c12(c):
    c.rule = CAPS_RULE
    r = random.Random(c.seed * 7919 + 12)
    n = 400 if c.thorough else 28
    deck = []
    thunks = []
    seen = set()
    for i in range(n):
        cxx, f = caps_config(r)
        f = some32(c, random.Random(mixs(c.seed, i)), f, 0.15) if i != 4 else ["-std=gnu++14", "-O1", "-m32", "-msse2"] if c.has32() else f
        if i < 4: # always there: the plain and the widest builds of both compilers
            cxx, f = [("g++", ["-std=c++11", "-O0"]), ("clang++", ["-std=c++17", "-O1", "-mcx16"]), ("g++", ["-std=gnu++20", "-O1", "-mcx16", "-mavx"]), ("g++", ["-std=gnu++17", "-O1"] + FBK)][i]
        if len(deck) < 6:
            deck += r.sample(range(CAPS_TYPES), CAPS_TYPES)
        k = 8 if c.thorough else 5
        types, deck = sorted(set(deck[:k])), deck[k:]
        exe = os.path.join(c.scratch, "caps%d" % i)
        cmd = caps_cmd(cxx, f, types, exe)
        seen.add(" ".join([cxx] + f))
        def run(i=i, exe=exe, cmd=cmd, cxx=cxx, f=f, types=types):
            if not caps_build(c, "caps%d" % i, cmd):
                return
            c.run_harness("caps%d" % i, exe, ["--seed", str(c.seed * 1000003 + i)], {"kind": "caps", "cxx": cxx, "flags": f, "types": types, "seed": c.seed * 1000003 + i, "racy": True, "evidence_stands": True}, timeout=200)
            os.unlink(exe)
        thunks.append(run)
    c.configs += sorted(seen)
    c.pool(thunks)


# ---------------------------------------------------------------- generated interface programs (iface.py)
IFACE_RULE = "every evaluation is one stated fact (a use of one kind of object of one type with one cv-qualification is available or excluded, has the documented result type, does not throw) in one generated program, or one program with an excluded use and its twin without it; distinct by configuration, type and use"
IFACE_LINK = ["-pthread"]


def iface_config(r):
    cxx = r.choice(["g++", "clang++"])
    f = ["-std=" + r.choice(["c++11", "c++11", "c++14", "c++17", "c++20", "c++23", "gnu++11", "gnu++17", "gnu++20"])]
    k = r.random()
    if k < 0.12:
        f += FBK
    elif k < 0.24:
        f += NOATOMIC
    for p, o in ((0.15, "-DBOOST_ATOMIC_NO_FLOATING_POINT"), (0.3, "-mcx16"), (0.2, "-mavx"), (0.15, "-fshort-wchar"), (0.15, "-fno-exceptions"), (0.15, "-funsigned-char"), (0.1, "-fno-rtti")):
        if r.random() < p:
            f.append(o)
    return cxx, f


def cxx_run(cmd, src):
    """(0 compiled / 1 rejected, log)"""
    p = subprocess.run(cmd + ["-x", "c++", "-"], input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode < 0 or re.search(r"internal compiler error|Killed|No space|Cannot allocate|virtual memory", p.stdout):
        raise Infra("compiler could not run: " + p.stdout[-300:])
    return p.returncode, p.stdout


def iface_cmd(cxx, f):
    return [cxx] + flags32(cxx, f) + ["-w", "-O0", "-I" + REPO + "/include", "-DBOOST_ATOMIC_NO_LIB"]


def errline(log):
    m = re.search(r".*error.*", log)
    return m.group(0).strip()[:400] if m else log[-300:]


def iface_broken(c, tag, base, types, uses, log):
    """the program does not compile: find one use that does not"""
    for t, kind, ls in uses:
        for one in [[]] + [[l] for l in ls]:
            src = iface.program([t], [], [(t, kind, one)], [])
            rc, l2 = cxx_run(base + ["-S", "-o", "/dev/null"], src)
            if rc:
                return c.violation(tag, "%s of %s (%s) does not compile: %s [%s]" % (" ".join(one) or "declaring an object", kind, t.decl or t.name, errline(l2), " ".join(base[:3])),
                                   {"kind": "iface", "cmd": base + ["-S", "-o", "/dev/null"], "want": "compiles"}, src)
    return None


def iface_fails(out):
    return [l[5:] for l in out.split("\n") if l.startswith("FACT ")]


def mixs(seed, i):
    return seed * 1000003 + i * 7919 + 5


def headers_run(c, tag, base, src, libs):
    """(what fails or None, output) for a program of two translation units in one source"""
    objs = []
    for tu in (1, 2):
        o = os.path.join(c.scratch, "%s.%d.o" % (tag, tu))
        rc, log = cxx_run(base + ["-DTU=%d" % tu, "-c", "-o", o], src)
        if rc:
            return "does not compile: " + errline(log), log
        objs.append(o)
    exe = os.path.join(c.scratch, tag)
    p = subprocess.run(["g++"] + objs + libs + ["-pthread"] + c.link32(base) + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        return "does not link: " + errline(p.stdout), p.stdout
    rc, out = c.run_one(exe, [], 60)
    for o in objs + [exe]:
        os.unlink(o)
    fails = iface_fails(out)
    if fails:
        return fails[0], out
    if rc != 0:
        return "does not run: exit status %s" % rc, out
    return None, out


def c13(c):
    c.rule = IFACE_RULE
    r = random.Random(c.seed * 7919 + 13)
    thunks = []
    n, neg = (320, 1500) if c.thorough else (12, 48)
    def positive(i, r):
        cxx, f = iface_config(r) if i > 1 else [("g++", ["-std=c++11"]), ("clang++", ["-std=c++20"])][i]
        f = some32(c, random.Random(mixs(c.seed, i)), f, 0.2) if i > 1 else f
        types = [iface.gen_type(r, j, f) for j in range(6)]
        facts, uses = [], []
        for t in types:
            for k in iface.KINDS:
                facts.append(iface.fact_lines(r, t, k, 0.45))
            k = r.choice(["atomic", "atomic_ref"])
            uses.append((t, k, iface.use_lines(r, t, k, False)))
        src = iface.program(types, facts, [], iface.fixed_lines(f))
        usrc = iface.program(types, [], uses, [])
        base = iface_cmd(cxx, f)
        exe = os.path.join(c.scratch, "iface%d" % i)
        rc, log = cxx_run(base + ["-S", "-o", "/dev/null"], usrc)
        if not rc:
            rc, log = cxx_run(base + c.link32(base) + ["-o", exe] + IFACE_LINK, src)
        if rc:
            v = iface_broken(c, "iface%d" % i, base, types, uses, log)
            if not v: # a fact itself is a hard error
                for t in types:
                    for k in iface.KINDS:
                        u, ls = iface.fact_lines(r, t, k, 1)
                        for l in ls:
                            s1 = iface.program([t], [(u, [l])], [], [])
                            if l[0] != "#" and cxx_run(base + ["-S", "-o", "/dev/null"], s1)[0]:
                                raise c.violation("iface%d" % i, "stating the documented fact %s does not compile (%s)" % (l, t.decl), {"kind": "iface", "cmd": base + ["-S", "-o", "/dev/null"], "want": "compiles"}, s1)
                v = c.violation("iface%d" % i, "a program of documented uses does not compile: " + errline(log), {"kind": "iface", "cmd": base + ["-S", "-o", "/dev/null"], "want": "compiles"}, src)
            raise v
        q, out = c.run_one(exe, [], 60)
        if q not in (0, 10):
            raise Infra("iface program %d: exit status %s: %s" % (i, q, out[-300:]))
        bad = iface_fails(out)
        os.unlink(exe)
        if bad:
            key = bad[0].rsplit(" ", 1)[0]
            small = None
            for (u, ls) in facts + [({}, iface.fixed_lines(f))]:
                for l in ls:
                    m = re.search(r'"(.*)"', l)
                    if m and m.group(1) and bad[0].startswith(m.group(1)):
                        small = (u, [l])
            s1 = src
            if small:
                t1 = [t for t in types if re.search(r"\b%s\b" % re.escape(t.name), small[1][0])] or types
                s1 = iface.program(t1, [small], [], [])
            raise c.violation("iface%d" % i, "%s (%s %s)%s" % (bad[0], cxx, " ".join(f), "; and %d more" % (len(bad) - 1) if len(bad) > 1 else ""), {"kind": "iface", "cmd": base, "want": "facts"}, s1)
        tot = int(re.search(r"TOTAL (\d+)", out).group(1))
        c.merge({"evaluations": tot, "distinct_nontrivial": tot, "classes": {"facts": tot, "instantiated uses": sum(len(u[2]) for u in uses), "types": len(types)}, "samples": [facts[3][1][0]]}, "%s %s: " % (cxx, " ".join(f)))
        with c.lock:
            c.configs.append(" ".join([cxx] + f))
    def negative(i, r):
        cxx, f = iface_config(r)
        f = some32(c, random.Random(mixs(c.seed, i)), f, 0.15)
        what, b, g = iface.negative(r, i)
        cmd = iface_cmd(cxx, f) + ["-S", "-o", "/dev/null"]
        if cxx_run(cmd, g)[0]:
            rc, log = cxx_run(cmd, g)
            raise c.violation("neg%d" % i, "a program of documented declarations does not compile: %s" % errline(log), {"kind": "iface", "cmd": cmd, "want": "compiles"}, g)
        if cxx_run(cmd, b)[0] == 0:
            raise c.violation("neg%d" % i, "a use that must be rejected at compile time is accepted: %s (%s %s)" % (what, cxx, " ".join(f)), {"kind": "iface", "cmd": cmd, "want": "rejected"}, b)
        c.merge({"evaluations": 1, "distinct_nontrivial": 1, "classes": {"rejected programs": 1}, "samples": [what] if i < 2 else []})
    def headers(i, r):
        cxx, f = iface_config(r)
        f = some32(c, r, f, 0.15)
        src, tot = iface.headers(r, not any(x in f for x in FBK))
        base = iface_cmd(cxx, f) + ["-DBOOST_ATOMIC_STATIC_LINK"]
        libs = layout_libs(c, base)
        bad, out = headers_run(c, "hdr%d" % i, base, src, libs)
        if bad:
            small = src # leave out what is not needed
            lines = src.split("\n")
            for l in [x for x in lines if x.startswith("    {") or x.startswith("#include <boost")]:
                t = "\n".join(x for x in small.split("\n") if x is not l and x != l)
                if headers_run(c, "hdr%d" % i, base, t, libs)[0] == bad:
                    small = t
            raise c.violation("hdr%d" % i, "a program that includes public headers only: %s (%s %s)" % (bad, cxx, " ".join(f)), {"kind": "headers", "cmd": base}, small)
        c.merge({"evaluations": tot, "distinct_nontrivial": tot, "classes": {"facts about public headers in programs of two translation units": tot}, "samples": [src[:700]] if i == 1 else []})
    layout_libs(c)
    for i in range(n):
        thunks.append(lambda i=i, rr=random.Random(r.random()): positive(i, rr))
    for i in range(400 if c.thorough else 32):
        thunks.append(lambda i=i, rr=random.Random(mixs(c.seed, i)): headers(i, rr))
    for i in range(neg):
        thunks.append(lambda i=i, rr=random.Random(r.random()): negative(i, rr))
    c.pool(thunks)


# ---------------------------------------------------------------- generated construction and placement programs (layout.py)
LAYOUT_RULE = "every evaluation is one stated fact about one object (its first value after one way of construction, its address, size and alignment, the bytes around it, a following operation) of one generated value type in one generated program; distinct by configuration, type, place and value"


def known_findings(prop):
    """{key: what} of the open findings listed for prop"""
    out = {}
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3).strip()
    return out


def layout_config(r):
    cxx = r.choice(["g++", "clang++"])
    f = ["-std=" + r.choice(["c++11", "c++11", "c++14", "c++17", "c++20", "gnu++11", "gnu++17", "gnu++20"]), r.choice(["-O0", "-O0", "-O1", "-O1", "-O2"])]
    k = r.random()
    if k < 0.12:
        f += FBK
    elif k < 0.24:
        f += NOATOMIC
    for p, o in ((0.35, "-mcx16"), (0.25, "-mavx"), (0.12, "-DBOOST_ATOMIC_NO_FLOATING_POINT"), (0.1, "-fshort-wchar"), (0.1, "-fno-exceptions"), (0.15, "-funsigned-char")):
        if r.random() < p:
            f.append(o)
    if r.random() < 0.35:
        f += ["-fsanitize=undefined", "-fsanitize-trap=undefined"]
    return cxx, f


def layout_cmd(cxx, f):
    return [cxx] + flags32(cxx, f) + ["-w", "-I" + REPO + "/include", "-DBOOST_ATOMIC_NO_LIB", "-DBOOST_ATOMIC_STATIC_LINK"]


def layout_libs(c, cmd=[]):
    with c.liblock:
        return [c.compile(*j) for j in c.lib_objs("g++", ["-O1"] + (["-m32", "-msse2"] + M32 if "-m32" in cmd else []))]


def layout_run(c, tag, cmd, src, libs):
    """(None, total) or (what fails, log)"""
    exe = os.path.join(c.scratch, tag)
    p = subprocess.run(cmd + ["-x", "c++", "-", "-o", exe, "-x", "none"] + libs + ["-pthread"] + c.link32(cmd), input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode < 0 or re.search(r"internal compiler error|Killed|No space|Cannot allocate|virtual memory", p.stdout):
        raise Infra("compiler could not run: " + p.stdout[-300:])
    if p.returncode:
        return "a program that constructs and places documented objects does not build: " + errline(p.stdout), p.stdout
    rc, out = c.run_one(exe, [], 60)
    os.unlink(exe)
    if rc is None:
        return "the program does not finish", out
    bad = iface_fails(out)
    if bad:
        return bad[0] + ("; and %d more" % (len(bad) - 1) if len(bad) > 1 else ""), out
    m = re.search(r"TOTAL (\d+)", out)
    if rc or not m:
        return "the program ends with status %s: %s" % (rc, out[-300:]), out
    return None, int(m.group(1))


def c14(c):
    c.rule = LAYOUT_RULE
    r = random.Random(c.seed * 7919 + 14)
    libs = layout_libs(c)
    known = known_findings("C14")
    def one(i, r):
        cxx, f = layout_config(r) if i > 3 else [("g++", ["-std=c++11", "-O0"]), ("clang++", ["-std=c++17", "-O1", "-mcx16"]), ("g++", ["-std=c++20", "-O2", "-mcx16", "-mavx"]), ("clang++", ["-std=c++11", "-O0"] + FBK)][i]
        f = some32(c, random.Random(mixs(c.seed, i)), f, 0.2) if i > 3 else f
        types = []
        while len(types) < 8:
            t = layout.gen_type(r, len(types), f)
            if all(t.name != x.name for x in types):
                types.append(t)
        seed, rounds = r.randrange(1 << 30), r.choice([4, 6, 8])
        cmd, tag = layout_cmd(cxx, f), "layout%d" % i
        libs = layout_libs(c, cmd)
        bad, out = layout_run(c, tag, cmd, layout.program(types, seed, rounds), libs)
        if bad:
            small = types
            for k in range(len(types)): # one type is enough; then as few rounds as possible
                b1, _ = layout_run(c, tag, cmd, layout.program(types[k:k + 1], seed + k, rounds), libs)
                if b1:
                    small, seed, bad = types[k:k + 1], seed + k, b1
                    for n in range(1, rounds):
                        b1, _ = layout_run(c, tag, cmd, layout.program(small, seed, n), libs)
                        if b1:
                            rounds, bad = n, b1
                            break
                    break
            raise c.violation(tag, "%s (%s; %s %s)" % (bad, " ".join(t.decl or t.name for t in small), cxx, " ".join(f[:6])), {"kind": "layout", "cmd": cmd}, layout.program(small, seed, rounds))
        c.merge({"evaluations": out, "distinct_nontrivial": out, "classes": {"facts": out, "types": len(types), "programs": 1}, "samples": [types[-1].decl or types[-1].name]}, "%s %s: " % (cxx, " ".join(f[:6])))
        with c.lock:
            c.configs.append(" ".join([cxx] + f))
    def probe():
        bad, out = layout_run(c, "probe", layout_cmd("g++", ["-std=c++17", "-O1"]), layout.PROBE, libs)
        if bad and "member-pointer-in-class" in known and [l.split(": ", 1)[1] for l in iface_fails(out)] == ["a pointer to data member in a default-constructed object is null"]:
            c.known.append(known["member-pointer-in-class"])
        elif bad:
            raise c.violation("probe", bad, {"kind": "layout", "cmd": layout_cmd("g++", ["-std=c++17", "-O1"])}, layout.PROBE)
    n = 600 if c.thorough else 40
    c.pool([probe] + [lambda i=i, rr=random.Random(r.random()): one(i, rr) for i in range(n)])


NOTES = {}
CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16}


def replay(prop, path, tier, seed):
    lines = open(path).read().split("\n", 1)
    h = json.loads(lines[0])
    c = Check(prop, tier, seed)
    case = os.path.join(c.scratch, "case.txt")
    open(case, "w").write(lines[1] if len(lines) > 1 else "")
    print("recorded: " + h["why"])
    kind = h.get("kind")
    if kind == "build":
        c.link32(h["cmd"]) # the start-up code of a 32-bit program is in the object cache
        p = subprocess.run(h["cmd"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(p.stdout[-3000:]); c.close()
        return 1 if p.returncode else 0
    if kind == "iface":
        body, cmd = lines[1], h["cmd"]
        if h["want"] == "facts":
            exe = os.path.join(c.scratch, "iface")
            rc, log = cxx_run(cmd + c.link32(cmd) + ["-o", exe] + IFACE_LINK, body)
            out = c.run_one(exe, [], 60)[1] if rc == 0 else log
            hit = rc != 0 or bool(iface_fails(out))
        else:
            rc, out = cxx_run(cmd, body)
            hit = (rc != 0) == (h["want"] == "compiles")
        print(out[-2000:]); c.close()
        if hit:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if hit else 0
    if kind == "layout":
        bad, out = layout_run(c, "replay", h["cmd"], lines[1], layout_libs(c, h["cmd"]))
        print(bad or "holds"); c.close()
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if bad else 0
    if kind == "headers":
        bad, out = headers_run(c, "replay", h["cmd"], lines[1], layout_libs(c, h["cmd"]))
        print(bad or "holds"); c.close()
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if bad else 0
    if kind == "caps":
        exe = os.path.join(c.scratch, "caps")
        try:
            caps_build(c, "caps", caps_cmd(h["cxx"], h["flags"], h["types"], exe))
        except Violation as v:
            print(v.why); print("VIOLATION property=%s replay=%s" % (prop, path)); return 1
        h["harness_args"] = ["--seed", str(h["seed"])]
    else:
        exe = REPLAY[kind](c, h)
    if isinstance(exe, CompileFailure):
        print(exe.log[-3000:]); c.close()
        return 1
    args = h["harness_args"] if "harness_args" in h else ["--replay", case, "--mode", h.get("mode") or "model"]
    rc, log = c.run_one((h.get("wrapper") or [])[0] if h.get("wrapper") else exe, ((h.get("wrapper") or [])[1:] + [exe] if h.get("wrapper") else []) + args, 300, h.get("env"))
    print(log[-3000:])
    c.close()
    if rc == 0:
        print("not reproduced")
        return 0
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


REPLAY = {"seq": lambda c, h: c.build({"x": seq_program(c, h["config"], h["sets"], h["extra"])})["x"],
          "eng": lambda c, h: c.build({"x": eng_program(h["engine"], h["main"], h["sets"], h["src"])})["x"],
          "conc": lambda c, h: c.build({"x": conc_eng_program(h["build"][2:], h["main"], h["sets"]) if h["build"][0] == "e" else conc_native_program(c, h["build"][2:], h["main"], h["sets"], h.get("extra", []))})["x"],
          "xp": lambda c, h: c.build({"x": xp_program(c, h["build"])})["x"],
          "sig": lambda c, h: c.build({"x": sig_program(c, h["build"].split(".sig")[0], int(h["build"].split(".sig")[1]))})["x"]}
