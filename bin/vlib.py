"""Driver shared by all checks: builds harnesses from /repo's working tree, runs generated cases, confirms and
replays failures, writes evidence. Exit status: 0 held, 1 VIOLATION printed, 2 the check itself could not run."""
import glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
H = os.path.join(VERIF, "harness")
S = os.path.join(VERIF, "shims")
NCPU = min(8, os.cpu_count() or 8)

LIBSRC = [("lock_pool.cpp", []), ("find_address_sse2.cpp", ["-msse2"]), ("find_address_sse41.cpp", ["-msse4.1"])]
BASE = ["-w", "-pthread", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + H, "-DBOOST_ATOMIC_STATIC_LINK", "-DBOOST_ATOMIC_NO_LIB", "-DBOOST_ALL_NO_LIB",
        "-DBOOST_ATOMIC_USE_SSE2", "-DBOOST_ATOMIC_USE_SSE41"]
NOATOMIC = []
for _n in ("BOOL", "CHAR", "SHORT", "INT", "LONG", "LLONG"):
    NOATOMIC += ["-U__GCC_ATOMIC_%s_LOCK_FREE" % _n, "-D__GCC_ATOMIC_%s_LOCK_FREE=1" % _n]

# name -> (compiler, flags, uses a shim that depends on internal macro names)
CONFIGS = {
    "gcc-O0-baseline": ("g++", ["-O0", "-std=c++11"], False),
    "gcc-O1-avx": ("g++", ["-O1", "-std=gnu++20", "-march=sandybridge", "-DBOOST_ATOMIC_HAS_PTHREAD_COND_CLOCKWAIT"], False),
    "gcc-O2-avx": ("g++", ["-O2", "-std=gnu++20", "-march=sandybridge", "-DBOOST_ATOMIC_HAS_PTHREAD_COND_CLOCKWAIT"], False),
    "gcc-O1-baseline": ("g++", ["-O1", "-std=gnu++17"], False),
    "clang-O1-avx": ("clang++", ["-O1", "-std=c++17", "-march=sandybridge"], False),
    "gcc-fallback": ("g++", ["-O1", "-std=gnu++17", "-DBOOST_ATOMIC_FORCE_FALLBACK"], False),
    "gcc-asm": ("g++", ["-O1", "-std=gnu++17", "-mcx16", "-mavx"] + NOATOMIC, False),
    "gcc-asm-noavx": ("g++", ["-O1", "-std=gnu++17", "-mcx16", "-U__GCC_ASM_FLAG_OUTPUTS__"] + NOATOMIC, False),
    "gcc-asm-noflag": ("g++", ["-O1", "-std=gnu++11", "-mcx16", "-U__GCC_ASM_FLAG_OUTPUTS__"] + NOATOMIC, False),
    "clang-asm": ("clang++", ["-O1", "-std=c++17", "-mcx16"] + NOATOMIC, False),
    "gcc-noflag": ("g++", ["-O1", "-std=gnu++17", "-mcx16", "-mavx", "-U__GCC_ASM_FLAG_OUTPUTS__"], False),
    "gcc-sync": ("g++", ["-O1", "-std=gnu++17", "-mcx16", "-include", S + "/sync.hpp"], True),
    "gcc-genextra": ("g++", ["-O1", "-std=gnu++17", "-mcx16", "-include", S + "/genextra.hpp"], True),
    "gcc-nofutex": ("g++", ["-O1", "-std=gnu++17", "-include", S + "/nofutex.hpp"], True),
}


# 32-bit programs: the 32-bit run-time libraries are installed; start-up code and one header are supplied in shims/m32.
# These configurations are left out where such programs do not build or do not run.
M32 = ["-fno-pie", "-I" + S + "/m32", "-I/usr/include/x86_64-linux-gnu/c++/13", "-idirafter", "/usr/include/x86_64-linux-gnu"]
M32CLANG = ["-I/usr/include/c++/13", "-I/usr/include/c++/13/backward"]
L32 = "/usr/lib32"
LINK32 = ["g++", "-m32", "-no-pie", "-nostdlib", "-nostartfiles"]
LIBS32 = [L32 + "/" + f for f in ("libstdc++.so.6", "libm.so.6", "libgcc_s.so.1", "libc.so.6", "ld-linux.so.2")] + ["-Wl,-dynamic-linker," + L32 + "/ld-linux.so.2", "-Wl,--eh-frame-hdr"]
CONFIGS32 = {
    "gcc32": ("g++", ["-m32", "-O1", "-std=gnu++17", "-msse2", "-mfpmath=sse"], False),
    "gcc32-asm": ("g++", ["-m32", "-O1", "-std=gnu++17", "-msse2", "-mfpmath=sse"] + NOATOMIC, True),
    "gcc32-asm-avx": ("g++", ["-m32", "-O2", "-std=gnu++20", "-mavx", "-mfpmath=sse", "-fPIC"] + NOATOMIC, True),
    "gcc32-asm-i586": ("g++", ["-m32", "-O1", "-std=gnu++11", "-march=i586", "-U__GCC_ASM_FLAG_OUTPUTS__"] + NOATOMIC, True), # 64-bit loads and stores through the x87 unit
    "gcc32-asm-sse": ("g++", ["-m32", "-O1", "-std=gnu++14", "-march=pentium3", "-DNDEBUG"] + NOATOMIC, True),
    "clang32-asm": ("clang++", ["-m32", "-O1", "-std=c++17", "-msse2"] + NOATOMIC, True),
    "gcc32-fallback": ("g++", ["-m32", "-O1", "-std=gnu++17", "-msse2", "-mfpmath=sse", "-DBOOST_ATOMIC_FORCE_FALLBACK"], False),
    "gcc32-time64": ("g++", ["-m32", "-O1", "-std=gnu++17", "-msse2", "-mfpmath=sse", "-D_TIME_BITS=64", "-D_FILE_OFFSET_BITS=64"], False),
    "gcc32-nofutex": ("g++", ["-m32", "-O1", "-std=gnu++17", "-msse2", "-include", S + "/nofutex.hpp"], True),
}
ALLCONFIGS = dict(CONFIGS, **CONFIGS32)


def flags32(cxx, f):
    """the flags of a generated configuration, completed if it is a 32-bit one"""
    return f + (M32CLANG if cxx == "clang++" else []) + M32 if "-m32" in f else f


class Infra(Exception):
    pass


class Violation(Exception):
    def __init__(self, why, replay):
        Exception.__init__(self, why)
        self.why, self.replay = why, replay


class CompileFailure(Exception):
    def __init__(self, cmd, log):
        Exception.__init__(self, "compile failure")
        self.cmd, self.log = cmd, log


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, dirs, files in os.walk(d):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tree = tree_hash((os.path.join(REPO, "include"), H, S))
        self.srctree = tree_hash((os.path.join(REPO, "src"),))
        self.evaluations = 0
        self.nontrivial = 0
        self.samples, self.classes, self.notes, self.configs = [], {}, [], []
        self.rule = ""
        self.assumptions = []
        self.known = []
        self.violations = 0
        self.lock, self.liblock = threading.Lock(), threading.Lock()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.replays = os.path.join(VERIF, "replays")
        os.makedirs(self.replays, exist_ok=True)
        os.makedirs(CACHE, exist_ok=True)
        self.thorough = tier == "thorough"

    # ------------------------------------------------------------ building
    def compile(self, cxx, flags, src, base=True):
        """object file for src; cached by everything that can influence it"""
        lp = "@lp" in flags # give the library's own data sections of their own, so that the engine can find and restore them
        nobase = "@nobase" in flags
        cmd = [cxx] + ([] if nobase or not base else BASE) + [f for f in flags if not f.startswith("@")] + ["-c", src]
        key = hashlib.sha256((self.tree + (self.srctree if src.startswith(os.path.join(REPO, "src")) else "") + "\0" + "\0".join(cmd) + ("@lp2" if lp else "")).encode()).hexdigest()[:32]
        obj = os.path.join(CACHE, key + ".o")
        if os.path.exists(obj):
            return obj
        tmp = os.path.join(self.scratch, key + ".o")
        for attempt in range(2):
            p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode == 0:
                if lp:
                    subprocess.run(["objcopy", "--rename-section", ".data=lpd", "--rename-section", ".bss=lpb,alloc,load,data,contents", "--rename-section", ".data.rel.local=lpr", tmp], check=True)
                shutil.move(tmp, obj)
                return obj
            if not re.search(r"internal compiler error|Killed|No space|Cannot allocate|virtual memory", p.stdout) and p.returncode > 0:
                break
            time.sleep(1)
        if p.returncode < 0 or re.search(r"internal compiler error|Killed|No space|Cannot allocate|virtual memory", p.stdout):
            raise Infra("compiler could not run: " + p.stdout[-500:])
        raise CompileFailure(cmd, p.stdout)

    def has32(self):
        with self.lock:
            if not hasattr(self, "_has32"):
                src, exe = os.path.join(self.scratch, "has32.cpp"), os.path.join(self.scratch, "has32")
                open(src, "w").write("#include <vector>\n#include <string>\n#include <thread>\n#include <cstdio>\n#include <chrono>\nthread_local int tl = 3; int main() { std::vector<std::string> v; std::thread t([&] { v.push_back(\"x\"); ++tl; }); t.join(); return v.size() == 1 && sizeof(void*) == 4 ? 0 : 1; }\n")
                ok = subprocess.run(["gcc", "-m32", "-fno-pie", "-c", S + "/m32/start.c", "-o", exe + ".s.o"], capture_output=True).returncode == 0
                ok = ok and subprocess.run(["g++", "-m32"] + M32 + ["-c", src, "-o", exe + ".o"], capture_output=True).returncode == 0
                ok = ok and subprocess.run(LINK32 + [exe + ".s.o", exe + ".o"] + LIBS32 + ["-o", exe], capture_output=True).returncode == 0
                try:
                    self._has32 = ok and subprocess.run([exe], capture_output=True, timeout=60).returncode == 0
                except (OSError, subprocess.TimeoutExpired):
                    self._has32 = False
                if not self._has32:
                    self.notes.append("32-bit configurations skipped: 32-bit programs cannot be built or run here")
            return self._has32

    def link32(self, cmd):
        """what linking adds to a command that makes 32-bit programs"""
        if "-m32" not in cmd:
            return []
        with self.liblock:
            start = self.compile("gcc", ["@nobase", "-m32", "-fno-pie"], S + "/m32/start.c")
        return ["-m32", "-no-pie", "-nostdlib", "-nostartfiles", "-Wl,--no-as-needed", start] + LIBS32

    def lib_objs(self, cxx, flags):
        flags = [f for f in flags if f != "-DBOOST_ATOMIC_FORCE_FALLBACK" and not f.startswith("-DVF_")]  # the library needs a native back end
        return [(cxx, flags + extra + ["-DBOOST_ATOMIC_SOURCE"], os.path.join(REPO, "src", f)) for f, extra in LIBSRC]

    def build(self, programs):
        """programs: {name: dict(cxx, jobs=[(cxx, flags, src)], ldflags)} -> {name: path or CompileFailure}"""
        jobs = []
        for p in programs.values():
            p["m32"] = any("-m32" in j[1] for j in p["jobs"])
            if p["m32"]:
                p["jobs"] = [(j[0], [f for f in j[1] if f != "-m32"] + ["-m32"] + (M32CLANG if j[0] == "clang++" else []) + M32, j[2]) for j in p["jobs"]] + [("gcc", ["@nobase", "-m32", "-fno-pie"], S + "/m32/start.c")]
            jobs += [(j[0], tuple(j[1]), j[2]) for j in p["jobs"]]
        weight = lambda j: -sum(w for k, w in p_weights.items() if ("-DVF_SET=%s" % k) in j[1])
        uniq = sorted(set(jobs), key=weight)
        def one(j):
            try:
                return j, self.compile(j[0], list(j[1]), j[2])
            except CompileFailure as e:
                return j, e
        with ThreadPoolExecutor(NCPU) as ex:
            res = dict(ex.map(one, uniq))
        out = {}
        def link(item):
            name, p = item
            objs = [res[(j[0], tuple(j[1]), j[2])] for j in p["jobs"]]
            for o in objs:
                if isinstance(o, CompileFailure):
                    return name, o
            exe = os.path.join(self.scratch, name)
            cmd = LINK32 + objs + LIBS32 + ["-o", exe] if p["m32"] else [p["cxx"]] + objs + ["-o", exe, "-pthread"] + p.get("ldflags", [])
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 0:
                return name, CompileFailure(cmd, r.stdout)
            return name, exe
        with ThreadPoolExecutor(NCPU) as ex:
            for name, r in ex.map(link, programs.items()):
                out[name] = r
        return out

    # ------------------------------------------------------------ replay files
    def replay_path(self, tag):
        return os.path.join(self.replays, "%s-%s-%d.txt" % (self.prop, re.sub(r"[^A-Za-z0-9_.-]", "_", tag), self.seed))

    def violation(self, tag, why, header, body=""):
        path = self.replay_path(tag)
        header = dict(header, property=self.prop, why=why)
        with open(path, "w") as f:
            f.write(json.dumps(header) + "\n" + body)
        return Violation(why, path)

    def build_failure(self, tag, cf):
        m = re.search(r".*(?:error|undefined reference).*", cf.log)
        return self.violation(tag + "-build", "a program using only documented operations does not build (%s): %s" % (tag, m.group(0).strip() if m else cf.log[-300:]),
                              {"kind": "build", "cmd": cf.cmd}, cf.log[:20000])

    # ------------------------------------------------------------ running
    def merge(self, st, prefix=""):
        with self.lock:
            self.evaluations += st.get("evaluations", 0)
            self.nontrivial += st.get("distinct_nontrivial", 0)
            for k, v in st.get("classes", {}).items():
                self.classes[k] = self.classes.get(k, 0) + v
            for s in st.get("samples", [])[:2]:
                if len(self.samples) < 12:
                    self.samples.append((prefix + s)[:1500])

    def run_one(self, exe, args, timeout, env=None):
        e = dict(os.environ)
        if env:
            e.update(env)
        try:
            p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=e)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired as x:
            o = x.stdout or b""
            return None, o.decode(errors="replace") if isinstance(o, bytes) else o

    def run_harness(self, tag, exe, args, header, timeout=600, env=None, confirm=3, wrapper=None):
        """run generated cases; raises Violation when a case fails and its replay confirms it"""
        out = os.path.join(self.scratch, tag + ".json")
        case = os.path.join(self.scratch, tag + ".case")
        cmd = (wrapper or []) + [exe]
        rc, log = self.run_one(cmd[0], cmd[1:] + args + ["--out", out, "--replay-out", case], timeout, env)
        st = {}
        if os.path.exists(out):
            try:
                st = json.load(open(out))
            except ValueError:
                st = {}
        if rc == 0:
            self.merge(st, tag + ": ")
            return st
        if rc is None and not os.path.exists(case):
            raise Infra("%s did not finish within %d s" % (tag, timeout))
        if rc == 3:
            raise Infra("%s: %s" % (tag, log[-500:]))
        body = open(case, errors="replace").read() if os.path.exists(case) else ""
        why = st.get("failure") or log.strip()[-800:] or "exit status %s" % rc
        if not body:
            rc2, log2 = self.run_one(cmd[0], cmd[1:] + args + ["--out", out, "--replay-out", case], timeout, env)
            if rc2 == 0:
                raise Infra("%s failed once without a case and then passed: %s" % (tag, log[-800:]))
            if not os.path.exists(case):
                if rc2 is not None and rc2 < 0 and rc2 != -9 or rc2 not in (None, 0, 3, -9):
                    raise self.violation(tag, why, dict(header, harness_args=args, rc=rc2), log2[-5000:])
                raise Infra("%s: exit status %s and then %s without a case: %s" % (tag, rc, rc2, log[-800:]))
            body = open(case, errors="replace").read()
        path = os.path.join(self.scratch, tag + ".confirm")
        open(path, "w").write(body)
        hits = 0
        for _ in range(confirm):
            rc2, log2 = self.run_one(cmd[0], cmd[1:] + ["--replay", path, "--mode", header.get("mode") or "model", "--out", out + ".r", "--replay-out", path + ".r"], 120, env)
            if rc2 not in (0, 3):
                hits += 1
        if confirm and hits < confirm and not (header.get("racy") and hits > 0) and not header.get("evidence_stands"):
            raise Infra("%s: failing case reproduced %d of %d times: %s" % (tag, hits, confirm, why))
        raise self.violation(tag, why, header, body)

    def pool(self, thunks, width=NCPU):
        """run thunks in parallel; the first Violation wins over Infra errors"""
        viol, infra = [], []
        stop = threading.Event()
        def one(t):
            if stop.is_set():
                return
            try:
                t()
            except Violation as v:
                viol.append(v); stop.set()
            except Infra as i:
                infra.append(i)
        with ThreadPoolExecutor(width) as ex:
            list(ex.map(one, thunks))
        if viol:
            raise viol[0]
        if infra:
            raise infra[0]

    # ------------------------------------------------------------ finishing
    def evidence(self):
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
             "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": self.nontrivial, "rule": self.rule,
                          "samples": self.samples or ["(none)"], "classes": self.classes, "configurations": self.configs, "notes": self.notes},
             "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": self.violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        json.dump(d, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        try: # keep the object cache small
            fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(CACHE + "/*.o")), reverse=True)
            tot = 0
            for _, n, f in fs:
                tot += n
                if tot > 3e9:
                    os.unlink(f)
        except OSError:
            pass


p_weights = {"5": 20, "3": 15, "22": 14, "4": 12, "20": 11, "21": 8, "2": 7, "1": 7, "10": 5}


def mark(c, what):
    if os.environ.get("VERIF_TIMING"):
        print("%6.1f s %s" % (time.time() - c.t0, what))


def run_check(prop, fn, tier, seed):
    c = Check(prop, tier, seed)
    rc = 0
    try:
        fn(c)
    except Violation as v:
        c.violations = 1
        c.samples.append("VIOLATION: " + v.why[:1500])
        print("property %s is violated: %s" % (prop, v.why))
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        rc = 1
    except Infra as e:
        print("check %s could not run: %s" % (prop, e))
        c.notes.append("could not run: %s" % e)
        rc = 2
    for k in c.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    c.evidence()
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s, exit %d" % (prop, tier, seed, c.evaluations, c.nontrivial, time.time() - c.t0, rc))
    c.close()
    sys.stdout.flush()
    return rc
