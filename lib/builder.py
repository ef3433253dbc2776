"""Builds a simulator variant from /repo's working tree into /verif/build (ignored by git)."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 8
sys.path.insert(0, os.path.join(VERIF, "gen"))

THREADS = ["-DSIM_THREADS"]
WATCH = ["-fsanitize-coverage=func,trace-pc-guard,trace-loads,trace-stores"]      # the code under test reports its memory accesses
TWRAP = ["-Wl,--wrap=" + f for f in ("pthread_mutex_lock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "sched_yield", "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort")]
WRAP = ["-Wl,--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc", "memalign")]
BASE = ["-std=c++17", "-O0", "-g0", "-ftrivial-auto-var-init=pattern", "-Wno-unused-value",
        "-I" + REPO + "/include", "-I/usr/include/eigen3", "-I" + VERIF + "/src"]

class BuildError(Exception): pass

def source_hash(extra):
    h = hashlib.sha256(repr(extra).encode())
    files = sorted(glob.glob(REPO + "/include/**/*", recursive=True)) + sorted(glob.glob(VERIF + "/src/*")) + sorted(glob.glob(VERIF + "/gen/*.py")) + sorted(glob.glob(VERIF + "/lib/*.py"))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode()); h.update(b"\0"); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout

def build(name, defs="", tags="all", parts=None, engine="world", log=print):
    """returns (path of the binary, list of catalogue programs that do not compile)"""
    os.makedirs(BUILD, exist_ok=True)
    key = source_hash((name, defs, tags, engine))
    out = os.path.join(BUILD, f"{name}-{key}")
    with open(os.path.join(BUILD, f".{name}.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out + "/done"):
            return out + "/sim", open(out + "/done").read().split()
        for old in glob.glob(os.path.join(BUILD, name + "-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        dropped = _compile(out, defs, tags, parts, engine)
        open(out + "/done", "w").write(" ".join(dropped))
        for f in glob.glob(out + "/*.o") + glob.glob(out + "/*.pch"): os.remove(f)
        return out + "/sim", dropped

def _compile(out, defs, tags, parts, engine):
    import catalogue
    D = defs.split()
    cc = ["clang++"] + BASE + D
    jobs, progs = [], []
    watch, wrap = [], WRAP
    if engine == "thr": cc, watch, wrap = cc + THREADS, WATCH, WRAP + TWRAP
    if engine in ("world", "thr"):
        progs = catalogue.select(tags)
        n = parts or max(4, min(24, len(progs) // 20))
        files = catalogue.emit(progs, out, n)
        engine_src = ["progs_reg", "ref", "sample"] + (["world", "specgen", "engine_world"] if engine == "world" else [engine])
    else:
        files, engine_src = [], [engine]
    src = VERIF + "/src/"
    pre = watch + ["-include-pch", out + "/prog.pch"]
    jobs += [(f, pre) for f in files]
    pch = bool(files)
    first = [(src + e + ".cpp", {"ref": ["-O1"], "thr": ["-O2"]}.get(e, [])) for e in engine_src + ["main", "alloc"]]
    if pch:
        rc, txt = run(cc + watch + ["-x", "c++-header", src + "prog.hpp", "-o", out + "/prog.pch"])
        if rc: raise BuildError(txt[:3000])
    def one(job):
        f, extra = job
        o = os.path.join(out, os.path.basename(f)[:-4] + ".o")
        rc, txt = run(cc + extra + ["-c", f, "-o", o])
        return f, o, rc, txt
    dropped, objs = [], []
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, jobs + first))
        bad = [r for r in res if r[2]]
        objs = [r[1] for r in res if not r[2]]
        for f, o, rc, txt in bad:
            if not os.path.basename(f).startswith("progs") or os.path.basename(f) == "progs_reg.cpp": raise BuildError(f + "\n" + txt[:3000])
        if bad:       # some catalogue program does not compile: leave that one out, keep the rest
            single = []
            for f, o, rc, txt in bad:
                head, cur = [], []
                for line in open(f):
                    if line.startswith("PROG("):
                        g = f"{f[:-4]}_{len(single)}.cpp"
                        open(g, "w").write("".join(head) + line); single.append((g, pre))
                    elif not line.startswith("#ifndef") and not line.startswith("#endif"): head.append(line)
            for f, o, rc, txt in ex.map(one, single):
                if rc: dropped.append(open(f).read().split("PROG(")[1].split(",")[0])
                else: objs.append(o)
            if len(dropped) * 4 > len(progs): raise BuildError("a quarter of the catalogue does not compile, e.g. " + bad[0][3][:3000])
    rc, txt = run(["clang++"] + objs + wrap + ["-pthread", "-o", out + "/sim"])
    if rc: raise BuildError(txt[:3000])
    return dropped
