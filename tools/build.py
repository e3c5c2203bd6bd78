"""Builds the simulator executables from /repo's working tree into /verif/build/<hash>/ (cached by content)."""
import hashlib, os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
MODDIRS = ["modules/core/src/c_src", "modules/core/src/cxx_src", "modules/process/src/c_src", "modules/process/src/cxx_src",
           "modules/highgui/src", "modules/algorithm/src", "modules/satellite/src"]
INCDIRS = ["modules/core/include", "modules/process/include", "modules/algorithm/include", "modules/highgui/include", "modules/satellite/include"]
DEFS = ["-DUSE_SDL=1", "-DX11_switch=1", "-D_cplusplus", "-Dgdal_switch=1"]
WRAPS = "malloc calloc realloc free strdup strndup aligned_alloc rand random srand srandom time clock sleep usleep exit _exit abort __assert_fail".split()
HARNESS = ["rt.cpp", "fs.cpp", "core.cpp", "model.cpp", "sdl_sim.cpp", "props.cpp"]
VARIANT = {
    "asan": dict(lib=["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize-coverage=trace-pc", "--param", "asan-use-after-return=0"],
                 link=["-fsanitize=address"], defs=[], src=None),
    "big": dict(lib=["-O2", "-U_FORTIFY_SOURCE", "-fwrapv", "-fno-strict-aliasing", "-g1", "-fno-omit-frame-pointer"], link=["-fsanitize=address"], defs=[], src=None),
    "sched": dict(lib=["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"], link=["-lpthread","-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=strtok,--wrap=pthread_mutex_lock"], defs=["-DSIM_SCHED"], src=None),
}
SRC = {"asan": HARNESS + ["sched_stub.cpp"] + [f for f in sorted(os.listdir(SIM)) if f.startswith("p_") and f.endswith(".cpp") and f != "p_sched.cpp"] + (["ops.cpp"] if os.path.exists(SIM + "/ops.cpp") else []),
       "sched": HARNESS + [f for f in ("sched.cpp", "p_sched.cpp", "ops.cpp") if os.path.exists(os.path.join(SIM, f))]}
SRC["big"] = SRC["asan"]
GLUE = ["hymat_glue.cpp", "vector_glue.c"]

def files_under(d, exts):
    out = []
    for r, _, fs in os.walk(d):
        for f in fs:
            if os.path.splitext(f)[1] in exts:
                out.append(os.path.join(r, f))
    return sorted(out)

def lib_sources():
    out = []
    for m in MODDIRS:
        d = os.path.join(REPO, m)
        if os.path.isdir(d):
            out += [os.path.join(d, f) for f in sorted(os.listdir(d)) if os.path.splitext(f)[1] in (".c", ".cpp")]
    return out

def digest(variant):
    h = hashlib.sha256()
    for m in sorted(set(os.path.join(REPO, "modules", x) for x in ("core", "process", "algorithm", "highgui", "satellite"))):
        for f in files_under(m, {".c", ".cpp", ".h", ".hpp"}):
            if "/test/" in f: continue
            h.update(f.encode()); h.update(open(f, "rb").read())
    for f in files_under(SIM, {".c", ".cpp", ".h", ".hpp", ".inc"}) + [os.path.abspath(__file__)]:
        h.update(os.path.relpath(f, VERIF).encode()); h.update(open(f, "rb").read())
    h.update(variant.encode())
    return h.hexdigest()[:20]

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError(" ".join(cmd) + "\n" + r.stdout[-6000:])

def build(variant, verbose=False):
    d = os.path.join(VERIF, "build", variant + "-" + digest(variant))
    exe = os.path.join(d, "sim")
    if os.path.exists(exe):
        os.utime(d)
        return exe
    t0 = time.time()
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp)
    try:
        return _build(variant, d, tmp, t0, verbose)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def _build(variant, d, tmp, t0, verbose):
    exe = os.path.join(d, "sim")
    v = VARIANT[variant]
    inc = ["-I" + SIM] + ["-I" + os.path.join(REPO, i) for i in INCDIRS] + ["-I" + os.path.join(SIM, "stubs"), "-I/usr/include/SDL"]
    modinc = []
    jobs, objs = [], []
    def add(src, flags, cxx):
        o = os.path.join(tmp, hashlib.sha1((src + str(len(objs))).encode()).hexdigest()[:12] + ".o")
        objs.append(o)
        jobs.append([("g++" if cxx else "gcc"), "-c", src, "-o", o, "-w", "-fPIC"] + flags)
    for s in lib_sources() + [os.path.join(SIM, g) for g in GLUE]:
        cxx = s.endswith(".cpp")
        extra = [] if s.startswith(SIM) else ["-I" + os.path.dirname(s)]
        add(s, v["lib"] + DEFS + ["-std=gnu++11" if cxx else "-std=gnu17"] + extra + inc, cxx)
    for s in SRC[variant]:
        add(os.path.join(SIM, s), ["-O1", "-g1", "-std=gnu++17"] + DEFS + v["defs"] + inc, True)
    with ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(run, jobs))
    run(["g++", "-no-pie", "-o", os.path.join(tmp, "sim")] + objs + v["link"] + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-ldl", "-lm"])
    for o in objs: os.unlink(o)
    try:
        os.rename(tmp, d)
    except OSError:
        pass
    # keep only a few builds
    bd = os.path.join(VERIF, "build")
    olds = sorted((e for e in os.scandir(bd) if e.is_dir() and e.name.startswith(variant) and ".tmp" not in e.name), key=lambda e: e.stat().st_mtime)
    for e in olds[:-6]: shutil.rmtree(e.path, ignore_errors=True)
    if verbose: print("built %s in %.1fs" % (variant, time.time() - t0), file=sys.stderr)
    return exe

if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan", "big", "sched"]:
        print(build(v, True))
