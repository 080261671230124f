#!/usr/bin/env python3
"""Content-addressed builder: compiles /repo's working tree and the harnesses of /verif.

Never trusts mtimes: an object is reused only when the recorded content hash of the
source and of every header it included is unchanged."""
import os, re, sys, json, hashlib, subprocess, threading, fcntl, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JAX_REPO", "/repo")
BUILD = os.environ.get("JAX_BUILD", os.path.join(VERIF, ".build"))
OPT = os.environ.get("JAX_OPT", "-O1")
MPI = "/usr/lib/x86_64-linux-gnu/openmpi"
FLAGS = [OPT, "-w", "-fopenmp", "-mavx2", "-mfma", "-DUSE_PROP_RKN4", "-mcmodel=medium", "-std=gnu++14",
         "-I" + REPO + "/lib", "-I" + REPO + "/include",
         "-I/usr/include/hdf5/openmpi", "-isystem", MPI + "/include", "-isystem", MPI + "/include/openmpi"]
LIBS = ["-rdynamic", "-Wl,-rpath," + MPI + "/lib:/usr/lib/x86_64-linux-gnu/hdf5/openmpi",
        MPI + "/lib/libmpi_cxx.so", MPI + "/lib/libmpi.so", "-lfftw3", "-lfftw3f", "-lfftw3_omp", "-lfftw3f_omp",
        "-lfftw3_mpi", "-lfftw3f_mpi", "/usr/lib/x86_64-linux-gnu/hdf5/openmpi/libhdf5.so",
        "-lsz", "-lz", "-ldl", "-lm", "-lgsl", "-lgslcblas"]
# slow translation units are started first
SLOW = ["propagator/propagator.cpp", "spectrum/spectrum.cpp", "energy/energyXeon.cpp", "io/readWrite.pHdf5.cpp",
        "meas/measa.cpp", "utils/kgvops.cpp", "utils/parse.cpp", "gen/genConf.cpp"]
_hc = {}
_lock = threading.Lock()

def fhash(p):
    with _lock:
        if p in _hc: return _hc[p]
    try:
        h = hashlib.sha256(open(p, "rb").read()).hexdigest()
    except OSError:
        h = "missing"
    with _lock:
        _hc[p] = h
    return h

def lib_sources():
    """The .cpp files the repository's own build compiles into its library."""
    t = open(REPO + "/lib/CMakeLists.txt").read()
    m = re.search(r"set\s*\(\s*OBJS(.*?)\)", t, re.S)
    out = [w for w in m.group(1).split() if w.endswith(".cpp")]
    return [w for w in out if os.path.exists(REPO + "/lib/" + w)]

class BuildError(Exception):
    pass

def compile_one(src, extra=(), tag="", flags=None):
    fl = (flags if flags is not None else FLAGS) + list(extra)
    key = hashlib.sha256((" ".join(fl) + "|" + src + "|" + tag).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "obj"); os.makedirs(d, exist_ok=True)
    base = os.path.join(d, os.path.basename(src).replace(".", "_") + "-" + key)
    obj, meta = base + ".o", base + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(fhash(p) == h for p, h in deps.items()):
                return obj
        except ValueError:
            pass
    tmp = base + ".tmp%d" % os.getpid()
    cc = "g++" if src.endswith((".cpp", ".cc")) else "gcc"
    cmd = [cc, "-c", src] + fl + ["-MD", "-MF", tmp + ".d", "-o", tmp + ".o"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("compiling %s failed\n%s" % (src, r.stdout[-4000:]))
    txt = open(tmp + ".d").read().split(":", 1)[1].replace("\\\n", " ")
    deps = {}
    for p in txt.split():
        if p.startswith("/usr/") : continue
        deps[p] = fhash(p)
    os.replace(tmp + ".o", obj)
    with open(meta, "w") as f: json.dump(deps, f)
    os.remove(tmp + ".d")
    return obj

def build(name, harness, extra=(), opt=None, harness_flags=(), slow0=True, programs=()):
    """Builds BUILD/bin/<name> from harness sources + the library sources.
    slow0: the propagator translation unit (the critical path) is compiled without optimisation.
    programs: test/*.cpp mains also built as BUILD/bin/<program>."""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    fl = list(FLAGS)
    if opt: fl[0] = opt
    srcs = lib_sources()
    srcs.sort(key=lambda s: SLOW.index(s) if s in SLOW else 99)
    lk = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(lk, fcntl.LOCK_EX)
    try:
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            fl0 = ["-O0"] + fl[1:]
            f = lambda s: ex.submit(compile_one, REPO + "/lib/" + s, extra, "", fl0 if slow0 and s == "propagator/propagator.cpp" else fl)
            first = [f(s) for s in srcs[:1]]
            hf = [ex.submit(compile_one, h, list(extra) + ["-I" + VERIF + "/harness"] + list(harness_flags), "", fl) for h in harness]
            pf = [ex.submit(compile_one, REPO + "/test/" + p, extra, "", fl) for p in programs]
            rest = [f(s) for s in srcs[1:]]
            lib = [x.result() for x in first + rest]; hobj = [x.result() for x in hf]; pobj = [x.result() for x in pf]
        for p, o in zip(programs, pobj):
            link(os.path.join(BUILD, "bin", p.replace(".cpp", "")), [o] + lib, extra)
        return link(os.path.join(BUILD, "bin", name), hobj + lib, extra)
    finally:
        lk.close()

def link(out, objs, extra=()):
    sig = hashlib.sha256("".join(fhash_obj(o) for o in objs).encode()).hexdigest()[:16]
    stamp = out + ".sig"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == sig:
        return out
    cmd = ["g++", "-fopenmp", "-mcmodel=medium", "-o", out + ".tmp"] + [e for e in extra if e.startswith("-fsanitize")] + objs + LIBS
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("linking %s failed\n%s" % (out, r.stdout[-4000:]))
    os.replace(out + ".tmp", out)
    open(stamp, "w").write(sig)
    return out

def fhash_obj(o):
    return hashlib.sha256(open(o, "rb").read()).hexdigest()

if __name__ == "__main__":
    t = time.time()
    print(build(sys.argv[1], sys.argv[2:]), "%.1fs" % (time.time() - t))
