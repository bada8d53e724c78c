"""Builds the simulator from /repo's working tree, one shared library per variant.

A variant name is <dim><degree>[+flavour], e.g. 2q (2D quadratic), 3c (3D cubic),
2q+asan. Results are cached in /verif/build under a hash of every input, so a
changed tree is always rebuilt.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 8

FLAVOURS = {
    "": ["-O2", "-fopenmp"],
    # checked containers and sanitizers
    "asan": ["-O1", "-g1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize=vptr,float-divide-by-zero,float-cast-overflow",
             "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"],
    # automatic variables start as zeros / as a garbage pattern: results must agree
    "zero": ["-O1", "-fopenmp", "-ftrivial-auto-var-init=zero"],
    "pat": ["-O1", "-fopenmp", "-ftrivial-auto-var-init=pattern"],
    # instrumented by ThreadSanitizer; the OpenMP runtime is harness/sched_gomp.cpp
    "tsan": ["-O1", "-g1", "-fopenmp", "-fsanitize=thread"],
}


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), HARNESS, os.path.join(REPO, "levelsets")):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                if root.endswith("levelsets"):
                    h.update(str(os.path.getsize(p)).encode())
                    continue
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def sim_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "simulation", "**", "*.cpp"), recursive=True))


def flags(variant):
    base, _, flav = variant.partition("+")
    f = ["-std=c++17", "-fPIC", "-fno-gnu-unique", "-w", "-DNDEBUG_VERIF", "-I/usr/include/eigen3",
         "-I" + os.path.join(HARNESS, "deps/inc/a/b"), "-I" + os.path.join(REPO, "src"), "-I" + HARNESS,
         '-DSRC_DIR="%s/src"' % REPO, '-DINCLUDE_DIR="%s/levelsets"' % REPO]
    if base[0] == "3":
        f.append("-DTHREEDIM")
    f.append("-DMATTER_VERIF_SPLINEDEG=%d" % {"q": 2, "c": 3}[base[1]])
    return f + FLAVOURS[flav]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build(variants, parts=("core", "geom", "io"), verbose=False, extra_src=(), libs=(), defines=(), server=False):
    """Returns {variant: path of the .so}. Raises BuildError.
    server: an executable that runs cases from stdin under harness/sched_gomp.cpp instead of a library."""
    parts = list(parts)
    if server:
        extra_src = tuple(extra_src) + ("sched_gomp.cpp", "tsan_server.cpp")
    key = tree_hash() + "-" + hashlib.sha256(repr((sorted(parts), extra_src, libs, defines, server)).encode()).hexdigest()[:8]
    outdir = os.path.join(OUT, key)
    os.makedirs(outdir, exist_ok=True)
    # keep the cache small
    for old in sorted(glob.glob(os.path.join(OUT, "*")), key=os.path.getmtime)[:-30]:
        shutil.rmtree(old, ignore_errors=True)
    res, todo = {}, []
    for v in variants:
        so = os.path.join(outdir, v.replace("+", "_") + ".so")
        res[v] = so
        if not os.path.exists(so):
            todo.append(v)
    if not todo:
        return res
    srcs = sim_sources()
    heavy = [s for s in srcs if os.path.basename(s) == "plasticity.cpp"]
    light = [s for s in srcs if s not in heavy]
    jobs = {}  # (variant, name) -> (source, object)
    for v in todo:
        w = os.path.join(outdir, v.replace("+", "_") + ".d.%d" % os.getpid())
        os.makedirs(w, exist_ok=True)
        uni = os.path.join(w, "unity.cpp")
        with open(uni, "w") as f:
            f.write("".join('#include "%s"\n' % s for s in light))
        for s in heavy:
            jobs[(v, "heavy")] = (s, os.path.join(w, "heavy.o"))
        jobs[(v, "unity")] = (uni, os.path.join(w, "unity.o"))
        for p in parts:
            jobs[(v, p)] = (os.path.join(HARNESS, "shim_%s.cpp" % p), os.path.join(w, "shim_%s.o" % p))
        for e in extra_src:
            jobs[(v, "x" + e)] = (os.path.join(HARNESS, e), os.path.join(w, "x_%s.o" % os.path.basename(e)))
    objs = {v: [] for v in todo}

    def comp(v, name, src, obj):
        fl = flags(v) + list(defines)
        if name == "xsched_gomp.cpp":     # the runtime itself stays invisible to the race detector
            fl = [x for x in fl if not x.startswith("-fsanitize") and x != "-fopenmp"]
        return (v, name, src, obj) + _run(["g++"] + fl + ["-c", src, "-o", obj])

    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(comp, v, n, s, o) for (v, n), (s, o) in sorted(jobs.items(), key=lambda kv: kv[0][1] != "heavy")]
        failed = []
        for f in cf.as_completed(futs):
            v, name, src, obj, rc, log = f.result()
            if rc == 0:
                objs[v].append(obj)
            elif name == "unity":
                failed.append(v)
            else:
                raise BuildError("%s: %s\n%s" % (v, src, log[-4000:]))
        # sources that do not compile as one unit are compiled one by one
        futs = []
        for v in failed:
            for s in light:
                o = os.path.join(os.path.dirname(jobs[(v, "unity")][1]), os.path.basename(s) + ".o")
                futs.append(ex.submit(comp, v, "single", s, o))
        for f in cf.as_completed(futs):
            v, name, src, obj, rc, log = f.result()
            if rc:
                raise BuildError("%s: %s\n%s" % (v, src, log[-4000:]))
            objs[v].append(obj)
    for v in todo:
        fl = [x for x in FLAVOURS[v.partition("+")[2]]]
        tmp = res[v] + ".%d" % os.getpid()
        if server:     # libgomp only for what the schedule-exploring runtime lacks
            fl = [x for x in fl if x != "-fopenmp"]
            rc, log = _run(["g++", "-rdynamic"] + fl + objs[v] + list(libs) + ["-lgomp", "-lpthread", "-o", tmp])
        else:
            rc, log = _run(["g++", "-shared", "-Wl,-Bsymbolic"] + fl + objs[v] + list(libs) + ["-o", tmp])
        if rc:
            raise BuildError("link %s\n%s" % (v, log[-4000:]))
        os.replace(tmp, res[v])
        shutil.rmtree(os.path.dirname(objs[v][0]), ignore_errors=True)
    return res


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1:] or ["2q", "2c", "3q", "3c"]), round(time.time() - t, 1))
