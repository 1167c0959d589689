#!/usr/bin/env python3
"""Builds instrumented Cantera libraries and harnesses from /repo's working tree.

An object is rebuilt when the content of any file it was compiled from, or its command
line, differs from what its stamp recorded (contents are compared, never time stamps).
"""
import fcntl, glob, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
JOBS = min(8, os.cpu_count() or 4)
LIBDIRS = ["base", "thermo", "tpx", "equil", "numerics", "kinetics", "transport",
           "oneD", "zeroD", "clib"]
BASE = ["-std=c++17", "-fPIC", "-fno-omit-frame-pointer", "-DNDEBUG", "-pthread", "-w"]
FLAVORS = {
    # AddressSanitizer + UndefinedBehaviorSanitizer, every report fatal
    "asan": ["-O1", "-gline-tables-only", "-D_GLIBCXX_ASSERTIONS",
             "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    # ThreadSanitizer
    "tsan": ["-O1", "-gline-tables-only", "-fsanitize=thread"],
    # uninstrumented; used below the Python interface
    "plain": ["-O1", "-gline-tables-only", "-D_GLIBCXX_ASSERTIONS"],
}
LINKFLAGS = {
    "asan": ["-fsanitize=address,undefined"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}
CXX = "clang++"
LIBS = ["-lsundials_cvodes", "-lsundials_idas", "-lsundials_nvecserial", "-lfmt", "-lyaml-cpp",
        "-lopenblas", "-lpthread", "-ldl"]


class BuildError(Exception):
    pass


_sha = {}


def sha(path):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _sha:
        with open(path, "rb") as f:
            _sha[k] = hashlib.sha256(f.read()).hexdigest()
    return _sha[k]


def includes():
    inc = [os.path.join(REPO, "include"), os.path.join(REPO, "src")]
    if not os.path.exists(os.path.join(REPO, "include/cantera/base/config.h")):
        inc.append(os.path.join(VERIF, "lib/config"))
    return ["-I" + i for i in inc] + ["-isystem", "/usr/include/eigen3"]


def read_deps(dfile):
    txt = open(dfile).read().replace("\\\n", " ")
    return [os.path.normpath(p) for p in txt.split(":", 1)[1].split()]


def run_step(cmd, out, depsfile=None, inputs=None, cwd=None):
    """Run cmd to make out unless the stamp proves it up to date. Returns True if run."""
    stamp = out + ".stamp"
    key = hashlib.sha256(json.dumps(cmd).encode()).hexdigest()
    try:
        old = json.load(open(stamp))
        if old["key"] == key and os.path.exists(out) and all(
                sha(p) == h for p, h in old["deps"].items()):
            return False
    except (OSError, ValueError, KeyError):
        pass
    if os.path.exists(stamp):
        os.remove(stamp)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    begin = time.time()
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=cwd)
    if p.returncode:
        raise BuildError(f"{' '.join(cmd)}\n{p.stdout[-4000:]}\n{p.stderr[-6000:]}")
    deps = inputs if inputs is not None else read_deps(depsfile)
    # system headers are part of the fixed image: only watch the project's own files
    deps = [d for d in deps if not d.startswith(("/usr/", "/lib/"))]
    # an input edited while the step ran may or may not have been seen: no stamp
    now = time.time()
    if any(os.path.exists(d) and begin < os.stat(d).st_mtime <= now for d in deps):
        return True
    with open(stamp + ".tmp", "w") as f:
        json.dump({"key": key, "deps": {d: sha(d) for d in deps}}, f)
    os.replace(stamp + ".tmp", stamp)
    return True


def compile_obj(src, obj, flavor, extra=()):
    d = obj + ".d"
    cmd = [CXX, *BASE, *FLAVORS[flavor], *extra, *includes(), "-MD", "-MF", d, "-c", src, "-o", obj]
    return run_step(cmd, obj, depsfile=d)


def lib_sources():
    out = []
    for d in LIBDIRS:
        out += glob.glob(f"{REPO}/src/{d}/*.cpp") + glob.glob(f"{REPO}/src/{d}/*.c")
    out.append(f"{REPO}/src/extensions/canteraShared.cpp")
    return sorted(out)


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_lib(flavor):
    root = os.path.join(BUILD, flavor)
    lib = os.path.join(root, "libcantera_shared.so.3" if flavor == "plain"
                       else f"libcantera_{flavor}.so")
    with lock(flavor):
        extra = ['-DCANTERA_DATA="%s/data"' % REPO, '-DGIT_COMMIT="verif"']
        srcs = lib_sources()
        objs = {s: os.path.join(root, "obj", os.path.relpath(s, REPO).replace("/", "_") + ".o")
                for s in srcs}
        # largest first keeps the cores busy
        order = sorted(srcs, key=lambda s: -os.path.getsize(s))
        with ThreadPoolExecutor(JOBS) as ex:
            n = sum(ex.map(lambda s: compile_obj(s, objs[s], flavor, extra), order))
        allobjs = [objs[s] for s in srcs]
        run_step([CXX, "-shared", *LINKFLAGS[flavor], "-Wl,-soname," + os.path.basename(lib), "-o",
                  lib, *allobjs, *LIBS], lib, inputs=allobjs)
    return lib, n


def build_harness(name, flavor="asan"):
    """Compile /verif/harness/<name>.cpp and link it with the flavored library."""
    with ThreadPoolExecutor(2) as ex:
        root = os.path.join(BUILD, flavor)
        exe = os.path.join(root, "bin", name)
        obj = os.path.join(root, "hobj", name + ".o")
        src = os.path.join(VERIF, "harness", name + ".cpp")
        fl = ex.submit(build_lib, flavor)
        fo = ex.submit(compile_obj, src, obj, flavor, ["-I" + os.path.join(VERIF, "harness")])
        lib, n = fl.result()
        fo.result()
    with lock("link-" + name):
        run_step([CXX, *LINKFLAGS[flavor], "-o", exe, obj, lib, "-Wl,-rpath," + root, *LIBS], exe,
                 inputs=[obj, lib])
    return exe


if __name__ == "__main__":
    for a in sys.argv[1:]:
        t = time.time()
        if ":" in a:
            print(a, build_harness(*a.split(":")[::-1]), round(time.time() - t, 1))
        else:
            print(a, *build_lib(a), round(time.time() - t, 1))
