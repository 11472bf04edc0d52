"""Builds the simulator executable from /repo's current working tree.

Two variants: "plain" (as shipped) and "inst" (every memory access of RoDeO's own code calls the
simulator's scheduler and race detector).  Objects are cached by the content of their inputs, under
/verif/build, so that an unchanged tree is not compiled twice.
"""
import fcntl, glob, hashlib, os, re, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RODEO_REPO", "/repo")
OUT = os.path.join(os.path.dirname(HERE), "build")
CXX = "/usr/bin/g++"

OMP = ["-fopenmp", "-DOPENMP_SUPPORT"]
NDBG = ["-DNDEBUG"]
DIRS = {
    "API": (OMP, ["cppAPI.cpp", "rodeo_api.cpp"]),
    "Bounds": ([], ["bounds.cpp"]),
    "CorrelationFunctions": ([], ["correlation_functions.cpp", "exponential_correlation_function.cpp", "gaussian_correlation_function.cpp"]),
    "Design": (NDBG, None),
    "Driver": (NDBG, None),
    "InternalOptimizers": (OMP + NDBG, ["ea_optimizer.cpp", "ea_individual.cpp", "ea_population.cpp", "general_purpose_optimizer.cpp"]),
    "LinearAlgebra": (["-DOPENBLAS"], None),
    "ObjectiveFunctions": (NDBG, ["objective_function.cpp", "constraint_functions.cpp"]),
    "Optimizers": (OMP + NDBG, None),
    "SurrogateModels": (OMP + NDBG, ["kriging_training.cpp", "linear_regression.cpp", "surrogate_model.cpp", "surrogate_model_data.cpp", "surrogate_model_tester.cpp"]),
}
BASE = ["-O2", "-fPIC", "-w", "-g1", "-DRODEO_SIM"]
INST = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]


def units(repo):
    src = os.path.join(repo, "src")
    u = []
    for d, (fl, files) in DIRS.items():
        listed = files
        if files is not None:
            # the files the build names, should there be more of them than known here
            try:
                cm = "\n".join(l for l in open(os.path.join(src, d, "CMakeLists.txt")).read().split("\n") if not l.strip().startswith("#"))
                found = [f for f in sorted(set(re.findall(r"\w+\.cpp", cm))) if os.path.exists(os.path.join(src, d, f))]
                files = found or files
            except OSError:
                pass
        if listed is None:
            files = sorted(os.path.basename(f) for f in glob.glob(os.path.join(src, d, "*.cpp")))
        for f in files:
            u.append((os.path.join(src, d, f), d + "_" + f, BASE + fl))
    for f in sorted(glob.glob(os.path.join(repo, "externalFunctions", "*.cpp"))):
        u.append((f, "ext_" + os.path.basename(f), BASE + ["-std=gnu++11", "-I" + os.path.join(repo, "externalFunctions", "INCLUDE")]))
    u.append((os.path.join(src, "Rodeo.cpp"), "Rodeo.cpp", BASE + OMP + ["-Dmain=rodeo_main"]))
    return u


def headers_hash(repo):
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(repo, "src"))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".hpp", ".h", ".tpp", ".inc")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, repo).encode())
                h.update(open(p, "rb").read())
    for p in sorted(glob.glob(os.path.join(repo, "externalFunctions", "INCLUDE", "*"))):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def build(variant="plain", repo=None, log=None):
    repo = repo or REPO
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        hh = headers_hash(repo)
        simh = hashlib.sha256(open(os.path.join(HERE, "simrt.h"), "rb").read()).hexdigest()
        jobs = []
        for path, name, fl in units(repo):
            jobs.append((path, name, fl + (INST if variant == "inst" else []), hh))
        for lg in range(4):
            jobs.append((os.path.join(HERE, "simlog.cpp"), "simlog%d.cpp" % lg, BASE + ["-DLOGGER=%d" % lg, "-I" + os.path.join(repo, "src")] + (INST if variant == "inst" else []), hh))
        for f in ("simrt.cpp", "simrun.cpp", "internals.cpp", "tester.cpp"):
            own = f == "simrt.cpp"
            jobs.append((os.path.join(HERE, f), f, ["-O2", "-g1", "-fPIC", "-w", "-fno-builtin", "-fno-threadsafe-statics"] + ([] if own else ["-I" + os.path.join(repo, "src"), "-DOPENMP_SUPPORT"]) + (["-fno-access-control", "-DINTERNALS"] if f in ("internals.cpp", "tester.cpp") else []),
                         simh + ("" if own else hh)))
        objs, todo = [], []
        tot = hashlib.sha256()
        for path, name, fl, extra in jobs:
            h = hashlib.sha256()
            h.update("\0".join(fl).encode()); h.update(extra.encode()); h.update(path.encode()); h.update(open(path, "rb").read())
            k = h.hexdigest()[:32]
            o = os.path.join(OUT, "obj", name.replace(".cpp", "") + "-" + k + ".o")
            objs.append(o); tot.update(k.encode())
            if not os.path.exists(o):
                todo.append((path, fl, o))
        exe = os.path.join(OUT, "simrun-%s-%s" % (variant, tot.hexdigest()[:16]))

        def comp(t):
            path, fl, o = t
            r = subprocess.run([CXX, "-c", path, "-o", o + ".tmp"] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode and "-DRODEO_SIM" in fl:
                print("note: %s is built without observation points" % path, file=sys.stderr)
                # an observation point no longer fits the code around it: build the unit without them
                fl = [f for f in fl if f != "-DRODEO_SIM"]
                r = subprocess.run([CXX, "-c", path, "-o", o + ".tmp"] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode and "-DINTERNALS" in fl:
                # nor do the members read there
                print("note: %s is left out on this tree:\n" % os.path.basename(path) + r.stdout[:1500], file=sys.stderr)
                r = subprocess.run([CXX, "-c", path, "-o", o + ".tmp", "-DNO_INTERNALS"] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return path + "\n" + r.stdout[-6000:]
            os.replace(o + ".tmp", o)
            return None
        if todo:
            todo.sort(key=lambda t: -os.path.getsize(t[0]))
            with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
                errs = [e for e in ex.map(comp, todo) if e]
            if errs:
                raise RuntimeError("simulator build failed:\n" + "\n".join(errs))
        if not os.path.exists(exe):
            r = subprocess.run([CXX, "-o", exe + ".tmp", "-rdynamic", "-no-pie"] + objs + ["-lopenblas", "-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError("simulator link failed:\n" + r.stdout[-8000:])
            os.replace(exe + ".tmp", exe)
        # keep the cache small
        keep = set(objs)
        all_o = sorted(glob.glob(os.path.join(OUT, "obj", "*.o")), key=os.path.getmtime)
        for o in all_o[:-400]:
            if o not in keep:
                try: os.unlink(o)
                except OSError: pass
        exes = sorted(glob.glob(os.path.join(OUT, "simrun-%s-*" % variant)), key=os.path.getmtime)
        for e in exes[:-4]:
            if e != exe:
                try: os.unlink(e)
                except OSError: pass
        os.utime(exe)
        return exe
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain", "inst"]:
        print(build(v))
