"""Running simulated incarnations of RoDeO and reading back what happened."""
import hashlib, json, os, random, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build as simbuild  # noqa: E402

CPU_LIMIT = 120          # seconds of processor time after which an incarnation counts as stuck
WALL_LIMIT = 600


def exe_for(variant):
    return EXES[variant]


EXES = {}


def prepare(variants):
    for v in variants:
        EXES[v] = simbuild.build(v)


class Scratch:
    """A scratch directory tree of its own for one trial."""

    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (1 << 30) else tempfile.gettempdir()
        self.root = tempfile.mkdtemp(prefix="rodeosim-", dir=base)
        self.dir = os.path.join(self.root, "s")
        os.mkdir(self.dir)

    def reset(self, files):
        shutil.rmtree(self.dir)
        os.mkdir(self.dir)
        for n, c in files.items():
            self.put(n, c)

    def put(self, n, c):
        p = os.path.join(self.dir, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if c is None:
            if os.path.exists(p):
                os.unlink(p)
            return
        with open(p, "wb") as f:
            f.write(c.encode("latin-1"))

    def save(self, logs=False):
        d = {}
        for r, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(r, f)
                if f.endswith(".log") and not logs:
                    continue
                d[os.path.relpath(p, self.dir)] = open(p, "rb").read().decode("latin-1")
        return d

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def plan_text(inc, scratch):
    kv = dict(inc["plan"])
    kv["scratch"] = scratch.dir
    kv["dump"] = os.path.join(scratch.root, "dump.csv")
    lines = ["%s\t%s" % (k, v) for k, v in kv.items()]
    lines.append("seed\t%d" % inc["seed"])
    for f in inc.get("faults", []):
        lines.append("fault\t%d\t%s\t%d" % tuple(f))
    for f in inc.get("evfaults", []):
        lines.append("evfault\t%d\t%s\t%d" % tuple(f))
    for p in inc.get("pre", []):
        lines.append("pre\t%d\t%d" % tuple(p))
    for e in inc["evals"]:
        lines.append("\t".join(["eval", e["exe"], e["dv"], e["out"], e["fn"], str(e.get("fmt", 0)), repr(float(e.get("shift", 0)))] + [repr(float(c)) for c in e.get("c", [])]))
    return "\n".join(lines) + "\n"


ENV = {"PATH": "/usr/bin:/bin", "OPENBLAS_NUM_THREADS": "1", "MALLOC_ARENA_MAX": "1", "MALLOC_PERTURB_": "165", "TZ": "UTC", "LC_ALL": "C"}


def _limits():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Hist:
    """What one incarnation did."""
    pass


def unesc(s):
    return s


def run_inc(inc, scratch, variant="plain"):
    for n, c in inc.get("edits", {}).items():
        scratch.put(n, c)
    before = scratch.save(bool(inc["plan"].get("snaplogs")))
    planf = os.path.join(scratch.root, "plan")
    logf = os.path.join(scratch.root, "log")
    with open(planf, "w") as f:
        f.write(plan_text(inc, scratch))
    if os.path.exists(logf):
        os.unlink(logf)
    env = dict(ENV)
    env["SIM_SEED"] = str(inc["seed"])
    env["SIM_LOG"] = logf
    t0 = time.time()
    p = subprocess.Popen([exe_for(variant), planf], env=env, cwd=scratch.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=_limits)
    idle, last, stuck = 0, None, False
    while True:
        try:
            out, err = p.communicate(timeout=3)
            break
        except subprocess.TimeoutExpired:
            # stuck without using the processor
            try:
                w = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()
                used = [int(x) for x in w[11:15]]
            except (OSError, IndexError, ValueError):
                used = None
            idle = idle + 1 if used == last else 0
            last = used
            if (idle >= 6 or time.time() - t0 > WALL_LIMIT) and not stuck:
                stuck = True
                p.kill()
    rc = -999 if stuck else p.returncode
    h = Hist()
    h.wall = time.time() - t0
    h.rc = rc
    h.out = out.decode("latin-1")
    h.err = err.decode("latin-1")
    raw = open(logf, "rb").read() if os.path.exists(logf) else b""
    h.hash = hashlib.sha256(raw + b"|%d" % rc).hexdigest()[:24]
    h.events = []
    for line in raw.decode("latin-1").split("\n"):
        if line:
            try:
                h.events.append(json.loads(line))
            except ValueError:
                h.events.append({"t": "badline", "line": line[:200]})
    h.inc = inc
    h.before = before
    h.after = scratch.save(bool(inc["plan"].get("snaplogs")))
    digest(h)
    return h


def digest(h):
    """Derived views of the event list."""
    h.evals, h.snaps, h.ops, h.faults, h.races = [], [], [], [], []
    h.end = "hang" if h.rc in (-999, -signal.SIGXCPU, -signal.SIGKILL) else "died"
    h.code = None
    h.what = ""
    h.stats = {}
    cur = {}
    for i, e in enumerate(h.events):
        t = e["t"]
        if t == "op":
            h.ops.append(e)
        elif t == "eval":
            e["at"] = i
            h.evals.append(e)
        elif t == "snap":
            cur = dict(cur)
            cur.update(e["files"])
            for g in e["gone"]:
                cur.pop(g, None)
            h.snaps.append((i, cur))
        elif t == "fault":
            h.faults.append(e)
        elif t == "race":
            h.races.append(e)
        elif t == "exit":
            h.end, h.code = "exit", e["code"]
        elif t in ("crash", "terminate", "signal", "deadlock", "steplimit", "oplimit"):
            h.end = t
            h.what = e.get("what") or e.get("threads") or str(e.get("sig", ""))
        elif t == "stats":
            h.stats = e
    h.start_files = h.snaps[0][1] if h.snaps else {}
    h.end_files = cur
    if h.end == "died":
        h.what = "ended with status %s; %s" % (h.rc, h.err[-200:])


def snap_before(h, i):
    """File contents at the last snapshot at or before event i."""
    best = {}
    for j, f in h.snaps:
        if j > i:
            break
        best = f
    return best


def snap_after(h, i):
    """File contents at the first snapshot after event i."""
    return next((f for j, f in h.snaps if j > i), h.end_files)


def run_study(study, scratch, upto=None):
    """Runs all incarnations of a study from its initial files; returns the list of Hist."""
    scratch.reset(study["files"])
    hs = []
    for k, inc in enumerate(study["incs"]):
        if upto is not None and k >= upto:
            break
        hs.append(run_inc(inc, scratch, study.get("variant", "plain")))
    return hs


# ---------------------------------------------------------------- reading RoDeO's files
def field(s):
    """(value, tolerance) of a printed number; None if it is not one."""
    s = s.strip()
    try:
        v = float(s)
    except ValueError:
        return None
    if v != v or v in (float("inf"), float("-inf")):
        return (v, 0.0)
    m = s.lower()
    ex = 0
    if "e" in m:
        m, x = m.split("e", 1)
        try:
            ex = int(x)
        except ValueError:
            return None
    dec = len(m.split(".", 1)[1]) if "." in m else 0
    return (v, 0.51 * 10.0 ** (ex - dec) + 4e-16 * abs(v))


def rows_of(text):
    """Lines of a csv text: list of (fields or None, raw line); and whether the last line is terminated."""
    if text is None:
        return [], True
    lines = text.split("\n")
    term = lines[-1] == ""
    if term:
        lines = lines[:-1]
    out = []
    for l in lines:
        if not l.strip():
            out.append(([], l))
            continue
        fs = [field(x) for x in l.split(",")]
        out.append((None if any(f is None for f in fs) else fs, l))
    return out, term


def near(f, v, extra=0.0):
    if v != v:
        return f[0] != f[0]
    return abs(f[0] - v) <= f[1] + 4e-16 * abs(v) + extra


def parse_optimum(text):
    """globalOptimalDesign.xml -> dict or None when it is not a complete report."""
    import re
    if not text or "</GlobalOptimalDesign>" not in text:
        return None
    def one(tag):
        m = re.search(r"<%s>(.*?)</%s>" % (tag, tag), text, re.S)
        return m.group(1) if m else None
    def items(tag):
        b = one(tag)
        if b is None:
            return None
        return [field(x) for x in re.findall(r"<item>(.*?)</item>", b, re.S)]
    d = {"id": one("DesignID"), "obj": one("ObjectiveFunction"), "x": items("DesignParameters"), "con": items("ConstraintValues") or [], "feas": one("Feasibility")}
    if d["id"] is None or d["obj"] is None or d["x"] is None or d["feas"] is None:
        return None
    try:
        d["id"] = int(d["id"])
    except ValueError:
        return None
    d["obj"] = field(d["obj"])
    if d["obj"] is None or any(f is None for f in d["x"] + d["con"]):
        return None
    d["feas"] = d["feas"].strip()
    return d


def parse_history(text):
    """(header, rows, problem)"""
    if text is None:
        return None, None, "missing"
    rows, term = rows_of(text)
    if not rows:
        return None, None, "empty"
    if not term:
        return None, None, "last line not terminated"
    header = rows[0][1].split(",")
    body = rows[1:]
    for fs, raw in body:
        if fs is None or len(fs) != len(header):
            return header, None, "damaged row: %r" % raw[:120]
    return header, [fs for fs, _ in body], None
