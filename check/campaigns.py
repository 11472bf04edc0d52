"""One campaign per property: what is simulated, with which faults, in each trial."""
import random
import simlib, studies
from simlib import run_inc

ASSUME = [
    "a crash ends the process between two system calls or inside a write (torn write); data handed to the kernel survives (no power loss)",
    "the simulated C library and OpenMP runtime behave like the real ones at the interposed calls",
]
CRASHABLE = ("opent", "opena", "openw", "write", "close", "rename", "unlink", "trunc", "fork", "wait", "openr", "read")
WRITERS = ("opent", "opena", "openw", "write", "close", "rename", "unlink", "trunc")


def new_study(spec, files, **kw):
    d = {"judge": "study", "spec": spec, "files": files, "incs": [], "variant": "plain", "plainconfig": True}
    d.update(kw)
    return d


def grow(study, S, inc, hs):
    """runs one more incarnation of a study whose earlier ones have just been run in S"""
    if not hs:
        S.reset(study["files"])
    study["incs"].append(inc)
    hs.append(run_inc(inc, S, study["variant"]))
    return hs[-1]


def inner_plan(rng):
    return {}


def crash_points(rng, ops, focus=None):
    """one crash, more often near the writing of results than elsewhere"""
    w = [o for o in ops if o["c"] in WRITERS and not o["p"].endswith(".dv")]
    f = [o for o in w if focus and any(x in o["p"] for x in focus)]
    u = rng.random()
    if f and u < 0.5:
        o = rng.choice(f)
    elif w and u < 0.8:
        o = rng.choice(w)
    else:
        o = rng.choice(ops)
    if o["c"] == "write":
        n = o.get("s", 0)
        arg = rng.choice([0, 1, n // 2, max(n - 1, 0), n, rng.randrange(n + 1), rng.randrange(n + 1)])
        return [o["n"], "crash", arg]
    return [o["n"], rng.choice(["crash", "crash", "crash_after"]), 0]


def dry(study, S, inc):
    S.reset(study["files"])
    return run_inc(dict(inc, faults=[], evfaults={}.get(0, [])), S, study["variant"])


# ---------------------------------------------------------------- crash and restart
def crash_campaign(rng, S, tier, i, focus=None, edits=0.0, **o):
    spec, files = studies.gen_driver(rng, N=rng.choice([1, 2, 2, 3]), inner=rng.choice([40, 80]), iters=200, **o)
    st = new_study(spec, files)
    inc = studies.driver_inc(rng, spec)
    d = dry(st, S, inc)
    res = []
    if d.end == "exit" and d.code == 0 and d.ops:
        inc = dict(inc, faults=[crash_points(rng, d.ops, focus)])
        if rng.random() < 0.15:
            # a benign disturbance before the crash
            r = [x for x in d.ops if x["c"] in ("read", "write")]
            inc["faults"].insert(0, [rng.choice(r)["n"], rng.choice(["short", "eintr"]), rng.choice([1, 30, 50])])
    hs = []
    h = grow(st, S, inc, hs)
    for k in range(rng.choice([1, 1, 2, 3])):
        nxt = studies.driver_inc(rng, spec)
        if rng.random() < edits:
            nxt["edits"] = damage(rng, S, spec)
        if k and rng.random() < 0.5 and d.ops:
            nxt["faults"] = [crash_points(rng, d.ops, focus)]
        h = grow(st, S, nxt, hs)
    if hs[-1].inc.get("faults"):
        grow(st, S, studies.driver_inc(rng, spec), hs)
    return [(st, hs)]


def damage(rng, S, spec):
    """what a crash of an earlier version, an editor or a full disk may leave of a training file"""
    fns = [spec["obj"]] + [c for c in spec["cons"] if not c["udf"]]
    f = rng.choice(fns)["train"]
    t = S.save().get(f, "")
    lines = t.split("\n")
    u = rng.randrange(9)
    if u == 0:
        return {f: t[:max(1, len(t) - rng.randrange(1, 30))]}
    if u == 1:
        return {f: t.rstrip("\n")}
    if u == 2:
        return {f: ""}
    if u == 3:
        return {f: None}
    if u == 4 and len(lines) > 3:
        k = rng.randrange(len(lines) - 1)
        lines[k] = lines[k].rsplit(",", 1)[0]
        return {f: "\n".join(lines)}
    if u == 5 and len(lines) > 3:
        k = rng.randrange(len(lines) - 1)
        lines[k] = lines[k] + lines[k + 1]
        del lines[k + 1]
        return {f: "\n".join(lines)}
    if u == 6 and len(lines) > 3:
        k = rng.randrange(len(lines) - 1)
        w = lines[k].split(",")
        w[rng.randrange(len(w))] = rng.choice(["", "abc", "1.5x", "--3", "1e", "1.0.0"])
        lines[k] = ",".join(w)
        return {f: "\n".join(lines)}
    if u == 7 and len(lines) > 4:
        # the rows of the last iterations are missing in one of the files
        return {f: "\n".join(lines[:-1 - rng.randrange(1, 3)]) + "\n"}
    return {f: t + "\n" * rng.randrange(1, 3)}


def c03(rng, S, tier, i):
    if i % 12 == 0:
        return api_crash(rng, S)
    return crash_campaign(rng, S, tier, i, focus=[".csv"])


def c04(rng, S, tier, i):
    return crash_campaign(rng, S, tier, i, focus=["f.csv", "g0.csv", "g1.csv"], edits=0.4, ncons=rng.choice([0, 1, 2, 2, 3]))


def c05(rng, S, tier, i):
    return crash_campaign(rng, S, tier, i, focus=["optimizationHistory", "globalOptimal"])


def api_crash(rng, S):
    spec, files = studies.gen_api(rng, dim=rng.choice([1, 2]), ncons=rng.choice([0, 1]), N=1)
    st = new_study(spec, files)
    inc = studies.api_inc(rng, spec)
    k = rng.randrange(1, spec["ndoe"] * (1 + len(spec["cons"])) + 1)
    hs = []
    if rng.random() < 0.5:
        inc["plan"]["stopafter"] = k
        grow(st, S, inc, hs)
    else:
        inc["faults"] = [[rng.randrange(1, 4 * spec["ndoe"]), "crash", rng.randrange(200)]]
        inc["plan"]["stopafter"] = spec["ndoe"] * (1 + len(spec["cons"]))
        grow(st, S, inc, hs)
    if rng.random() < 0.3:
        grow(st, S, studies.api_inc(rng, spec, ndoe=0), hs)
    return [(st, hs)]


# ---------------------------------------------------------------- evaluators
DFAULTS = ["nonzero", "nonzero_noout", "signal", "signal_full", "noout", "rmout", "empty", "blank", "garbage", "nan"]


def evfault(rng, k, kinds=DFAULTS):
    """one failing evaluation: [number, kind, exit status / signal / variant]"""
    f = rng.choice(kinds)
    if f == "nonzero":
        a = rng.choice([1, 2, 3, 9, 64, 77, 126, 127, 128, 128, 129, 137, 139, 143, 192, 255, rng.randrange(1, 256)])
    elif f in ("signal", "signal_full"):
        a = rng.choice([1, 2, 6, 9, 11, 15, rng.randrange(1, 32)])
    else:
        a = rng.randrange(105)
    return [k, f, a]


def c02(rng, S, tier, i):
    if i % 8 == 0:
        spec, files = studies.gen_api(rng, dim=rng.choice([1, 2]), ncons=rng.choice([0, 1, 2]), N=1)
        st = new_study(spec, files)
        inc = studies.api_inc(rng, spec)
        total = (spec["ndoe"] + 1) * (1 + len(spec["cons"]))
        k = rng.randrange(total) if rng.random() < 0.3 else rng.randrange(total - 1 - len(spec["cons"]))
        inc["evfaults"] = [[k, rng.choice(["throw", "nan", "inf"]), 0]]
        hs = []
        grow(st, S, inc, hs)
        return [(st, hs)]
    spec, files = studies.gen_driver(rng, N=rng.choice([1, 2, 3]), inner=40, iters=200, udf=0, pstale=0.6)
    st = new_study(spec, files)
    inc = studies.driver_inc(rng, spec)
    total = spec["N"] * (1 + len(spec["cons"]))
    hs = []
    if rng.random() < 0.75:
        inc["evfaults"] = [evfault(rng, rng.randrange(total))]
        if rng.random() < 0.1:
            inc["evfaults"].append([rng.randrange(total), "slow", 3])
        grow(st, S, inc, hs)
    else:
        d = dry(st, S, inc)
        fk = [o["n"] for o in d.ops if o["c"] in ("fork",)]
        if fk:
            inc["faults"] = [[rng.choice(fk), rng.choice(["eagain", "enoexec", "eacces"]), 0]]
        grow(st, S, inc, hs)
    if rng.random() < 0.4:
        grow(st, S, studies.driver_inc(rng, spec), hs)
    return [(st, hs)]


def c01(rng, S, tier, i):
    if i % 25 == 0:
        spec, files = studies.gen_api(rng, dim=rng.choice([1, 2]), ncons=rng.choice([0, 1]), N=1)
        st = new_study(spec, files)
        hs = []
        grow(st, S, studies.api_inc(rng, spec), hs)
        return [(st, hs)]
    if i % 5 == 1:
        return crash_campaign(rng, S, tier, i, pstale=0.8, pshared=0.3)
    spec, files = studies.gen_driver(rng, N=rng.choice([1, 2, 3, 4]), inner=40, iters=200, pstale=0.8, pshared=0.3)
    st = new_study(spec, files)
    hs = []
    inc = studies.driver_inc(rng, spec)
    total = spec["N"] * (1 + len(spec["cons"]))
    if rng.random() < 0.4:
        # a failing program must not turn what lies around into its answer
        inc["evfaults"] = [evfault(rng, rng.randrange(total), ["noout", "noout", "nonzero_noout", "rmout", "empty", "garbage", "signal", "nan"])]
    grow(st, S, inc, hs)
    if rng.random() < 0.6:
        nxt = studies.driver_inc(rng, spec)
        if rng.random() < 0.3:
            nxt["evfaults"] = [[rng.randrange(total), rng.choice(["noout", "rmout"]), 0]]
        grow(st, S, nxt, hs)
    return [(st, hs)]


# ---------------------------------------------------------------- undisturbed and mildly disturbed studies
def benign(rng, S, st, inc):
    """short transfers, interrupted calls and clock jumps, which change nothing"""
    d = dry(st, S, inc)
    r = [x for x in d.ops if x["c"] in ("read", "write")]
    inc["faults"] = []
    for _ in range(rng.randrange(1, 6)):
        o = rng.choice(r)
        inc["faults"].append([o["n"], rng.choice(["short", "short", "clock"]), rng.choice([1, 7, 30, 50, 90])])
    if rng.random() < 0.5:
        inc["faults"].append([rng.choice(d.ops)["n"], "clock", rng.choice([-86400, 3600, 10 ** 8, -10 ** 8])])
    inc["faults"] = [list(x) for x in {f[0]: f for f in inc["faults"]}.values()]


def c10(rng, S, tier, i):
    spec, files = studies.gen_driver(rng, N=rng.choice([2, 3, 4, 6]), pdisc=0.7, iters=200, inner=rng.choice([10, 40, 80]), dim=rng.choice([1, 2, 2, 3, 4, 6]))
    st = new_study(spec, files)
    hs = []
    grow(st, S, studies.driver_inc(rng, spec), hs)
    if rng.random() < 0.4:
        grow(st, S, studies.driver_inc(rng, spec), hs)
    return [(st, hs)]


def c11(rng, S, tier, i):
    if i % 100 == 7:
        # a long study without success
        spec, files = studies.gen_driver(rng, N=rng.choice([130, 150, 200]), dim=1, ncons=0, iters=20, inner=4, objfn="const", plong=0)
        st = new_study(spec, files)
        hs = []
        grow(st, S, studies.driver_inc(rng, spec), hs)
        return [(st, hs)]
    spec, files = studies.gen_driver(rng, N=rng.choice([1, 2, 3, 5, 8]), iters=200, inner=rng.choice([1, 10, 40]), objfn=rng.choice([None, "const", "step", "hash", "quad"]))
    st = new_study(spec, files)
    hs = []
    inc = studies.driver_inc(rng, spec)
    if rng.random() < 0.4:
        benign(rng, S, st, inc)
    if rng.random() < 0.2:
        inc["evfaults"] = [[rng.randrange(4), "slow", rng.choice([1, 30])]]
    grow(st, S, inc, hs)
    if rng.random() < 0.3:
        grow(st, S, studies.driver_inc(rng, spec), hs)
    return [(st, hs)]


def c12(rng, S, tier, i):
    spec, files = studies.gen_driver(rng, N=rng.choice([2, 3, 4, 6]), iters=200, inner=rng.choice([10, 40]), ncons=rng.choice([0, 1, 1, 2, 3, 3]), objfn=rng.choice([None, "step", "const", "quad", "hash"]), confn=rng.choice([None, "step", "lin", "hash"]), pout=0.3)
    st = new_study(spec, files)
    hs = []
    grow(st, S, studies.driver_inc(rng, spec), hs)
    for _ in range(rng.choice([0, 1, 2])):
        grow(st, S, studies.driver_inc(rng, spec), hs)
    return [(st, hs)]


def c06(rng, S, tier, i):
    inst = i % 3 == 0
    spec, files = studies.gen_driver(rng, N=rng.choice([1, 2]) if inst else rng.choice([2, 4]), iters=200, inner=rng.choice([20, 40]) if inst else rng.choice([20, 80, 200]), threads=rng.choice([2, 3, 4, 8]) if inst else None, pdisc=0.1, ncons=rng.choice([0, 1, 2]), plong=0 if inst else 0.05)
    st = new_study(spec, files, variant="inst" if inst else "plain")
    hs = []
    inc = studies.driver_inc(rng, spec)
    if inst:
        inc["plan"].update(pmem=rng.choice([0.0005, 0.002, 0.01]), psync=rng.choice([0.05, 0.3, 0.7]))
    grow(st, S, inc, hs)
    return [(st, hs)]


# ---------------------------------------------------------------- resources
def c18(rng, S, tier, i):
    spec, files = studies.gen_driver(rng, N=rng.choice([1, 2]), inner=40, iters=200, threads=rng.choice([None, 1]), punterm=0)
    st = new_study(spec, files, **{"as": {"C01": ["C18"], "C03": ["C18"], "C04": ["C18"], "C05": ["C18"], "C11": ["C18"]}})
    inc = studies.driver_inc(rng, spec, cpus=1)
    d = dry(st, S, inc)
    hs = []
    if d.end != "exit" or d.code != 0:
        grow(st, S, inc, hs)
        return [(st, hs)]
    u = rng.random()
    if u < 0.45:
        o = rng.choice([x for x in d.ops if x["c"] in WRITERS])
        if rng.random() < 0.5:
            inc["faults"] = [[o["n"], "full", rng.choice([0, 0, 1, 17, 100, 300, 700, rng.randrange(3000)])]]
        else:
            kind = "eio" if o["c"] not in ("opent", "opena", "openw") else rng.choice(["eio", "emfile", "eacces"])
            inc["faults"] = [[o["n"], kind, 0]]
    elif u < 0.6:
        o = rng.choice([x for x in d.ops if x["c"] in ("openr", "read", "fork", "close")])
        kind = {"openr": ["eio", "emfile", "eacces"], "read": ["eio"], "fork": ["eagain", "enoexec", "eacces"], "close": ["eio"]}[o["c"]]
        inc["faults"] = [[o["n"], rng.choice(kind), 0]]
    else:
        n = int(d.stats.get("allocs", 0))
        inc["plan"]["oom"] = rng.choice([rng.randrange(max(n, 1)), rng.randrange(max(n, 1)), rng.randrange(3000)])
    h = grow(st, S, inc, hs)
    st["dryevals"] = [[e["exe"], e["x"]] for e in d.evals]
    grow(st, S, studies.driver_inc(rng, spec), hs)
    return [(st, hs)]


# ---------------------------------------------------------------- evolutionary optimiser
def ea_study(rng, **o):
    dim = rng.choice([1, 1, 2, 3, 5])
    lb, ub = studies.gen_bounds(rng, dim)
    if rng.random() < 0.15:
        k = rng.choice([1e-4, 1e-7, 1e-12, 1e6])
        lb, ub = [v * k for v in lb], [v * k for v in ub]
    fn = studies.gen_fn(rng, lb, ub, o.get("fn") or rng.choice([None, None, "const", "step", "lin", "hash", "quad"]))
    init = rng.choice([2, 3, 4, 5, 8, 12, 20, 40])
    newind = rng.choice([1, 1, 2, 3, 5, 10, 20])
    deaths = rng.choice([0, 1, newind, newind, rng.randrange(init + newind), init + newind - 1])
    gens = rng.choice([1, 2, 3, 5, 10])
    maxeval = rng.choice([1, 5, 20, 50, 200])
    if rng.random() < 0.04:
        init, newind, gens, maxeval = rng.choice([90, 150, 260]), rng.choice([30, 64, 110]), rng.choice([5, 20]), rng.choice([500, 1500])
        deaths = rng.choice([newind, newind, newind // 2])
    plan = {"scenario": "ea", "dim": dim, "lb": ",".join(studies.fnum(v) for v in lb), "ub": ",".join(studies.fnum(v) for v in ub), "init": init, "newind": newind, "deaths": deaths, "gens": gens, "maxeval": maxeval, "mut": rng.choice([0.01, 0.1, 0.5, 0.99]), "plainfn": rng.choice([0, 1])}
    fn.update(exe="ea", dv="-", out="-")
    return plan, fn


def ea_inc(rng, plan, fn, ops):
    return {"seed": rng.getrandbits(48), "plan": dict(plan, ops=";".join(ops)), "evals": [fn]}


def c13(rng, S, tier, i):
    plan, fn = ea_study(rng)
    st = {"judge": "ea", "spec": {}, "files": {}, "incs": [], "variant": "plain"}
    ops = ["new"]
    for _ in range(rng.choice([1, 2, 3, 5, 9])):
        u = rng.random()
        if u < 0.3:
            ops.append("optimize")
        elif u < 0.45:
            ops += ["init"] + ["gen"] * rng.randrange(1, 8)
        elif u < 0.6:
            ops += ["init", "gen", "write", "new", "read", "gen", "gen"]
        elif u < 0.75:
            ops += ["optimize", "write", "warm", "write", "warm"][:rng.randrange(3, 6)]
        elif u < 0.85:
            ops += ["optimize", "reset", "optimize"]
        elif u < 0.92:
            ops += ["init", "write a.csv", "gen", "gen", "read a.csv", "gen", "gen"]
        else:
            ops += ["new"]
    hs = []
    grow(st, S, ea_inc(rng, plan, fn, ops), hs)
    if rng.random() < 0.4:
        plan2 = dict(plan)
        if rng.random() < 0.5:
            plan2.update(newind=rng.choice([1, 4, 15]), deaths=rng.choice([0, 1, 2]), gens=rng.choice([1, 4]))
        if "warm.csv" in hs[0].after:
            grow(st, S, ea_inc(rng, plan2, fn, ["new", rng.choice(["warm", "read"]), "gen", "gen", "write", "warm"]), hs)
    return [(st, hs)]


def ea_damage(rng, t):
    lines = t.split("\n")
    u = rng.randrange(8)
    if u == 0:
        return None
    if u == 1:
        return ""
    if u in (2, 3, 4):
        return t[:rng.randrange(1, len(t))]
    k = rng.randrange(1, max(2, len(lines) - 1))
    w = lines[k].split(",")
    if u == 5 and len(w) > 1:
        lines[k] = ",".join(w[:rng.randrange(1, len(w))])
    elif u == 6 and len(w) > 1:
        w[rng.randrange(len(w))] = ""
        lines[k] = ",".join(w)
    else:
        w[rng.randrange(1, len(w))] = "abc"
        lines[k] = ",".join(w)
    return "\n".join(lines)


def c16(rng, S, tier, i):
    plan, fn = ea_study(rng)
    st = {"judge": "ea", "spec": {}, "files": {}, "incs": [], "variant": "plain"}
    hs = []
    make = [["new", "init", "write"], ["new", "optimize", "write"], ["new", "init", "gen", "gen", "write"], ["new", "optimize", "write", "gen", "write"], ["new", "init", "write", "gen", "gen", "write"]]
    inc = ea_inc(rng, plan, fn, rng.choice(make))
    u = rng.random()
    if u < 0.5:
        S.reset({})
        d = run_inc(inc, S, "plain")
        w = [o for o in d.ops if o["c"] in WRITERS]
        if w:
            o = rng.choice(w)
            if rng.random() < 0.5:
                inc["faults"] = [[o["n"], "full", rng.choice([0, 1, 50, 300, rng.randrange(4000)])]] if rng.random() < 0.6 else [[o["n"], "eio", 0]]
            else:
                inc["faults"] = [crash_points(rng, d.ops)]
        grow(st, S, inc, hs)
        nxt = ea_inc(rng, plan, fn, ["new", rng.choice(["read", "warm"]), "gen", "write", "read"])
        if rng.random() < 0.15:
            S2 = S.save()
            d2 = run_inc(nxt, S, "plain")
            S.reset(S2)
            r = [o for o in d2.ops if o["c"] in ("openr", "read")]
            if r:
                o = rng.choice(r)
                nxt["faults"] = [[o["n"], "eio" if o["c"] == "read" else rng.choice(["eio", "emfile", "eacces"]), 0]]
        grow(st, S, nxt, hs)
    elif u < 0.8:
        grow(st, S, inc, hs)
        nxt = ea_inc(rng, plan, fn, ["new"] + rng.choice([[], ["init"], ["optimize"]]) + [rng.choice(["read", "warm"])] + rng.choice([["optimize", "write"], ["init", "gen"], []]))
        t = S.save().get("warm.csv")
        if t:
            nxt["edits"] = {"warm.csv": ea_damage(rng, t)}
        grow(st, S, nxt, hs)
    else:
        grow(st, S, inc, hs)
        for _ in range(rng.choice([1, 2, 3])):
            plan2 = dict(plan, newind=rng.choice([1, 4, 15]), deaths=rng.choice([0, 1, 2]), gens=rng.choice([1, 4]))
            grow(st, S, ea_inc(rng, plan2, fn, ["new", rng.choice(["read", "warm"]), "write", "read", "gen", "write b.csv", "read b.csv"]), hs)
    return [(st, hs)]


# ---------------------------------------------------------------- Kriging models
def model_study(rng, main, dim=None, n=None, fn=None):
    dim = dim or rng.choice([1, 1, 2, 2, 3] if rng.random() < 0.96 else [4, 5])
    lb, ub = studies.gen_bounds(rng, dim)
    f = studies.gen_fn(rng, lb, ub, fn or rng.choice([None, None, "quad", "osc", "hash", "step", "const"]))
    n = n or rng.choice([dim + 3, 6, 8, 12] if rng.random() < 0.95 else [20, 27, 40])
    n = max(n, dim + 3)
    fmt = rng.choice(studies.FMTS)
    xs = [[float(fmt % v) for v in x] for x in studies.gen_rows(rng, lb, ub, [None] * dim, n)]
    files = {"train.csv": studies.text_rows([x + [studies.evalfn(f, x)] for x in xs], fmt)}
    plan = {"scenario": "model", "dim": dim, "lb": ",".join(studies.fnum(v) for v in lb), "ub": ",".join(studies.fnum(v) for v in ub), "universal": rng.choice([0, 0, 1]), "file": "train.csv", "hfile": "hyp.csv"}
    st = {"judge": "model", "main": main, "spec": {}, "files": files, "incs": [], "variant": "plain"}

    def sample():
        u = rng.random()
        x = studies.gen_rows(rng, lb, ub, [None] * dim, 1)[0]
        if u < 0.2:
            x = list(rng.choice(xs))
            if rng.random() < 0.5:
                d = rng.choice([1e-6, 3e-5, 9e-5, 1.2e-4, 5e-4, 1e-3])
                x = [v + d * rng.choice([-1, 1]) for v in x]
        row = x + [studies.evalfn(f, x)]
        xs.append(x)
        return "add " + ",".join(repr(v) for v in row)

    def hyper():
        return "hyper " + ",".join(repr(v) for v in [rng.uniform(0.01, 20) for _ in range(dim)] + [rng.uniform(1, 2) for _ in range(dim)])
    return st, plan, sample, hyper


def model_inc(rng, plan, ops, **kw):
    p = dict(plan, ops=";".join(ops), psync=rng.choice([0, 0.05, 0.4]), cpus=rng.choice([1, 2, 4]))
    p.update(kw)
    return {"seed": rng.getrandbits(48), "plan": p, "evals": []}


def one_fault(rng, st, S, inc, hs, crash=False, focus=None):
    """adds one fault to inc, chosen from the operations of a fault-free run on the same files"""
    keep = S.save() if hs else None
    if not hs:
        S.reset(st["files"])
    d = run_inc(inc, S, st["variant"])
    if keep is not None:
        S.reset(keep)
    w = [o for o in d.ops if o["c"] in WRITERS and (not focus or any(x in o["p"] for x in focus))]
    if not w:
        return
    if crash:
        inc["faults"] = [crash_points(rng, w)]
        return
    o = rng.choice(w)
    u = rng.random()
    if u < 0.5:
        inc["faults"] = [[o["n"], "full", rng.choice([0, 1, 10, 40, 200, rng.randrange(1000)])]]
    elif u < 0.8 or o["c"] not in ("opent", "opena", "openw"):
        inc["faults"] = [[o["n"], "eio", 0]]
    else:
        inc["faults"] = [[o["n"], rng.choice(["emfile", "eacces"]), 0]]


def models(rng, S, **o):
    """studies whose models and candidates are looked at after every search"""
    hs = []
    if rng.random() < 0.15:
        spec, files = studies.gen_api(rng, dim=rng.choice([1, 2, 2, 3]), ncons=rng.choice([0, 1, 1, 2] if rng.random() < 0.95 else [3, 4, 5]), N=rng.choice([1, 2]), ndoe=rng.choice([6, 8, 8, 14]))
        st = new_study(spec, files)
        grow(st, S, studies.api_inc(rng, spec, models=1), hs)
        return [(st, hs)]
    spec, files = studies.gen_driver(rng, **o)
    st = new_study(spec, files)
    inc = studies.driver_inc(rng, spec, models=1)
    if rng.random() < 0.25:
        d = dry(st, S, inc)
        w = [x["n"] for x in d.ops if x["c"] in WRITERS and x.get("p", "").endswith(".csv")] or [x["n"] for x in d.ops]
        inc["faults"] = [[rng.choice(w), rng.choice(["crash", "crash_after"]), rng.randrange(200)]]
    grow(st, S, inc, hs)
    for _ in range(rng.choice([0, 0, 1, 2])):
        grow(st, S, studies.driver_inc(rng, spec, models=1), hs)
    return [(st, hs)]


def c22(rng, S, tier, i):
    return models(rng, S, N=rng.choice([2, 3, 4, 6]), inner=rng.choice([40, 80]), iters=200, ncons=rng.choice([0, 1, 1, 2, 2, 3] if rng.random() < 0.95 else [4, 5, 6]))


def c15(rng, S, tier, i):
    if i % 4 == 3:
        return models(rng, S, N=rng.choice([2, 3, 5]), inner=20, iters=200, ncons=rng.choice([0, 1, 2] if rng.random() < 0.95 else [3, 5]))
    st, plan, sample, hyper = model_study(rng, "C15")
    ops = ["open"]
    if rng.random() < 0.8:
        ops.append(hyper())
    for _ in range(rng.choice([2, 4, 8])):
        u = rng.random()
        ops.append(sample() if u < 0.65 else hyper() if u < 0.8 else "update" if u < 0.88 else "open" if u < 0.93 else "train 1 1")
    hs = []
    inc = model_inc(rng, plan, ops)
    u = rng.random()
    if u < 0.5:
        one_fault(rng, st, S, inc, hs, crash=u < 0.25, focus=["train.csv"])
    grow(st, S, inc, hs)
    if rng.random() < 0.6:
        grow(st, S, model_inc(rng, plan, ["open", hyper(), sample(), sample(), "update"]), hs)
    return [(st, hs)]


def table_damage(rng, t, nan):
    l = t.rstrip("\n").split("\n")
    k = rng.randrange(len(l))
    u = rng.randrange(8)
    if u == 0:
        return None
    if u == 1:
        return rng.choice(["", "\n"])
    if u in (2, 3):
        return t[:rng.randrange(1, len(t))]
    w = l[k].split(",")
    if u == 4:
        w = w[:-1]
    elif u == 5:
        w.append("1.0")
    elif u == 6:
        w[rng.randrange(len(w))] = rng.choice(["", "abc", "1.5x", "--1", "1e999"] + (["nan", "inf"] if nan else []))
    else:
        w = [l[k] + l[(k + 1) % len(l)]]
    return "\n".join(l[:k] + [",".join(w)] + l[k + 1:]) + "\n"


def c23(rng, S, tier, i):
    st, plan, sample, hyper = model_study(rng, "C23", dim=rng.choice([1, 1, 2, 3]), n=rng.choice([None, None, 15, 25]))
    st["judge"] = "test"
    plan = {"scenario": "test", "dim": plan["dim"], "lb": plan["lb"], "ub": plan["ub"]}
    dim = plan["dim"]
    lb, ub = [float(v) for v in plan["lb"].split(",")], [float(v) for v in plan["ub"].split(",")]
    f = studies.gen_fn(rng, lb, ub)

    def table(n, values, same=None):
        fmt = rng.choice(studies.FMTS)
        xs = [[float(fmt % v) for v in x] for x in studies.gen_rows(rng, lb, ub, [None] * dim, n, outside=rng.choice([0, 0, 0.2]))]
        return studies.text_rows([x + ([studies.evalfn(f, x)] if values else []) for x in xs], fmt)
    t = st["files"]["train.csv"]
    st["files"]["test.csv"] = t if rng.random() < 0.2 else table(rng.choice([1, 2, 5, 12]), rng.random() < 0.7)
    st["files"]["more.csv"] = table(rng.choice([1, 3, 9]), rng.random() < 0.5)
    if rng.random() < 0.5:
        n = rng.choice([dim + 2, 7, 14])
        st["files"]["train2.csv"] = table(n, True)
    trains = [n for n in st["files"] if n.startswith("train")]
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        ops.append("new")
        m = rng.choice(["linear", "ordinary", "ordinary", "universal"])
        if rng.random() < 0.05:
            ops += [rng.choice(["ratio 0.3", "run"])]
        ops += ["model " + m, "iters %d" % rng.choice([1, 1, 300])]
        if m != "linear" and rng.random() < 0.4 or rng.random() < 0.05:
            ops.append("variances 1")
        if rng.random() < (0.6 if m == "linear" else 0.4):
            ops.append("ratio " + rng.choice(["0", "0.01", "0.1", "0.25", "0.5", "0.5", "-0.2", "1.5", "2", "-1e-9", "nan"]))
        ops.append("run")
        for _ in range(rng.choice([0, 0, 1, 2])):
            u = rng.random()
            ops += [] if u < 0.2 else ["model " + rng.choice(["linear", "ordinary", "universal"])] if u < 0.4 else ["test more.csv"] if u < 0.6 else ["train " + rng.choice(trains)] if u < 0.8 else ["test test.csv"] if u < 0.9 else ["variances %d" % rng.choice([0, 1])]
            ops.append("run")
    hs = []
    inc = model_inc(rng, plan, ops)
    u = rng.random()
    if u < 0.15:
        e = rng.choice(["train.csv", "test.csv"])
        st["files"][e] = table_damage(rng, st["files"][e], e != "test.csv")
        if st["files"][e] is None:
            del st["files"][e]
    elif u < 0.4:
        one_fault(rng, st, S, inc, hs, crash=u < 0.22, focus=["surrogateTestResults"])
    grow(st, S, inc, hs)
    if rng.random() < 0.3:
        grow(st, S, model_inc(rng, plan, ["new", "model ordinary", "iters 1", "run"]), hs)
    return [(st, hs)]


def c17(rng, S, tier, i):
    st, plan, sample, hyper = model_study(rng, "C17")
    hs = []
    make = rng.choice([["open", hyper(), "save"], ["open", hyper(), "save", hyper(), "save"], ["open", "train 1 1", "save"], ["open", "train 1 1", "warmsave"], ["open", hyper(), "save", sample(), "train 1 1", "save"]])
    inc = model_inc(rng, plan, make)
    u = rng.random()
    if u < 0.5:
        one_fault(rng, st, S, inc, hs, crash=u < 0.2, focus=["hyp.csv"])
    grow(st, S, inc, hs)
    for _ in range(rng.choice([1, 1, 2])):
        nxt = model_inc(rng, plan, ["open"] + rng.choice([[], [hyper()], [hyper()]]) + [rng.choice(["load", "warm"])] + rng.choice([[], ["save", "load"], [hyper(), "load"]]))
        t = S.save().get("hyp.csv")
        if t and rng.random() < 0.6:
            l = t.split("\n")
            k = rng.randrange(len(l))
            v = rng.randrange(8)
            if v == 0:
                e = None
            elif v == 1:
                e = ""
            elif v == 2:
                e = t[:rng.randrange(1, len(t) + 1)]
            elif v == 3:
                e = "\n".join(l[:k] + l[k + 1:])
            elif v == 4:
                e = "\n".join(l[:k] + ["0.5"] + l[k:])
            elif v == 5:
                e = "\n".join(l[:k] + [rng.choice(["", "abc", "1.5x", "--3", "1e", "0.5,0.5", "nanx"])] + l[k + 1:])
            elif v == 6:
                e = " ".join(l)
            else:
                e = "\n".join(l + l)
            # exponents outside [1, 2] make no correlation function: nothing is promised for them
            try:
                v = [float(w) for w in (e or "").split("\n") if w.strip()]
                ok = len(v) != 2 * plan["dim"] or all(1 <= w <= 2 for w in v[plan["dim"]:])
            except ValueError:
                ok = True
            if ok:
                nxt["edits"] = {"hyp.csv": e}
        grow(st, S, nxt, hs)
    return [(st, hs)]


def c08(rng, S, tier, i):
    inst = i % 4 == 3
    st, plan, sample, hyper = model_study(rng, "C08", dim=1 if inst else rng.choice([1, 1, 2]), n=rng.choice([4, 5]) if inst else rng.choice([4, 6, 9]), fn=rng.choice([None, "quad", "osc", "hash", "const", "step", "abs"]))
    st["variant"] = "inst" if inst else "plain"
    t = rng.choice([2, 3]) if inst else rng.choice([1, 2, 3, 4, 5, 8] if rng.random() < 0.95 else [12, 20])
    it = rng.choice([1, 200]) if inst else rng.choice([1, 100, 400, 1000, 2000])
    ops = ["open", "train %d %d ml" % (t, it), "like"]
    if not inst or rng.random() < 0.3:
        for _ in range(rng.choice([0, 1, 2, 3])):
            u = rng.random()
            if u < 0.6:
                ops += ["train %d %d ml" % (t, it), "like"]
            elif u < 0.8:
                ops += [sample(), "train %d %d ml" % (t, it), "like"]
            else:
                t2 = rng.choice([1, 2, 4])
                ops += ["train %d %d ml" % (t2, it), "like"]
    if rng.random() < 0.4:
        plan["ratio"] = rng.choice([0.01, 0.2, 0.25, 0.34, 0.5])
        st["as"] = {"C15": ["C08"], "C17": ["C08"]}
        if rng.random() < 0.3:
            ops += ["save", rng.choice(["update", sample(), "open"]), rng.choice(["warm", "train %d %d ml" % (t, it)])]
    inc = model_inc(rng, plan, ops)
    if inst:
        inc["plan"].update(pmem=rng.choice([0.0002, 0.001, 0.01]), psync=rng.choice([0.05, 0.3, 0.7]))
    hs = []
    grow(st, S, inc, hs)
    return [(st, hs)]


# ---------------------------------------------------------------- parallel sections
def c07(rng, S, tier, i):
    if i % 5 == 4:
        st, plan, sample, hyper = model_study(rng, "C07", dim=1, n=rng.choice([4, 5]))
        st["variant"] = "inst"
        t = rng.choice([2, 2, 3, 4])
        inc = model_inc(rng, plan, ["open", "train %d 1" % t], pmem=rng.choice([0.0002, 0.001, 0.01]), psync=rng.choice([0.05, 0.3, 0.7]))
    else:
        spec, files = studies.gen_driver(rng, N=rng.choice([1, 1, 2]), iters=200, inner=rng.choice([8, 20, 40]), threads=rng.choice([2, 2, 3, 4, 6, 8]), ncons=rng.choice([0, 1, 2]), punterm=0, plong=0)
        st = new_study(spec, files, variant="inst", main="C07", **{"as": {"C11": ["C07"]}})
        inc = studies.driver_inc(rng, spec)
        inc["plan"].update(pmem=rng.choice([0.0005, 0.002, 0.01, 0.05]), psync=rng.choice([0.05, 0.3, 0.7]))
        if rng.random() < 0.2:
            inc["plan"]["cpus"] = rng.choice([1, 2, 16])
    hs = []
    grow(st, S, inc, hs)
    return [(st, hs)]


# ---------------------------------------------------------------- the initial design of experiments
def c14(rng, S, tier, i):
    full = i % 24 == 0
    spec, files = studies.gen_api(rng, dim=rng.choice([1, 2]) if full else rng.choice([1, 1, 2, 2, 3, 4, 6]), ncons=rng.choice([0, 1]) if full else rng.choice([0, 1, 2, 3]), N=1, ndoe=rng.choice([4, 8]) if full else rng.choice([None, 3, 5, 17, 40, 60, 120, 300] if i % 4 == 1 else [None, 3, 5, 17, 40, 60]))
    st = new_study(spec, files, **{"as": {"C02": ["C14"], "C11": ["C14"]}})
    inc = studies.api_inc(rng, spec)
    if not full:
        inc["plan"]["stopattrain"] = 1
    u = rng.random()
    if u < 0.1:
        inc["plan"]["objfile"] = "other.csv"
        inc["plan"]["trainfile"] = spec["obj"]["train"]
    elif u < 0.2:
        inc["plan"]["lb0"] = ",".join(studies.fnum(l - 1) for l in spec["lb"])
        inc["plan"]["ub0"] = ",".join(studies.fnum(v + 2) for v in spec["ub"])
    u = rng.random()
    if u < 0.15:
        # files left over from an earlier study
        for f in [spec["obj"]] + spec["cons"]:
            if rng.random() < 0.7:
                st["files"][f["train"]] = studies.text_rows([[0.25] * spec["dim"] + [1.5]] * rng.randrange(1, 70), "%.6f")
    if rng.random() < 0.3:
        inc["faults"] = [[rng.randrange(2, 200), rng.choice(["short", "eintr", "clock"]), rng.choice([1, 5, 50])] for _ in range(3)]
        inc["faults"] = [list(x) for x in {f[0]: f for f in inc["faults"]}.values()]
    hs = []
    if not full and rng.random() < 0.15:
        total = spec["ndoe"] * (1 + len(spec["cons"]))
        inc["evfaults"] = [[rng.randrange(total), rng.choice(["throw", "nan", "inf"]), 0]]
    elif not full and rng.random() < 0.15:
        inc["faults"] = [[rng.randrange(1, 4 * spec["ndoe"]), "crash", rng.randrange(200)]]
    grow(st, S, inc, hs)
    return [(st, hs)]


# ---------------------------------------------------------------- log files
def c09(rng, S, tier, i):
    st = {"judge": "log", "spec": {}, "files": {}, "incs": [], "variant": "inst" if i % 2 else "plain"}
    hs = []
    plan = {"scenario": "log", "dim": 1, "threads": rng.choice([1, 2, 2, 3, 4, 8]), "messages": rng.choice([1, 3, 8, 20]), "maxlen": rng.choice([1, 20, 200, 5000]), "psync": rng.choice([0.05, 0.3, 0.8]), "snaplogs": 1, "cpus": rng.choice([1, 2, 4])}
    if st["variant"] == "inst":
        plan["pmem"] = rng.choice([0.001, 0.01, 0.05])
    for k in range(rng.choice([1, 1, 2, 3])):
        p = dict(plan, inc=k, logger=rng.choice([0, 1, 2, 3, 4, 4, 4]), first=rng.choice([0, 0, 1]))
        inc = {"seed": rng.getrandbits(48), "plan": p, "evals": []}
        u = rng.random()
        if u < 0.25:
            inc["faults"] = [list(x) for x in {f[0]: f for f in [[rng.randrange(40), rng.choice(["short", "eintr", "clock"]), rng.choice([1, 10, 50])] for _ in range(6)]}.values()]
        elif u < 0.4:
            inc["faults"] = [[rng.randrange(60), rng.choice(["crash", "crash_after"]), rng.choice([0, 3, 40])]]
        grow(st, S, inc, hs)
    return [(st, hs)]


# ---------------------------------------------------------------- configuration files
def c19(rng, S, tier, i):
    import random as R
    u = rng.random()
    ren = {"as": {"C10": ["C19"], "C11": ["C19"], "C12": ["C19"], "C01": ["C19"], "C05": ["C19"], "C03": ["C19"]}}
    spec, files = studies.gen_driver(rng, N=rng.choice([1, 2, 3]), iters=rng.choice([200, 300]), inner=rng.choice([1, 7, 40, 40, 111] if rng.random() < 0.95 else [1200, 2500]), threads=rng.choice([None, None, 1, 2, 3, 4, 6] if rng.random() < 0.95 else [8, 9, 10]), ncons=rng.choice([0, 1, 2, 3]), pdisc=0.5, punterm=0, plong=0)
    studies.rename(rng, spec, files)
    if u < 0.55:
        if rng.random() < 0.5:
            for e in [spec["obj"]] + spec["cons"]:
                e["iters"] = rng.choice([100, 200, 250, 600])
        for e in spec["cons"]:
            if rng.random() < 0.3:
                # as many as the objective function's
                e["noiters"] = True
                e["iters"] = spec["obj"].get("iters", spec["iters"])
        files["config.xml"] = studies.config_text(spec, R.Random(rng.getrandbits(32)))
        st = new_study(spec, files, plainconfig=False, **ren)
        hs = []
        inc = studies.driver_inc(rng, spec, models=rng.choice([0, 1]))
        if rng.random() < 0.2:
            benign(rng, S, st, inc)
        grow(st, S, inc, hs)
        return [(st, hs)]
    text, what = studies.broken_config(rng, spec)
    files["config.xml"] = text
    st = new_study(spec, files, plainconfig=False, judge="config", what=what)
    inc = studies.driver_inc(rng, spec)
    if what == "no file":
        del files["config.xml"]
    if what == "no argument":
        inc["plan"]["config"] = "-"
    hs = []
    grow(st, S, inc, hs)
    return [(st, hs)]


# ---------------------------------------------------------------- set-up through the API
def c20(rng, S, tier, i):
    spec, files = studies.gen_api(rng, dim=rng.choice([1, 1, 2, 3]), ncons=rng.choice([0, 1, 1, 2, 3]), N=rng.choice([1, 1, 2]), ndoe=rng.choice([4, 5, 8]))
    ren = {p: ["C20"] for p in ("C01", "C03", "C05", "C10", "C11", "C12", "C14")}
    st = new_study(spec, files, judge="setup", valid=True, what="", **{"as": ren})
    inc = studies.api_inc(rng, spec)
    p = inc["plan"]
    if rng.random() < 0.5:
        p["name"] = rng.choice(["x", "my study", "a/b", "S1"])
    calls = ["dim"] + (["name"] if "name" in p else []) + ["cwd", "obj"] + ["con%d" % k for k in range(len(spec["cons"]))] + ["box", "doe"] + (["strategy"] if "doetype" in p else []) + ["neval"]
    if rng.random() < 0.25:
        # another file for the training data; a name given with the function comes later or earlier
        p["trainfile"] = rng.choice(["named.csv", "f.dat", "obj_train.csv"])
        calls.insert(rng.randrange(len(calls) + 1), "train")
    u = rng.random()
    if u < 0.35:
        # calls that do not depend on others come anywhere
        free = [c for c in calls if c in ("name", "cwd", "doe", "strategy", "neval")]
        rest = [c for c in calls if c not in free]
        for c in free:
            rest.insert(rng.randrange(len(rest) + 1), c)
        calls = rest
        if rng.random() < 0.3:
            # spaces in the expression of a constraint
            for k, c in enumerate(spec["cons"]):
                p["con%d" % k] = rng.choice(["%s  %s  %s", " %s %s %s ", "%s   %s %s"]) % (c["name"], c["type"], studies.fnum(c["limit"]))
        if rng.random() < 0.3:
            dup = rng.choice(["cwd", "doe", "neval", "box", "dim"])
            if dup == "dim":
                calls.insert(calls.index("dim"), "dim")
            else:
                calls.insert(calls.index(dup) + 1, dup)
        st["what"] = "calls in the order " + ",".join(calls)
    elif u < 0.5:
        rng.shuffle(calls)
        # constraints keep their order among themselves
        cs = iter(sorted(c for c in calls if c.startswith("con")))
        calls = [next(cs) if c.startswith("con") else c for c in calls]
        if rng.random() < 0.25:
            p["setdim2"] = spec["dim"] + rng.choice([-1, 1, 2])
            calls.insert(rng.choice([len(calls), max(calls.index("dim"), calls.index("obj"), calls.index("box")) + 1]), "dim2")
        st["valid"] = None
        st["what"] = "calls in the order " + ",".join(calls)
    else:
        st["valid"] = False
        st["what"] = api_defect(rng, spec, p, calls)
        if rng.random() < 0.5:
            # a study was carried out here before
            for e in [spec["obj"]] + spec["cons"]:
                st["files"][e["train"]] = studies.text_rows([x + [studies.evalfn(e, x)] for x in studies.gen_rows(rng, spec["lb"], spec["ub"], spec["inc"], 9)], "%.8f")
    if "train" in calls and "obj" in calls and p["trainfile"] and calls.index("train") > calls.index("obj"):
        spec["obj"]["train"] = p["trainfile"]
    p["calls"] = ";".join(calls)
    if st["valid"] is not False and rng.random() < 0.7:
        p["stopattrain"] = 1
    hs = []
    grow(st, S, inc, hs)
    return [(st, hs)]


def junk(rng):
    return "".join(rng.choice("abcxyz#;,!?/*&|~()[]{}=<>+-_'@$") for _ in range(rng.choice([1, 1, 2, 4])))


def api_defect(rng, spec, p, calls):
    kinds = ["missing", "missing", "missing", "box", "box", "nanbox", "null", "noname", "strategy", "cwd", "dim0", "evals0", "doe0", "trainname"]
    if spec["cons"]:
        kinds += ["expression"] * 4 + ["confile"]
    k = rng.choice(kinds)
    j = rng.randrange(spec["dim"])
    lb, ub = list(spec["lb"]), list(spec["ub"])

    def box():
        p["lb"], p["ub"] = ",".join(v if isinstance(v, str) else studies.fnum(v) for v in lb), ",".join(v if isinstance(v, str) else studies.fnum(v) for v in ub)
    if k == "missing":
        c = rng.choice(["dim", "cwd", "obj", "box", "neval"])
        calls.remove(c)
        return "no call of " + c
    if k == "box":
        lb[j], ub[j] = ub[j], rng.choice([lb[j], ub[j]])
        box()
        return "bounds %r, %r" % (lb[j], ub[j])
    if k == "nanbox":
        if rng.random() < 0.5:
            lb[j] = rng.choice(["nan", "-inf", "inf"])
        else:
            ub[j] = rng.choice(["nan", "inf", "-inf"])
        box()
        return "bounds %s, %s" % (lb[j], ub[j])
    if k == "null":
        p["nullobj"] = 1
        return "no function"
    if k == "noname":
        p[rng.choice(["objname", "objfile"])] = ""
        return "empty name"
    if k == "strategy":
        p["doetype"] = rng.choice(["sobol", "", "LHS ", "grid"])
        if "strategy" not in calls:
            calls.insert(-1, "strategy")
        return "strategy %r" % p["doetype"]
    if k == "cwd":
        p["cwd"] = rng.choice(["", "nowhere", "./a/b/c"])
        return "directory %r" % p["cwd"]
    if k == "dim0":
        p["setdim"] = 0
        return "dimension 0"
    if k == "evals0":
        p["neval"] = 0
        return "no evaluations"
    if k == "doe0":
        p["ndoe"] = 0
        return "no samples"
    if k == "trainname":
        p["trainfile"] = ""
        calls.insert(calls.index("obj") + 1, "train")
        return "empty name of the training data file"
    c = rng.randrange(len(spec["cons"]))
    if k == "confile":
        p["confile%d" % c] = ""
        return "empty name of a constraint's file"
    p["con%d" % c] = rng.choice(["c < 5 %s" % junk(rng), "c > %s 5" % junk(rng), "c < 5%s" % rng.choice("abc#;%,!"), "c %s 5" % rng.choice(["=", "==", "<=", ">=", "<<", "><", "!", "|", "-", "to", "lt"]), "", " ", "c", "c <", "c = 3", "c <= 3", "c >= 0", "3 < c", "c < abc", "c < 1.5x", "c < 1 2", "c<1", "< 1", "c < nan", "c =< 3", "c < "])
    return "constraint %r" % p["con%d" % c]


# ---------------------------------------------------------------- studies next to and after each other
BYSTANDERS = ["notes.txt", "f.csv.bak", "old/f.csv", "optimizationHistory.csv.old", "g0.csv~", "f.dv.txt", "sub/optimizationHistory.csv", "sub/globalOptimalDesign.xml", "globalOptimalDesign.xml.1", "g1.out.old", "objcsv", "obj.csv.1", "xf.csv", "population.csv", "data.csv", "design.csv", "warm.csv"]


def c21(rng, S, tier, i):
    ren = {p: ["C21"] for p in ("C01", "C02", "C03", "C04", "C05", "C10", "C11", "C12", "C14", "C19")}
    names = list(BYSTANDERS)
    for b in ("optimizationHistory.csv", "globalOptimalDesign.xml", "f.csv", "f.dv", "f.out", "g0.csv", "obj.csv", "c0.csv", "config.xml"):
        s, e = b.rsplit(".", 1)
        names += [b + x for x in (".old", ".bak", "~", ".1", ".orig", ".new", ".backup", ".save", ".prev", "_old")] + [s + x + "." + e for x in ("_old", "_backup", "_bak", ".old", ".bak", "_tmp", "_new", "1")] + [s, s + ".bak", s + ".txt", s + ".old"]
    by = {n: rng.choice(["", "x\n", "1,2,3\n4,5,6\n", "\x00\x01", "<a>\n"]) for n in rng.sample(names, rng.randrange(3, 30))}
    if i % 2 == 0:
        # a study of the command-line program among files of others
        spec, files = studies.gen_driver(rng, N=rng.choice([1, 2]), inner=40, iters=200)
        used = set(files) | {e[k] for e in [spec["obj"]] + spec["cons"] for k in ("dv", "out", "train")}
        files.update({n: c for n, c in by.items() if n not in used})
        st = new_study(spec, files)
        inc = studies.driver_inc(rng, spec)
        hs = []
        u = rng.random()
        if u < 0.3:
            inc["evfaults"] = [evfault(rng, rng.randrange(spec["N"] * (1 + len(spec["cons"]))))]
        elif u < 0.6:
            d = dry(st, S, inc)
            w = [o for o in d.ops if o["c"] in WRITERS] if d.end == "exit" else []
            if w:
                o = rng.choice(w)
                inc["faults"] = [crash_points(rng, d.ops)] if rng.random() < 0.5 else [[o["n"], "full", 0]] if o["c"] == "write" else [[o["n"], "eio", 0]]
        grow(st, S, inc, hs)
        if rng.random() < 0.5:
            grow(st, S, studies.driver_inc(rng, spec), hs)
        return [(st, hs)]
    # several studies in one process, in directories of their own or in the same
    n = rng.choice([2, 2, 3])
    same = rng.random() < 0.35
    parts, plan, evals, files = [], None, [], {}
    spec = None
    for j in range(n):
        if not (same and spec):
            spec, _ = studies.gen_api(rng, dim=rng.choice([1, 2, 3]), ncons=rng.choice([0, 1]) if n == 3 else rng.choice([0, 1, 2]), N=rng.choice([1, 1, 2]), ndoe=rng.choice([4, 6, 9]))
            base = len(evals)
            for e in [spec["obj"]] + spec["cons"]:
                e["exe"] = "f%d" % len(evals)
                evals.append(e)
        d = "" if same else rng.choice(["a%d", "b%d/c", "long_name_%d"]) % j
        kw = {"cwd": "@" if same else "@/" + d, "base": base}
        if same and j:
            kw["ndoe"] = 0
            kw["neval"] = rng.choice([1, 2])
        elif not same and rng.random() < 0.3:
            # continues with data that is there
            kw["ndoe"] = 0
            xs = [[float("%.10f" % v) for v in x] for x in studies.gen_rows(rng, spec["lb"], spec["ub"], spec["inc"], 7)]
            for e in [spec["obj"]] + spec["cons"]:
                files[d + "/" + e["train"]] = studies.text_rows([x + [studies.evalfn(e, x)] for x in xs], "%.10f")
        if not same:
            files[d + "/keep.txt"] = "keep\n"
        p = studies.api_inc(rng, spec, **kw)["plan"]
        if plan is None:
            plan = dict(p, studies=n)
        else:
            plan.update({"s%d.%s" % (j, k): v for k, v in p.items() if k not in ("scenario", "psync", "cpus")})
        parts.append({"spec": spec, "dir": d})
    files.update({("a0/" if not same else "") + k: v for k, v in by.items() if "/" not in k and k not in ("obj.csv", "c0.csv")})
    st = {"judge": "multi", "spec": {}, "files": files, "incs": [], "variant": "plain", "parts": [parts], "as": ren}
    inc = {"seed": rng.getrandbits(48), "plan": plan, "evals": [{k: e[k] for k in ("exe", "dv", "out", "fn", "c", "shift", "fmt")} for e in evals]}
    if rng.random() < 0.3:
        inc["evfaults"] = [[rng.randrange(12), rng.choice(["throw", "nan", "inf"]), 0]]
    hs = []
    grow(st, S, inc, hs)
    return [(st, hs)]


CAMPAIGNS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23}
MIX = "Random studies: 1-4 parameters (boxes of several kinds, some discrete), 0-3 constraints (external and built-in), initial data in several formats, evaluators of 8 function families, 1-4 threads. "
CONF = {
    "C01": {"tech": 'seeded studies with stale output files, failing evaluators and restarts; recorded values against a reference log of what each evaluator was asked and answered', "lnote": "Every recorded row, history line and optimum of the explored runs is traced to an evaluation the simulated evaluator served. Sampled, not exhaustive; trusts the simulator's file and process layer.",
            "quick": 1400, "thorough": 40000, "rule": MIX + "Output files of earlier runs lie around, programs share design files, evaluators fail without writing, studies are crashed and restarted. A run counts when its event log is distinct."},
    "C02": {"tech": 'one evaluator failure or launch failure per study, at a random evaluation and of a random kind; files before and after compared', "lnote": 'Each explored run injects one failure and compares exit status and files. All 14 kinds and all positions are covered by sampling; trusts the simulated evaluators to fail as real programs do.',
            "quick": 1100, "thorough": 30000, "rule": MIX + "In each study one evaluation (of the objective or a constraint, at a random position, also inside the initial design of experiments of the API) fails in one of 14 ways or its program cannot be started.", "level": "fault_enumeration"},
    "C03": {"tech": 'crash at a chosen file or process operation, torn writes, repeated restart; training files against the log of completed evaluations', "lnote": 'Every explored run dies at one operation of a fault-free run of the same seed. A crash means the process dies and the kernel keeps what was written; loss of unsynced pages (power failure) is not simulated.',
            "quick": 700, "thorough": 20000, "rule": MIX + "The process dies at one randomly chosen operation (all file and process operations of a fault-free run of the same seed are candidates; writes may be torn), is restarted, and dies again up to three times.", "level": "fault_enumeration"},
    "C04": {"tech": 'crash and restart, and damaged training files; what a restarted study uses against what was recorded', "lnote": 'Restarted studies must use exactly the recorded rows or refuse. Crash points and damages are sampled.',
            "quick": 700, "thorough": 20000, "rule": MIX + "As C03; in 40% of the restarts a training file has additionally been cut, emptied, fused, blanked or damaged.", "level": "fault_enumeration"},
    "C05": {"tech": 'crash at operations around the history and optimum files; files compared with a reference model before every iteration and after every ending', "lnote": 'Files are compared with the reference at every evaluation and at every ending of the explored runs.',
            "quick": 700, "thorough": 20000, "rule": MIX + "As C03, with crash points concentrated on the history and optimum files; all files are compared with the evaluations before every iteration and at the end.", "level": "fault_enumeration"},
    "C06": {"tech": "seeded schedules of the parallel candidate search, every candidate's acquisition value observed", "lnote": 'For each explored schedule the selected design is compared with all candidates seen by the observation points; without them (code changed so that they no longer compile) only the evaluated design is checked.',
            "quick": 900, "thorough": 20000, "variants": ["plain", "inst"], "rule": MIX + "2-8 threads, preempted at random points (one third of the studies at every memory access); every candidate's acquisition value is observed."},
    "C10": {"tech": 'seeded random streams, schedules and restarts over random boxes and grids; every evaluator call checked', "lnote": 'Every design of every explored run is checked against box and grid.',
            "quick": 1500, "thorough": 40000, "rule": MIX + "70% of the studies have discrete parameters; up to 6 parameters, 10-80 candidates per search."},
    "C11": {"tech": 'seeded studies with benign disturbances (short transfers, clock jumps, slow evaluators); evaluator calls counted, bounded steps', "lnote": 'Every explored study must spend its budget exactly, in order, within a step and CPU limit.',
            "quick": 1300, "thorough": 40000, "rule": MIX + "Budgets of 1-8 evaluations, constant, stepwise and hash-like objectives, 1-40 candidates; short transfers, clock jumps and slow evaluators."},
    "C12": {"tech": 'seeded studies and restarts with ties, infeasible samples and many constraints; optimum after every iteration against a reference model', "lnote": 'The optimum report is compared with a reference selection over the whole history before every evaluation and at the end.',
            "quick": 1300, "thorough": 40000, "rule": MIX + "Ties, infeasible and out-of-box initial samples, many constraints, up to three consecutive starts on the same directory."},
    "C13": {"tech": "seeded random streams over operation sequences of the evolutionary optimiser; population and solution after every operation against the log of all evaluated and loaded individuals", "lnote": "After every operation of the explored histories the whole population and the reported solution are compared with the log of objective calls. Random streams and operation sequences are sampled.",
            "quick": 6000, "thorough": 90000, "rule": "Random operation sequences (new, initialise, generations, optimise, write, read, warm start, reset) with 1-5 genes, populations of 2-40, all ratios of births to deaths, budgets of 1-200, 8 objective families including constant and stepwise ones. A run counts when its event log is distinct.", "stub": "random_device, clocks; the objective function is the simulator's", "real": "EAOptimizer, EAPopulation, EAIndividual and what they use"},
    "C16": {"tech": "crash, disk-full and I/O errors while a population is written, damaged and cut files when it is read; contents against the population in memory", "lnote": "Every explored file written, damaged or torn is read back by the real code and judged by an independent parser. Damage and fault points are sampled.",
            "quick": 6000, "thorough": 90000, "rule": "As C13, with a crash (torn writes), a full disk, an I/O error or an edit of the warm-start file between writing and reading, in several consecutive processes.", "level": "fault_enumeration", "stub": "random_device, clocks, failing file operations; the objective function is the simulator's", "real": "EAOptimizer, EAPopulation, EAIndividual and what they use"},
    "C07": {"tech": "seeded preemption at every memory access and synchronisation point of the parallel sections, with a vector-clock race detector", "lnote": "Races are those the detector sees on the explored schedules between accesses of RoDeO's own code (libstdc++ and OpenBLAS are seen at their call boundaries only); sequential consistency is assumed. Deadlock, abnormal ends and lack of progress are seen on the explored schedules.",
            "quick": 260, "thorough": 9000, "variants": ["inst"], "rule": MIX + "2-8 threads (and 1-16 simulated processors), all code instrumented, preemption probability 0.05-5% per memory access; model training with 2-4 threads. A run counts when its event log is distinct."},
    "C08": {"tech": "seeded schedules and random streams of parallel model training, every candidate's likelihood (or error on held-out samples, themselves a random draw) observed", "lnote": "On the explored schedules the trained model is compared with all candidates any thread examined; the observation point must compile, otherwise only bounds, data and predictions are checked.",
            "quick": 420, "thorough": 14000, "variants": ["plain", "inst"], "rule": "Models of 1-2 parameters, 4-9 samples of 7 function families (constant ones included), 1-8 threads, 1-2000 iterations, up to four trainings in a row with samples added between; a quarter instrumented at every memory access.", "real": "KrigingModel and everything it uses"},
    "C09": {"tech": "seeded schedules of threads writing to the four logs, with short writes, crashes and restarts; log files against the messages handed over", "lnote": "Messages of the explored schedules are matched with the files byte by byte. After a crash only completed messages are demanded, and only as far as the operating system had them.",
            "quick": 2500, "thorough": 20000, "variants": ["plain", "inst"], "rule": "1-8 threads, 1-20 messages each of 1-5000 characters to one or all of the driver, optimisation, model and objective logs, with preemption at every lock and (half of the runs) every memory access, one to three consecutive processes on the same files.", "real": "the four logger classes", "stub": "thread scheduling, clocks, failing file operations"},
    "C14": {"tech": "seeded random streams over designs of experiments through the API, with left-over files, benign disturbances, evaluator failures and crashes; evaluator calls and files against the request", "lnote": "Every explored design of experiments is checked completely; most runs end when the first model is trained.",
            "quick": 2800, "thorough": 50000, "rule": "1-6 parameters, 0-3 constraints, 3-60 samples, LHS, random or default strategy, boxes of several kinds; one in 24 goes on with the optimisation."},
    "C19": {"tech": "random configuration layouts and broken configurations run as complete simulated studies; which programs, files, bounds and limits are used against the specification", "lnote": "Layouts and defects are sampled from a grammar of what the configuration reader documents; only the behaviour of the complete program is judged.",
            "quick": 2400, "thorough": 35000, "rule": MIX + "Items and sections in random order, indentation, blank lines, spaces, other spellings of the types, relative paths and file names; 45% of the configurations lack a required item or contradict themselves."},
    "C15": {"tech": "disk and I/O faults and crashes while samples are added; the model in use against a model the real code builds afresh from the file after every operation", "lnote": "After every operation of the explored histories six predictions and variances of both models are compared (relative tolerance 1e-5). The fresh model runs the same code, so a defect that affects both alike is not seen here.",
            "quick": 4000, "thorough": 30000, "rule": "Random sequences of opening, adding (near-duplicates included), setting hyper-parameters, training and reloading a model of 1-3 parameters; half of the runs with a full disk, an I/O error or a crash (torn write) while the training file is written, followed by a second process.", "level": "fault_enumeration", "real": "KrigingModel and everything it uses"},
    "C17": {"tech": "crash, disk-full and I/O errors while hyper-parameters are saved, damaged files when they are loaded", "lnote": "Every explored file is loaded by the real code and judged by an independent parser. Damage and fault points are sampled.",
            "quick": 3500, "thorough": 30000, "rule": "Hyper-parameters set or trained, saved, damaged in one of eight ways or by a fault while saving, and loaded by a second and third process, directly or as a warm start.", "level": "fault_enumeration", "real": "KrigingModel and everything it uses"},
    "C23": {"tech": "seeded model tests over random training and test tables, with damaged tables, full disks, I/O errors and crashes while the result is written; every number of the result table recomputed", "lnote": "Estimates of a linear model are recomputed by an independent least-squares solution; those of a Kriging model, and their variances, by an independent predictor with the hyper-parameters found (where rounding does not decide) and by a model the real code builds afresh.",
            "quick": 2500, "thorough": 30000, "rule": "Linear, ordinary and universal Kriging models of 1-3 parameters, test tables with and without function values, several tests in a row with other models, tables and settings in one process and in a second one, with held-out validation samples in a third of them; damaged or missing tables in 15%, faults while the result table is written in 25%.", "level": "fault_enumeration", "real": "SurrogateModelTester, the surrogate models and everything they use"},
    "C18": {"tech": 'disk-full, I/O error, descriptor, process and allocation failure at one operation per study, then restart', "lnote": 'Each explored run fails one operation or allocation, chosen from those of a fault-free run; the study must end with an error, or be unaffected and complete.',
            "quick": 900, "thorough": 25000, "rule": MIX + "In each study one resource fails: the disk becomes full at a random write, an operation on a file fails, a file or process cannot be opened or started, or one memory allocation fails; then the study is started again without the failure.", "level": "fault_enumeration"},
    "C20": {"tech": "seeded simulated API studies whose set-up calls come in random orders, with repeated, missing or defective calls", "lnote": "Orders and defects are sampled; an order that the program does not support may be refused, but not run with something else.",
            "quick": 2400, "thorough": 40000, "rule": "1-3 parameters, 0-3 constraints, designs of experiments of 4-8 samples; a third of the set-ups in another order of the independent calls or with repeated calls, a seventh in any order, half with one of 14 kinds of defects."},
    "C22": {"tech": "seeded simulated studies with crashes and restarts; the acquisition values of candidates recomputed from the predictions of the models in use and the reference history", "lnote": "Up to 9 candidates of every explored search are recomputed with an independent formula; models are compared with rebuilt ones under C15.",
            "quick": 700, "thorough": 20000, "rule": MIX + "Command-line and API studies with 0-3 constraints, with or without feasible designs so far, several starts, a quarter with a crash before.", "real": "all of /repo/src; members of the optimizer are read at an observation point"},
    "C21": {"tech": "several simulated studies in one process and bystander files, with failing evaluators, crashes, full disks and I/O errors; each study judged as if it were alone, all other files compared", "lnote": "Files are compared before and after every start; studies of the explored sequences are judged by the complete study oracle.",
            "quick": 900, "thorough": 25000, "rule": MIX + "Half of the trials: two or three API studies one after the other in one process, in directories of their own or in the same one, failing evaluators in one of them. The other half: a study of the command-line program among 1-5 files with similar names, with failures, crashes and restarts."},
}
