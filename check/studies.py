"""Random studies: configurations, initial data, evaluators."""
import math, random, struct


def evalfn(e, x):
    """Same functions as the simulated evaluators (used to make initial data; never as an oracle)."""
    c, d, fn = e.get("c", []), len(x), e["fn"]
    C = lambda i, dflt: c[i] if i < len(c) else dflt
    v = 0.0
    if fn == "quad":
        v = sum((x[i] - C(i + 1, 0)) ** 2 for i in range(d)) * C(0, 1)
    elif fn == "lin":
        v = C(0, 0) + sum(C(i + 1, 1) * x[i] for i in range(d))
    elif fn == "osc":
        v = sum(math.sin(C(i + 1, 2.0) * x[i] + i) + 0.05 * x[i] for i in range(d)) * C(0, 1)
    elif fn == "rosen":
        v = (1 - x[0]) ** 2 if d == 1 else 0.0
        for i in range(d - 1):
            a, b = x[i + 1] - x[i] * x[i], 1 - x[i]
            v += C(0, 100) * a * a + b * b
    elif fn == "abs":
        v = sum(abs(x[i] - C(i + 1, 0.3)) for i in range(d)) * C(0, 1)
    elif fn == "step":
        v = sum(math.floor(C(i + 1, 1.0) * x[i]) for i in range(d))
    elif fn == "const":
        v = C(0, 1)
    elif fn == "hash":
        h, M = 1469598103934665603, (1 << 64) - 1
        for xi in x:
            u = struct.unpack("<Q", struct.pack("<d", xi))[0]
            h = ((h ^ u) * 1099511628211) & M
            h ^= h >> 29
        v = C(0, 1) * (h % 1000003) / 1000003.0 + C(1, 0)
    return v + e.get("shift", 0)


def r6(v):
    """A value with at most 6 decimals, as people write bounds."""
    return float("%.6g" % v) if abs(v) < 1e6 else float(round(v))


def gen_bounds(rng, dim):
    lb, ub = [], []
    style = rng.choice(["unit", "sym", "mixed", "large", "offset", "small", "mixed", "digits"])
    for _ in range(dim):
        s = style if style != "mixed" else rng.choice(["unit", "sym", "large", "offset", "neg", "small"])
        if s == "unit":
            a, b = 0.0, 1.0
        elif s == "sym":
            w = rng.choice([1, 2, 5, 10])
            a, b = -w, w
        elif s == "large":
            a = rng.choice([0, -1000, 1000, 12345])
            b = a + rng.choice([500, 2000, 100000])
        elif s == "offset":
            a = rng.choice([99.5, -20.25, 7.125])
            b = a + rng.choice([1, 0.5, 3])
        elif s == "digits":
            a = rng.uniform(-3, 3)
            b = a + rng.uniform(0.2, 5)
        elif s == "neg":
            b = -rng.choice([0.5, 3, 40])
            a = b - rng.choice([1, 7, 25])
        else:
            a = rng.choice([0, 0.001, -0.002])
            b = a + rng.choice([0.01, 0.05, 0.4])
        lb.append(a if s == "digits" else r6(float(a)))
        ub.append(b if s == "digits" else r6(float(b)))
    return lb, ub


def gen_fn(rng, lb, ub, kind=None):
    dim = len(lb)
    kind = kind or rng.choice(["quad", "quad", "quad", "lin", "osc", "abs", "hash", "rosen", "step", "const"] if rng.random() < 0.5 else ["quad", "lin", "osc", "abs"])
    width = max(u - l for l, u in zip(lb, ub))
    scale = rng.choice([1.0, 1.0, 100.0, 0.01])
    small = rng.random() < 0.06      # values in the units of something very small
    if small:
        scale = rng.choice([1e-7, 1e-9, 3e-14])
    inside = lambda: [l + (u - l) * (rng.random() * 1.4 - 0.2) for l, u in zip(lb, ub)]
    if kind == "quad":
        c = [scale / max(width, 1e-3) ** 2 if rng.random() < 0.5 else scale] + inside()
    elif kind == "lin":
        c = [rng.uniform(-1, 1)] + [rng.uniform(-2, 2) / max(u - l, 1e-3) for l, u in zip(lb, ub)]
    elif kind == "osc":
        c = [scale] + [rng.uniform(1, 9) / max(u - l, 1e-3) for l, u in zip(lb, ub)]
    elif kind == "abs":
        c = [scale] + inside()
    elif kind == "step":
        c = [1.0] + [rng.uniform(1, 4) / max(u - l, 1e-3) for l, u in zip(lb, ub)]
    elif kind == "const":
        c = [rng.uniform(-5, 5)]
    elif kind == "rosen":
        c = [rng.choice([1.0, 100.0])]
    else:
        c = [scale, rng.uniform(-1, 1)]
    return {"fn": kind, "c": c, "shift": 0 if small else rng.choice([0, 0, 0, 12.5, -300.0]), "fmt": rng.choice([0, 0, 0, 1, 2, 3, 4])}


PNAMES = ["a", "b", "thickness", "x1", "alpha_2", "P", "w0", "radius", "x10", "A", "thickness_2", "span.root"]
CNAMES = ["g", "mass", "lift", "c1", "stress", "h_2", "c10", "mass_2", "G", "lift-drag"]


def gen_rows(rng, lb, ub, inc, n, outside=0.0):
    dim = len(lb)
    xs = []
    perm = [rng.sample(range(n), n) for _ in range(dim)]
    for k in range(n):
        x = []
        for j in range(dim):
            u = (perm[j][k] + rng.random()) / n
            v = lb[j] + u * (ub[j] - lb[j])
            if inc[j]:
                v = lb[j] + inc[j] * round((v - lb[j]) / inc[j])
                if v > ub[j]:
                    v -= inc[j]
            x.append(v)
        if rng.random() < outside:
            j = rng.randrange(dim)
            d = (ub[j] - lb[j]) * rng.choice([1e-4, 1e-3, 0.005, 0.02, 0.2, 0.2])
            x[j] = ub[j] + d if rng.random() < 0.5 else lb[j] - d
        xs.append(x)
    return xs


FMTS = ["%.12f", "%.12f", "%.12f", "%.6f", "%.10e", "%.17g"]


def text_rows(rows, fmt):
    return "".join(",".join(fmt % v for v in r) + "\n" for r in rows)


def gen_driver(rng, **o):
    """A study for the command-line program. Options override parts of the choice."""
    dim = o.get("dim") or rng.choice([1, 2, 2, 2, 2, 3, 3, 4] if rng.random() < 0.96 else [5, 6, 8])
    ncons = o.get("ncons", rng.choice([0, 0, 1, 1, 1, 2, 2, 3] if rng.random() < 0.96 else [4, 5, 6]))
    lb, ub = gen_bounds(rng, dim)
    inc = [None] * dim
    if rng.random() < o.get("pdisc", 0.25):
        for j in range(dim):
            if rng.random() < 0.6:
                u = rng.random()
                if u < 0.4:
                    inc[j] = r6((ub[j] - lb[j]) / rng.choice([2, 4, 5, 8, 10, 16]))
                elif u < 0.7:    # the upper bound is not on the grid
                    inc[j] = r6((ub[j] - lb[j]) / rng.choice([1.7, 2.5, 3.3, 5.9, rng.uniform(1.05, 12)]))
                else:            # decimal steps, whose multiples are inexact in binary
                    inc[j] = r6(rng.choice([1, 1, 2, 3, 5, 7, 1.1]) * 10.0 ** (math.floor(math.log10(ub[j] - lb[j])) - 1))
                    ub[j] = r6(lb[j] + inc[j] * rng.choice([2, 3, 5, 6, 7, 9, 12]))
    names = rng.sample(PNAMES, dim)
    N = o.get("N") or rng.choice([1, 2, 2, 3, 3, 4])
    o = dict(o)
    if rng.random() < o.get("plong", 0.08):    # many cheap iterations
        N = rng.choice([7, 9, 12, 12, 17, 24, 33])
        o.update(iters=20, inner=rng.choice([6, 10]))
    iters = o.get("iters") or rng.choice([200, 300, 500])
    shared = rng.random() < o.get("pshared", 0.15)   # all programs use the same design file
    obj = gen_fn(rng, lb, ub, o.get("objfn"))
    obj.update(name=rng.choice(["f", "drag", "objective_1"]), exe="fexe", dv="f.dv", out="f.out", train="f.csv", model=rng.choice(["kriging", "kriging", "ordinary_kriging", "universal_kriging", None]))
    cons = []
    probe = gen_rows(rng, lb, ub, [None] * dim, 40)
    cn = rng.sample(CNAMES, ncons)
    for i in range(ncons):
        e = gen_fn(rng, lb, ub, o.get("confn"))
        q = sorted(evalfn(e, x) for x in probe)
        lim = q[min(39, int(rng.choice([0.1, 0.3, 0.5, 0.5, 0.8, 0.95]) * 40))]
        if rng.random() < 0.1:
            lim = q[0] - 1 if rng.random() < 0.5 else q[-1] + 1
        typ = rng.choice("<>")
        e.update(name=cn[i], exe="g%dexe" % i, dv="f.dv" if shared else "g%d.dv" % i, out="g%d.out" % i, train="g%d.csv" % i, type=typ, limit=float("%.6g" % lim), model=rng.choice(["kriging", "kriging", "universal_kriging", None]), udf=False)
        if o.get("udf", 0.08) > rng.random() and dim >= 2 and i < 2:
            e["udf"] = True
        cons.append(e)
    n0 = o.get("n0") or rng.choice([dim + 2, 5 + dim, 8, 10] if rng.random() < 0.92 else [20, 35, 60])
    n0 = max(n0, dim + 2)
    fmt = rng.choice(FMTS)
    xs = gen_rows(rng, lb, ub, inc, n0, outside=0.3 if rng.random() < 0.1 else 0.0)
    # what the file says is what everybody works with
    xs = [[float(fmt % v) for v in x] for x in xs]
    files = {"f.csv": text_rows([x + [evalfn(obj, x)] for x in xs], fmt)}
    for i, c in enumerate(cons):
        if c["udf"]:
            continue
        cx = list(xs)
        u = rng.random()
        if u < 0.12 and len(cx) > dim + 2:
            cx = [x for k, x in enumerate(cx) if k % 4 != 1 or rng.random() < 0.5]
        elif u < 0.3:
            rng.shuffle(cx)
        elif u < 0.36:
            cx = cx + gen_rows(rng, lb, ub, inc, dim + 1)
        files[c["train"]] = text_rows([x + [evalfn(c, x)] for x in cx], fmt)
    if rng.random() < o.get("punterm", 0.08):
        f = rng.choice(sorted(files))
        files[f] = files[f].rstrip("\n")
    # output files left over from something else
    if rng.random() < o.get("pstale", 0.3):
        for e in [obj] + cons:
            if rng.random() < 0.7:
                files[e["out"]] = rng.choice(["-77777.5\n", "0.125\n", "1e5\n"])
    for c in cons:
        if not c["udf"] and rng.random() < o.get("pequal", 0.12):
            # the limit is the value some recorded design has
            v = files[c["train"]].split("\n")[0].split(",")[-1]
            if abs(float(v)) > 1e-3 or float(v) == 0:
                c["limit"] = float(v)
    spec = {"dim": dim, "names": names, "lb": lb, "ub": ub, "inc": inc, "N": N, "inner": o.get("inner") or rng.choice([40, 80, 150, 300] if rng.random() < 0.985 else [1500]), "threads": o.get("threads") or rng.choice([None, 1, 2, 2, 3, 4] if rng.random() < 0.96 else [6, 8, 10]), "iters": iters,
            "obj": obj, "cons": cons, "shared": shared}
    files["config.xml"] = config_text(spec)
    return spec, files


def tag(n, v):
    return "<%s>%s</%s>" % (n, v, n)


def fnum(v):
    return repr(v) if isinstance(v, float) and v != int(v) else str(int(v)) if abs(v) < 1e15 else repr(v)


def config_text(spec, style=None):
    """style: None or a random source for layout."""
    s = style
    oneline = s is not None and s.random() < 0.3    # sections on one line
    nl = lambda: "\n" if s is None else s.choice(["", "", " ", "\t", "\n"] if oneline else ["\n", "\n", "\n\n", "\n   "])
    val = lambda v: v if s is None else s.choice(["%s", "%s", "%s", " %s ", "%s  ", "\t%s", "\n%s\n"]) % v

    def block(name, items, multiline=False):
        items = list(items)
        if s is not None and s.random() < 0.7:
            s.shuffle(items)
        ind = "" if s is None else s.choice(["", "\t", "    "])
        return "<%s>%s" % (name, nl()) + "".join(ind + (t if isinstance(t, str) else tag(t[0], val(t[1]))) + nl() for t in items) + "</%s>%s" % (name, nl())
    g = [("name", "study"), ("type", "Optimization"), ("dimension", str(spec["dim"])), ("number_of_function_evaluations", str(spec["N"])), ("max_number_of_inner_iterations", str(spec["inner"]))]
    if spec["threads"]:
        g.append(("number_of_threads", str(spec["threads"])))
    secs = [block("general_settings", g)]
    ps = []
    for j in range(spec["dim"]):
        t = "discrete" if spec["inc"][j] else "continuous"
        if s is not None:
            t = s.choice(["discrete", "int", "Discrete"]) if spec["inc"][j] else s.choice(["continuous", "real", "Continuous", "REAL"])
        it = [("name", spec["names"][j]), ("type", t), ("lower_bound", fnum(spec["lb"][j])), ("upper_bound", fnum(spec["ub"][j]))]
        if spec["inc"][j]:
            it.append(("increment", fnum(spec["inc"][j])))
        ps.append(block("parameter", it))
    secs.append("<optimization_parameters>\n" + "".join(ps) + "</optimization_parameters>\n")

    def fitems(e):
        it = [("name", e["name"]), ("executable_filename", e["exe"]), ("output_filename", e["out"]), ("training_data_filename", e["train"]), ("design_vector_filename", e["dv"])]
        if e.get("model"):
            it.append(("surrogate_model_type", e["model"]))
        if e.get("iters", spec["iters"]) and not e.get("noiters"):
            it.append(("number_of_training_iterations", str(e.get("iters", spec["iters"]))))
        return it
    secs.append(block("objective_function", fitems(spec["obj"])))
    cb = []
    for c in spec["cons"]:
        ty = {"<": "lt", ">": "gt"}[c["type"]]
        it = [("constraint_type", ty if s is None else s.choice([ty, ty, ty.upper(), ty.capitalize()])), ("constraint_value", fnum(c["limit"]))]
        if c["udf"]:
            it = [("name", c["name"]), ("user_defined_function", "YES" if s is None else s.choice(["YES", "yes", "on", "True"]))] + it
        else:
            it = fitems(c) + it
        cb.append(block("constraint_function", it))
    rest = secs[1:]
    if s is not None and s.random() < 0.5:
        s.shuffle(rest)
    # constraints keep their order; they may stand before or after the other sections
    if s is not None and cb and s.random() < 0.3:
        rest = cb + rest
    else:
        rest = rest + cb
    t = '<?xml version="1.0" encoding="UTF-8"?>\n' + secs[0] + "".join(rest)
    if s is not None and s.random() < 0.15:
        t = t.replace("\n", "\r\n")
    if s is not None and s.random() < 0.1:
        t = t.rstrip()
    return t


def driver_evals(spec):
    out = []
    for e in [spec["obj"]] + [c for c in spec["cons"] if not c["udf"]]:
        out.append({k: e[k] for k in ("exe", "dv", "out", "fn", "c", "shift", "fmt")})
    return out


def driver_inc(rng, spec, **plan):
    p = {"scenario": "driver", "dim": spec["dim"], "psync": rng.choice([0, 0.02, 0.2]), "cpus": rng.choice([1, 2, 4])}
    p.update(plan)
    return {"seed": rng.getrandbits(48), "plan": p, "evals": driver_evals(spec)}


def gen_api(rng, **o):
    dim = o.get("dim") or rng.choice([1, 2, 2, 3, 4, 5])
    ncons = o.get("ncons", rng.choice([0, 0, 1, 2, 3] if rng.random() < 0.96 else [4, 5, 6]))
    lb, ub = gen_bounds(rng, dim)
    obj = gen_fn(rng, lb, ub)
    obj.update(name="obj", exe="f0", dv="-", out="-", train="obj.csv")
    probe = gen_rows(rng, lb, ub, [None] * dim, 40)
    cons = []
    for i in range(ncons):
        e = gen_fn(rng, lb, ub)
        q = sorted(evalfn(e, x) for x in probe)
        e.update(name="c%d" % i, exe="f%d" % (i + 1), dv="-", out="-", train="c%d.csv" % i, type=rng.choice("<>"), limit=float("%.6g" % q[int(rng.choice([0.1, 0.5, 0.5, 0.9]) * 39)]), udf=False)
        cons.append(e)
    n = o.get("ndoe") or rng.choice([dim + 2, 6, 10, 15, 25])
    n = max(n, dim + 2)
    N = o.get("N") or rng.choice([1, 1, 2, 3])
    if rng.random() < o.get("plong", 0.04):
        N = rng.choice([5, 7, 12])
    spec = {"dim": dim, "lb": lb, "ub": ub, "inc": [None] * dim, "names": None, "N": N, "ndoe": n, "doetype": rng.choice(["LHS", "lhs", "Random", "random", None]), "obj": obj, "cons": cons}
    return spec, {}


def api_inc(rng, spec, **plan):
    p = {"scenario": "api", "cwd": ".", "dim": spec["dim"], "lb": ",".join(fnum(v) for v in spec["lb"]), "ub": ",".join(fnum(v) for v in spec["ub"]), "objname": spec["obj"]["name"], "objfile": spec["obj"]["train"], "ncons": len(spec["cons"]), "ndoe": spec["ndoe"], "neval": spec["N"], "psync": rng.choice([0, 0.1]), "cpus": rng.choice([1, 2, 4])}
    if spec["doetype"]:
        p["doetype"] = spec["doetype"]
    for i, c in enumerate(spec["cons"]):
        p["con%d" % i] = "%s %s %s" % (c["name"], c["type"], fnum(c["limit"]))
        p["confile%d" % i] = c["train"]
    p.update(plan)
    ev = [{k: e[k] for k in ("exe", "dv", "out", "fn", "c", "shift", "fmt")} for e in [spec["obj"]] + spec["cons"]]
    return {"seed": rng.getrandbits(48), "plan": p, "evals": ev}


# ---------------------------------------------------------------- other names, broken configurations
STEMS = ["run", "result", "data", "eval", "case", "f1", "drag", "Model", "x_out", "design-vec", "A.b", "constraint"]


def rename(rng, spec, files):
    """random names and relative paths for the programs and files of a study"""
    used = set(files) | {"optimizationHistory.csv", "globalOptimalDesign.xml"}

    def fresh(ext, dirs=True):
        while True:
            n = rng.choice(STEMS) + (str(rng.randrange(100)) if rng.random() < 0.5 else "") + rng.choice(ext)
            if dirs and rng.random() < 0.25:
                n = "./" + n
            if n.replace("./", "") not in used:
                used.add(n.replace("./", ""))
                return n
    dvs = {}
    for e in [spec["obj"]] + [c for c in spec["cons"] if not c["udf"]]:
        stale = e["out"] in files
        for key, ext in (("out", [".dat", ".out", ".txt", ""]), ("train", [".csv", ".dat", ".txt"])):
            new = fresh(ext, dirs=False)
            if e[key] in files:
                files[new] = files.pop(e[key])
            e[key] = new
        if e["dv"] not in dvs:
            dvs[e["dv"]] = fresh([".dat", ".csv", ".dv", ""], dirs=False)
        e["dv"] = dvs[e["dv"]]
        e["exe"] = fresh(["", ".py", ".sh", "_exe"], dirs=False)
    files["config.xml"] = config_text(spec)


def broken_config(rng, spec):
    """A configuration that has to be refused: (text, what is wrong)"""
    import re
    text = config_text(spec, random.Random(rng.getrandbits(32)) if rng.random() < 0.5 else None)

    def cut(t, section, item, n=0):
        """without the item of the n-th section"""
        ms = list(re.finditer(r"<%s>.*?</%s>" % (section, section), t, re.S))
        m = ms[n]
        b = re.sub(r"[ \t]*<%s>.*?</%s>\s*\n?" % (item, item), "", m.group(0), count=1, flags=re.S)
        return t[:m.start()] + b + t[m.end():]

    def put(t, section, item, value, n=0):
        ms = list(re.finditer(r"<%s>.*?</%s>" % (section, section), t, re.S))
        m = ms[n]
        b = re.sub(r"<%s>.*?</%s>" % (item, item), lambda _: tag(item, value), m.group(0), count=1, flags=re.S)
        return t[:m.start()] + b + t[m.end():]
    ext = [i for i, c in enumerate(spec["cons"]) if not c["udf"]]
    disc = [j for j in range(spec["dim"]) if spec["inc"][j]]
    j = rng.randrange(spec["dim"])
    lo, hi = spec["lb"][j], spec["ub"][j]
    kinds = ["file", "arg", "general", "general", "param", "param", "param", "objective", "objective", "section", "dimension", "dimension", "bounds", "evals", "model", "number", "number"]
    kinds += ["count", "count", "nan", "twice", "twice", "unclosed", "type", "derivatives", "ptype"]
    if disc:
        kinds += ["increment", "increment"]
    if spec["cons"]:
        kinds += ["conitem", "conitem", "contype", "convalue", "limit"]
    k = rng.choice(kinds)
    if k == "file":
        return text, "no file"
    if k == "arg":
        return text, "no argument"
    if k == "general":
        it = rng.choice(["type", "dimension", "number_of_function_evaluations"])
        return cut(text, "general_settings", it), "no " + it
    if k == "param":
        it = rng.choice(["name", "type", "lower_bound", "upper_bound"])
        return cut(text, "parameter", it, j), "no %s of parameter %d" % (it, j)
    if k == "objective":
        it = rng.choice(["name", "executable_filename", "output_filename", "training_data_filename", "design_vector_filename"])
        return cut(text, "objective_function", it), "no %s of the objective function" % it
    if k == "section":
        s = rng.choice(["general_settings", "optimization_parameters", "objective_function"])
        return re.sub(r"<%s>.*?</%s>" % (s, s), "", text, flags=re.S), "no section " + s
    if k == "dimension":
        d = rng.choice([0, -1, spec["dim"] + 1, max(spec["dim"] - 1, 0), 100])
        return put(text, "general_settings", "dimension", d), "dimension %d with %d parameters" % (d, spec["dim"])
    if k == "bounds":
        if rng.random() < 0.5:
            return put(put(text, "parameter", "lower_bound", fnum(hi), j), "parameter", "upper_bound", fnum(lo), j), "lower bound above the upper bound"
        return put(text, "parameter", "upper_bound", fnum(lo), j), "lower bound equal to the upper bound"
    if k == "evals":
        n = rng.choice([0, -3])
        return put(text, "general_settings", "number_of_function_evaluations", n), "%d evaluations" % n
    if k == "model":
        s, n = ("objective_function", 0) if not ext or rng.random() < 0.5 else ("constraint_function", rng.choice(ext))
        t = cut(text, s, "surrogate_model_type", n)
        ms = list(re.finditer("</%s>" % s, t))[n]
        return t[:ms.start()] + tag("surrogate_model_type", "neural_network") + "\n" + t[ms.start():], "unknown surrogate model"
    if k == "number":
        s, it, n = rng.choice([("general_settings", "dimension", 0), ("general_settings", "number_of_function_evaluations", 0), ("parameter", "lower_bound", j), ("parameter", "upper_bound", j)] + ([("constraint_function", "constraint_value", 0)] * 2 if spec["cons"] else []))
        v = rng.choice(["abc", "", "1e", "two", "3x"])
        return put(text, s, it, v, n), "%s is %r" % (it, v)
    if k == "count":
        s, it, n = rng.choice([("general_settings", "number_of_threads", 0), ("general_settings", "max_number_of_inner_iterations", 0), ("objective_function", "number_of_training_iterations", 0)] + [("constraint_function", "number_of_training_iterations", e) for e in ext])
        v = rng.choice([0, 0, -1, -5, "many", "3x"])
        t = cut(text, s, it, n)
        m = list(re.finditer("</%s>" % s, t))[n]
        return t[:m.start()] + tag(it, v) + "\n" + t[m.start():], "%s is %s (%s %d)" % (it, v, s, n)
    if k == "ptype":
        v = rng.choice(["integer", "reals", "cont", "discret", "0", "float"])
        return put(text, "parameter", "type", v, j), "type of parameter %d is %s" % (j, v)
    if k == "limit":
        n = rng.randrange(len(spec["cons"]))
        v = rng.choice(["nan", "inf", "-inf", "1e999", "-nan"])
        return put(text, "constraint_function", "constraint_value", v, n), "limit of constraint %d is %s" % (n, v)
    if k == "nan":
        it = rng.choice(["lower_bound", "upper_bound"])
        v = rng.choice(["nan", "inf", "-inf", "1e999"])
        return put(text, "parameter", it, v, j), "%s is %s" % (it, v)
    if k == "twice":
        s, it = rng.choice([("general_settings", "dimension"), ("general_settings", "number_of_function_evaluations"), ("objective_function", "executable_filename"), ("objective_function", "training_data_filename"), ("parameter", "lower_bound"), ("parameter", "name")]
                           + ([("constraint_function", "constraint_value"), ("constraint_function", "constraint_type"), ("constraint_function", "name")] if spec["cons"] else []))
        v = {"dimension": spec["dim"] + 1, "number_of_function_evaluations": 9, "lower_bound": fnum(lo - 1), "constraint_value": "0.125", "constraint_type": rng.choice(["lt", "gt"])}.get(it, "another")
        n = j if s == "parameter" else rng.randrange(len(spec["cons"])) if s == "constraint_function" else 0
        ms = list(re.finditer("</%s>" % s, text))[n]
        return text[:ms.start()] + tag(it, v) + "\n" + text[ms.start():], "%s is given twice" % it
    if k == "unclosed":
        ts = re.findall(r"</\w+>", text)
        c = rng.choice([t for t in ts if t not in ("</display>", "</name>")])
        n = rng.randrange(text.count(c))
        q = [m.start() for m in re.finditer(re.escape(c), text)][n]
        return text[:q] + text[q + len(c):], "%s is missing" % c
    if k == "type":
        return put(text, "general_settings", "type", rng.choice(["optimisation study", "doe", "training", ""])), "type of study unknown"
    if k == "derivatives":
        s, n = ("objective_function", 0) if not ext or rng.random() < 0.5 else ("constraint_function", rng.choice(ext))
        t = cut(text, s, "surrogate_model_type", n)
        ms = list(re.finditer("</%s>" % s, t))[n]
        v = rng.choice(["gradient_enhanced", "tangent_enhanced"])
        return t[:ms.start()] + tag("surrogate_model_type", v) + "\n" + t[ms.start():], "%s without gradients" % v
    if k == "increment":
        jd = rng.choice(disc)
        v = rng.choice([0, -0.5, 2 * (spec["ub"][jd] - spec["lb"][jd]), None])
        if v is None:
            return cut(text, "parameter", "increment", jd), "no increment of a discrete parameter"
        return put(text, "parameter", "increment", v, jd), "increment %s" % v
    c = rng.randrange(len(spec["cons"]))
    if k == "conitem":
        it = rng.choice(["name", "constraint_type", "constraint_value"] + ([] if spec["cons"][c]["udf"] else ["executable_filename", "output_filename", "training_data_filename", "design_vector_filename"]))
        return cut(text, "constraint_function", it, c), "no %s of constraint %d" % (it, c)
    if k == "contype":
        return put(text, "constraint_function", "constraint_type", rng.choice(["eq", "<", "less", "ltt", "tt"]), c), "unknown constraint type"
    return put(text, "constraint_function", "constraint_value", rng.choice(["abc", "", "--1"]), c), "constraint value is no number"
