"""Judges recorded histories of whole studies (command-line program and API) against the properties.

check_study(study, hists) returns a list of violations (property, signature, message).  The oracle works on
observable behaviour only: files before/during/after each incarnation, evaluations the simulated evaluators
served, exit status - plus, for C06, the observation points compiled with -DRODEO_SIM (skipped if absent).
"""
import math
import kriging
from simlib import field, near, parse_history, parse_optimum, rows_of, snap_after, snap_before

DUP = 1e-4
KEY = 1e-8      # coordinates this close name the same design when a study is started
BENIGN = {"short", "clock"}


def numeric_rows(text, width):
    """(rows as float lists or None if some line is not a whole row, fields, terminated?, has blank lines)"""
    rows, term = rows_of(text)
    out, bad = [], None
    for i, (fs, raw) in enumerate(rows):
        if fs == []:
            continue
        if fs is None or len(fs) != width or any(f[0] != f[0] or abs(f[0]) == float("inf") for f in fs):
            bad = "line %d: %r" % (i + 1, raw[:80])
            break
        out.append(fs)
    return out, bad, term


def vals(fs):
    return [f[0] for f in fs]


def dup(a, b):
    return len(a) == len(b) and all(abs(u - v) <= DUP * (1 + 1e-6) + 1e-12 for u, v in zip(a, b))


def failed(e):
    if e.get("err"):
        return True
    if e.get("status", 0) != 0:
        return True
    if e.get("fault") in ("noout", "rmout", "empty", "blank", "garbage", "nan", "inf", "nonzero", "nonzero_noout", "signal", "signal_full", "throw"):
        return True
    y = e.get("y")
    return isinstance(y, str) or y is None or y != y or y in (float("inf"), -float("inf"))


class Study:
    def __init__(self, study):
        self.spec = s = study["spec"]
        self.dim = s["dim"]
        self.fns = [s["obj"]] + [c for c in s["cons"] if not c["udf"]]
        self.byexe = {f["exe"]: f for f in self.fns}
        self.lb, self.ub, self.inc = s["lb"], s["ub"], s["inc"]
        # every row a training file may legitimately hold, per function
        self.edited = set()
        self.universe = {f["train"]: [] for f in self.fns}

    def boxtol(self, j):
        return 1e-9 * max(1.0, abs(self.lb[j]), abs(self.ub[j]), self.ub[j] - self.lb[j])

    def inbox(self, x, f=None):
        """True / False / None when it cannot be told from a rounded value"""
        r = True
        for j in range(self.dim):
            t = self.boxtol(j) + (f[j][1] if f else 0)
            if x[j] < self.lb[j] - t or x[j] > self.ub[j] + t:
                return False
            if (x[j] < self.lb[j] or x[j] > self.ub[j]):
                r = None
        return r

    def udf(self, i, x):
        return x[1] - x[0] ** 2 if i == 0 else (x[0] - 1) ** 3 - x[1] + 0.7

    def feasible(self, x, cv):
        """cv: per constraint (value, known?)"""
        r = self.inbox(x)
        for c, v in zip(self.spec["cons"], cv):
            if v is None:
                return False
            d = v - c["limit"]
            if abs(d) <= (1e-9 * max(1, abs(v), abs(c["limit"])) if c["udf"] else 1e-13 * abs(c["limit"])):
                if d == 0 and not c["udf"]:
                    return False        # the inequality is strict
                r = None if r is not False else False
                continue
            if (d < 0) != (c["type"] == "<"):
                return False
        return r


def group(st, evs):
    """iterations: lists of evaluations, each starting with the objective's"""
    its = []
    for e in evs:
        if e["exe"] == st.spec["obj"]["exe"] or not its:
            its.append([])
        its[-1].append(e)
    return its


def base_rows(st, files, out, tag):
    """rows of the training files a study starts from; None when they are not usable"""
    res, bad = {}, None
    for f in st.fns:
        t = files.get(f["train"])
        if t is None:
            bad = "%s is missing" % f["train"]
            continue
        rows, b, term = numeric_rows(t, st.dim + 1)
        if b:
            bad = "%s %s" % (f["train"], b)
        res[f["train"]] = (rows, term)
    return res, bad


def expected_initial(st, base):
    """initial history: list of (x fields, y field, constraint values, feasible?)"""
    exp = []
    for fs in base[st.spec["obj"]["train"]][0]:
        x, cv, amb = vals(fs[:-1]), [], False
        for i, c in enumerate(st.spec["cons"]):
            if c["udf"]:
                cv.append(st.udf(i, x))
                continue
            hit, close = None, False
            for cs in base[c["train"]][0]:
                d = max(abs(cs[j][0] - x[j]) for j in range(st.dim))
                if d <= KEY * 0.9:
                    hit = cs[-1][0]
                    break
                if d <= KEY * 1.1:
                    close = True
            if hit is None and close:
                amb = True
            cv.append(hit)
        exp.append({"x": x, "y": fs[-1][0], "c": cv, "feas": None if amb else st.feasible(x, cv), "new": False})
    return exp


def expected_after(st, exp0, its, j):
    exp = list(exp0)
    for it in its[:j]:
        y = it[0]["y"]
        x = it[0]["x"]
        by = {e["exe"]: e for e in it}
        cv = []
        for i, c in enumerate(st.spec["cons"]):
            cv.append(st.udf(i, x) if c["udf"] else by[c["exe"]]["y"] if c["exe"] in by else None)
        exp.append({"x": x, "y": y, "c": cv, "feas": st.feasible(x, cv), "new": True})
    return exp


def improvement(exp, i):
    """improvement of row i over the best feasible initial sample; None if it cannot be told"""
    e = exp[i]
    if not e["new"]:
        return 0.0
    if any(x["feas"] is None for x in exp[:i + 1]):
        return None
    if not e["feas"]:
        return 0.0
    f0 = [x["y"] for x in exp[:i] if x["feas"] and not x["new"]]
    f1 = [x["y"] for x in exp[:i] if x["feas"] and x["new"]]
    if not f0 and not f1:
        return 0.0
    return max(0.0, (min(f0) if f0 else f1[0]) - e["y"])


def check_history(st, text, exp):
    """list of (prop, sig, msg)"""
    header, rows, bad = parse_history(text)
    if bad:
        return [("C05", "history-incomplete", "history file %s" % bad)]
    nc = len(st.spec["cons"])
    if len(header) != st.dim + 3 + nc:
        return [("C05", "history-columns", "history has %d columns: %s" % (len(header), ",".join(header)))]
    want = (st.spec.get("names") or ["x%d" % (j + 1) for j in range(st.dim)]) + ["Objective"] + [c["name"] for c in st.spec["cons"]]
    if header[:len(want)] != want:
        return [("C19" if st.spec.get("names") else "C20", "history-names", "the columns of the history are called %s instead of %s" % (",".join(header), ",".join(want)))]
    if len(rows) != len(exp):
        return [("C05", "history-length", "history has %d rows instead of %d" % (len(rows), len(exp)))]
    out = []
    for i, (r, e) in enumerate(zip(rows, exp)):
        if len(r) != len(header):
            return out + [("C05", "history-row", "row %d has %d fields" % (i, len(r)))]
        for j in range(st.dim):
            if not near(r[j], e["x"][j]):
                out.append(("C05", "history-design", "history row %d: %s is %r instead of %r" % (i, header[j], r[j][0], e["x"][j])))
        if not near(r[st.dim], e["y"]):
            out.append(("C05", "history-objective", "history row %d: objective %r instead of %r" % (i, r[st.dim][0], e["y"])))
        for k in range(nc):
            v = e["c"][k]
            if v is not None and not near(r[st.dim + 1 + k], v, 1e-9 * abs(v) if st.spec["cons"][k]["udf"] else 0):
                out.append(("C05", "history-constraint", "history row %d: constraint %d is %r instead of %r" % (i, k, r[st.dim + 1 + k][0], v)))
        imp = improvement(exp, i)
        if imp is not None and not near(r[-2], imp, 1e-12 * max(abs(e["y"]), abs(imp)) + 3e-16):
            out.append(("C05", "history-improvement", "history row %d: improvement %r instead of %r" % (i, r[-2][0], imp)))
        if e["feas"] is not None and (r[-1][0] != 0) != e["feas"]:
            out.append(("C12", "feasibility", "history row %d is marked %s but the design is %s (constraints %s)" % (i, "feasible" if r[-1][0] else "infeasible", "feasible" if e["feas"] else "infeasible", e["c"])))
        if out:
            break
    if out and out[0][0] == "C05" and exp[i]["new"]:
        out.append(("C01", "history-not-evaluated", out[0][2]))
    return out


def best_of(exp):
    """index of the optimum, or None when the feasibility of some design cannot be told"""
    if any(e["feas"] is None for e in exp) or not exp:
        return None
    f = [i for i, e in enumerate(exp) if e["feas"]]
    pool = f or range(len(exp))
    return min(pool, key=lambda i: (exp[i]["y"], i))


def check_optimum(st, text, exp):
    d = parse_optimum(text)
    if d is None:
        return [("C05", "optimum-incomplete", "optimum report is missing or incomplete")]
    out = []
    if not (0 <= d["id"] < len(exp)):
        return [("C05", "optimum-unknown", "optimum report names design %d of %d" % (d["id"], len(exp)))]
    e = exp[d["id"]]
    ok = len(d["x"]) == st.dim and all(near(f, v) for f, v in zip(d["x"], e["x"])) and near(d["obj"], e["y"])
    cons = [(f, v) for f, v, c in zip(d["con"], e["c"], st.spec["cons"]) if v is not None]
    if len(d["con"]) != len(st.spec["cons"]) and st.spec["cons"]:
        ok = False
    ok = ok and all(near(f, v, 1e-6 * max(1, abs(v))) for f, v in cons)
    if not ok:
        out.append(("C05", "optimum-values", "optimum report %s differs from history row %d %s" % ({k: d[k] for k in ("x", "obj", "con")}, d["id"], e)))
        if e["new"]:
            out.append(("C01", "optimum-not-evaluated", out[0][2]))
    b = best_of(exp)
    if b is not None:
        if d["id"] != b:
            out.append(("C12", "not-the-best", "optimum report names design %d (objective %r, %s) although design %d has objective %r and is %s" % (d["id"], e["y"], "feasible" if e["feas"] else "infeasible", b, exp[b]["y"], "feasible" if exp[b]["feas"] else "infeasible")))
        elif (d["feas"].upper() in ("YES", "1", "TRUE")) != exp[b]["feas"]:
            out.append(("C12", "optimum-feasibility", "optimum report says feasible=%s for a design that is %s" % (d["feas"], "feasible" if exp[b]["feas"] else "infeasible")))
    return out


def match_train(st, fn, start, end, must, maybe, torn):
    """Training file of fn: start text -> end text. must/maybe: evaluations whose rows have to / may be there."""
    out = []
    name = fn["train"]
    srows, sbad, _ = numeric_rows(start, st.dim + 1)
    rows, term = rows_of(end)
    rows = [r for r in rows if r[0] != []]
    if start is not None and end is None:
        return [("C03", "file-lost", "%s does not exist any more" % name)]
    if torn and not term and rows:
        # a row may have been cut short by the crash
        slen = len([1 for r in rows_of(start)[0] if r[0] != []]) if start is not None else 0
        if len(rows) > slen:
            rows = rows[:-1]
    if sbad:
        if end != start and (end or "").rstrip("\n") != (start or "").rstrip("\n"):
            out.append(("C03", "damaged-file-changed", "%s was changed although it could not be read: %s" % (name, sbad)))
        return out
    n = len(srows)
    if len(rows) < n:
        return [("C03", "rows-lost", "%s has %d rows, fewer than the %d it held at the start" % (name, len(rows), n))]
    for i in range(n):
        if rows[i][0] is None or vals(rows[i][0]) != vals(srows[i]):
            return [("C03", "row-changed", "%s row %d was %s and is now %r" % (name, i, vals(srows[i]), rows[i][1][:120]))]
    recorded = [vals(r) for r in srows]
    new = rows[n:]
    k = 0
    evs = [(e, True) for e in must] + [(e, False) for e in maybe]
    for e, need in evs:
        want = list(e["x"]) + [e["y"]]
        if k < len(new) and new[k][0] is not None and len(new[k][0]) == st.dim + 1 and all(near(f, v) for f, v in zip(new[k][0], want)):
            for f, v in zip(new[k][0], want):
                if v != 0 and f[1] > 1e-10 * abs(v):
                    out.append(("C01", "precision", "%s records %r with too few digits: %r" % (name, v, new[k][1])))
                    break
            recorded.append(vals(new[k][0]))
            k += 1
        elif any(dup(want, r) for r in recorded):
            continue
        elif need:
            if k < len(new):
                out.append(("C01", "row-not-evaluated", "%s: new row %r is not the evaluation %s -> %r" % (name, new[k][1][:140], e["x"], e["y"])))
                out.append(("C03", "row-not-evaluated", out[-1][2]))
            else:
                out.append(("C03", "row-missing", "%s: no row for the completed evaluation %s -> %r" % (name, e["x"], e["y"])))
            return out
    if k < len(new):
        out.append(("C01", "row-without-evaluation", "%s: row %r has no evaluation" % (name, new[k][1][:140])))
        out.append(("C03", "row-without-evaluation", out[-1][2]))
    return out


def fault_causes(h):
    """injected events after which a study may end with an error"""
    return [f for f in h.faults if f["kind"] not in BENIGN]


def check_study(study, hs):
    st = Study(study)
    out = []
    prev_opt = None
    for f in st.fns:
        t = study["files"].get(f["train"])
        if t is not None:
            st.universe[f["train"]] += [vals(r) for r in numeric_rows(t, st.dim + 1)[0]]
    for k, h in enumerate(hs):
        for v in check_inc(st, study["incs"][k], h, k):
            out.append((v[0], v[1], "start %d: %s" % (k + 1, v[2])))
    return out


def check_inc(st, inc, h, k):
    spec, out = st.spec, []
    api = inc["plan"]["scenario"] == "api"
    N = int(inc["plan"].get("neval", spec["N"])) if api else spec["N"]
    evs = [e for e in h.evals if not e.get("orphan")]
    orphans = [e for e in h.evals if e.get("orphan")]
    causes = fault_causes(h)
    fails = [e for e in evs if failed(e)]
    ndoe = int(inc["plan"].get("ndoe", 0)) if api else 0
    st.edited |= set(inc.get("edits", {}))

    # ---- ways an incarnation must never end
    if h.end in ("signal", "terminate", "died", "hang", "deadlock", "steplimit", "oplimit"):
        p = "C11"
        if h.end in ("deadlock", "steplimit"):
            p = "C07"
        if fails:
            p = "C02"
        elif any(f["kind"] == "oom" for f in causes):
            p = "C18" if h.end in ("signal", "hang") else None
        elif causes:
            p = "C18"
        elif k > 0:
            p = "C04"
        if p:
            out.append((p, "ends-" + h.end, "ends abnormally (%s: %s)" % (h.end, h.what[:200])))
    if h.end == "exit" and orphans:
        out.append(("C11", "evaluator-left-behind", "the study ended while %s was still running" % orphans[0]["exe"]))
    if any(e["t"] == "escape" for e in h.events):
        e = [e for e in h.events if e["t"] == "escape"][0]
        out.append(("C19", "writes-elsewhere", "opens %s for writing, which is not in the study's directory" % e["path"]))

    own = {f[n] for f in st.fns for n in ("train", "dv", "out")} | {"optimizationHistory.csv", "globalOptimalDesign.xml"}
    own |= {n + ".tmp" for n in own}
    for n, c in h.before.items():
        if n not in own and not n.endswith(".log") and h.after.get(n) != c:
            out.append(("C21", "other-file", "%s is not a file of the study, but was %s" % (n, "changed" if n in h.after else "removed")))
    unknown = [e for e in evs if e["exe"] not in st.byexe]
    if unknown:
        out.append(("C19", "unknown-program", "starts %s, which is not configured" % unknown[0].get("argv", unknown[0]["exe"])))
        return out
    odd = [e for e in evs if e.get("err") in ("bad design file",)]
    if odd and not causes:
        out.append(("C19", "design-file", "%s did not find a design of dimension %d in %s: %r" % (odd[0]["exe"], st.dim, st.byexe[odd[0]["exe"]]["dv"], odd[0].get("dvraw", "")[:100])))
    if odd and causes:
        out.append(("C18", "design-not-written", "%s was started although its design file was not written: %r" % (odd[0]["exe"], odd[0].get("dvraw", "")[:100])))

    # ---- C02: nothing after a failure
    if fails:
        i = evs.index(fails[0])
        later = evs[i + 1:]
        if fails[0].get("fault") in ("nan", "inf") and fails[0].get("status", 0) == 0:
            # the values of one design may be looked at together
            later = [e for e in later if e.get("x") != fails[0].get("x")]
        if later:
            out.append(("C02", "continues", "%s is evaluated after the evaluation of %s failed (%s)" % (later[0]["exe"], fails[0]["exe"], why(fails[0]))))
        if h.end == "exit" and h.code == 0:
            out.append(("C02", "success-after-failure", "ends with status 0 although the evaluation of %s failed (%s)" % (fails[0]["exe"], why(fails[0]))))
        out += check_evals(st, evs, [])
    doe, its = [], None
    if api and ndoe:
        doe, rest, v = split_doe(st, evs, ndoe, h)
        out += v
        out += check_doe(st, inc, h, doe, rest, ndoe)
        for e in doe:
            if not failed(e):
                st.universe[st.byexe[e["exe"]]["train"]].append(list(e["x"]) + [e["y"]])
        its = group(st, rest)
    else:
        its = group(st, evs)
    start = h.before
    if api and ndoe:
        if not its:
            base_files = None
        else:
            base_files = snap_before(h, its[0][0]["at"])
    else:
        base_files = start

    flat = [e for it in its for e in it]
    out += check_evals(st, flat, its)
    out += check_c06(st, h, its)

    # ---- C11
    order = [f["exe"] for f in st.fns]
    for i, it in enumerate(its):
        got = [e["exe"] for e in it]
        last = i == len(its) - 1
        if got != order:
            if last and got == order[:len(got)] and (causes or fails or h.end == "crash"):
                continue
            out.append(("C11", "order", "iteration %d evaluates %s instead of %s" % (i + 1, got, order)))
            break
    if len(its) > N:
        out.append(("C11", "over-budget", "%d iterations with a budget of %d" % (len(its), N)))

    # ---- unusable training data
    base, bad = (None, "no base")
    if base_files is not None:
        base, bad = base_rows(st, base_files, out, k)
    if base_files is not None and bad:
        missing = bad.endswith("is missing")
        if evs[len(doe):]:
            out.append(("C04", "uses-damaged-data", "evaluates designs although the training data cannot be used: %s" % bad))
        elif h.end == "exit" and h.code == 0:
            out.append(("C04", "success-on-damaged-data", "ends with status 0 although the training data cannot be used: %s" % bad))
        elif h.end != "crash" and h.end != "exit":
            pass
        for f in st.fns:
            if not (api and ndoe):
                out += match_train(st, f, start.get(f["train"]), h.after.get(f["train"]), [], [], h.end != "exit")
        return out
    if base_files is None:
        if not (causes or fails or h.end == "crash") and h.end == "exit" and h.code != 0:
            out.append(("C11", "error", "ends with status %s: %s" % (h.code, h.err.strip()[-200:])))
        return out
    unterminated = [f["train"] for f in st.fns if not base[f["train"]][1] and (base_files.get(f["train"]) or "").strip()]
    # a blank line may be skipped or refused
    unterminated += [f["train"] for f in st.fns if any(not l.strip() for l in (base_files.get(f["train"]) or "").rstrip("\n").split("\n")) or (base_files.get(f["train"]) or "").endswith("\n\n")]

    # ---- the end
    if not causes and not fails and h.end == "exit":
        if h.code != 0:
            thin = [t for t in base if len(base[t][0]) < st.dim + 2]
            if not (unterminated or thin) or evs:
                out.append(("C11" if k == 0 else "C04", "error", "ends with status %s without any failure: %s" % (h.code, h.err.strip()[-200:])))
        elif len(its) != N:
            out.append(("C11", "budget", "performs %d iterations with a budget of %d" % (len(its), N)))
    elif h.end == "exit" and h.code == 0 and len(its) != N and not fails:
        out.append(("C18", "stops-silently", "ends with status 0 after %d of %d iterations (%s)" % (len(its), N, causes[0]["kind"])))

    if not base[spec["obj"]["train"]][0]:
        return out
    # ---- C04: what a start uses is what was recorded
    exp0 = expected_initial(st, base)
    for f in st.fns:
        if api and ndoe:
            st.universe[f["train"]] = [vals(r) for r in base[f["train"]][0]]
        elif k > 0 and (its or h.end == "exit" and h.code == 0):
            u = st.universe[f["train"]]
            rows, term = base[f["train"]]
            if not term and f["train"] in st.edited:
                u.append(vals(rows[-1]))        # cut by somebody else, possibly inside the number
            for r in rows:
                if not any(all(near(a, b) for a, b in zip(r, w)) for w in u):
                    out.append(("C04", "invented-row", "continues from a row of %s that was never evaluated: %s" % (f["train"], vals(r))))
                    break
            if f["train"] in inc.get("edits", {}):
                u += [vals(r) for r in base[f["train"]][0]]

    out += check_models(st, h, its, exp0)

    # ---- files at the start of each iteration
    good_its = [it for it in its if not any(failed(e) for e in it) and [e["exe"] for e in it] == order]
    for i, it in enumerate(its):
        files = snap_before(h, it[0]["at"])
        done = its[:i]
        if any([e["exe"] for e in d] != order for d in done) or any(failed(e) for d in done for e in d):
            break
        exp = expected_after(st, exp0, its, i)
        hv = check_history(st, files.get("optimizationHistory.csv"), exp)
        if i == 0 and hv and k > 0:
            hv.append(("C04", "history-" + hv[0][1], "the initial history does not list the recorded rows: " + hv[0][2]))
        ov = check_optimum(st, files.get("globalOptimalDesign.xml"), exp) if not [x for x in hv if x[0] == "C05"] else []
        out += [(p, s, "before iteration %d: %s" % (i + 1, m)) for p, s, m in hv + ov]
        for f in st.fns:
            must = [e for d in done for e in d if e["exe"] == f["exe"]]
            tv = match_train(st, f, base_files.get(f["train"]), files.get(f["train"]), must, [], False)
            out += [(p, s, "before iteration %d: %s" % (i + 1, m)) for p, s, m in tv]
        if hv or ov:
            break

    # ---- files at the end
    m = len(its)
    after = h.after
    success = h.end == "exit" and h.code == 0
    last_ok = m == 0 or ([e["exe"] for e in its[-1]] == order and not any(failed(e) for e in its[-1]))
    hist, opt = after.get("optimizationHistory.csv"), after.get("globalOptimalDesign.xml")
    if not out:
        if success:
            if last_ok:
                exp = expected_after(st, exp0, its, m)
                out += check_history(st, hist, exp) or check_optimum(st, opt, exp)
        else:
            vers = [m - 1] + ([m] if last_ok else []) if m else [0]
            for what, text, fun in (("history", hist, check_history), ("optimum report", opt, check_optimum)):
                name = "optimizationHistory.csv" if fun is check_history else "globalOptimalDesign.xml"
                if m == 0 and text == start.get(name):
                    continue
                res = [fun(st, text, expected_after(st, exp0, its, j)) for j in vers]
                if all(res):
                    r = res[0]
                    out += [(p if p != "C12" or m else "C05", s, "after %s: neither the previous nor the new version: %s" % (ending(h), mm)) for p, s, mm in r if p in ("C05", "C12")][:1]
    for f in st.fns:
        if success:
            must, maybe = [e for it in its for e in it if e["exe"] == f["exe"]], []
        else:
            must = [e for it in its[:-1] for e in it if e["exe"] == f["exe"]]
            maybe = [e for it in its[-1:] for e in it if e["exe"] == f["exe"] and not failed(e)]
        tv = match_train(st, f, base_files.get(f["train"]), after.get(f["train"]), must, maybe, h.end != "exit")
        if any(f2["kind"] == "full" or f2["kind"] == "eio" for f2 in causes):
            tv += [("C18", s, m) for p, s, m in tv if p == "C03"]
        out += [(p, s, "after %s: %s" % (ending(h), m)) for p, s, m in tv]
        st.universe[f["train"]] += [list(e["x"]) + [e["y"]] for it in its for e in it if e["exe"] == f["exe"] and not failed(e)]

    # ---- C02: nothing of the failed iteration is recorded
    if fails and its and any(failed(e) for e in its[-1]) and h.end in ("exit", "terminate", "signal"):
        files = snap_before(h, its[-1][0]["at"])
        for f in st.fns:
            a, b = numeric_rows(files.get(f["train"]), st.dim + 1)[0], rows_of(after.get(f["train"]))[0]
            b = [r for r in b if r[0] != []]
            if len(a) != len(b):
                out.append(("C02", "failed-design-recorded", "%s gained %d row(s) in the iteration in which %s failed (%s)" % (f["train"], len(b) - len(a), fails[0]["exe"], why(fails[0]))))
        for n in ("optimizationHistory.csv", "globalOptimalDesign.xml"):
            if (after.get(n) or "").strip() != (files.get(n) or "").strip():
                out.append(("C02", "history-changed", "%s changed in the iteration in which %s failed (%s)" % (n, fails[0]["exe"], why(fails[0]))))
    return out


def ending(h):
    return "the crash" if h.end == "crash" else "the end" if h.end == "exit" and h.code == 0 else "the error"


def why(e):
    return e.get("fault") or e.get("err") or "status %s" % e.get("status")


def check_evals(st, evs, its):
    out = []
    for e in evs:
        x = e.get("x") or []
        if len(x) != st.dim:
            continue
        for j in range(st.dim):
            t = st.boxtol(j)
            if not (st.lb[j] - t <= x[j] <= st.ub[j] + t):
                out.append(("C10", "outside-box", "%s is evaluated at %s = %r outside [%r, %r]" % (e["exe"], "parameter %d" % j, x[j], st.lb[j], st.ub[j])))
                return out
            if st.inc[j]:
                q = (x[j] - st.lb[j]) / st.inc[j]
                if abs(q - round(q)) > 1e-6:
                    out.append(("C10", "off-grid", "%s is evaluated at parameter %d = %r, not a point %r + k * %r" % (e["exe"], j, x[j], st.lb[j], st.inc[j])))
                    return out
    for i, it in enumerate(its):
        a = it[0].get("x")
        for e in it[1:]:
            b = e.get("x")
            if a and b and len(a) == len(b) and any(abs(u - v) > 1e-9 * max(1, abs(u)) for u, v in zip(a, b)):
                out.append(("C10", "different-designs", "iteration %d evaluates %s at %s and %s at %s" % (i + 1, it[0]["exe"], a, e["exe"], b)))
                return out
    return out


def check_c06(st, h, its):
    out = []
    acq, ref = None, None
    starts = {it[0]["at"]: i for i, it in enumerate(its)}
    for i, e in enumerate(h.events):
        if e["t"] == "acq":
            acq, ref = e, None
            m = st.spec.get("inner")
            if m and not (m <= e["n"] <= 4 * m):
                out.append(("C19", "inner-iterations", "a search examines %d candidates, %d are configured" % (e["n"], m)))
            if st.spec.get("threads") and e["n"] and e["threads"] != st.spec["threads"]:
                out.append(("C19", "threads", "a search runs with %d threads, %d are configured" % (e["threads"], st.spec["threads"])))
            if e["nans"] == 0 and e["n"] > 0:
                sel = e["sel"]
                if sel is None or not (sel >= e["best"]):
                    out.append(("C06", "not-the-best", "the selected candidate has acquisition value %r although candidate %s of %d had %r" % (sel, e["arg"], e["n"], e["best"])))
        elif e["t"] == "refined":
            ref = e
            b, a = e["before"], e["after"]
            if b is not None and b == b and not (a >= b):
                out.append(("C06", "refinement-worse", "local refinement went from acquisition value %r down to %r" % (b, a)))
            if acq is not None and acq["nans"] == 0 and b is not None and acq["sel"] is not None and not (b >= acq["sel"] - 1e-9 * abs(acq["sel"])):
                out.append(("C06", "refined-another", "local refinement starts from acquisition value %r but %r was selected" % (b, acq["sel"])))
        elif e["t"] == "eval" and i in starts and acq is not None:
            d = (ref or acq)["dv"]
            for j in range(st.dim):
                w = st.ub[j] - st.lb[j]
                v = st.lb[j] + d[j] * st.dim * w
                v = min(max(v, st.lb[j]), st.ub[j])
                if st.inc[j]:
                    # the nearest value of the grid
                    n = int(math.floor(w / st.inc[j] + 1e-9))
                    near = min(abs(st.lb[j] + k * st.inc[j] - v) for k in {0, n, max(0, min(n, int((v - st.lb[j]) / st.inc[j]))), max(0, min(n, int((v - st.lb[j]) / st.inc[j]) + 1))})
                    if abs(e["x"][j] - v) > near + 1e-6 * max(w, 1e-6 * abs(v)):
                        out.append(("C10", "not-the-nearest", "the selected design has parameter %d = %r, but %r is evaluated; another value of the grid is nearer" % (j, v, e["x"][j])))
                        break
                    continue
                if abs(v - e["x"][j]) > 1e-6 * max(w, 1e-6 * abs(v)):
                    out.append(("C06", "evaluates-another", "the selected design has parameter %d = %r but %r is evaluated" % (j, v, e["x"][j])))
                    break
            acq = ref = None
        if len(out) > 2:
            break
    return out


def phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def check_models(st, h, its, exp0):
    """the models in use at the end of every search, and the acquisition value of some candidates of that search"""
    out = []
    ev = h.events
    for i, e in enumerate(ev):
        if e["t"] != "search":
            continue
        k = sum(1 for it in its if it[0]["at"] < i)
        n, dim = e["n"], st.dim
        xs = [e["x"][a * dim:(a + 1) * dim] for a in range(n)]
        ms = {}
        for m in ev[i + 1:i + 2 + len(st.spec["cons"])]:
            if m["t"] != "model":
                break
            ms[m["fn"]] = m
        exp = expected_after(st, exp0, its, k)
        # ---- C15: each model in use is the one its file gives
        for m in ms.values():
            if m["defined"]:
                continue
            f = st.spec["obj"] if m["fn"] < 0 else st.spec["cons"][m["fn"]] if m["fn"] < len(st.spec["cons"]) else None
            if f is None or m["file"] != f["train"]:
                out.append(("C15", "model-file", "the model of function %d is one of %s" % (m["fn"], m["file"])))
                return out
            if f.get("iters", st.spec.get("iters")) and m["iters"] != f.get("iters", st.spec.get("iters")):
                out.append(("C19", "training-iterations", "the model of %s is trained with %d iterations instead of %d" % (f["name"], m["iters"], f.get("iters", st.spec.get("iters")))))
                return out
            if m["linear"] != (f.get("model") == "universal_kriging"):
                out.append(("C19", "model-type", "the model of %s %s a linear part, configured is %s" % (f["name"], "has" if m["linear"] else "has not", f.get("model"))))
                return out
            if "err" in m:
                out.append(("C15", "no-model", "search %d: no model can be built from %s: %s" % (k + 1, m["file"], m["err"])))
                return out
            if m["samples"] != m["freshsamples"]:
                out.append(("C15", "samples", "search %d: the model in use of %s has %d samples, the file %d" % (k + 1, m["file"], m["samples"], m["freshsamples"])))
                return out
            ys = [w[-1] for w in st.universe[f["train"]]] + [g["y"] for it in its[:k] for g in it if g["exe"] == f["exe"] and not failed(g)]
            sc = max(ys) - min(ys) + 1e-3 * max(abs(v) for v in ys) + 1e-12
            for q, (a, b) in enumerate(zip(m["use"], m["fresh"])):
                w = sc if q % 2 == 0 else sc * sc
                if (a is None) != (b is None) or (a is not None and a == a and b == b and not abs(a - b) <= 1e-5 * w + 1e-7 * abs(b)):
                    out.append(("C15", "prediction", "search %d: the model in use of %s predicts %r, one built from the file with the same hyper-parameters %r" % (k + 1, m["file"], a, b)))
                    return out
            rows, bad, _ = numeric_rows(snap_after(h, i).get(f["train"]), dim + 1)
            if "h" in m and not bad and len(rows) == m["samples"] and 2 <= len(rows) <= 30:
                pts = [m["at"][a * dim:(a + 1) * dim] for a in range(len(m["use"]) // 2)]
                own = kriging.of_rows([vals(r) for r in rows], pts[:2] + pts[-4:], st.lb, st.ub, m["h"], m["linear"], True)
                for q, a in enumerate([0, 1] + list(range(len(pts) - 4, len(pts))) if own else []):
                    wrong = kriging.wrong(m["use"][2 * a], m["use"][2 * a + 1], own[q])
                    if wrong:
                        out.append(("C15", "predictor", "search %d: the model in use of %s %s, computed from the file and its hyper-parameters" % (k + 1, m["file"], wrong)))
                        return out
        # ---- C22: what the candidates are worth
        fac = e["factor"]
        if fac is None or not (1 <= fac <= 100):
            out.append(("C22", "factor", "search %d: the uncertainty is widened by %r" % (k + 1, fac)))
            return out
        if -1 not in ms or len(ms) != 1 + len(st.spec["cons"]) or any(g["feas"] is None for g in exp):
            continue
        good = [g["y"] for g in exp if g["feas"]]
        ratio = None
        for a in range(n):
            v, mu, s2 = e["v"][a], ms[-1]["use"][2 * a], ms[-1]["use"][2 * a + 1]
            if v is None or v != v or mu is None or mu != mu or s2 is None or s2 != s2 or s2 <= 0:
                continue
            p, told = 1.0, True
            for c, m in ((c, ms[j]) for j, c in enumerate(st.spec["cons"])):
                if m["defined"]:
                    xx = [st.lb[j] + xs[a][j] * dim * (st.ub[j] - st.lb[j]) for j in range(dim)]
                    cm, cs = st.udf(st.spec["cons"].index(c), xx), 0.0
                    if abs(cm - c["limit"]) < 1e-7 * max(1, abs(cm)):
                        told = False
                        break
                else:
                    cm, cs = m["use"][2 * a], m["use"][2 * a + 1]
                    if cm is None or cs is None or cm != cm or cs != cs or cs < 0:
                        told = False
                        break
                    cs = math.sqrt(cs)
                if cs < 1e-10:
                    if abs(cm - c["limit"]) < 1e-8:
                        told = False
                        break
                    z = math.copysign(40, c["limit"] - cm)
                else:
                    z = (c["limit"] - cm) / cs
                p *= phi(z if c["type"] == "<" else -z)
            if not told:
                continue
            s = math.sqrt(s2) * fac
            if s < 1e-9:
                continue
            if good:
                imp = min(good) - mu
                ref = imp * phi(imp / s) + s * math.exp(-0.5 * min(1400, (imp / s) ** 2)) / math.sqrt(2 * math.pi)
                tol = 1e-9 * s + 1e-11 * (abs(imp) + abs(mu))
                if not abs(v - ref * p) <= 1e-6 * abs(ref * p) + tol:
                    out.append(("C22", "acquisition", "search %d: candidate %s has acquisition value %r; expected improvement %r below %r times feasibility %r is %r" % (k + 1, xs[a], v, ref, min(good), p, ref * p)))
                    return out
            elif st.spec["cons"] and p > 1e-9 and abs(mu) + s < 1e8:
                if p > 1e-6 and not v > 0:
                    out.append(("C22", "infeasible-worth", "search %d, no feasible design yet: candidate %s, feasible with probability %r, is worth %r" % (k + 1, xs[a], p, v)))
                    return out
                if ratio is None:
                    ratio = (v / p, xs[a])
                elif not abs(v / p - ratio[0]) <= 1e-5 * abs(ratio[0]):
                    out.append(("C22", "infeasible-rank", "search %d, no feasible design yet: candidates %s and %s are not weighed by their feasibility: %r, %r" % (k + 1, ratio[1], xs[a], ratio[0], v / p)))
                    return out
    return out


def split_doe(st, evs, n, h):
    """evaluations of the initial design of experiments, and the rest"""
    obj = st.spec["obj"]["exe"]
    cut, seen = len(evs), 0
    for i, e in enumerate(evs):
        if e["exe"] == obj:
            seen += 1
            if seen == n + 1:
                cut = i
                break
    return evs[:cut], evs[cut:], []


def check_doe(st, inc, h, doe, rest, n):
    out = []
    by = {f["exe"]: [e for e in doe if e["exe"] == f["exe"]] for f in st.fns}
    o = by[st.spec["obj"]["exe"]]
    fails = [e for e in doe if failed(e)]
    after = snap_before(h, rest[0]["at"]) if rest else h.after
    out += [(p if p != "C10" else "C14", s, m) for p, s, m in check_evals(st, doe, [])]
    xs = [tuple(e["x"]) for e in o]
    if len(set(xs)) != len(xs) and any(u > l for l, u in zip(st.lb, st.ub)):
        out.append(("C14", "repeated", "the design of experiments evaluates a design twice"))
    strat = (inc["plan"].get("doetype") or "").lower()
    if strat == "lhs" and len(o) == n:
        for j in range(st.dim):
            w = (st.ub[j] - st.lb[j]) / n
            q = [(x[j] - st.lb[j]) / w for x in xs]
            if any(abs(v - round(v)) < 1e-9 for v in q):
                continue
            s = sorted(int(math.floor(v)) for v in q)
            if s != list(range(n)):
                out.append(("C14", "latin", "parameter %d: the %d slices of the range hold %s designs" % (j, n, [s.count(i) for i in range(n)])))
                break
    complete = bool(rest) or (h.end == "exit" and h.code == 0) or any(e["t"] == "trainstart" for e in h.events)
    if complete and not fails:
        if len(o) != n:
            out.append(("C14", "count", "%d evaluations of the objective instead of %d" % (len(o), n)))
        for f in st.fns[1:]:
            c = by[f["exe"]]
            if sorted(tuple(e["x"]) for e in c) != sorted(xs):
                out.append(("C14", "constraint-designs", "%s is not evaluated once at each of the %d designs (%d evaluations)" % (f["name"], n, len(c))))
    # what is recorded
    for f in st.fns:
        ev = [e for e in by[f["exe"]] if not failed(e)]
        text = after.get(f["train"])
        rows, bad, _ = numeric_rows(text, st.dim + 1)
        if complete:
            if text is None or bad:
                out.append(("C14", "file", "%s: %s" % (f["train"], bad or "missing")))
                continue
        wanted = [list(e["x"]) + [e["y"]] for e in ev]
        left = list(wanted)
        for r in rows:
            hit = [w for w in left if all(near(a, b) for a, b in zip(r, w))]
            if hit:
                left.remove(hit[0])
            elif h.before.get(f["train"]) is None:
                out.append(("C14", "row-not-evaluated", "%s: row %s is no evaluation of the design of experiments" % (f["train"], vals(r))))
                out.append(("C01", "row-not-evaluated", out[-1][2]))
                break
        if complete and left and not fails:
            out.append(("C14", "row-missing", "%s: no row for %s" % (f["train"], left[0])))
    # crash: every objective value but the last one evaluated has been saved
    if h.end == "crash" and not complete and not rest and not fails and len(o) > 1 and h.before.get(st.spec["obj"]["train"]) is None:
        t = after.get(st.spec["obj"]["train"])
        rows, bad, _ = numeric_rows(t, st.dim + 1)
        done = [list(e["x"]) + [e["y"]] for e in o[:-1]]
        for w in done:
            if not any(all(near(a, b) for a, b in zip(r, w)) for r in rows):
                out.append(("C03", "doe-sample-lost", "the sample %s, saved before, is lost after the crash" % w))
                break
    if fails:
        e = fails[0]
        if e["exe"] == st.spec["obj"]["exe"]:
            for f in st.fns:
                for r in rows_of(after.get(f["train"]))[0]:
                    if r[0] and all(near(a, b) for a, b in zip(r[0], e["x"])):
                        out.append(("C02", "failed-design-recorded", "%s holds a row for the design at which %s failed (%s): %r" % (f["train"], e["exe"], why(e), r[1])))
                        break
        else:
            f = st.byexe[e["exe"]]
            for r in rows_of(after.get(f["train"]))[0]:
                if r[0] and all(near(a, b) for a, b in zip(r[0], e["x"])):
                    out.append(("C02", "failed-design-recorded", "%s holds a row for the design at which it failed (%s): %r" % (f["train"], why(e), r[1])))
                    break
        if not rest and h.before.get("optimizationHistory.csv") != after.get("optimizationHistory.csv"):
            out.append(("C02", "history-changed", "the history was written after %s failed" % e["exe"]))
    return out
