"""Oracle for tests of a surrogate model: training file and test file in, a table of predictions out (C23)."""
import re
import kriging
from simlib import field, near, snap_before
from oracle import numeric_rows, vals
from j_ea import hurts

RESULT = "surrogateTestResults.csv"


def held_in(rows, flat, lb, ub):
    """the rows of the file a model rests on, given its scaled inputs"""
    d, out, left = len(lb), [], list(rows)
    for i in range(0, len(flat), d):
        z = flat[i:i + d]
        m = next((r for r in left if all(abs((vals(r)[j] - lb[j]) / (ub[j] - lb[j]) / d - z[j]) <= 1e-9 for j in range(d))), None)
        if m is None:
            return None
        left.remove(m)
        out.append(m)
    return out


def check(study, hs):
    out = []
    for k, h in enumerate(hs):
        for p, s, m in check_inc(study["incs"][k], h):
            out.append((p, s, "start %d: %s" % (k + 1, m)))
    return out


def check_inc(inc, h):
    plan, out = inc["plan"], []
    dim = int(plan["dim"])
    lb = [float(v) for v in str(plan["lb"]).split(",")]
    ub = [float(v) for v in str(plan["ub"]).split(",")]
    faults = [f for f in h.faults if hurts(f)]
    if h.end in ("signal", "terminate", "died", "hang", "deadlock", "steplimit"):
        oom = any(f["kind"] == "oom" for f in faults)
        if not (oom and h.end == "terminate"):
            return [("C23", "ends-" + h.end, "ends abnormally (%s %s)" % (h.end, h.what[:200]))]
        return out
    ops, cur, full = [], None, False
    for i, e in enumerate(h.events):
        t = e["t"]
        if t == "mop":
            cur = {"i": i, "op": e["op"].split(" "), "ok": None, "faults": 1 if full else 0}
            ops.append(cur)
        elif cur is None:
            continue
        elif t == "fault" and hurts(e):
            cur["faults"] += 1
            full = full or e["kind"] == "full"
        elif t == "mopres":
            cur["ok"], cur["err"] = bool(e["ok"]), e["err"]
        elif t in ("testref", "testreferr"):
            cur[t] = e
    has, model, ratios, var, train, test = False, None, {}, 0, "train.csv", "test.csv"
    said = re.findall(r"Generalization error \(MSE\) : (\S+)", h.out)
    nrun = 0
    for n, o in enumerate(ops):
        w = o["op"]
        if o["ok"] is None:
            break
        files = snap_before(h, o["i"])
        after = snap_before(h, ops[n + 1]["i"]) if n + 1 < len(ops) else h.end_files
        what = "run %d (%s model, %s on %s)" % (nrun + 1, model, train, test)
        for name in set(files) | set(after):
            if name != RESULT and not name.endswith(".log") and not name.startswith(RESULT) and files.get(name) != after.get(name):
                return [("C23", "file-changed", "%s changes %s" % (" ".join(w), name))]
        if w[0] != "run":
            if w[0] == "new":
                has, model, ratios, var, train, test = o["ok"], None, {}, 0, "train.csv", "test.csv"
            elif w[0] == "model" and o["ok"]:
                model = w[1]
            elif w[0] == "variances":
                var = int(w[1])
            elif w[0] == "ratio":
                r = float(w[1])
                if o["ok"] and not (0 <= r <= 1):
                    return [("C23", "ratio", "a fraction of %s of the samples is accepted for validation" % w[1])]
                if o["ok"] and model is None:
                    return [("C23", "order", "a fraction of validation samples is accepted before there is a model")]
                if not o["ok"] and 0 <= r <= 1 and model and not o["faults"]:
                    return [("C23", "error", "%s fails without any reason: %s" % (" ".join(w), o["err"]))]
                if o["ok"]:
                    ratios[model == "linear"] = r
            elif w[0] == "train" and o["ok"]:
                train = w[1]
            elif w[0] == "test" and o["ok"]:
                test = w[1]
            if files.get(RESULT) != after.get(RESULT):
                return [("C23", "file-changed", "%s changes %s" % (" ".join(w), RESULT))]
            continue
        nrun += 1
        ratio = ratios.get(model == "linear", 0.0)
        t0, r0 = files.get(train), files.get(test)
        comma = any(l.rstrip().endswith(",") for l in (r0 or "").split("\n"))
        if comma:
            # a comma with nothing behind it may count as the end of the row, or as damage
            r0 = "\n".join(l.rstrip()[:-1] if l.rstrip().endswith(",") else l for l in r0.split("\n"))
        rows, bad, _ = numeric_rows(t0, dim + 1)
        blank = any(not l.strip() for t in (t0, r0) for l in (t or "").rstrip("\n").split("\n")) or any((t or "").endswith("\n\n") for t in (t0, r0))
        blank = blank or comma
        bad = bad or (None if rows else "empty") if t0 is not None else "missing"
        trows, tbad, _ = numeric_rows(r0, dim + 1)
        values = True
        if tbad or not trows:
            q, qbad, _ = numeric_rows(r0, dim)
            if q and not qbad:
                trows, tbad, values = q, None, False
        tbad = tbad or (None if trows else "empty") if r0 is not None else "missing"
        if not o["ok"]:
            if has and model and not bad and not tbad and not o["faults"] and not blank and len(rows) >= dim + 2 and not (model == "linear" and var) and len(rows) - int(ratio * len(rows)) >= dim + 2:
                return [("C23", "refused", "%s fails without any reason: %s" % (what, o["err"][:200]))]
            if files.get(RESULT) != after.get(RESULT) and not o["faults"]:
                return [("C23", "file-changed", "%s fails, but changes %s" % (what, RESULT))]
            continue
        if model is None:
            return [("C23", "order", "a test runs without a model")]
        if bad:
            return [("C23", "damaged-data", "%s succeeds although %s is %s" % (what, train, bad))]
        if tbad:
            return [("C23", "damaged-data", "%s succeeds although %s is %s" % (what, test, tbad))]
        # ---- the table
        text = after.get(RESULT)
        if text is None:
            return [("C23", "no-results", "%s reports success, but there is no %s" % (what, RESULT))]
        lines = text.split("\n")
        if lines[-1] != "":
            return [("C23", "incomplete", "%s: the last line of %s is cut" % (what, RESULT))]
        lines = lines[:-1]
        width = dim + 1 + (2 if values else 0) + (1 if var else 0)
        head = lines[0].split(",") if lines else []
        if len(head) != width or any(field(c) is not None for c in head):
            return [("C23", "header", "%s: the header of %s is %r, the table needs %d columns" % (what, RESULT, lines[:1], width))]
        if len(lines) - 1 != len(trows):
            return [("C23", "rows", "%s: %s has %d rows for %d test samples" % (what, RESULT, len(lines) - 1, len(trows)))]
        ref = o.get("testref")
        used = rows
        if ref and model == "linear" and ratio > 0:
            used = held_in(rows, ref["rows"], lb, ub)
            if used is None or len(used) != len(rows) - int(ratio * len(rows)):
                return [("C23", "held-out", "%s: with a fraction %g held out of %d samples the model rests on %d rows%s" % (what, ratio, len(rows), len(ref["rows"]) // dim, "" if used else ", not all of them samples"))]
        ys = [vals(r)[-1] for r in used]
        sc = max(ys) - min(ys) + 1e-3 * max(abs(v) for v in ys) + 1e-12
        lin = kriging.linear([vals(r) for r in used], lb, ub) if model == "linear" and (ref or ratio == 0) else None
        own = kriging.of_rows([vals(r) for r in rows], [vals(t) for t in trows], lb, ub, ref["h"], model == "universal") if ref and model != "linear" else None
        tot, tol = 0.0, 0.0
        for i, l in enumerate(lines[1:]):
            f = [field(c) for c in l.split(",")]
            if len(f) != width or any(c is None for c in f):
                return [("C23", "row", "%s: row %d of %s is %r" % (what, i + 1, RESULT, l[:100]))]
            t = trows[i]
            for j in range(dim):
                if not abs(f[j][0] - t[j][0]) <= f[j][1] + 1e-12 * abs(t[j][0]):
                    return [("C23", "sample", "%s: row %d of %s is for %s, the test sample is %s" % (what, i + 1, RESULT, [c[0] for c in f[:dim]], vals(t)[:dim]))]
            est = f[dim]
            want, wt = None, None
            if lin:
                want, wt = lin(vals(t)), 1e-6 * sc
            elif ref and i < len(ref.get("f", [])):
                want, wt = ref["f"][i], 1e-5 * sc
            if want is not None and want == want and not abs(est[0] - want) <= est[1] + wt + 1e-6 * abs(want):
                return [("C23", "estimate", "%s: the estimate for test sample %d is %r, the model trained on %s predicts %r" % (what, i + 1, est[0], train, want))]
            if own and not abs(est[0] - own[i][0]) <= est[1] + 1e-6 * sc + 30 * own[i][1] + 1e-6 * abs(own[i][0]):
                return [("C23", "estimate", "%s: the estimate for test sample %d is %r, the Kriging predictor with the hyper-parameters found gives %r (+-%.1g)" % (what, i + 1, est[0], own[i][0], own[i][1]))]
            k = dim + 1
            if values:
                y, sq = f[k], f[k + 1]
                if not abs(y[0] - t[-1][0]) <= y[1] + 1e-12 * abs(y[0]):
                    return [("C23", "value", "%s: row %d of %s gives the value %r, the test sample has %r" % (what, i + 1, RESULT, y[0], t[-1][0]))]
                e = abs(est[0] - t[-1][0])
                lim = sq[1] + est[1] * (2 * e + est[1]) + 1e-9 * sq[0] + 1e-12 * (abs(est[0]) + e) ** 2
                if not abs(sq[0] - e * e) <= lim:
                    return [("C23", "error-column", "%s: row %d of %s has the squared error %r for %r and %r" % (what, i + 1, RESULT, sq[0], est[0], y[0]))]
                tot, tol = tot + sq[0], tol + sq[1] + 1e-9 * sq[0]
                k += 2
            if var:
                v = f[k]
                want = ref["v"][i] if ref and i < len(ref.get("v", [])) else None
                if want is not None and want == want and not abs(v[0] - want) <= v[1] + 1e-5 * sc * sc + 1e-6 * abs(want):
                    return [("C23", "variance", "%s: the variance for test sample %d is %r, the model trained on %s has %r" % (what, i + 1, v[0], train, want))]
                if own and not abs(v[0] - own[i][2]) <= v[1] + 1e-6 * own[i][4] + 30 * own[i][3] + 1e-5 * abs(own[i][2]):
                    return [("C23", "variance", "%s: the variance for test sample %d is %r, the Kriging predictor with the hyper-parameters found gives %r (+-%.1g)" % (what, i + 1, v[0], own[i][2], own[i][3]))]
        if values and len(said) >= 1 and len(said) == sum(1 for q in ops if q["op"][0] == "run" and q["ok"]):
            g = field(said[sum(1 for q in ops[:n] if q["op"][0] == "run" and q["ok"])])
            if g is None or not abs(g[0] - tot / len(trows)) <= g[1] + tol / len(trows):
                return [("C23", "generalization-error", "%s: the generalisation error reported is %r, the mean of the squared errors %r" % (what, g and g[0], tot / len(trows)))]
        if ref:
            mine = [lin(vals(r)) for r in used] if lin else ref.get("train")
            if mine and len(mine) == len(used):
                e = sum((a - b) ** 2 for a, b in zip(mine, ys)) / len(ys)
                if ref["insample"] is None or not abs(ref["insample"] - e) <= 1e-4 * e + 1e-9 * sc * sc + 1e-5 * sc * e ** 0.5:
                    return [("C23", "in-sample-error", "%s: the error on the training samples is given as %r, it is %r" % (what, ref["insample"], e))]
    return out
