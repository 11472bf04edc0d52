"""Oracle for the life cycle of one Kriging model (C07, C08, C15, C17)."""
import kriging
from simlib import field, near, snap_before
from oracle import numeric_rows, vals, dup
from j_ea import hurts


def vector_file(text):
    """(fields, defect or None) of a file with one number per line"""
    if text is None:
        return None, "missing"
    lines = text.split("\n")
    if lines[-1] == "":
        lines = lines[:-1]
    if not lines:
        return None, "empty"
    f = [field(l) for l in lines]
    if any(x is None for x in f):
        return None, "not numeric"
    return f, None


def held_out_error(flat, rows, plan, tr, dim):
    """the validation error training reports for its best hyper-parameters, against the mean distance of the held-out samples from predictions computed here"""
    held = [flat[i:i + dim + 1] for i in range(0, len(flat), dim + 1)]
    used = list(rows)
    for r in held:
        m = next((u for u in used if all(abs(a - b) <= 1e-9 * abs(a) + 1e-300 for a, b in zip(u, r))), None)
        if m is None:
            return None if len(used) < len(rows) else "holds out %s, which is no sample of the file" % r
        used.remove(m)
    if len(used) < 2 or len(used) > 30 or tr["best"] is None or tr["best"] > 1e300:
        return None
    lb, ub = ([float(v) for v in str(plan[b]).split(",")] for b in ("lb", "ub"))
    own = kriging.of_rows(used, held, lb, ub, tr["arg"], bool(int(plan.get("universal", 0))), False, rows)
    if not own:
        return None
    err = sum(abs(o[0] - r[-1]) for o, r in zip(own, held)) / len(held)
    tol = 1e-6 * own[0][4] ** 0.5 + 30 * max(o[1] for o in own) + 1e-6 * max(abs(r[-1]) for r in rows)
    if abs(err - tr["best"]) <= tol:
        return None
    return "an error of %r on the %d held-out samples is reported for the hyper-parameters %s, it is %r (+-%.1g)" % (tr["best"], len(held), tr["arg"], err, tol)


def check(study, hs):
    out = []
    for k, h in enumerate(hs):
        for p, s, m in check_inc(study, study["incs"][k], h):
            out.append((p, s, "start %d: %s" % (k + 1, m)))
    return out


def races(h):
    out = []
    for r in h.races[:3]:
        out.append(("C07", "race", "threads %s and %s access the same memory without synchronisation at %s (%s) and %s (%s)" % (r["t1"], r["t2"], r["pc1"], "write" if r["w1"] else "read", r["pc2"], "write" if r["w2"] else "read")))
    return out


def check_inc(study, inc, h):
    plan, out = inc["plan"], []
    dim = int(plan["dim"])
    file, hfile = plan.get("file", "train.csv"), plan.get("hfile", "hyp.csv")
    ratio, reduced, trained_with = float(plan.get("ratio", 0)), 0, 0
    faults = [f for f in h.faults if hurts(f)]
    out += races(h)
    if h.end in ("signal", "terminate", "died", "hang", "deadlock", "steplimit"):
        oom = any(f["kind"] == "oom" for f in faults)
        if not (oom and h.end == "terminate"):
            out.append(("C07", "ends-" + h.end, "ends abnormally (%s %s)" % (h.end, h.what[:200])))
            out.append(("C08" if study.get("main") == "C08" else "C15" if study.get("main") == "C15" else "C17", "ends-" + h.end, out[-1][2]))
        return out
    ops, cur, full = [], None, False      # a full disk stays full
    for i, e in enumerate(h.events):
        t = e["t"]
        if t == "mop":
            cur = {"i": i, "op": e["op"].split(" "), "ok": None, "faults": 1 if full else 0, "preds": {}}
            ops.append(cur)
        elif cur is None:
            continue
        elif t == "fault" and hurts(e):
            cur["faults"] += 1
            full = full or e["kind"] == "full"
        elif t == "mopres":
            cur["ok"], cur["err"] = bool(e["ok"]), e["err"]
        elif t == "pred":
            cur["preds"][e["tag"]] = e
        elif t == "prederr":
            cur["preds"][e["tag"]] = {"err": e["err"]}
        elif t in ("trained", "like", "hyper", "held"):
            cur[t] = e
    last_train, last_h, saved = None, None, study.get("saved_h")
    valid = False
    counts = {}
    for n, o in enumerate(ops):
        w = o["op"][0]
        if o["ok"] is None:
            break
        files = snap_before(h, o["i"])
        after = snap_before(h, ops[n + 1]["i"]) if n + 1 < len(ops) else h.end_files
        hyp = o.get("hyper", {}).get("h")
        t0, t1 = files.get(file), after.get(file)
        r0, b0, _ = numeric_rows(t0, dim + 1)
        blank = any(not l.strip() for l in (t0 or "").rstrip("\n").split("\n"))
        r1, b1, _ = numeric_rows(t1, dim + 1)
        usable = t0 is not None and not b0 and len(r0) > 0
        few = ratio > 0 and len(r0) - int(ratio * len(r0)) < dim + 2
        if w == "open":
            valid = o["ok"]
            if o["ok"] and (t0 is None or b0 or not r0):
                out.append(("C15", "damaged-data", "opens %s although it is %s" % (file, b0 or "missing or empty")))
                return out
            if not o["ok"] and usable and not o["faults"] and not blank and len(r0) >= dim + 2 and not few:
                out.append(("C15", "refused", "refuses the training file: %s" % o["err"]))
                return out
            counts = {}
        elif not valid:
            continue
        # ---- the training file
        if w != "add" and t0 != t1:
            out.append(("C08" if w.startswith("train") or w.startswith("warm") else "C15", "data-changed", "%s changes the training file" % w))
            return out
        if w == "add":
            want = [float(v) for v in o["op"][1].split(",")]
            isdup = any(dup(want, vals(r)) for r in r0)
            grown = len(r1) - len(r0)
            kept = [vals(r) for r in r1[:len(r0)]] == [vals(r) for r in r0] and not b1
            new = r1[len(r0)] if grown == 1 else None
            whole = new is not None and all(near(f, v) for f, v in zip(new, want))
            if not kept or grown not in (0, 1) or (grown == 1 and not whole):
                out.append(("C15", "file-damaged", "adding %s leaves %d rows instead of %d, or changed ones" % (want, len(r1), len(r0) + 1)))
                return out
            if o["ok"] and grown == 0 and not isdup:
                out.append(("C15", "sample-not-in-file", "the added sample %s is not in %s" % (want, file)))
                return out
        # ---- the model against the file
        if not o["ok"]:
            if w in ("add", "update", "hyper", "train") and not o["faults"] and not few:
                out.append(("C08" if w == "train" else "C15", "error", "%s fails without any reason: %s" % (w, o["err"][:200])))
                return out
            if w in ("add", "update", "train", "open"):
                valid = False
        # samples held out for validation: while the model has not been trained
        if w == "train" and o["ok"]:
            trained_with, reduced = reduced, 0
        elif w == "open" or w == "update" or w == "add" and len(r1) > len(r0):
            reduced = int(ratio * len(r1)) if o["ok"] else reduced
        elif w in ("warm", "warmsave") and o["ok"]:
            reduced = 0
        use, fresh = o["preds"].get("use"), o["preds"].get("fresh")
        if valid and use is not None and o["ok"]:
            if "err" in use:
                out.append(("C15", "no-prediction", "no prediction after %s: %s" % (w, use["err"])))
                return out
            if reduced and use["samples"] != len(r1) - reduced:
                out.append(("C15", "samples", "after %s the model uses %d samples, the file holds %d, and %d of them are held out" % (w, use["samples"], len(r1), reduced)))
                return out
            if fresh is not None and "err" not in fresh and not reduced:
                if use["samples"] != fresh["samples"] or use["samples"] != len(r1):
                    out.append(("C15", "samples", "after %s the model uses %d samples, the file holds %d" % (w, use["samples"], len(r1))))
                    return out
                ys = [r[-1][0] for r in r1]
                sc = max(ys) - min(ys) + 1e-3 * max(abs(v) for v in ys) + 1e-12
                for q, (a, b) in enumerate(zip(use["p"], fresh["p"])):
                    s = sc if q % 3 < 2 else sc * sc
                    if (a is None) != (b is None) or (a is not None and a == a and not abs(a - b) <= 1e-5 * s + 1e-7 * abs(b)):
                        out.append(("C15", "prediction", "after %s the model predicts %r, a model built from the file with the same hyper-parameters %r" % (w, a, b)))
                        return out
            if hyp and 2 <= len(r1) <= 30 and not reduced and not b1 and "err" not in use:
                own = kriging.of_rows([vals(r) for r in r1], [[(0.137 + 0.293 * a + 0.171 * j) % 1.0 / dim for j in range(dim)] for a in range(6)], *[[float(v) for v in str(plan[b]).split(",")] for b in ("lb", "ub")], hyp, bool(int(plan.get("universal", 0))), True)
                for q in range(6 if own else 0):
                    bad = kriging.wrong(use["p"][3 * q], None, own[q]) or kriging.wrong(use["p"][3 * q + 1], use["p"][3 * q + 2], own[q])
                    if bad:
                        out.append(("C15", "predictor", "after %s the model %s, computed from the file and its hyper-parameters" % (w, bad)))
                        return out
        # ---- training
        if w == "train" and o["ok"]:
            tr = o["trained"]
            hh = tr["h"]
            for j, v in enumerate(hh):
                lo, hi = (0, 20) if j < dim else (1, 2)
                if v is None or not (lo <= v <= hi):
                    out.append(("C08", "outside-bounds", "hyper-parameter %d is %r" % (j, v)))
                    return out
            if len(hh) != 2 * dim:
                out.append(("C08", "hyper-parameters", "%d hyper-parameters in %d dimensions" % (len(hh), dim)))
                return out
            if tr["out"]:
                out.append(("C08", "candidate-outside", "%d candidates lie outside the bounds of the hyper-parameters" % tr["out"]))
                return out
            key = (tuple(o["op"]), len(r1))
            if tr["n"] and counts.setdefault(key, tr["n"]) != tr["n"]:
                out.append(("C08", "less-training", "%s examines %d candidates, the same training examined %d before" % (" ".join(o["op"]), tr["n"], counts[key])))
                return out
            last_train = (n, tr)
            if tr["n"] and tr["best"] is not None and not trained_with == len(r1) and not tr["kept"] <= tr["best"] + 1e-6 * max(1, abs(tr["best"])) * (not trained_with) + 1e-9 * abs(tr["best"]):
                out.append(("C08", "not-the-best", "after training with %d candidates the model keeps hyper-parameters %s, %s, although %s one candidate had was %r" % (tr["n"], hh, "which were none of them" if tr["kept"] != tr["kept"] else "whose %s is %r" % ("error on the validation samples" if trained_with else "negative log-likelihood", tr["kept"]), "the least" if trained_with else "what", tr["best"])))
                return out
            if trained_with and tr["n"] and o.get("held", {}).get("rows") and not b1:
                bad = held_out_error(o["held"]["rows"], [vals(r) for r in r1], plan, tr, dim)
                if bad:
                    out.append(("C08", "validation-error", bad))
                    return out
        if w == "like" and o["ok"] and last_train and last_train[0] == n - 1 and not trained_with and last_train[1]["n"] and last_train[1]["best"] is not None:
            best, l = -last_train[1]["best"], o["like"]["v"]
            if l is None or not (l >= best - 1e-6 * max(1, abs(best))):
                out.append(("C08", "not-the-best", "after training with %d candidates the model has log-likelihood %r although one candidate had %r" % (last_train[1]["n"], l, best)))
                return out
        # ---- hyper-parameter files
        ht = files.get(hfile)
        f, bad = vector_file(ht)
        if not bad and len(f) != 2 * dim:
            bad = "%d entries instead of %d" % (len(f), 2 * dim)
        if w in ("load", "warm"):
            if bad and o["ok"] and last_h is not None and hyp != last_h:
                out.append(("C17", "damaged-used", "%s changes the hyper-parameters although %s is %s" % (w, hfile, bad)))
                return out
            if bad and not o["ok"] and last_h is not None and hyp is not None and hyp != last_h:
                out.append(("C17", "damaged-used", "%s fails because %s is %s, but changes the hyper-parameters" % (w, hfile, bad)))
                return out
            if not bad:
                if not o["ok"] and not o["faults"]:
                    out.append(("C17", "refused", "%s refuses the complete file %s: %s" % (w, hfile, o["err"])))
                    return out
                if o["ok"] and (hyp is None or len(hyp) != 2 * dim or not all(v is not None and near(a, v) for a, v in zip(f, hyp))):
                    out.append(("C17", "different", "%s gives %s, the file holds %s" % (w, hyp, [a[0] for a in f])))
                    return out
        if w in ("save", "warmsave") and o["ok"]:
            f, bad = vector_file(after.get(hfile))
            if not bad and len(f) != 2 * dim:
                bad = "%d entries instead of %d" % (len(f), 2 * dim)
            if bad:
                out.append(("C17", "incomplete-written", "%s reports success but %s is %s" % (w, hfile, bad)))
                return out
            if hyp is not None and not all(abs(a[0] - v) <= 1e-5 * abs(v) + 1e-15 for a, v in zip(f, hyp)):
                out.append(("C17", "different-written", "%s writes %s for the hyper-parameters %s" % (w, (after.get(hfile) or "").split(), hyp)))
                return out
        if w in ("save", "warmsave") and not o["ok"] and not o["faults"]:
            out.append(("C17", "error", "%s fails without any reason: %s" % (w, o["err"][:200])))
            return out
        if hyp is not None:
            last_h = hyp
    return out
