"""Oracle for histories of the evolutionary optimiser (C13, C16).

Works on what an application sees: objective calls, the population and solution after each operation, and the
warm-start files; plus the injected faults.
"""
import math
from simlib import field, near, snap_before

FIXED = 5       # columns before the genes


def parse(text, dim):
    """(rows [(id, y, [genes])], defect or None) of a warm-start file as its documentation (the header) describes it"""
    if text is None:
        return None, "missing"
    lines = text.split("\n")
    if lines[-1] != "":
        return None, "last row cut"
    lines = lines[:-1]
    if not lines:
        return None, "empty"
    rows = []
    for l in lines[1:]:
        w = l.split(",")
        if len(w) < FIXED + dim or any(not x.strip() for x in w):
            return None, "row with missing values: %r" % l[:100]
        f = [field(x) for x in w]
        if any(v is None for v in f):
            return None, "row that is not numeric: %r" % l[:100]
        rows.append((int(f[0][0]), f[1], f[FIXED:FIXED + dim]))
    return rows, None


def hurts(f):
    return f["kind"] not in ("short", "clock", "eintr")


def whole(text):
    """not cut between two rows: the probabilities in the file add up to one"""
    rows = [l.split(",") for l in text.split("\n")[1:] if l.strip()]
    return all(abs(sum(float(r[c]) for r in rows) - 1) < 1e-6 for c in (3,))


def check(study, hs):
    out = []
    for k, h in enumerate(hs):
        for p, s, m in check_inc(study["incs"][k], h):
            out.append((p, s, "start %d: %s" % (k + 1, m)))
    return out


def check_inc(inc, h):
    plan, out = inc["plan"], []
    dim = int(plan["dim"])
    lb = [float(v) for v in str(plan["lb"]).split(",")]
    ub = [float(v) for v in str(plan["ub"]).split(",")]
    gen = {k: int(plan.get(k, d)) for k, d in (("init", 10), ("newind", 10), ("deaths", 10), ("gens", 3), ("maxeval", 100))}
    faults = [f for f in h.faults if hurts(f)]
    if h.end in ("signal", "terminate", "died", "hang", "steplimit"):
        oom = any(f["kind"] == "oom" for f in faults)
        if not (oom and h.end == "terminate"):
            out.append(("C13", "ends-" + h.end, "ends abnormally (%s %s)" % (h.end, h.what[:200])))
        return out
    evals, loaded, known = [], [], True      # everything the current population may stem from
    base = []       # evaluations that count for "never better"
    ops = []
    cur = None
    full = False    # a full disk stays full
    for i, e in enumerate(h.events):
        t = e["t"]
        if t == "mop":
            cur = {"i": i, "op": e["op"].split(" "), "evals": [], "faults": 1 if full else 0, "ok": None}
            ops.append(cur)
        elif cur is None:
            continue
        elif t == "ea":
            cur["evals"].append(e)
            for j in range(dim):
                if not (lb[j] <= e["x"][j] <= ub[j]):
                    out.append(("C13", "outside-bounds", "operation %s evaluates gene %d = %r outside [%r, %r]" % (cur["op"], j, e["x"][j], lb[j], ub[j])))
                    return out
        elif t == "fault" and hurts(e):
            cur["faults"] += 1
            full = full or e["kind"] == "full"
        elif t == "mopres":
            cur["ok"], cur["err"] = bool(e["ok"]), e["err"]
        elif t in ("pop", "popdump", "poperr"):
            cur[t] = e
    for n, o in enumerate(ops):
        w = o["op"][0]
        if o["ok"] is None:
            break           # died in here
        fname = o["op"][1] if len(o["op"]) > 1 else "warm.csv"
        files = snap_before(h, o["i"])
        nxt = [j for j, f in h.snaps if j > o["i"]]
        after = snap_before(h, ops[n + 1]["i"]) if n + 1 < len(ops) else h.end_files
        frows, fbad = parse(files.get(fname), dim)
        evs = [(e["x"], e["y"]) for e in o["evals"]]
        if w == "new":
            evals, loaded, base, known = [], [], [], True
        elif w in ("init", "optimize", "reset"):
            evals, loaded, base, known = list(evs), [], [e[1] for e in evs], o["ok"]
        elif w in ("read", "warm"):
            if fbad and o["ok"]:
                out.append(("C16", "damaged-accepted", "%s uses %s, which is incomplete: %s" % (w, fname, fbad)))
                return out
            if fbad and evs:
                out.append(("C16", "damaged-optimised", "%s evaluates individuals although %s is incomplete: %s" % (w, fname, fbad)))
                return out
            if not fbad and not o["ok"] and not o["faults"] and len(frows) >= 2 and whole(files.get(fname)):
                out.append(("C16", "refused", "%s refuses the complete file %s: %s" % (w, fname, o["err"])))
                return out
            known = o["ok"]
            if not fbad:
                loaded = list(frows)
                evals, base = list(evs), [e[1] for e in evs] + [r[1][0] for r in frows]
        else:
            evals += evs
            base += [e[1] for e in evs]
            if not o["ok"]:
                known = known and w == "write"
        if not o["ok"]:
            if w in ("init", "optimize", "gen") and not o["faults"] and (w != "gen" or n and ops[n - 1]["ok"] and ops[n - 1]["op"][0] not in ("new", "reset") and known):
                out.append(("C13", "error", "%s fails without any reason: %s" % (w, o["err"][:200])))
                return out
            continue
        # ---- C16: what was written
        if w == "write":
            t = after.get(fname)
            rows, bad = parse(t, dim)
            if bad:
                out.append(("C16", "incomplete-written", "write reports success but %s is incomplete: %s" % (fname, bad)))
                return out
            pop = o.get("pop", {}).get("size")
            if pop is not None and known and len(rows) != pop:
                out.append(("C16", "not-all-written", "%s holds %d of %d individuals" % (fname, len(rows), pop)))
                return out
            if known:
                out += members(rows, evals, loaded, lb, ub, "C16", "%s after write" % fname)
                if out:
                    return out
                # nothing of the population may be missing: same individuals as in memory
                d = o.get("popdump")
                if d:
                    out += same(parse(d["csv"], dim)[0], rows, "C16", "%s differs from the population" % fname)
                    if out:
                        return out
        # ---- budget
        if w in ("optimize", "warm"):
            first = gen["init"] if w == "optimize" else 0
            lim = max(gen["maxeval"], first) + gen["newind"]
            lim = min(lim, first + gen["gens"] * gen["newind"])
            if len(evs) > lim:
                out.append(("C13", "over-budget", "%s makes %d evaluations (initial population %d, budget %d, %d generations of %d)" % (w, len(evs), first, gen["maxeval"], gen["gens"], gen["newind"])))
                return out
        if not known:
            continue
        # ---- the population
        p = o.get("pop")
        if "poperr" in o and w not in ("new", "reset"):
            out.append(("C13", "no-solution", "no solution after %s: %s" % (w, o["poperr"]["err"])))
            return out
        if p is None:
            continue
        if w in ("init", "optimize", "gen", "warm") and p["size"] < 1:
            out.append(("C13", "empty", "the population is empty after %s" % w))
            return out
        if w == "init" and p["size"] != gen["init"]:
            out.append(("C13", "initial-size", "the initial population has %d individuals instead of %d" % (p["size"], gen["init"])))
        if p["size"] < 1:
            continue
        if base and not (p["y"] <= min(base) + 1e-8 * abs(min(base)) * (1 if loaded else 0)):
            out.append(("C13", "best-lost", "after %s the best individual has value %r although %r was %s before" % (w, p["y"], min(base), "loaded" if loaded and min(r[1][0] for r in loaded) == min(base) else "evaluated")))
            if loaded and p["y"] > min(r[1][0] for r in loaded) * (1 + 0) + 1e-8 * abs(min(base)):
                out.append(("C16", "best-lost", out[-1][2]))
            return out
        mine = [e for e in evals if list(e[0]) == list(p["x"])]
        if mine:
            if all(e[1] != p["y"] for e in mine):
                out.append(("C13", "wrong-value", "after %s the reported value %r is not the objective %r at the reported genes" % (w, p["y"], mine[0][1])))
                return out
        elif not any(near(r[1], p["y"]) and all(near(f, v) for f, v in zip(r[2], p["x"])) for r in loaded):
            out.append(("C13", "never-evaluated", "after %s the reported individual %s -> %r was neither evaluated nor loaded" % (w, p["x"], p["y"])))
            return out
        d = o.get("popdump")
        if d:
            rows, bad = parse(d["csv"], dim)
            if bad:
                out.append(("C16", "dump", "the population is written incompletely: %s" % bad))
                return out
            ids = [r[0] for r in rows]
            if len(set(ids)) != len(ids):
                x = [i for i in ids if ids.count(i) > 1]
                out.append(("C13", "repeated-id", "after %s the ID %d belongs to %d individuals" % (w, x[0], ids.count(x[0]))))
                return out
            out += members(rows, evals, loaded, lb, ub, "C13", "population after %s" % w)
            if w == "read" and not fbad:
                out += same(frows, rows, "C16", "the population read from %s differs from the file" % fname)
            if out:
                return out
    return out


def members(rows, evals, loaded, lb, ub, prop, where):
    ev = sorted((list(e[0]), e[1]) for e in evals)
    import bisect
    for r in rows:
        ok, lack = False, None
        lo = bisect.bisect_left(ev, ([r[2][0][0] - r[2][0][1] * 1.01], -math.inf))
        for x, y in ev[lo:]:
            if x[0] > r[2][0][0] + r[2][0][1] * 1.01:
                break
            if all(near(f, v) for f, v in zip(r[2], x)) and near(r[1], y):
                few = [f for f, v in zip(list(r[2]) + [r[1]], list(x) + [y]) if abs(v) > 1e-200 and f[1] > 1e-7 * abs(v)]
                if few:
                    lack = few[0]
                    continue
                ok = True
                break
        if not ok:
            ok = any(abs(q[1][0] - r[1][0]) <= q[1][1] + r[1][1] and all(abs(a[0] - b[0]) <= a[1] + b[1] for a, b in zip(q[2], r[2])) for q in loaded)
        if not ok and lack:
            return [("C16", "digits", "%s: individual %d is written with %r only" % (where, r[0], lack[0]))]
        if not ok:
            return [(prop, "not-evaluated", "%s: individual %d with %s -> %r was neither evaluated nor loaded" % (where, r[0], [f[0] for f in r[2]], r[1][0]))]
    return []


def same(a, b, prop, what):
    if len(a) != len(b):
        return [(prop, "different-size", "%s: %d and %d individuals" % (what, len(a), len(b)))]
    db = {r[0]: r for r in b}
    for r in a:
        q = db.get(r[0])
        if q is None:
            return [(prop, "different-ids", "%s: individual %d is missing" % (what, r[0]))]
        if abs(r[1][0] - q[1][0]) > r[1][1] + q[1][1] or any(abs(x[0] - y[0]) > x[1] + y[1] for x, y in zip(r[2], q[2])):
            return [(prop, "different-values", "%s: individual %d" % (what, r[0]))]
    return []
