"""Which oracle reads which kind of study."""
import calendar, re, time
import oracle, j_ea, j_model, j_test, simlib


def study(s, hs):
    out = oracle.check_study(s, hs)
    for k, h in enumerate(hs):
        out += [(p, g, "start %d: %s" % (k + 1, m)) for p, g, m in j_model.races(h)]
    return out


# ---------------------------------------------------------------- C09
LOGS = ["driver.log", "optimization.log", "model.log", "objectives.log"]
LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
ENTRY = re.compile(r"^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) \[(\w+)\][^<]*(<m.*>)$")


def log(s, hs):
    out = []
    for k, h in enumerate(hs):
        v = [("C07", g, m) for p, g, m in j_model.races(h)]
        v += log_inc(h)
        out += [(p, g, "start %d: %s" % (k + 1, m)) for p, g, m in v]
        out += [("C09", g, "start %d: %s" % (k + 1, m)) for p, g, m in v if p == "C07"]
    return out


def log_inc(h):
    out = []
    if h.end not in ("exit", "crash"):
        return [("C07", "ends-" + h.end, "logging ends abnormally (%s: %s)" % (h.end, h.what[:200]))]
    jump = any(f["kind"] == "clock" for f in h.faults)
    msgs = {}
    for e in h.events:
        if e["t"] == "logmsg":
            msgs[e["m"]] = dict(e, done=None)
        elif e["t"] == "logdone":
            msgs[e["m"]]["done"] = e["now"]
    for l, name in enumerate(LOGS):
        a, b = h.before.get(name, ""), h.after.get(name, "")
        if not b.startswith(a):
            out.append(("C09", "earlier-lost", "%s no longer begins with what it held before" % name))
            continue
        lines = b[len(a):].split("\n")
        tail = lines.pop()
        if tail and h.end != "crash":
            out.append(("C09", "unfinished", "%s ends with an unfinished entry %r" % (name, tail[:100])))
        seen, last = {}, {}
        for line in lines:
            m = ENTRY.match(line)
            if not m:
                out.append(("C09", "not-an-entry", "%s: %r is not one whole entry" % (name, line[:160])))
                break
            t, lev, text = m.groups()
            e = msgs.get(text)
            if e is None or e["l"] != l:
                out.append(("C09", "unknown-message", "%s: %r was never given to it" % (name, text[:120])))
                break
            if text in seen:
                out.append(("C09", "twice", "%s: message %r appears twice" % (name, text[:60])))
                break
            seen[text] = 1
            if lev != LEVELS[e["lev"]]:
                out.append(("C09", "level", "%s: message %r has level %s instead of %s" % (name, text[:60], lev, LEVELS[e["lev"]])))
                break
            when = calendar.timegm(time.strptime(t, "%Y-%m-%d %H:%M:%S"))
            hi = e["done"] if e["done"] is not None else float("inf")
            if not jump and not (e["now"] <= when <= hi):
                out.append(("C09", "time", "%s: message %r, given between %d and %s, has the time stamp %s (%d)" % (name, text[:60], e["now"], hi, t, when)))
                break
            i = int(re.match(r"<m\d+\.\d+\.(\d+):", text).group(1))
            if i <= last.get(text.split(".")[1], -1):
                out.append(("C09", "order", "%s: message %r follows a later one of the same thread" % (name, text[:60])))
                break
            last[text.split(".")[1]] = i
        else:
            for text, e in msgs.items():
                if e["l"] == l and e["done"] is not None and text not in seen:
                    out.append(("C09", "lost", "%s: message %r is missing" % (name, text[:60])))
                    break
    return out


# ---------------------------------------------------------------- C19: configurations that have to be refused
def config(s, hs):
    out = []
    for k, h in enumerate(hs):
        what = s["what"]
        if h.evals:
            out.append(("C19", "evaluates", "evaluates %s although the configuration is not usable (%s)" % (h.evals[0]["exe"], what)))
        elif h.end == "exit" and h.code == 0:
            out.append(("C19", "accepted", "ends with status 0 although the configuration is not usable (%s)" % what))
        elif h.end != "exit":
            out.append(("C19", "ends-" + h.end, "ends abnormally (%s %s) for an unusable configuration (%s)" % (h.end, h.what[:150], what)))
        elif not (h.err.strip() or h.out.strip()):
            out.append(("C19", "silent", "no error message for an unusable configuration (%s)" % what))
        lost = [f for f in h.before if h.after.get(f) != h.before[f]]
        if lost:
            out.append(("C19", "changes-files", "changes %s although the configuration is not usable (%s)" % (lost[0], what)))
    return out


# ---------------------------------------------------------------- several studies in one process
def under(files, pre):
    return {n[len(pre):]: c for n, c in files.items() if n.startswith(pre)}


def part(h, a, b, pre, start, end, code, key):
    """the part of a process between two events, as if it were a process of its own in directory pre"""
    v = simlib.Hist()
    v.events = [{"t": "snap", "files": under(start, pre), "gone": []}]
    for e in h.events[a:b]:
        e = dict(e)
        if e["t"] == "snap":
            e["files"] = under(e["files"], pre)
            e["gone"] = [n[len(pre):] for n in e["gone"] if n.startswith(pre)]
        v.events.append(e)
    if code is not None:
        v.events.append({"t": "exit", "code": code})
    v.inc, v.rc, v.out, v.err, v.hash, v.wall = h.inc, h.rc, h.out, h.err, h.hash, h.wall
    simlib.digest(v)
    if code is None:
        v.end, v.code, v.what = h.end, h.code, h.what
    v.before, v.after = under(start, pre), under(end, pre)
    p = {k: x for k, x in h.inc["plan"].items() if not (k[:1] == "s" and k[1:2].isdigit() and "." in k)}
    if key:
        p = {"scenario": p["scenario"]}
    for k, x in h.inc["plan"].items():
        if key and k.startswith(key):
            p[k[len(key):]] = x
    return v, dict(h.inc, plan=p)


def multi(s, hs):
    """study["parts"]: per process, the studies it runs: [{"spec", "dir"}]"""
    out = []
    for k, h in enumerate(hs):
        ps = s["parts"][k]
        cuts = [i for i, e in enumerate(h.events) if e["t"] == "nextstudy"]
        codes = [h.events[i]["code"] for i in cuts]
        bounds = [0] + cuts + [len(h.events)]
        state = h.before
        byd = {}
        for j in range(len(bounds) - 1):
            last = j == len(bounds) - 2
            end = h.after if last else simlib.snap_before(h, bounds[j + 1])
            if not last and not any(x <= bounds[j + 1] for x, _ in h.snaps):
                end = state
            pre = ps[j]["dir"]
            pre = pre + "/" if pre else ""
            v, inc = part(h, bounds[j], bounds[j + 1], pre, state, end, None if last else codes[j], "s%d." % j if j else "")
            e = byd.setdefault(pre, {"judge": "study", "spec": None, "files": v.before, "incs": [], "hs": [], "variant": s.get("variant", "plain")})
            e["incs"].append(inc)
            e["hs"].append((ps[j]["spec"], v))
            for n in set(state) | set(end):
                if pre and not n.startswith(pre) and state.get(n) != end.get(n):
                    out.append(("C21", "other-study", "process %d: study %d in %s changes %s" % (k + 1, j + 1, pre, n)))
            state = end
        if len(bounds) - 1 != len(ps) and h.end == "exit":
            out.append(("C21", "not-run", "process %d ran %d of %d studies" % (k + 1, len(bounds) - 1, len(ps))))
        for pre, e in byd.items():
            hv = [x[1] for x in e["hs"]]
            e["spec"] = e["hs"][0][0]
            vs = oracle.check_study(e, hv)
            out += [(p, g, "process %d, studies in %s: %s" % (k + 1, pre or "the same directory", m)) for p, g, m in vs]
    return out


# ---------------------------------------------------------------- studies set up through the API
def setup(s, hs):
    """s["valid"]: True (runs as set up), False (must be refused), None (either)"""
    h = hs[0]
    refused = not h.evals and (h.end == "exit" and h.code != 0 or h.end == "terminate" or h.end == "signal" and h.what == "6")
    if s["valid"] is not False and not (s["valid"] is None and refused):
        return oracle.check_study(s, hs)
    if refused:
        changed = [n for n in set(h.before) | set(h.after) if h.before.get(n) != h.after.get(n)]
        if changed and s["valid"] is False:
            return [("C20", "changed", "%s: refused, but %s was changed" % (s["what"], sorted(changed)[0]))]
        return []
    if h.evals:
        return [("C20", "accepted", "%s: not refused, %s is evaluated" % (s["what"], h.evals[0]["exe"]))]
    return [("C20", "not-refused", "%s: ends with %s %s instead of an error" % (s["what"], h.end, h.code if h.end == "exit" else h.what[:100]))]


JUDGES = {"study": study, "ea": j_ea.check, "model": j_model.check, "test": j_test.check, "log": log, "config": config, "multi": multi, "setup": setup}
