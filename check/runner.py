"""Seeded search over simulated runs for one property: trials, confirmation, minimisation, replay, evidence."""
import copy, hashlib, json, os, random, re, sys, time, traceback
from collections import Counter
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import simlib  # noqa: E402

WORK = os.path.join(VERIF, "work")
FINDINGS = os.path.join(VERIF, "known_findings.txt")
WORKERS = 8


def judge(study, hs):
    """All violations of a study's histories, as the study's campaign reads them."""
    import judges
    vs = judges.JUDGES[study["judge"]](study, hs)
    ren = study.get("as", {})
    out = []
    for p, s, m in vs:
        out.append((p, s, m))
        for q in ren.get(p, []):
            out.append((q, s, m))
    return out


def run_and_judge(study, scratch):
    hs = simlib.run_study(study, scratch)
    return hs, judge(study, hs)


def known_findings(prop):
    """[(regular expression over 'signature: message', text)] of the listed, unrepaired findings"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def trial_rng(seed, prop, i):
    return random.Random(int.from_bytes(hashlib.sha256(("%d|%s|%d" % (seed, prop, i)).encode()).digest()[:8], "big"))


def collect(hs, st):
    st["incarnations"] += len(hs)
    for h in hs:
        st["simulated_seconds"] += int(h.stats.get("simsecs", 0))
        st["evaluations_served"] += len(h.evals)
        st["operations"] += int(h.stats.get("ops", 0))
        st["scheduling_steps"] += int(h.stats.get("steps", 0))
        st["context_switches"] += int(h.stats.get("switches", 0))
        st["parallel_regions"] += int(h.stats.get("regions", 0))
        st["end:" + h.end + ("" if h.end != "exit" else ":ok" if h.code == 0 else ":error")] += 1
        for f in h.faults:
            st["fault:%s@%s" % (f["kind"], f.get("op", ""))] += 1
        for e in h.evals:
            if e.get("fault"):
                st["fault:evaluator-" + e["fault"]] += 1
            if e.get("orphan"):
                st["fault:evaluator-outlives-crash"] += 1


def one_trial(a):
    prop, i, seed, tier = a
    import campaigns
    rng = trial_rng(seed, prop, i)
    st = Counter()
    t0 = time.time()
    try:
        with simlib.Scratch() as S:
            res = campaigns.CAMPAIGNS[prop](rng, S, tier, i)
            # a campaign returns the histories of every study it ran: [(study, hists)]
            viols, hashes, scheds, states, sample = [], [], [], [], None
            for study, hs in res:
                collect(hs, st)
                for h in hs:
                    hashes.append(h.hash)
                    if h.stats.get("sched"):
                        scheds.append(h.stats["sched"])
                    states.append(hashlib.sha256(json.dumps(sorted(h.after.items())).encode()).hexdigest()[:16])
                vs = [v for v in judge(study, hs) if v[0] == prop]
                if vs:
                    viols.append((study, vs, [h.hash for h in hs]))
                sample = {"trial": i, "incarnations": [{"seed": h.inc["seed"], "scenario": h.inc["plan"]["scenario"], "faults": [[f["kind"], f.get("op"), f.get("path")] for f in h.faults] + [["evaluator", e["fault"], e["exe"]] for e in h.evals if e.get("fault")], "evaluations": len(h.evals), "switches": h.stats.get("switches"), "end": h.end, "status": h.code, "history_hash": h.hash} for h in hs]}
            return {"i": i, "viols": viols, "hashes": hashes, "scheds": scheds, "states": states, "stats": st, "sample": sample, "wall": time.time() - t0, "nontrivial": any(h.evals or h.faults or h.stats.get("switches") or h.stats.get("regions") for _, hs in res for h in hs)}
    except Exception:
        return {"i": i, "error": traceback.format_exc()}


# ---------------------------------------------------------------- minimisation
def shows(study, prop, sig):
    with simlib.Scratch() as S:
        hs, vs = run_and_judge(study, S)
    return [v for v in vs if v[0] == prop and v[1] == sig], hs


def minimise(study, prop, sig, budget=60.0):
    t0 = time.time()
    best = copy.deepcopy(study)
    log = []

    def attempt(cand, what):
        nonlocal best
        if time.time() - t0 > budget:
            return False
        try:
            v, _ = shows(cand, prop, sig)
        except Exception:
            return False
        if v:
            best = cand
            log.append(what)
            return True
        return False
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        if len(best["incs"]) > 1:
            c = copy.deepcopy(best)
            c["incs"].pop()
            changed |= attempt(c, "dropped the last start")
        for k in range(len(best["incs"])):
            if k >= len(best["incs"]):
                break
            for key in ("faults", "evfaults"):
                for j in reversed(range(len(best["incs"][k].get(key, [])))):
                    c = copy.deepcopy(best)
                    c["incs"][k][key].pop(j)
                    changed |= attempt(c, "removed a fault")
            if best["incs"][k]["plan"].get("oom") is not None:
                c = copy.deepcopy(best)
                del c["incs"][k]["plan"]["oom"]
                changed |= attempt(c, "removed the allocation failure")
            for f in sorted(best["incs"][k].get("edits", {})):
                c = copy.deepcopy(best)
                del c["incs"][k]["edits"][f]
                changed |= attempt(c, "removed an edit")
            ops = str(best["incs"][k]["plan"].get("ops", ""))
            if ops:
                w = ops.split(";")
                for j in reversed(range(1, len(w))):
                    w = str(best["incs"][k]["plan"]["ops"]).split(";")
                    if j < len(w):
                        c = copy.deepcopy(best)
                        c["incs"][k]["plan"]["ops"] = ";".join(w[:j] + w[j + 1:])
                        changed |= attempt(c, "removed an operation")
            for key, v in (("psync", 0), ("pmem", 0), ("cpus", 1)):
                if best["incs"][k]["plan"].get(key) not in (v, None):
                    c = copy.deepcopy(best)
                    c["incs"][k]["plan"][key] = v
                    changed |= attempt(c, "%s=%s" % (key, v))
        if best.get("plainconfig") and "config.xml" in best["files"]:
            import studies
            for key, v in (("N", 1), ("N", 2), ("inner", 40), ("threads", 1)):
                if best["spec"].get(key) != v and (key != "N" or best["spec"]["N"] > v):
                    c = copy.deepcopy(best)
                    c["spec"][key] = v
                    c["files"]["config.xml"] = studies.config_text(c["spec"])
                    changed |= attempt(c, "%s=%s" % (key, v))
    # fixed list of preemptions instead of a random schedule
    for k in range(len(best["incs"])):
        pl = best["incs"][k]["plan"]
        if (float(pl.get("psync", 0) or 0) > 0 or float(pl.get("pmem", 0) or 0) > 0) and time.time() - t0 < budget:
            c = copy.deepcopy(best)
            c["incs"][k]["plan"]["logpre"] = 1
            with simlib.Scratch() as S:
                hs = simlib.run_study(c, S)
            pre = [[e["s"], e["to"]] for e in hs[k].events if e["t"] == "pre"] if k < len(hs) else []
            if not pre or len(pre) > 100000:
                continue
            c = copy.deepcopy(best)
            c["incs"][k]["plan"]["schedlist"] = 1
            c["incs"][k]["pre"] = pre
            if attempt(c, "schedule as a list of %d preemptions" % len(pre)):
                n = 2
                while n <= len(best["incs"][k]["pre"]) and time.time() - t0 < budget:
                    cur = best["incs"][k]["pre"]
                    size = max(1, len(cur) // n)
                    done = False
                    for a in range(0, len(cur), size):
                        c = copy.deepcopy(best)
                        c["incs"][k]["pre"] = cur[:a] + cur[a + size:]
                        if attempt(c, "removed %d preemptions" % min(size, len(cur) - a)):
                            done = True
                            break
                    if not done:
                        if size == 1:
                            break
                        n *= 2
    return best, log


def trace_of(study, hs):
    """readable schedule and fault trace"""
    out = []
    for k, h in enumerate(hs):
        lines = []
        for e in h.events:
            if e["t"] in ("fault", "eval", "crash", "terminate", "signal", "exit", "race", "deadlock", "mop", "mopres", "acq", "refined", "orphan", "launchfail", "error", "steplimit"):
                d = {a: b for a, b in e.items() if a not in ("argv", "secs", "pid", "at", "csv")}
                lines.append(json.dumps(d)[:400])
        if len(lines) > 300:
            lines = lines[:150] + ["..."] + lines[-150:]
        out.append({"start": k + 1, "seed": h.inc["seed"], "trace": lines, "end": h.end, "status": h.code, "stderr": h.err[-400:]})
    return out


def write_replay(prop, study, sig, msg, hs, log, seed, trial):
    os.makedirs(WORK, exist_ok=True)
    d = {"property": prop, "signature": sig, "violation": msg, "verif_seed": seed, "trial": trial, "study": study, "hashes": [h.hash for h in hs], "minimisation": log, "trace": trace_of(study, hs)}
    name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps(d["study"], sort_keys=True).encode()).hexdigest()[:10])
    p = os.path.join(WORK, name)
    with open(p, "w") as f:
        json.dump(d, f, indent=1)
    return p


def replay(path):
    d = json.load(open(path))
    simlib.prepare([d["study"].get("variant", "plain")])
    with simlib.Scratch() as S:
        hs, vs = run_and_judge(d["study"], S)
    same = [h.hash for h in hs] == d["hashes"]
    mine = [v for v in vs if v[0] == d["property"]]
    print("replayed %d start(s); execution %s the recorded one" % (len(hs), "is identical to" if same else "differs from"))
    for t in trace_of(d["study"], hs):
        print("start %d (seed %s): %s status %s" % (t["start"], t["seed"], t["end"], t["status"]))
        for l in t["trace"][-60:]:
            print("   ", l)
    for v in mine:
        print("VIOLATED %s [%s] %s" % v)
    if not mine:
        print("no violation of %s" % d["property"])
    return 1 if mine else 0


# ---------------------------------------------------------------- one check
def main(prop, tier, seed):
    import campaigns
    t0 = time.time()
    conf = campaigns.CONF[prop]
    count, cap = (conf["quick"], conf.get("cap", 60)) if tier == "quick" else (conf["thorough"], conf.get("tcap", 700))
    simlib.prepare(conf.get("variants", ["plain"]))
    tb = time.time() - t0
    st, hashes, scheds, states = Counter(), set(), set(), set()
    samples, viols, errors, ran, nontrivial = [], [], [], 0, 0
    t1 = time.time()
    deadline = t1 + cap
    pool = Pool(WORKERS)
    try:
        it = pool.imap_unordered(one_trial, ((prop, i, seed, tier) for i in range(count)), chunksize=1)
        while True:
            try:
                r = it.next(timeout=max(0.1, min(5, deadline - time.time())))
            except StopIteration:
                break
            except Exception as e:
                if type(e).__name__ == "TimeoutError":
                    if time.time() > deadline:
                        break
                    continue
                raise
            ran += 1
            if "error" in r:
                errors.append(r)
                if len(errors) > 5:
                    break
                continue
            st.update(r["stats"])
            hashes.update(r["hashes"]); scheds.update(r["scheds"]); states.update(r["states"])
            nontrivial += 1 if r["nontrivial"] else 0
            if len(samples) < 3:
                samples.append(r["sample"])
            viols += [(r["i"],) + v for v in r["viols"]]
            if len(viols) >= 12 or time.time() > deadline:
                break
    finally:
        pool.terminate()
        pool.join()
    searched = time.time() - t1
    # ---- violations: known ones are reported as such, others are confirmed, minimised and written down
    known = known_findings(prop)
    shown, reported, rejected = set(), [], 0
    viols.sort(key=lambda v: v[0])
    seen = set()
    for i, study, vs, hh in viols:
        new = []
        for v in vs:
            k = [t for rx, t in known if rx.search(v[1] + ": " + v[2])]
            if k:
                shown.update(k)
            else:
                new.append(v)
        if not new:
            continue
        sig = new[0][1]
        if sig in seen or len(reported) >= 3:
            continue
        again, hs = shows(study, prop, sig)
        if again and [h.hash for h in hs] != hh:
            print("note: trial %d: the violation repeats, but not the identical execution" % i)
        if not again:
            rejected += 1
            print("note: trial %d is not repeatable (%s); nothing is reported for it" % (i, sig))
            continue
        seen.add(sig)
        try:
            small, log = minimise(study, prop, sig, budget=40 if tier == "quick" else 120)
        except Exception as e:
            print("note: not minimised: %s: %s" % (type(e).__name__, e))
            small, log = study, []
        again, hs = shows(small, prop, sig)
        if not again:
            small, log = study, []
            again, hs = shows(small, prop, sig)
        path = write_replay(prop, small, sig, again[0][2], hs, log, seed, i)
        reported.append((sig, again[0][2], path))
    for t in sorted(shown):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    for sig, msg, path in reported:
        print("[%s] %s" % (sig, msg[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for e in errors[:2]:
        print("internal error in trial %d:\n%s" % (e["i"], e["error"]), file=sys.stderr)
    wall = time.time() - t0
    runs = st["incarnations"]
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault:")}
    ends = {k[4:]: v for k, v in sorted(st.items()) if k.startswith("end:")}
    cov = {
        "evaluations": ran, "distinct_nontrivial": min(len(hashes), runs), "rule": conf["rule"], "samples": samples,
        "simulated_runs": runs, "trials_nontrivial": nontrivial, "distinct_executions": len(hashes), "distinct_thread_schedules": len(scheds), "distinct_directory_states_left": len(states),
        "runs_per_hour": int(runs / max(searched, 1e-3) * 3600), "seeds_per_hour": int(ran / max(searched, 1e-3) * 3600),
        "simulated_time_hours": round(st["simulated_seconds"] / 3600.0, 2), "evaluator_runs": st["evaluations_served"], "file_and_process_operations": st["operations"],
        "scheduling_points": st["scheduling_steps"], "context_switches": st["context_switches"], "parallel_regions": st["parallel_regions"],
        "faults_injected": faults, "ways_runs_ended": ends, "states_measure": "distinct_executions: hash of the complete event log; distinct_thread_schedules: hash of the sequence (step, thread) of all scheduling decisions; distinct_directory_states_left: hash of all files left behind",
        "real_components": conf.get("real", "all of /repo/src built from the working tree (driver, API, optimizer, surrogate models, evolutionary optimiser, linear algebra, loggers), libstdc++, OpenBLAS, files in a scratch directory"),
        "stubbed_components": conf.get("stub", "evaluator programs, OpenMP/pthread scheduling, clocks, random_device, process launch and exit, and the failing outcomes of file operations and allocations"),
        "findings_known": sorted(shown), "unrepeatable": rejected, "build_s": round(tb, 1),
    }
    if conf.get("note"):
        cov["bounds"] = conf["note"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "exploration"), "coverage": cov, "assumptions": conf.get("assume", []) + campaigns.ASSUME, "wall_s": round(wall, 1), "violations": len(reported)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d trials, %d runs (%d distinct), %d schedules, faults %s, %.1f s, %d violation(s)" % (prop, ran, runs, len(hashes), len(scheds), sum(faults.values()), wall, len(reported)))
    if reported:
        return 1
    if errors:
        return 2
    return 0
