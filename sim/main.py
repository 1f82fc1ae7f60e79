"""Command line of the checks."""
import argparse
import json
import os
import random
import re
import sys
import time

from sim import seams

seams.install()

import resource  # noqa: E402

from sim import registry  # noqa: E402
from sim.harness import Runner, Minimiser, VERIF, same  # noqa: E402
from sim.seams import R  # noqa: E402

JOBS = int(os.environ.get("EVOSIM_JOBS", "0")) or min(8, os.cpu_count() or 4)


def load_repo():
    from sim import fakes

    fakes.install()
    scns = registry.load()
    seams.stable_identity_hashes()
    return scns


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in R.open(path):
            line = line.strip()
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ \| (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def make_plan(scn, key, tier):
    rng = random.Random("plan:" + key)
    plan = scn.gen(rng, tier)
    return json.loads(json.dumps(plan))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--scenario")
    ap.add_argument("--jobs", type=int, default=JOBS)
    ap.add_argument("--replay")
    ap.add_argument("--digests", action="store_true", help="print one digest per run (determinism test)")
    ap.add_argument("--show", type=int, help="run only run number N and print its events")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--no-min", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = R.monotonic()
    scns = load_repo()
    if a.replay:
        return replay(a, scns)
    return explore(a, scns, t0)


def replay(a, scns):
    with R.open(a.replay) as fh:
        rep = json.load(fh)
    rn = Runner(1, 120)
    try:
        res = rn.one(scn=scns[rep["scenario"]], key=rep["key"], plan=rep["plan"],
                     decisions=rep["decisions"], faults=rep["faults"])
    finally:
        rn.close()
    for e in res.get("events", []):
        print("  " + e)
    print("replay of %s run %s: %s %s: %s" % (rep["property"], rep["key"], res["verdict"], res["cls"], res["msg"]))
    if same(res, rep["cls"]):
        print("identical event log: %s" % (res.get("digest") == rep["digest"]))
        print("VIOLATION property=%s replay=%s" % (rep["property"], a.replay))
        return 1
    return 0 if res["verdict"] == "ok" else 2


class Stats:
    def __init__(self):
        self.runs = 0
        self.simtime = 0.0
        self.faults = {}
        self.probes = {}
        self.digests = set()
        self.nontrivial = set()
        self.cov = set()
        self.steps = 0
        self.max_steps = 0
        self.decisions = 0
        self.switches = 0
        self.samples = []
        self.per_scn = {}

    def add(self, job, r):
        self.runs += 1
        s = self.per_scn.setdefault(job["scn"].name, {"runs": 0, "states": 0, "wall_s": 0.0})
        s["runs"] += 1
        s["wall_s"] = round(s["wall_s"] + r.get("wall", 0), 3)
        self.simtime += r.get("simtime", 0)
        self.steps += r.get("steps", 0)
        self.max_steps = max(self.max_steps, r.get("steps", 0))
        self.decisions += r.get("ndec", 0)
        self.switches += r.get("switches", 0)
        for k, v in r.get("faults", {}).items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in r.get("probes", {}).items():
            self.probes[k] = self.probes.get(k, 0) + v
        d = r.get("digest")
        self.digests.add(d)
        if r.get("nontriv", 0) or r.get("faults") or (r.get("info") or {}).get("nontrivial"):
            self.nontrivial.add(d)
        n = len(self.cov)
        self.cov.update((job["scn"].name, c) for c in r.get("cov", ()))
        s["states"] += len(self.cov) - n
        if len(self.samples) < 3 and r.get("ndec", 0) + sum(r.get("faults", {}).values()) > 0:
            self.samples.append({"run": job["key"], "plan": _clip(job["plan"]), "faults_fired": r.get("faults"),
                                 "decisions": r.get("ndec"), "steps": r.get("steps"),
                                 "simulated_s": round(r.get("simtime", 0), 3), "verdict": r["verdict"]})


def _clip(plan):
    t = json.dumps(plan)
    return plan if len(t) < 1500 else t[:1500] + "…"


def explore(a, scns, t0):
    prop = a.prop
    if prop not in registry.PLAN:
        print("unknown property", prop)
        return 2
    entries = registry.PLAN[prop]
    if a.scenario:
        entries = [e for e in entries if e[0] == a.scenario] or [(a.scenario, 50, 50)]
    jobs = []
    per = []
    for name, q, t in entries:
        n = a.runs if a.runs else int((q if a.tier == "quick" else t) * a.scale)
        per.append((name, n))
    # interleave the scenarios so that a cap on wall time cuts all of them alike
    total = sum(n for _, n in per)
    slots = []
    for name, n in per:
        slots += [((i + 0.5) / n, name, i) for i in range(n)]
    slots.sort()
    seed = a.seed
    limit = 400.0 if a.tier == "quick" else 3000.0
    known = known_findings(prop)
    st = Stats()
    bad, hits, errs = [], [], []
    digs = {}

    def gen():
        for _, name, i in slots:
            if R.monotonic() - t0 > limit:
                return
            key = "%s/%s/%d/%d" % (prop, name, seed, i)
            scn = scns[name]
            yield dict(scn=scn, key=key, plan=make_plan(scn, key, a.tier), no=i, order=len(slots))

    rn = Runner(a.jobs, float(os.environ.get("EVOSIM_WALL", "60")))
    try:
        if a.show is not None:
            name = per[0][0]
            key = "%s/%s/%d/%d" % (prop, name, seed, a.show)
            plan = make_plan(scns[name], key, a.tier)
            print(json.dumps(plan, indent=1))
            from sim.harness import execute
            root = os.path.join(rn.base, "show")
            os.mkdir(root)
            os.environ["EVOSIM_SHOW"] = "1"
            r = execute(scns[name], key, plan, root)
            for e in r.get("events", []):
                print(e)
            print(json.dumps({k: v for k, v in r.items() if k not in ("events", "cov", "decisions")}, indent=1, default=repr))
            print(r.get("trace", ""))
            return 0

        def on_result(job, r):
            if r["verdict"] == "timeout":
                if bad and not a.keep_going:
                    return  # one violation is enough
                # confirm: a run that really never ends does so every time
                again = []
                rn2.run_many([{k: job[k] for k in ("scn", "key", "plan")} for _ in range(2)], lambda j, x: again.append(x))
                if any(x["verdict"] != "timeout" for x in again):
                    r = again[0] if again[0]["verdict"] != "timeout" else again[1]
                else:
                    r["verdict"] = "violation"
            st.add(job, r)
            digs[job["key"]] = r.get("digest")
            if r["verdict"] == "violation":
                for cls, rx, text in known:
                    if r["cls"] == cls and rx.search(r["msg"] or ""):
                        hits.append(text)
                        return
                bad.append((job, r))
            elif r["verdict"] == "error":
                errs.append((job, r))

        rn2 = Runner(2, rn.wall)
        try:
            rn.run_many(gen(), on_result, stop=lambda: bool((bad or errs) and not a.keep_going))
        finally:
            rn2.close()
        wall = R.monotonic() - t0
        for text in sorted(set(t for _, _, t in known)):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        if a.digests:
            for k in sorted(digs):
                print("DIGEST", k, digs[k])
        rc = 0
        if bad:
            if a.keep_going:
                seen = {}
                if os.environ.get("EVOSIM_BAD"):
                    for job, r in bad:
                        print("BAD", job["key"], r["cls"], r["msg"])
                for job, r in bad:
                    seen.setdefault((job["scn"].name, r["cls"]), []).append((job, r))
                for (s, c), l in sorted(seen.items()):
                    print("  %-18s %-28s x%d  e.g. %s: %s" % (s, c, len(l), l[0][0]["key"], (l[0][1]["msg"] or "")[:300]))
            bad.sort(key=lambda b: (slots.index(next(x for x in slots if x[1] == b[0]["scn"].name and x[2] == b[0]["no"]))))
            rc = report(a, prop, rn, *bad[0])
        elif errs:
            job, r = errs[0]
            print("HARNESS ERROR in %s\n%s" % (job["key"], r["msg"]))
            rc = 2
        evidence(a, prop, st, wall, len(bad), per, known, hits)
        print("%s %s seed=%d: %d simulated runs, %d distinct, %.0f simulated s, faults %s, %.1f s wall: %s" % (
            prop, a.tier, seed, st.runs, len(st.digests), st.simtime, json.dumps(st.faults, sort_keys=True), wall,
            {0: "held", 1: "VIOLATED"}.get(rc, "error")))
        if a.show is None and os.environ.get("EVOSIM_PROBES"):
            print(json.dumps(st.probes, sort_keys=True, indent=1))
            print(json.dumps(st.per_scn, sort_keys=True))
        return rc
    finally:
        rn.close()


def report(a, prop, rn, job, r):
    if r["cls"] != "wall-timeout":
        # must reproduce from the recorded decisions before anything is claimed
        chk = [rn.one(scn=job["scn"], key=job["key"], plan=job["plan"]) for _ in range(2)]
        if not any(same(c, r["cls"]) for c in chk):
            print("HARNESS ERROR: %s did not reproduce: %s %s / %s" % (job["key"], r["cls"], r["msg"], [c["cls"] for c in chk]))
            return 2
    best = {"plan": job["plan"], "decisions": r.get("decisions"), "faults": r.get("fault_trace"), "res": r}
    tries = 0
    if not a.no_min and r["cls"] != "wall-timeout":
        m = Minimiser(rn, job["scn"], job["key"], job["plan"], r, 30.0 if a.tier == "quick" else 120.0)
        try:
            best = m.run()
            tries = m.tries
        except Exception as e:  # minimising is a convenience
            print("minimiser gave up:", repr(e))
    res = best["res"]
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, job["key"].replace("/", "_").replace(prop + "_", "", 1)))
    rep = {"property": prop, "scenario": job["scn"].name, "key": job["key"], "seed": a.seed, "plan": best["plan"],
           "decisions": best["decisions"], "faults": best["faults"], "cls": res["cls"], "msg": res["msg"],
           "digest": res.get("digest"), "events": res.get("events"), "log": res.get("log"),
           "minimised_in": tries, "trace": res.get("trace")}
    with R.open(path, "w") as fh:
        json.dump(rep, fh, indent=1, default=repr)
    again = rn.one(scn=job["scn"], key=job["key"], plan=best["plan"], decisions=best["decisions"], faults=best["faults"])
    rel = os.path.relpath(path, VERIF)
    print("violated in run %s (%s): %s" % (job["key"], res["cls"], res["msg"]))
    print("minimised plan: %s" % json.dumps(best["plan"])[:1500])
    print("faults: %s   decisions: %d (non-default %d)   replay identical: %s" % (
        json.dumps(best["faults"]), len(best["decisions"] or []), sum(1 for d in best["decisions"] or [] if d),
        again.get("digest") == res.get("digest") and again["cls"] == res["cls"]))
    print("VIOLATION property=%s replay=%s" % (prop, rel), flush=True)
    return 1


REAL_STUB = {
    "real": "all of /repo that the scenario drives (driver loop, workers, serializer, extraction, metrics, actors, "
            "algorithms), rx, thespian's Actor/ActorSystem front end, threading, pickle, pathlib",
    "stub": "process scheduler, locks' blocking, clock, entropy, directory order and disk errors, thespian system base "
            "(transport and actor processes), multiprocessing processes/pools; scripted algorithm and problem where the scenario says so",
}


def evidence(a, prop, st, wall, nviol, per, known, hits):
    hours = max(wall, 1e-6) / 3600.0
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": len(st.nontrivial),
            "rule": "one evaluation = one simulated run (one seed: generated workload, schedule and faults). Non-trivial: at "
                    "least one scheduling decision other than the default was taken or a fault fired (or the scenario marked "
                    "its workload as exercising the property); distinct: different event log (SHA-1 over every delivered "
                    "message, task switch, file operation and step).",
            "samples": st.samples or [{"note": "no run"}],
            "scenarios": st.per_scn,
            "requested_runs": dict(per),
            "simulated_runs_per_hour": round(st.runs / hours),
            "seeds_per_hour": round(st.runs / hours),
            "simulated_time_s": round(st.simtime, 3),
            "faults_fired": st.faults,
            "distinct_event_logs": len(st.digests),
            "distinct_states": len(st.cov),
            "distinct_states_measure": "abstract states the scenarios report while running (e.g. result tree shape after a crash, node tree shape)",
            "simulated_steps": st.steps,
            "most_steps_in_a_run": st.max_steps,
            "scheduling_decisions": st.decisions,
            "task_switches": st.switches,
            "probes": st.probes,
            "components": REAL_STUB,
            "known_findings_hit": sorted(set(hits)),
        },
        "assumptions": registry.ASSUMPTIONS.get(prop, registry.ASSUMPTIONS["*"]),
        "wall_s": round(wall, 3),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with R.open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)


if __name__ == "__main__":
    rc = 2
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 2
    except BaseException:
        import traceback

        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc or 0)  # threads parked by simulated runs must not hold up the exit
