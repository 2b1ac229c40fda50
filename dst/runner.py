"""Seeded search: many simulated runs over all cores, one fork per run, and the verdict."""

import gc
import json
import os
import subprocess
import sys
import time
from collections import Counter

from dst import seams
from dst.engine import fork_execute, known_findings
from dst.registry import PROFILES, SCENARIOS
from dst.values import rng_from

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WALL_GUARD = {"quick": 600.0, "thorough": 6 * 3600.0}
LARGE_EVERY = 60


def make_plan(seed, prop, scenario, focus, i):
    rng = rng_from("dst1", seed, prop, scenario, focus, i)
    plan = SCENARIOS[scenario].generate(rng, focus=focus, large=(i % LARGE_EVERY == LARGE_EVERY - 1))
    plan["world_seed"] = rng.getrandbits(48)
    plan["origin"] = {"verif_seed": seed, "property": prop, "scenario": scenario, "focus": focus, "index": i}
    return plan


def schedule(prop, tier, scale=1.0):
    """Deterministic order of (scenario, focus, index): the profiles of the property interleaved evenly."""
    out = []
    for j, (scenario, focus, quick, thorough) in enumerate(PROFILES[prop]):
        n = max(1, int((quick if tier == "quick" else thorough) * scale))
        for i in range(n):
            out.append(((i + 1) / n, j, i, scenario, focus))
    out.sort()
    return [(s, f, i) for _, _, i, s, f in out]


def relevant(res, prop):
    return not res["ok"] and (prop in res.get("props", ()) or "*" in res.get("props", ()))


def worker(w, nworkers, seed, prop, jobs, fd, deadline, stop_on_violation=True):
    out = os.fdopen(fd, "w", buffering=1 << 16)
    agg = {"runs": 0, "steps": 0, "sim_s": 0.0, "nlog": 0, "faults": Counter(), "probes": Counter(), "findings": Counter(),
           "foreign": Counter(), "by_scenario": Counter(), "nontrivial": set(), "states": set(), "timeout": False,
           "run_s_max": 0.0}
    digests = []
    errs = 0
    for k in range(w, len(jobs), nworkers):
        if seams.REAL_PERF() > deadline:
            agg["timeout"] = True
            break
        scenario, focus, i = jobs[k]
        t0 = seams.REAL_PERF()
        plan = make_plan(seed, prop, scenario, focus, i)
        res = fork_execute(plan)
        agg["run_s_max"] = max(agg["run_s_max"], seams.REAL_PERF() - t0)
        agg["runs"] += 1
        agg["steps"] += res["steps"]
        agg["nlog"] += res["nlog"]
        agg["sim_s"] += res["sim_s"]
        agg["by_scenario"][scenario] += 1
        for key in ("faults", "probes", "findings", "foreign"):
            agg[key].update(res[key])
        agg["states"].update(res["states"])
        if res["nlog"] >= 3 and (sum(res["faults"].values()) or sum(res["probes"].values())):
            agg["nontrivial"].add(res["digest"][:16])
        digests.append((k, res["digest"][:16]))
        if "harness_error" in res:
            out.write(json.dumps({"error": res["harness_error"], "k": k}) + "\n")
            errs += 1
            if errs >= 50:  # go on for a while: a violation says more than a harness that could not cope
                break
            continue
        if relevant(res, prop):
            out.write(json.dumps({"violation": {a: res[a] for a in ("props", "kind", "msg", "digest")}, "k": k}) + "\n")
            if stop_on_violation:
                break
        elif not res["ok"]:
            agg["foreign"][f"{'/'.join(res['props'])} {res['kind']}"] += 1
    agg["nontrivial"] = sorted(agg["nontrivial"])
    agg["states"] = sorted(agg["states"])
    agg["digests"] = digests
    out.write(json.dumps({"agg": agg}) + "\n")
    out.close()


def search(prop, tier, seed, nworkers=None, scale=1.0, jobs=None, stop_on_violation=True):
    nworkers = nworkers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    jobs = jobs if jobs is not None else schedule(prop, tier, scale)
    deadline = seams.REAL_PERF() + WALL_GUARD[tier]
    gc.collect()
    gc.freeze()
    pipes = []
    for w in range(nworkers):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for _, rr in pipes:
                    os.close(rr)
                worker(w, nworkers, seed, prop, jobs, wr, deadline, stop_on_violation)
            except BaseException:
                import traceback

                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(wr)
        pipes.append((pid, r))
    total = None
    violations, errors = [], []
    import selectors

    sel = selectors.DefaultSelector()
    bufs = {}
    for pid, r in pipes:
        os.set_blocking(r, False)
        sel.register(r, selectors.EVENT_READ)
        bufs[r] = []
    open_fds = len(pipes)
    while open_fds:
        for key, _ in sel.select():
            data = os.read(key.fd, 1 << 20)
            if not data:
                sel.unregister(key.fd)
                os.close(key.fd)
                open_fds -= 1
            else:
                bufs[key.fd].append(data)
    for pid, r in pipes:
        _, status = os.waitpid(pid, 0)
        lines = b"".join(bufs[r]).decode().splitlines()
        if status != 0 or not lines or not lines[-1].startswith('{"agg"'):
            errors.append({"error": f"worker died with status {status}", "k": -1})
            continue
        for line in lines:
            rec = json.loads(line)
            if "error" in rec:
                errors.append(rec)
            elif "violation" in rec:
                violations.append(rec)
            else:
                a = rec["agg"]
                if total is None:
                    total = {k: (Counter(v) if isinstance(v, dict) else v) for k, v in a.items()}
                    total["nontrivial"] = set(a["nontrivial"])
                    total["states"] = set(a["states"])
                    total["digests"] = list(map(tuple, a["digests"]))
                else:
                    for k in ("runs", "steps", "sim_s", "nlog"):
                        total[k] += a[k]
                    for k in ("faults", "probes", "findings", "foreign", "by_scenario"):
                        total[k].update(a[k])
                    total["nontrivial"].update(a["nontrivial"])
                    total["states"].update(a["states"])
                    total["digests"] += list(map(tuple, a["digests"]))
                    total["timeout"] = total["timeout"] or a["timeout"]
                    total["run_s_max"] = max(total["run_s_max"], a["run_s_max"])
    violations.sort(key=lambda v: v["k"])
    errors.sort(key=lambda v: v["k"])
    return total, violations, errors, jobs


def samples(seed, prop, jobs):
    """A few actual cases of this run, written out (the smallest of the first dozen plans)."""
    plans = [make_plan(seed, prop, *job) for job in jobs[:12]]
    plans.sort(key=lambda p: len(json.dumps(p)))
    out = []
    seen = set()
    for p in plans:
        if len(out) >= 2 or (p["scenario"] in seen and len(PROFILES[prop]) > 1):
            continue
        seen.add(p["scenario"])
        res = fork_execute(p, keep_log=True)
        out.append({"plan": clip(p), "event_log_head": [line[:300] for line in res.get("log", [])[:25]],
                    "digest": res["digest"], "steps": res["steps"]})
    return out


def clip(p):
    s = json.dumps(p)
    if len(s) <= 3000:
        return p
    return s[:3000] + "... (clipped)"


def check(prop):
    t0 = seams.REAL_PERF()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in WALL_GUARD else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    print(f"dst property={prop} tier={tier} VERIF_SEED={seed} repo={seams.repo_path()}")
    from dst.meta import META

    total, violations, errors, jobs = search(prop, tier, seed, scale=scale)
    rc = 0
    replay = None
    if violations:
        print(f"first violation in planned run {violations[0]['k']} of {len(jobs)} ({'/'.join(map(str, jobs[violations[0]['k']]))}), "
              f"found by {len(violations)} workers")
        for v in violations[:4]:
            replay = report(prop, seed, make_plan(seed, prop, *jobs[v["k"]]), v["violation"])
            if replay is not None:
                break
        rc = 1 if replay is not None else 2
        if rc == 2:
            print("ERROR: a violation did not replay in a fresh process: " + json.dumps(violations[0]["violation"])[:800])
    elif errors:
        print("ERROR: the harness failed:\n" + errors[0]["error"])
        rc = 2
    elif total["timeout"]:
        print("ERROR: wall clock guard hit before the planned runs were done")
        rc = 2
    wall = seams.REAL_PERF() - t0
    findings = {}
    if total is not None:
        known = known_findings()
        for sig, n in sorted(total["findings"].items()):
            p, text = known[sig]
            if p == prop:
                findings[sig] = n
                print(f"KNOWN-FINDING: property={p} {sig}: {text} (met {n} times in this search)")
        write_evidence(prop, tier, seed, total, jobs, wall, len(violations), findings, META)
        print(f"runs={total['runs']} steps={total['steps']} faults={sum(total['faults'].values())} "
              f"states={len(total['states'])} distinct={len(total['nontrivial'])} foreign={dict(total['foreign'])} "
              f"wall={wall:.1f}s slowest_run={total['run_s_max']:.2f}s")
    if rc == 1:
        print(f"VIOLATION property={prop} replay={replay}")
    elif rc == 0:
        print(f"OK property={prop}")
    return rc


def report(prop, seed, plan, v):
    from dst.shrink import minimise

    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{prop}-seed{seed}.json")
    print(f"violation: {v['kind']}: {v['msg'][:600]}")
    small = plan
    used = 0
    if v["kind"] != "hang":
        small, used = minimise(plan, prop, v["kind"])
    for candidate in (small, plan):
        res = fork_execute(candidate, keep_log=True)
        if not relevant(res, prop):
            continue
        rec = {"property": prop, "kind": res["kind"], "msg": res["msg"], "digest": res["digest"],
               "ops_before": len(plan["ops"]), "ops_after": len(candidate["ops"]), "shrink_executions": used,
               "plan": candidate, "event_log": res.get("log", [])[-400:]}
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
            f.write("\n")
        r = subprocess.run([sys.executable, "-B", "-m", "dst", "replay", path], cwd=VERIF, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONHASHSEED="0"))
        if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout:
            print(f"minimised {rec['ops_before']} operations to {rec['ops_after']}: {res['kind']}: {res['msg'][:600]}")
            return path
    return None


def replay(path):
    rec = json.load(open(path))
    res = fork_execute(rec["plan"], keep_log=True)
    for line in res.get("log", [])[-60:]:
        print("  " + line[:400])
    if "harness_error" in res:
        print(res["harness_error"])
        return 2
    if relevant(res, rec["property"]) and res["kind"] == rec["kind"]:
        same = ("identical event log" if res["digest"] == rec["digest"] else
                "DIFFERENT event log: the code under test is nondeterministic in a way the simulator does not own")
        print(f"reproduced ({same}): {res['kind']}: {res['msg'][:600]}")
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print("not reproduced" + ("" if res["ok"] else f"; instead {res['props']} {res['kind']}: {res['msg'][:300]}"))
    return 0


def write_evidence(prop, tier, seed, total, jobs, wall, nviol, findings, META):
    meta = META.get(prop, {})
    per_hour = total["runs"] / max(wall, 1e-9) * 3600
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": len(total["nontrivial"]),
            "rule": "One evaluation is one simulated run: a plan (swarm configuration, operations, faults) generated from "
                    "sha256(VERIF_SEED, property, scenario, index) and executed in a forked process under the simulated "
                    "clock, entropy and scheduler. A run is non-trivial when its event log has at least 3 events and at "
                    "least one fault fired or one probed rare condition was reached; distinct ones differ in the digest "
                    "of the whole event log (so in inputs, interleaving, faults or outcomes).",
            "samples": samples(seed, prop, jobs),
            "runs_by_scenario": dict(total["by_scenario"]),
            "runs_per_hour": int(per_hour),
            "seeds_per_hour": int(per_hour),
            "planned_runs": len(jobs),
            "simulated_steps": total["steps"],
            "events_logged": total["nlog"],
            "simulated_seconds": round(total["sim_s"], 3),
            "faults_injected": dict(sorted(total["faults"].items())),
            "faults_total": sum(total["faults"].values()),
            "rare_conditions_reached": dict(sorted(total["probes"].items())),
            "distinct_states": len(total["states"]),
            "distinct_states_measure": meta.get("states", "hash of the reference model's abstract state after an operation"),
            "foreign_violations": dict(total["foreign"]),
            "known_findings_met": findings,
            "real_components": meta.get("real", []),
            "stub_components": meta.get("stub", []),
            "slowest_run_s": round(total["run_s_max"], 3),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 3),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


def determinism(n_seeds=4, per_prop=12):
    """Prove determinism: the same plans, run twice, at different worker counts and under other hash seeds."""
    bad = 0
    out = []
    for prop in sorted(PROFILES):
        jobs = {}
        for s in range(1, n_seeds + 1):
            js = schedule(prop, "quick")
            step = max(1, len(js) // per_prop)
            pick = js[::step][:per_prop]
            d = []
            for nw in (1, 3):
                total, v, e, _ = search(prop, "quick", s, nworkers=nw, jobs=pick, stop_on_violation=False)
                d.append((sorted(total["digests"]), e))
            jobs[s] = d[0][0]
            if d[0] != d[1] or d[0][1]:
                bad += 1
                print("NONDETERMINISTIC", prop, s, d[0][1])
        out.append((prop, sorted(jobs.items())))
    import hashlib

    print("determinism digest", hashlib.sha256(json.dumps(out).encode()).hexdigest(), "divergences", bad)
    return 1 if bad else 0
