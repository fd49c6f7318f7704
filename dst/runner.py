"""Command line: python -m dst PROPERTY [--replay FILE | --runs N | --only INDEX]."""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import time

from . import core
from .minimise import minimise

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, "known_findings.json")


def load_known(prop: str) -> dict:
    try:
        with open(KNOWN_FILE) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e["signature"]: e for e in data.get("findings", []) if e["property"] == prop}


def module_for(prop: str):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def _alarm(signum, frame):
    raise core.RunTimeout()


def timed_execute(module, plan, known, limit, keep_log=False):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return core.execute(module, plan, known, keep_log)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def guarded_execute(module, plan, known):
    limit = getattr(module, "RUN_LIMIT_S", 60.0)
    res = timed_execute(module, plan, known, limit)
    if res["violation"] and res["violation"]["kind"] == "hang":
        res = timed_execute(module, plan, known, 3 * limit)  # a slow machine is not a hang
    return res


def _worker(args):
    prop, base, index, tier = args
    module = module_for(prop)
    known = load_known(prop)
    seed = core.run_seed(base, prop, index)
    t0 = time.monotonic()
    try:
        plan = core.generate(module, prop, seed, tier)
        plan["index"] = index
    except Exception as e:  # generation imports code under test only for factories
        import traceback
        return index, None, {"violation": None, "harness_error": traceback.format_exc(), "digest": "",
                             "faults": {}, "probes": {}, "checks": 0, "sim_time": 0, "events": 0,
                             "states": set(), "known_hits": {}, "log": []}, 0.0
    res = guarded_execute(module, plan, known)
    return index, plan, res, time.monotonic() - t0


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
    os.replace(tmp, path)


def replay(prop, path, quiet=False):
    with open(path) as f:
        doc = json.load(f)
    module = module_for(doc["plan"]["property"])
    known = load_known(doc["plan"]["property"])
    res = guarded_execute(module, doc["plan"], known)
    if res["harness_error"]:
        print(res["harness_error"], file=sys.stderr)
        return 2
    v = res["violation"]
    same = bool(v) and doc.get("violation") and v["kind"] == doc["violation"]["kind"] and res["digest"] == doc.get("digest")
    if not quiet:
        if v:
            print(f"violated: {v['kind']}\n{v['detail']}")
            print(f"exact replay: {'yes' if same else 'NO'} (digest {res['digest'][:16]}, recorded {str(doc.get('digest'))[:16]})")
        else:
            print("no violation on replay")
    if v:
        print(f"VIOLATION property={doc['plan']['property']} replay={path}")
        return 1
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser(prog="dst")
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--only", type=int, help="run one index and print its log")
    ap.add_argument("--digests", help="comma separated indices: print their digests as JSON")
    ap.add_argument("--wall", type=float)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.replay:
        return replay(prop, a.replay)
    module = module_for(prop)
    known = load_known(prop)

    if a.digests:
        out = {}
        for idx in [int(x) for x in a.digests.split(",") if x]:
            _, plan, res, _ = _worker((prop, a.seed, idx, tier))
            out[idx] = res["digest"]
            if res["violation"] or res["harness_error"]:
                print("DIGEST-RUN", idx, res["violation"], repr(res["harness_error"])[-600:], file=sys.stderr)
        print("DIGESTS " + json.dumps(out))
        return 0

    if a.only is not None:
        plan = core.generate(module, prop, core.run_seed(a.seed, prop, a.only), tier)
        res = timed_execute(module, plan, known, 1e6, keep_log=True)
        print(json.dumps(plan)[:3000])
        for line in res["log"][:400]:
            print(line)
        res.pop("log"); res["states"] = len(res["states"])
        print(json.dumps(res, indent=1)[:6000])
        return 1 if res["violation"] else 0

    runs = a.runs or module.RUNS[tier]
    wall = a.wall or {"quick": 420.0, "thorough": 3000.0}[tier]
    t0 = time.monotonic()
    results = []
    failures = []
    errors = []
    tasks = [(prop, a.seed, i, tier) for i in range(a.start, a.start + runs)]
    stopped = None
    chunk = max(1, min(8, runs // (a.workers * 4) or 1))
    ctxmp = mp.get_context("fork")
    samples = []
    pool = ctxmp.Pool(a.workers)
    try:
        for index, plan, res, dt in pool.imap_unordered(_worker, tasks, chunksize=chunk):
            results.append((index, res, dt))
            if index < a.start + 2:
                samples.append((index, plan, res))
            if res["harness_error"]:
                errors.append((index, res["harness_error"]))
                if len(errors) > 2:
                    break
            if res["violation"]:
                failures.append((index, plan, res))
                if not a.keep_going:
                    break
            if time.monotonic() - t0 > wall:
                stopped = "wall"
                break
    finally:
        pool.terminate()
        pool.join()

    exit_code = 0
    violation_line = None
    results.sort(key=lambda r: r[0])
    determinism = {}

    if failures and a.keep_going:
        kinds = {}
        for index, plan, res in failures:
            d = res["violation"]["detail"].splitlines()[0] if res["violation"]["detail"] else ""
            kinds.setdefault((res["violation"]["kind"], re.sub(r"[-0-9.e\[\] ]+", "#", d)[:60]), []).append((index, d[:150]))
        for k, v in sorted(kinds.items(), key=lambda kv: -len(kv[1]))[:25]:
            k, v = (k[0], v[0][1]), [i for i, _ in v]
            print(f"{len(v):5d}  {k[0]}  {k[1]}  idx={sorted(v)[:6]}")
        print(f"{len(results)} runs, {len(failures)} failing, {len(errors)} errors, {time.monotonic()-t0:.0f}s")
        for e in errors[:2]:
            print(e[0], e[1])
        return 1

    if failures:
        index, plan, res = failures[0]
        kind = res["violation"]["kind"]

        def again(p):
            r = timed_execute(module, p, known, getattr(module, "RUN_LIMIT_S", 60.0))
            return r["violation"]["kind"] if r["violation"] else None

        if kind == "hang":
            small, n = plan, 0
        else:
            small, n = minimise(plan, again, kind, 60.0, getattr(module, "simplify", None))
        final = guarded_execute(module, small, known)
        if not final["violation"]:
            small, final = plan, res
        path = os.path.join(VERIF, "replays", f"{prop}-{plan['seed']}.json")
        write_json(path, {"property": prop, "seed": plan["seed"], "index": index, "verif_seed": a.seed,
                          "violation": final["violation"], "digest": final["digest"], "plan": small,
                          "minimise_runs": n,
                          "original_size": {k: len(plan[k]) for k in ("ops", "faults")},
                          "size": {k: len(small[k]) for k in ("ops", "faults")},
                          "faults_fired": final["faults"]})
        env = dict(os.environ, PYTHONHASHSEED="4242")
        pr = subprocess.run([sys.executable, "-m", "dst", prop, "--replay", path], env=env, cwd=VERIF,
                            capture_output=True, text=True, timeout=600)
        exact = "exact replay: yes" in pr.stdout
        print(f"violated ({final['violation']['kind']}): {final['violation']['detail'][:1500]}")
        print(f"run index {index}, seed {plan['seed']}, minimised to {len(small['ops'])} ops / {len(small['faults'])} faults "
              f"in {n} runs; fresh-process replay exact: {exact}")
        violation_line = f"VIOLATION property={prop} replay={path}"
        exit_code = 1
    elif errors:
        print(f"HARNESS ERROR in run {errors[0][0]}:\n{errors[0][1]}", file=sys.stderr)
        exit_code = 2
    else:
        # Determinism self-test: fresh interpreter, other hash seed.
        step = max(1, len(results) // {"quick": 12, "thorough": 60}[tier])
        picked = [r for r in results[::step] if r[2] < 20]
        if not getattr(module, "SKIP_DETERMINISM", False) and picked:
            env = dict(os.environ, PYTHONHASHSEED="77")
            nproc = min(4, len(picked))
            procs = [subprocess.Popen([sys.executable, "-m", "dst", prop, "--tier", tier, "--seed", str(a.seed), "--digests",
                                       ",".join(str(r[0]) for r in picked[k::nproc])], env=env, cwd=VERIF,
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for k in range(nproc)]
            got, said = {}, []
            for p in procs:
                so, se = p.communicate(timeout=800)
                lines = [x for x in so.splitlines() if x.startswith("DIGESTS ")]
                if not lines:
                    print("HARNESS ERROR: determinism self-test gave no answer\n" + se[-2000:], file=sys.stderr)
                    exit_code = 2
                    break
                got.update({int(k): v for k, v in json.loads(lines[0][8:]).items()})
                said += [x for x in se.splitlines() if x.startswith("DIGEST-RUN")]
            bad = [r[0] for r in picked if got and got.get(r[0]) != r[1]["digest"]]
            determinism = {"seeds_run_twice": len(picked), "processes": nproc, "mismatches": len(bad), "hashseeds": [os.environ.get("PYTHONHASHSEED", "random"), "77"]}
            if bad and exit_code == 0:
                seed = core.run_seed(a.seed, prop, bad[0])
                plan = core.generate(module, prop, seed, tier)
                path = os.path.join(VERIF, "replays", f"{prop}-{seed}.json")
                write_json(path, {"property": prop, "seed": seed, "index": bad[0], "verif_seed": a.seed, "plan": plan,
                                  "violation": {"kind": "irreproducible", "detail": "two executions of one plan differ between processes: " + "; ".join(said)[:1500]},
                                  "digest": None})
                print("violated (irreproducible): the same plan gives different histories in two processes " + "; ".join(said)[:1500])
                violation_line = f"VIOLATION property={prop} replay={path}"
                exit_code = 1

    # ---- evidence ----
    wall_s = time.monotonic() - t0
    faults, probes, known_hits, states = {}, {}, {}, set()
    checks = events = 0
    sim_time = 0.0
    nontrivial = 0
    digests = set()
    for index, res, dt in results:
        for d, src in ((faults, res["faults"]), (probes, res["probes"]), (known_hits, res["known_hits"])):
            for k, v in src.items():
                d[k] = d.get(k, 0) + v
        checks += res["checks"]
        events += res["events"]
        sim_time += res["sim_time"]
        states |= res["states"]
        if res["digest"] not in digests and res["checks"] > 0:
            digests.add(res["digest"])
            nontrivial += 1
    if not a.no_evidence:
        cov = {
            "evaluations": len(results),
            "distinct_nontrivial": nontrivial,
            "rule": module.RULE + " A run counts as distinct and non-trivial when its event-log digest is new and at least one oracle comparison was made.",
            "samples": [{"index": i, "seed": p["seed"], "config": p["config"], "ops": p["ops"][:6], "faults": p["faults"][:6],
                         "n_ops": len(p["ops"]), "n_faults": len(p["faults"]), "digest": r["digest"], "violation": r["violation"]}
                        for i, p, r in samples if p] or [{"note": "first runs not reached"}],
            "simulated_runs": len(results),
            "runs_per_hour": round(len(results) / max(wall_s, 1e-9) * 3600),
            "seeds_per_hour": round(len(results) / max(wall_s, 1e-9) * 3600),
            "simulated_time_s": round(sim_time, 3),
            "oracle_comparisons": checks,
            "events_logged": events,
            "faults_fired": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "distinct_states": len(states),
            "state_measure": module.STATE_MEASURE,
            "real_components": module.REAL,
            "stub_components": module.STUB,
            "determinism_selftest": determinism,
            "known_findings_hit": known_hits,
            "workers": a.workers,
            "stopped_early": stopped,
            "violation": (failures[0][2]["violation"] if failures else None),
        }
        write_json(os.path.join(VERIF, "evidence", f"{prop}.json"),
                   {"property": prop, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov, "wall_s": round(wall_s, 3)})
    for sig, e in known.items():
        print(f"KNOWN-FINDING: property={prop} {e['what']}" + (f" (met {known_hits[sig]} times)" if sig in known_hits else ""))
    dead = [k for k in getattr(module, "EXPECTED_PROBES", []) if not probes.get(k) and not faults.get(k)]
    if dead and exit_code == 0:
        print(f"note: probes never hit: {dead}")
    print(f"{prop} {tier}: {len(results)} runs, {checks} oracle comparisons, {round(sim_time)} s simulated, "
          f"{sum(faults.values())} faults fired, {len(states)} distinct states, {wall_s:.1f} s wall"
          + (f", stopped early ({stopped})" if stopped else ""))
    if violation_line:
        print(violation_line)
    return exit_code
