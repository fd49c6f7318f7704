"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, pathlib
ROOT = pathlib.Path(__file__).resolve().parents[1]
ids = [json.loads(l)["id"] for l in (ROOT / "properties.jsonl").read_text().splitlines()]
PURE = {
 "C15": "A pure function of one location and one frozen obstacle: nothing is scheduled, timed, stored, random or shared between calls, so there is no history, schedule or fault for a simulator to search; a seeded run would be plain input fuzzing under another name.",
 "C16": "A pure function of two directions (and the vector rotated): no state, time, I/O, randomness or concurrency is involved, so simulated schedules and faults cannot reach anything a direct evaluation would not.",
}
NOTES = {
 "C01": "Seeded search over body trees, true motions and network fault sequences; real MultiBodyHuman, filters and optitrack-rigid-body code, stand-ins for the two absent libraries. Trusts the stand-in pose algebra.",
 "C02": "Same simulator as C01, judged by an independent executable model of attribution, filtering and frames. Trusts the stand-in filters (the model mirrors their documented update).",
 "C03": "Seeded search over interleavings of pose updates, growth, additions, rejected additions and queries, against an independent rigid-motion model. Trusts the stand-in primitive shapes.",
 "C04": "Closed-loop seeded simulation with clock jitter, skipped cycles, pushes and localisation jumps; bounds are on the simulated scenes only, with a stated discretisation allowance near surfaces.",
 "C05": "Every command of the closed loops of both avoiders plus adversarially symmetric positions, judged for existence, finiteness, speed and the goal / no-obstacle / far-away limits.",
 "C06": "Bounded-time liveness after the last fault in closed-loop simulation; separated convex obstacles, generic start positions.",
 "C07": "Metamorphic comparison of runs that differ only in history, failed queries, registration order or map frame; tolerance 1e-6 (exact for history).",
 "C08": "Seeded edit histories with rejected edits on every hierarchy registry against an executable reference forest.",
 "C09": "Seeded edit and re-planning histories on the obstacle container against a reference container that re-plans from scratch.",
 "C10": "Whole evaluation pipeline run on an in-memory-of-the-simulator scratch disk with kills, full disk, short writes and directory-order faults; recovery judged against the set of complete records.",
 "C11": "Seeded integration of every nominal motion under clock jitter, pushes and degenerate positions.",
 "C12": "Learning runs with seeded clustering randomness and sample order plus disturbed closed-loop execution of the learned motion.",
 "C13": "Seeded edit histories on the room container against an executable reference model.",
 "C14": "Seeded histories of registrations, failed registrations and queries on the rotation tree, compared with freshly built trees (order, history and frame).",
}
checks, na = [], []
for i in ids:
    if i in PURE:
        na.append({"property": i, "reason": PURE[i]})
    elif (ROOT / "dst" / "props" / f"{i.lower()}.py").exists():
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "deterministic simulation with fault injection (seeded search, minimised replay)",
                       "level": "exploration", "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh",
           "hooks": {"guard": "none", "enable": "no hooks were added to /repo: the simulator uses seams that exist (arguments, injected stand-in libraries, module attributes)", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(ROOT / "MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
