"""C06: the robot reaches its goal once disturbances stop.

One run has a disturbed phase (moving obstacles, pushes, localisation jumps, skipped
cycles, failing perception) and a quiet phase which begins where the last one ended:
obstacles stand still wherever they happen to be, commands are executed with only a
jittered control period.  Progress is bounded: the goal has to be reached within a
horizon of simulated time that depends on nothing but the nominal speed, and the robot
must not come to rest anywhere else.
"""
import math

import numpy as np

from ..avoid_sim import World, clear_hook, gen_free, gen_nominal, gen_scene, query_failure
from ..core import InjectedFault

RUNS = {"quick": 420, "thorough": 6000}
RULE = "One run is one scene, one disturbed phase and one quiet phase with a bounded horizon."
STATE_MEASURE = "distinct (algorithm, nominal motion, dimension, obstacles, last disturbance, distance-to-goal class, nearest-obstacle class) tuples"
REAL = ["nonlinear_avoidance.multi_obstacle_avoider", "nonlinear_avoidance.avoidance.rotational_avoider", "nonlinear_avoidance.nonlinear_rotation_avoider",
        "nonlinear_avoidance.vector_rotation", "nonlinear_avoidance.dynamics (wavy, projected rotation)",
        "nonlinear_avoidance.multi_obstacle(_container)", "nonlinear_avoidance.rotation_container"]
STUB = ["vartools / dynamic_obstacle_avoidance (absent packages: stand-ins)", "robot, localisation, obstacle motion, clock (simulated)"]
EXPECTED_PROBES = ["push", "jump", "stall", "query_failure", "obstacles-stopped", "reached", "close-pass"]

NEAR = 0.1  # what "reached" means
# Horizon in units of 1 / nominal speed; the slowest arrival seen on the repaired tree
# needed 24 (3000 runs), the scenes are at most 14 across.
HORIZON = 80.0


def generate(rng, tier):
    alg = rng.choice(["rot", "multi", "multi", "sing"])
    dim = 3 if alg != "sing" and rng.chance(0.3) else 2
    kind = "linear" if dim == 3 else rng.choice(["linear", "linear", "wavy"] + ["path"] * (alg == "multi"))
    moving = rng.chance(0.4)
    scene = gen_scene(rng, dim, rng.randint(1, 4), alg, moving, 0.3, blocks=True)
    scene["nominal"] = gen_nominal(rng, kind)
    ops, faults = [], []
    for k in range(rng.randint(1, 4)):
        ops.append({"op": "drive", "seg": k, "steps": rng.randint(4, 20), "dt": round(0.06 / scene["vmax"], 5),
                    "jit": [round(rng.uni(0.4, 1.6), 3) for _ in range(12)]})
        if rng.chance(0.5):
            faults.append({"kind": "push", "seg": k, "d": rng.direction(dim), "s": round(rng.uni(0.1, 1.5), 3)})
        if rng.chance(0.35):
            faults.append({"kind": "jump", "seg": k, "x": gen_free(rng, scene)})
        if rng.chance(0.3):
            faults.append({"kind": "stall", "seg": k, "at": rng.randrange(8), "n": rng.randint(1, 4)})
        if rng.chance(0.3):
            faults.append({"kind": "query_failure", "seg": k, "nth": rng.randint(1, 30)})
    ops.append({"op": "quiet", "seg": 99, "dt": round(0.06 / scene["vmax"], 5), "jit": [round(rng.uni(0.4, 1.6), 3) for _ in range(12)]})
    return {"config": {"scene": scene, "x0": gen_free(rng, scene, away=2.0)}, "ops": ops, "faults": faults}


def simplify(plan):
    scene = plan["config"]["scene"]
    cells = scene["cells"]
    for i in range(len(cells)):
        yield {**plan, "config": {**plan["config"], "scene": {**scene, "cells": cells[:i] + cells[i + 1:]}}}


def execute(ctx, plan):
    cfg = plan["config"]
    scene = cfg["scene"]
    w = World(scene)
    faults = {}
    for f in plan["faults"]:
        faults.setdefault(f["seg"], []).append(f)
    x = np.array(cfg["x0"], dtype=float)
    t = 0.0
    last = "start"
    label = (scene["alg"], scene["nominal"]["kind"], w.dim, len(w.bodies))
    top = scene["vmax"] + max([c["swing"] * c["omega"] + abs(c["turn"]) * c["r"] for c in scene["cells"]], default=0.0)

    def step(v, dt):
        nonlocal x, t
        x = x + v * dt
        t += dt
        w.set_time(t)

    for op in plan["ops"]:
        stall_at, stall_n = None, 0
        for f in faults.get(op["seg"], []):
            if f["kind"] in ("push", "jump"):
                y = x + f["s"] * np.array(f["d"]) if f["kind"] == "push" else np.array(f["x"], dtype=float)
                if w.distance(y) > 0.1:
                    x = y
                    last = f["kind"]
                    ctx.fault("push" if f["kind"] == "push" else "localisation_jump")
                    ctx.probe(f["kind"])
            elif f["kind"] == "stall":
                stall_at, stall_n = f["at"], f["n"]
            elif f["kind"] == "query_failure":
                query_failure(f["nth"], InjectedFault)
                try:
                    w.command(x)
                except InjectedFault:
                    ctx.fault("query_failure")
                    ctx.probe("query_failure")
                finally:
                    clear_hook()
        if op["op"] == "drive":
            v = None
            for k in range(op["steps"]):
                dt = op["dt"] * op["jit"][k % len(op["jit"])]
                ctx.fault("clock_jitter")
                if v is not None and stall_at is not None and stall_at <= k < stall_at + stall_n and w.distance(x) > top * dt * 1.5:
                    ctx.fault("skipped_cycle")
                    ctx.probe("stall")
                    last = "stall"
                else:
                    v = w.command(x)
                step(v, dt)
            continue
        # ---- quiet phase
        if any(b.is_moving() for b in w.bodies):
            ctx.probe("obstacles-stopped")
        for b in w.bodies:
            b.freeze()
        w.set_time(t)
        if w.gamma(x) <= 1.0:
            return  # C04 judges that
        start, t0, rest = x.copy(), t, 0
        k = 0
        while True:
            d = float(np.linalg.norm(x - w.attractor))
            if d < NEAR:
                ctx.probe("reached")
                ctx.check(True, "goal-not-reached")
                break
            where = lambda: f"after {t - t0:.2f} s of quiet from {start.tolist()} the robot is at {x.tolist()}, {d:.3f} from its goal {w.attractor.tolist()}"
            if not ctx.check((t - t0) * scene["vmax"] < HORIZON, "goal-not-reached", where):
                break
            dt = op["dt"] * op["jit"][k % len(op["jit"])]
            if w.kind == "path" and d < 1.0:
                # Just behind its end a way-point path turns round within a few degrees;
                # a control period that steps across that chatters there for ever.
                dt *= 0.2
            ctx.fault("clock_jitter")
            v = w.command(x)
            g = w.gamma(x)
            if g < 1.4:
                ctx.probe("close-pass")
            speed = float(np.linalg.norm(v))
            rest = rest + 1 if speed < 1e-3 * scene["vmax"] * min(1.0, d) else 0
            if not ctx.check(rest < 25, "comes-to-rest", lambda: f"at rest at {x.tolist()}, {d:.3f} away from the goal (from {start.tolist()})"):
                break
            ctx.state(*label, last, int(min(8, d)), int(min(6, g * 2)))
            ctx.record("x", x)
            step(v, dt)
            k += 1
    ctx.sim_time = t
