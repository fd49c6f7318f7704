"""C04: a robot following the commands does not run into the obstacles it is shown.

One run drives a robot through one scene with the real avoider in the loop, at a
jittered control period, while pushes, localisation jumps, skipped cycles and
failing perception happen.  Every pose of every obstacle is a closed-form function
of simulated time.  Invariant after every step: outside all obstacles.  In
addition the command in front of obstacle surfaces is examined at random instants:
the velocity relative to the surface must not point inward by more than a
vanishing amount.
"""
import math

import numpy as np

from ..avoid_sim import World, clear_hook, gen_free, gen_kind, gen_nominal, gen_scene, plain, query_failure, surface_point
from ..core import InjectedFault

RUNS = {"quick": 900, "thorough": 12000}
RULE = "One run is one scene with one closed-loop drive (disturbed) and the surface inspections made during it."
STATE_MEASURE = "distinct (algorithm, nominal motion, dimension, moving, nearest-obstacle distance class, approach class, last disturbance) tuples"
REAL = ["nonlinear_avoidance.multi_obstacle_avoider", "nonlinear_avoidance.avoidance.rotational_avoider", "nonlinear_avoidance.nonlinear_rotation_avoider",
        "nonlinear_avoidance.vector_rotation", "nonlinear_avoidance.dynamics (circular, wavy, projected rotation)",
        "nonlinear_avoidance.multi_obstacle(_container)", "nonlinear_avoidance.rotation_container"]
STUB = ["vartools / dynamic_obstacle_avoidance (absent packages: stand-ins)", "robot, localisation, obstacle motion, clock (simulated)"]
EXPECTED_PROBES = ["near-surface", "surface-moving", "surface-compound", "push", "jump", "stall", "query_failure", "head-on", "approaching"]

# inward velocity allowed at a distance from the surface of a single convex body:
# SLOPE * distance (largest seen on the repaired tree: 36 * distance)
SLOPE = 400.0
# joints of compound bodies: the influence of the neighbouring part fades only
# polynomially, so only a bound right at the surface is meaningful
COMPOUND_AT = 1e-8
COMPOUND_TOL = 0.1


def generate(rng, tier):
    alg = rng.choice(["rot", "multi", "multi", "sing"])
    dim = 3 if alg != "sing" and rng.chance(0.3) else 2
    kind = gen_kind(rng, alg, dim)
    moving = rng.chance(0.45)
    scene = gen_scene(rng, dim, rng.randint(1, 4), alg, moving, 0.35, attractor=[0.0] * dim if kind == "circular" else None, blocks=True)
    scene["nominal"] = gen_nominal(rng, kind, dim)
    plain(scene)
    mode = rng.choice(["drive", "inspect", "inspect"])
    x0 = gen_free(rng, scene)
    if rng.chance(0.2) and scene["cells"]:
        # start on the line through the goal and an obstacle, on its far side
        c = rng.choice(scene["cells"])
        u = [a - b for a, b in zip(c["c"], scene["attractor"])]
        n = math.sqrt(sum(a * a for a in u))
        far = n + c["r"] + c["swing"] + rng.uni(0.4, 1.5)
        x = [b + a / n * far for a, b in zip(u, scene["attractor"])]
        if all(math.dist(x, q["c"]) > q["r"] + q["swing"] + 0.05 for q in scene["cells"]):
            x0 = [v + rng.choice([0.0, 1e-9, 1e-4, 1e-2]) * w for v, w in zip(x, rng.direction(dim))]
            scene["head_on"] = True
    ops, faults = [], []
    n = rng.randint(4, 10)
    for k in range(n):
        if mode == "drive":
            ops.append({"op": "drive", "seg": k, "steps": rng.randint(8, 30), "dt": round(0.06 / scene["vmax"], 5),
                        "jit": [round(rng.uni(0.4, 1.6), 3) for _ in range(12)]})
        else:
            for _ in range(2):
                ops.append({"op": "inspect", "seg": k, "t": round(rng.uni(0, 20), 3), "i": rng.randrange(100),
                            "d": rng.direction(dim), "axis": rng.randrange(2 * dim) if rng.chance(0.2) else None,
                            "e": rng.choice([3, 4, 5, 6])})
        if rng.chance(0.35):
            faults.append({"kind": "push", "seg": k, "d": rng.direction(dim), "s": round(rng.uni(0.1, 1.0), 3)})
        if rng.chance(0.2):
            faults.append({"kind": "jump", "seg": k, "x": gen_free(rng, scene)})
        if rng.chance(0.3):
            faults.append({"kind": "stall", "seg": k, "at": rng.randrange(8), "n": rng.randint(1, 4)})
        if rng.chance(0.25):
            faults.append({"kind": "query_failure", "seg": k, "nth": rng.randint(1, 30)})
    return {"config": {"scene": scene, "x0": x0}, "ops": ops, "faults": faults}


def simplify(plan):
    scene = plan["config"]["scene"]
    cells = scene["cells"]
    for i in range(len(cells)):
        yield {**plan, "config": {**plan["config"], "scene": {**scene, "cells": cells[:i] + cells[i + 1:]}}}


def execute(ctx, plan):
    cfg = plan["config"]
    scene = cfg["scene"]
    w = World(scene)
    faults = {}
    for f in plan["faults"]:
        faults.setdefault(f["seg"], []).append(f)
    x = np.array(cfg["x0"], dtype=float)
    t = 0.0
    last = "start"
    moving = any(c["swing"] or c["turn"] for c in scene["cells"])
    if scene.get("head_on"):
        ctx.probe("head-on")
    label = (scene["alg"], scene.get("nominal", {}).get("kind", "linear"), w.dim, moving)
    # longest time a command may be held while not yet next to an obstacle
    top = scene["vmax"] + max([c["swing"] * c["omega"] + abs(c["turn"]) * c["r"] for c in scene["cells"]], default=0.0)

    def inspect(b, d, dist, t):
        w.set_time(t)
        y = surface_point(b, d, dist)
        if w.gamma(y) <= 1.0:
            return
        v = w.command(y)
        part = min(b.parts(), key=lambda p: p.get_gamma(y, in_global_frame=True))
        n = np.asarray(part.get_normal_direction(y, in_global_frame=True))
        vn = float(n @ (v - b.surface_velocity(y, t)))
        ctx.probe("surface-moving" if moving else "near-surface")
        scale = (scene["vmax"] + 1.0)
        # |.| <= 1 up to rounding
        if len(b.parts()) == 1:
            tol = SLOPE * dist * scale + 1e-7
        else:
            ctx.probe("surface-compound")
            if dist > 1.01 * COMPOUND_AT:
                return
            tol = COMPOUND_TOL * scale
        ctx.state(*label, "surface", len(b.parts()), vn > 1e-6)
        ctx.record("s", y, v)
        ctx.check(math.isfinite(vn) and vn >= -tol, "points-into-obstacle",
                  lambda: f"{dist:g} in front of obstacle {w.bodies.index(b)} at {y.tolist()} t={t}: velocity into the surface {-vn:.6g}, command {v.tolist()}")

    for op in plan["ops"]:
        stall_at, stall_n = None, 0
        for f in faults.get(op["seg"], []):
            if f["kind"] == "push":
                y = x + f["s"] * np.array(f["d"])
                if clear(w, y):
                    x = y
                    ctx.fault("push")
                    ctx.probe("push")
                    last = "push"
            elif f["kind"] == "jump":
                y = np.array(f["x"], dtype=float)
                if clear(w, y):
                    x = y
                    ctx.fault("localisation_jump")
                    ctx.probe("jump")
                    last = "jump"
            elif f["kind"] == "stall":
                stall_at, stall_n = f["at"], f["n"]
            elif f["kind"] == "query_failure":
                query_failure(f["nth"], InjectedFault)
                try:
                    w.command(x)
                except InjectedFault:
                    ctx.fault("query_failure")
                    ctx.probe("query_failure")
                finally:
                    clear_hook()
        if op["op"] == "inspect":
            if not w.bodies:
                continue
            b = w.bodies[op["i"] % len(w.bodies)]
            d = np.array(op["d"], dtype=float)
            if op["axis"] is not None:
                d = np.eye(w.dim)[op["axis"] // 2] * (1 if op["axis"] % 2 else -1)
            inspect(b, d, 10.0 ** -op["e"], op["t"])
            inspect(b, d, COMPOUND_AT, op["t"])
            continue
        v = None
        held = 0
        k = 0
        while k < op["steps"]:
            dt = op["dt"] * op["jit"][k % len(op["jit"])]
            ctx.fault("clock_jitter")
            g = w.gamma(x)
            if v is not None and stall_at is not None and stall_at <= k < stall_at + stall_n and w.distance(x) > top * dt * 1.5:
                held += 1  # the cycle is skipped, the robot keeps its last command
                ctx.fault("skipped_cycle")
                ctx.probe("stall")
                last = "stall"
            else:
                v = w.command(x)
                held = 0
            if g < 1.5:
                ctx.probe("approaching")
            x = x + v * dt
            t += dt
            w.set_time(t)
            g2 = w.gamma(x)
            ctx.state(*label, int(min(8, g2 * 2)), g2 < g, last)
            ctx.record("x", x, g2)
            ctx.check(g2 > 1.0, "collision", lambda: f"t={t:.3f} x={x.tolist()} distance measure {g2:.5f} after {g:.5f}; command {v.tolist()}")
            k += 1
    ctx.sim_time = t


def clear(w, y):
    """Free space, with enough room that a jump is not itself a collision."""
    return w.distance(y) > 0.1
