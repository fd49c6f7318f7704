"""C05: every command is well defined and stays within the nominal speed.

A controller asks for commands along closed-loop episodes whose disturbances are
chosen to be as unkind as possible: localisation jumps onto symmetry axes, onto
the goal, next to surfaces, far away; jittered clocks; moving obstacles; goals
inside obstacles; overlapping obstacles; no obstacles; failing perception.
"""
import math
import warnings

import numpy as np

from ..avoid_sim import ENDLESS, World, Frame, clear_hook, gen_free, gen_kind, gen_nominal, gen_scene, query_failure, surface_point
from ..core import InjectedFault

RUNS = {"quick": 1200, "thorough": 20000}
RULE = "One run is one scene (algorithm, dimension, obstacles, motion) and an episode of closed-loop segments between disturbances."
STATE_MEASURE = "distinct (algorithm, nominal motion, dimension, scene kind, last disturbance, nearest-obstacle distance class, heading class) tuples"
REAL = ["nonlinear_avoidance.multi_obstacle_avoider", "nonlinear_avoidance.avoidance.rotational_avoider", "nonlinear_avoidance.vector_rotation",
        "nonlinear_avoidance.dynamics.projected_rotation_dynamics", "nonlinear_avoidance.multi_obstacle(_container)", "nonlinear_avoidance.rotation_container"]
STUB = ["vartools / dynamic_obstacle_avoidance (absent packages: stand-ins)", "robot, localisation, obstacle motion, clock (simulated)"]
EXPECTED_PROBES = ["jump-axis", "jump-goal", "jump-surface", "jump-far", "jump-free", "query_failure", "empty-scene", "goal-inside", "overlap", "at-goal"]

JUMPS = ["axis", "axis", "goal", "surface", "far", "free", "cross", "diagonal"]


def generate(rng, tier):
    alg = rng.choice(["rot", "multi", "multi", "sing"])
    dim = 2 if alg == "sing" else rng.choice([2, 2, 3])
    kind = rng.choice(["generic", "generic", "moving", "symmetric", "symmetric", "overlap", "goal-inside", "empty", "compound", "compound"])
    n = {"empty": 0}.get(kind, rng.randint(1, 4))
    moving = kind == "moving" or (kind == "compound" and rng.chance(0.4))
    scene = gen_scene(rng, dim, n, alg, moving, 1.0 if kind == "compound" else 0.0, blocks=True)
    if kind == "symmetric":
        # everything on one grid, aligned with the axes
        scene["attractor"] = [float(rng.choice([0, 4]))] + [0.0] * (dim - 1)
        cells = []
        for c in scene["cells"]:
            c["c"] = [float(rng.choice([-4, -2, 0, 2])) for _ in range(dim)]
            if rng.chance(0.6):
                c["c"][1:] = [0.0] * (dim - 1)
            c["o"] = rng.choice([0.0, math.pi / 2, math.pi / 4]) if dim == 2 else [0.0, 0.0, 0.0, 1.0]
            for p in c["parts"]:
                p["axes"] = [1.0] * dim if rng.chance(0.5) else p["axes"]
                p["margin"] = 0.0
            if c["c"] != scene["attractor"] and all(c["c"] != q["c"] for q in cells):
                cells.append(c)
        scene["cells"] = cells
    if kind == "overlap" and len(scene["cells"]) > 1:
        a, b = scene["cells"][0], scene["cells"][1]
        b["c"] = [round(x + y, 4) for x, y in zip(a["c"], rng.vec(dim, -0.4, 0.4))]
    if kind == "goal-inside" and scene["cells"]:
        c = scene["cells"][0]
        scene["attractor"] = [round(x + (rng.uni(-0.2, 0.2) if rng.chance(0.7) else 0.0), 4) for x in c["c"]]
    scene["nominal"] = gen_nominal(rng, gen_kind(rng, alg, dim), dim)
    segs = rng.randint(4, 9)
    ops, faults, t = [], [], 0.0
    for k in range(segs):
        ops.append({"op": "drive", "steps": rng.randint(1, 8), "dt": round(rng.uni(0.01, 0.08), 4), "seg": k,
                    "jit": [round(rng.uni(0.2, 2.0), 3) for _ in range(8)]})
        j = rng.choice(JUMPS)
        f = {"kind": "jump", "how": j, "seg": k, "i": rng.randrange(100), "s": rng.uni(-4, 4), "d": rng.direction(dim),
             "eps": rng.choice([0.0, 0.0, 1e-14, 1e-11, 1e-9, 1e-7, 1e-4]), "e": rng.direction(dim)}
        if j == "free":
            f["x"] = gen_free(rng, scene)
        if j == "surface":
            f["dist"] = rng.choice([1e-12, 1e-9, 1e-6, 1e-3, 0.1])
        if j == "far":
            f["scale"] = rng.choice([1e2, 1e3, 1e4, 1e6])
        faults.append(f)
        if rng.chance(0.25):
            faults.append({"kind": "query_failure", "seg": k, "nth": rng.randint(1, 25)})
    return {"config": {"scene": scene, "kind": kind, "x0": gen_free(rng, scene)}, "ops": ops, "faults": faults}


def simplify(plan):
    cells = plan["config"]["scene"]["cells"]
    for i in range(len(cells)):
        p = {**plan, "config": {**plan["config"], "scene": {**plan["config"]["scene"], "cells": cells[:i] + cells[i + 1:]}}}
        yield p


def place(w, f, x):
    """Where a localisation jump puts the robot."""
    d = np.array(f["d"], dtype=float)
    att = w.attractor
    if f["how"] == "free":
        return np.array(f["x"], dtype=float)
    if f["how"] == "goal":
        return att + f["eps"] * d
    if f["how"] == "far":
        if f["i"] % 3 == 0:
            d = np.eye(w.dim)[f["i"] % w.dim]
        return att + f["scale"] * d
    if not w.bodies:
        return x
    b = w.bodies[f["i"] % len(w.bodies)]
    if f["how"] == "surface":
        if f["i"] % 2:
            k = (f["i"] // 2) % w.dim
            d = np.eye(w.dim)[k] * (1 if f["s"] > 0 else -1)
        return surface_point(b, d, f["dist"])
    part = b.parts()[(f["i"] // 7) % len(b.parts())]
    ref = np.array(part.get_reference_point(in_global_frame=True)) if f["i"] % 2 else np.array(part.pose.position)
    if f["how"] == "axis":
        # on the line through goal and obstacle reference, in front or behind
        u = ref - att
        n = np.linalg.norm(u)
        u = u / n if n > 1e-9 else np.eye(w.dim)[0]
        return ref + f["s"] * u + f["eps"] * np.array(f["e"])
    if f["how"] == "cross":
        # exactly beside the reference point, along a world axis
        return ref + np.eye(w.dim)[f["i"] % w.dim] * f["s"]
    if f["how"] == "diagonal":
        o = w.bodies[(f["i"] + 1) % len(w.bodies)]
        return 0.5 * (b.now[0] + o.now[0]) + f["eps"] * np.array(f["e"])
    raise AssertionError(f["how"])


def execute(ctx, plan):
    with warnings.catch_warnings(record=True) as unbalanced:
        # the direction trees complain about weights which do not add up to one
        warnings.filterwarnings("always", message="Sum of weights")
        drive(ctx, plan, unbalanced)


def drive(ctx, plan, unbalanced):
    cfg = plan["config"]
    scene = cfg["scene"]
    kind = cfg["kind"]
    w = World(scene)
    faults = {}
    for f in plan["faults"]:
        faults.setdefault(f["seg"], []).append(f)
    x = np.array(cfg["x0"], dtype=float)
    t = 0.0
    last = "start"
    if not w.bodies:
        ctx.probe("empty-scene")
    if kind in ("goal-inside", "overlap"):
        ctx.probe(kind)
    still = all(c["swing"] == 0 and c["turn"] == 0 for c in scene["cells"])

    def judge(x, v):
        nominal = w.nominal_at(x)
        speed = np.linalg.norm(v)
        where = lambda: f"at {x.tolist()} t={t:.4f}: command {v.tolist()}, nominal {nominal.tolist()}"
        ctx.check(v.shape == (w.dim,), "shape", where)
        ctx.check(bool(np.all(np.isfinite(v))), "not-finite", where)
        own = max([np.linalg.norm(b.now[1]) + (np.linalg.norm(b.now[2]) + abs(b.growth(t)[1])) * np.linalg.norm(x - b.now[0]) for b in w.bodies], default=0.0)
        ctx.check(not unbalanced, "unbalanced-average", lambda: where() + f" ({unbalanced[0].message})")
        ctx.check(speed <= np.linalg.norm(nominal) * (1 + 1e-7) + 2 * own + 1e-9, "too-fast", where)
        if not w.bodies:
            ctx.check(np.linalg.norm(v - nominal) <= 1e-7, "not-nominal-without-obstacles", where)
        if np.array_equal(x, w.attractor) and still and w.kind not in ENDLESS:
            ctx.probe("at-goal")
            ctx.check(speed == 0.0, "moves-at-goal", where)
        far = w.distance(x)
        if far > 50 and w.bodies and w.gamma(w.attractor) > 1.5:
            # the influence decays with the distance measure
            ctx.probe("far-query")
            err = np.linalg.norm(v - nominal) / w.vmax
            # along an axis the motion around the obstacles stays at an angle to the motion here
            bound = 60.0 / far if w.kind != "axis" else 4.0 / math.sqrt(far)
            ctx.check(err <= bound + own_far(w, far) / w.vmax, "not-nominal-far-away", where)

    def command(x):
        try:
            return w.command(x)
        except Exception as e:
            if w.kind == "helix" and any(len(b.parts()) > 1 for b in w.bodies) and "Parents are not aligned" in str(e.__context__):
                ctx.fail("helix-compound-abort", f"at {x.tolist()}")
                return None
            raise

    def ask(x):
        nonlocal last
        if w.gamma(x) <= 1.0:
            ctx.probe("skipped-inside")
            return None
        v = command(x)
        if v is None:
            return None
        g = w.gamma(x)
        h = float(v @ (w.attractor - x))
        ctx.state(scene["alg"], w.kind, w.dim, kind, last, int(min(6, max(0, 2 - math.log10(min(max(g - 1, 1e-9), 1e9))))), h > 0)
        ctx.record("v", x, v)
        judge(x, v)
        return v

    for op in plan["ops"]:
        for f in faults.get(op["seg"], []):
            if f["kind"] == "jump":
                x = place(w, f, x)
                last = f["how"]
                ctx.fault("localisation_jump")
                ctx.probe("jump-" + f["how"])
            else:
                box = query_failure(f["nth"], InjectedFault)
                try:
                    if w.gamma(x) > 1:
                        command(x)
                except InjectedFault:
                    ctx.fault("query_failure")
                finally:
                    clear_hook()
        for k in range(op["steps"]):
            v = ask(x)
            if v is None:
                break
            dt = op["dt"] * op["jit"][k % len(op["jit"])]
            ctx.fault("clock_jitter")
            x = x + v * dt
            t += dt
            w.set_time(t)
    ctx.sim_time = t


def own_far(w, far):
    """Obstacle motion may leak into far commands with a decaying weight."""
    felt = [np.linalg.norm(b.now[1]) + np.linalg.norm(b.now[2]) for b in w.bodies]
    if w.alg == "multi":
        return 10.0 / far * sum(felt)
    # the motion of single bodies is weighted by an absent package (stand-in)
    return 2.0 * max(felt, default=0.0)
