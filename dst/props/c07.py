"""C07: a command depends on the present situation only.

One run is a long history on one controller: obstacles move, appear and disappear, the
robot is teleported, perception fails in the middle of evaluations, callers reuse and
overwrite the arrays they passed or received.  At chosen instants the command is compared
with the commands of freshly built controllers for the very same situation: one built the
same way, one with the obstacles registered in another order, one with the whole situation
expressed in another rigid map frame.  The situation itself (poses, goal, caller's arrays)
must be untouched by asking.
"""
import math

import numpy as np
from scipy.spatial.transform import Rotation

from ..avoid_sim import Frame, World, clear_hook, gen_free, gen_kind, gen_nominal, gen_scene, plain, query_failure, surface_point
from ..core import InjectedFault

RUNS = {"quick": 1800, "thorough": 12000}
RULE = "One run is one scene and one history of queries, motions, registrations and failures on a single controller, with twin comparisons."
STATE_MEASURE = "distinct (algorithm, nominal motion, dimension, obstacles present, twin kind, events since the last comparison) tuples"
REAL = ["nonlinear_avoidance.multi_obstacle_avoider", "nonlinear_avoidance.avoidance.rotational_avoider", "nonlinear_avoidance.nonlinear_rotation_avoider",
        "nonlinear_avoidance.vector_rotation", "nonlinear_avoidance.multi_obstacle(_container)", "nonlinear_avoidance.rotation_container"]
STUB = ["vartools / dynamic_obstacle_avoidance (absent packages: stand-ins)", "robot, obstacle motion, clock, callers (simulated)"]
EXPECTED_PROBES = ["supposed-fewer", "twin-same", "twin-order", "twin-frame", "query_failure", "obstacle-removed", "obstacle-added", "obstacle-stops", "asked-again", "array-reused", "result-overwritten", "handed-velocity", "handed-convergence"]

# relative to the nominal speed (largest seen on the repaired tree: 0, 1e-8, 2e-8)
TOL = {"same": 1e-12, "order": 1e-6, "frame": 1e-6}


def generate(rng, tier):
    alg = rng.choice(["rot", "multi", "multi", "sing"])
    dim = 3 if alg != "sing" and rng.chance(0.3) else 2
    kind = gen_kind(rng, alg, dim)
    moving = rng.chance(0.6)
    scene = gen_scene(rng, dim, rng.randint(1, 5), alg, moving, 0.4, attractor=[0.0] * dim if kind == "circular" else None, blocks=True)
    scene["nominal"] = gen_nominal(rng, kind, dim)
    plain(scene)
    n = len(scene["cells"])
    ops, faults = [], []
    t = 0.0
    for k in range(rng.randint(5, 14)):
        r = rng.random()
        if r < 0.45:
            where = {"x": gen_free(rng, scene, 0.05)} if rng.chance(0.6) or not n else \
                {"i": rng.randrange(n), "d": rng.direction(dim), "dist": rng.choice([1e-6, 1e-3, 0.05, 0.3])}
            ops.append({"op": "ask", "odd": rng.choice([0, 0, 0.5, 0.9, -1, -2]), **where})
        elif r < 0.6:
            t += rng.uni(0.05, 4)
            ops.append({"op": "time", "t": round(t, 3)})
        elif r < 0.64:
            ops.append({"op": "halt", "i": rng.randrange(10)})
        elif r < 0.7:
            ops.append({"op": "drop", "i": rng.randrange(10)})
        elif r < 0.8:
            ops.append({"op": "add", "i": rng.randrange(10)})
        else:
            where = {"x": gen_free(rng, scene, 0.05)} if rng.chance(0.5) or not n else \
                {"i": rng.randrange(n), "d": rng.direction(dim), "dist": rng.choice([1e-6, 1e-3, 0.05, 0.3])}
            if rng.chance(0.35):
                where = {"again": True}  # where the robot asked last
            ops.append({"op": "compare", **where, "perm": rng.randrange(1000), "euler": rng.vec(3, -3.1, 3.1), "shift": rng.vec(3, -9, 9)})
        if rng.chance(0.3):
            faults.append({"kind": "query_failure", "at": k, "nth": rng.randint(1, 40), "x": gen_free(rng, scene, 0.05)})
    ops.append({"op": "compare", "x": gen_free(rng, scene, 0.05), "perm": rng.randrange(1000), "euler": rng.vec(3, -3.1, 3.1), "shift": rng.vec(3, -9, 9)})
    return {"config": {"scene": scene}, "ops": ops, "faults": faults}


def simplify(plan):
    scene = plan["config"]["scene"]
    cells = scene["cells"]
    for i in range(len(cells)):
        yield {**plan, "config": {**plan["config"], "scene": {**scene, "cells": cells[:i] + cells[i + 1:]}}}


def frame_of(dim, op):
    if dim == 2:
        a = op["euler"][0]
        R = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
        return Frame(2, R, np.array(op["shift"][:2]), a)
    return Frame(3, Rotation.from_euler("xyz", op["euler"]).as_matrix(), np.array(op["shift"]))


def execute(ctx, plan):
    scene = plan["config"]["scene"]
    cells = scene["cells"]
    w = World(scene)
    present = list(range(len(cells)))  # cell indices in registration order
    bodies = {i: b for i, b in zip(present, w.bodies)}
    container = w.container
    buffer = np.zeros(w.dim)
    since = set()
    halted = {}
    asked = None
    t = 0.0
    faults = {}
    for f in plan["faults"]:
        faults.setdefault(f["at"], []).append(f)

    def place(op):
        if "again" in op:
            return asked
        if "x" in op:
            return np.array(op["x"], dtype=float)
        if not present:
            return None
        return surface_point(bodies[present[op["i"] % len(present)]], np.array(op["d"], dtype=float), op["dist"])

    def ask(x):
        """One caller's query; the caller reuses its arrays."""
        buffer[:] = x
        before = w.poses()
        goal = np.copy(getattr(w.nominal, "attractor_position", w.attractor))
        heading = w.nominal.evaluate(np.array(x, dtype=float)).tolist()
        v = w.ask(buffer)
        got = np.array(v, dtype=float)
        where = lambda: f"asking at {np.asarray(x).tolist()}"
        ctx.check(np.array_equal(buffer, x), "changed-callers-array", where)
        for name, a, was in w.handed:
            ctx.probe("handed-" + name)
            ctx.check(np.array_equal(a, was), "changed-callers-array", lambda: f"asking at {np.asarray(x).tolist()}: the caller's {name} {was.tolist()} became {a.tolist()}")
        ctx.check(np.array_equal(before, w.poses()), "moved-an-obstacle", where)
        ctx.check(np.array_equal(goal, getattr(w.nominal, "attractor_position", w.attractor)), "moved-the-goal", where)
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[:] = 17.0  # the caller works in the array it got
            ctx.probe("result-overwritten")
            ctx.check(heading == w.nominal.evaluate(np.array(x, dtype=float)).tolist(), "changed-the-nominal-motion", where)
        buffer[:] = -3.0
        ctx.probe("array-reused")
        return got

    def compare(op, x):
        v = ask(x)
        ctx.record("v", x, v)
        order = list(range(len(present)))
        rot = op["perm"] % max(1, len(order))
        order = order[rot:] + order[:rot]
        if (op["perm"] // 7) % 2:
            order = order[::-1]
        own = cells[present[0]].get("rad") if len(present) == 1 else None
        for kind in ("same", "order", "frame") + (("radius",) if own else ()):
            frame = frame_of(w.dim, op) if kind == "frame" else Frame(w.dim)
            if kind == "frame" and scene["nominal"]["kind"] == "wavy":
                pass
            idx = [present[k] for k in order] if kind == "order" else present
            said = scene
            if kind == "radius":
                # its own convergence radius does what one given for everything does
                said = {**scene, "rad": own, "cells": [{**c, "rad": None} for c in cells]}
            twin = World(said, frame=frame, order=idx)
            for b, i in zip(twin.bodies, idx):
                if halted.get(i) is not None:
                    b.freeze(halted[i])
            twin.set_time(t)
            u = frame.back(twin.command(frame.pos(x)))
            err = float(np.linalg.norm(u - v)) / scene["vmax"]
            ctx.probe("twin-" + kind)
            ctx.state(scene["alg"], scene["nominal"]["kind"], w.dim, len(present), kind, sorted(since))
            ctx.check(err <= TOL.get(kind, TOL["same"]) and math.isfinite(err), f"differs-{kind}",
                      lambda: f"at {x.tolist()} t={t} with obstacles {present}: the used controller commands {v.tolist()}, "
                              f"a fresh one ({kind}: {idx}) {u.tolist()} (difference {err:.3g}; since: {sorted(since)})")
        since.clear()

    for k, op in enumerate(plan["ops"]):
        for f in faults.get(k, []):
            x = np.array(f["x"], dtype=float)
            box = query_failure(f["nth"], InjectedFault)
            before = w.poses()
            try:
                if w.gamma(x) > 1:
                    w.ask(np.copy(x))
            except InjectedFault:
                ctx.fault("query_failure")
                ctx.probe("query_failure")
                since.add("failure")
            finally:
                clear_hook()
            ctx.check(np.array_equal(before, w.poses()), "moved-an-obstacle", lambda: f"failing query at {x.tolist()}")
        kind = op["op"]
        if kind == "time":
            t = op["t"]
            w.set_time(t)
            since.add("time")
        elif kind == "halt" and present:
            # An obstacle stops, or goes on where it would have been without stopping
            i = present[op["i"] % len(present)]
            halted[i] = None if halted.get(i) is not None else t
            bodies[i].frozen_at = halted[i]
            w.set_time(t)
            ctx.fault("obstacle_stops")
            ctx.probe("obstacle-stops")
            since.add("halt")
        elif kind == "drop" and present:
            i = present.pop(op["i"] % len(present))
            gone = bodies.pop(i)
            w.bodies = [b for b in w.bodies if b is not gone]
            w.unregister(gone)
            ctx.fault("obstacle_disappears")
            ctx.probe("obstacle-removed")
            since.add("drop")
        elif kind == "add":
            absent = [i for i in range(len(cells)) if i not in present]
            if absent:
                i = absent[op["i"] % len(absent)]
                bodies[i] = w.register(i)
                bodies[i].frozen_at = halted[i] = None
                bodies[i].set_time(t)
                present.append(i)
                ctx.fault("obstacle_appears")
                ctx.probe("obstacle-added")
                since.add("add")
        elif kind in ("ask", "compare"):
            x = place(op)
            if x is None or w.gamma(x) <= 1.0:
                continue
            if "again" in op:
                ctx.probe("asked-again")
            asked = np.copy(x)
            if kind == "ask":
                if scene["alg"] == "rot" and op.get("odd"):
                    # somebody asks with an unusual parameter, once
                    ctx.fault("odd_question")
                    if op["odd"] > 0:
                        w.ask(np.copy(x), convergence_radius=op["odd"] * math.pi)
                    elif w.flow != "local":
                        # or supposing that there were fewer obstacles
                        ctx.probe("supposed-fewer")
                        w.ask(np.copy(x), obstacle_list=[o for j, o in enumerate(w.container) if op["odd"] == -2 and j])
                    since.add("odd")
                v = ask(x)
                ctx.record("v", x, v)
                since.add("ask")
            else:
                compare(op, x)
        ctx.sim_time = max(ctx.sim_time, t)
