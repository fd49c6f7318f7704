"""C09: every obstacle keeps its own local motion through container edits.

Editors insert, replace and remove obstacles, a planner (re-)plans the local
motions and sometimes dies half-way, controllers query.  The reference is a
fresh container that only ever held the one obstacle, planned at that moment.
"""
import math

import numpy as np
from scipy.spatial.transform import Rotation

import dynamic_obstacle_avoidance.obstacles as obsmod
from vartools.dynamical_systems import ConstantValue, LinearSystem
from vartools.states import Pose
from nonlinear_avoidance.dynamics.circular_dynamics import SimpleCircularDynamics
from nonlinear_avoidance.dynamics.wavy_attractor_dynamics import WavyLinearDynamics
from nonlinear_avoidance.rotation_container import RotationContainer

from ..core import InjectedFault, Sim

RUNS = {"quick": 4000, "thorough": 60000}
RULE = "One run is one obstacle container edited, planned, re-planned (sometimes only half-way) and queried over a delayed, duplicated and lossy command stream."
STATE_MEASURE = "distinct (dimension, nominal kind, number of obstacles, how many planned, multiset of edit kinds so far capped at 2) tuples"
REAL = ["nonlinear_avoidance.rotation_container", "nonlinear_avoidance.dynamics.circular_dynamics", "nonlinear_avoidance.dynamics.wavy_attractor_dynamics"]
STUB = ["vartools / dynamic_obstacle_avoidance (absent packages: stand-ins, including the base container)", "spiral and vortex nominal motions", "editors and their network"]
EXPECTED_PROBES = ["drop", "dup", "delay", "planner_failure", "bad_index", "removed", "replaced", "on-goal", "still-nominal", "away-from-origin"]


def generate(rng, tier):
    dim = rng.choice([2, 2, 2, 3])
    kind = rng.choice(["linear", "spiral", "spiral", "vortex", "constant"] + (["wavy", "circular"] if dim == 2 else []))
    goal = rng.vec(dim, -6, 6) if rng.chance(0.8) else [0.0] * dim
    cfg = {"dim": dim, "kind": kind, "goal": [round(x, 3) for x in goal], "angle": rng.uni(-2.2, 2.2), "axis": rng.direction(3), "vmax": rng.choice([0.4, 1.0, 3.0]),
           "v": rng.vec(dim, -1, 1), "still": rng.vec(dim, -5, 5), "start": rng.randint(0, 4), "probe": [rng.vec(dim, -8, 8) for _ in range(4)]}
    ops, t = [], 0.0

    def obs():
        where = rng.choice(["any", "any", "any", "any", "goal", "origin", "still", "axis"])
        p = rng.vec(dim, -7, 7)
        if where == "goal":
            p = cfg["goal"]
        elif where == "origin":
            p = [0.0] * dim
        elif where == "still":
            p = cfg["still"]
        elif where == "axis":
            p = list(cfg["goal"])
            p[rng.randrange(dim)] += rng.choice([-1, 1]) * rng.uni(0.5, 4)
        return {"p": p, "axes": [rng.uni(0.3, 2.0) for _ in range(dim)], "kind": rng.choice(["cuboid", "ellipse"]), "o": rng.uni(-3, 3)}
    cfg["obs"] = [obs() for _ in range(cfg["start"])]
    w = {"add": 2, "del": rng.uni(0.2, 2), "set": rng.uni(0.2, 2), "plan": rng.uni(0.5, 2), "common": rng.uni(0, 0.4), "move": rng.uni(0, 1), "goal": rng.uni(0, 0.5), "query": 1}
    for k in range(rng.choice([4, 10, 25]) * (2 if tier == "thorough" else 1)):
        t = round(t + 0.01, 4)
        op = rng.choices(list(w), list(w.values()))[0]
        ops.append({"op": op, "t": t, "k": k, "o": obs(), "pick": rng.random(), "neg": rng.chance(0.15), "g": [round(x, 3) for x in rng.vec(dim, -6, 6)], "x": rng.vec(dim, -8, 8)})
    faults = []
    kinds = [x for x in ["drop", "dup", "delay", "planner", "index"] if rng.chance(0.5)]
    for o in ops:
        if "drop" in kinds and rng.chance(0.15):
            faults.append({"kind": "drop", "k": o["k"]})
        if "dup" in kinds and rng.chance(0.15):
            faults.append({"kind": "dup", "k": o["k"], "late": rng.choice([0.0, 0.025])})
        if "delay" in kinds and rng.chance(0.25):
            faults.append({"kind": "delay", "k": o["k"], "dt": rng.choice([0.015, 0.045])})
        if "planner" in kinds and o["op"] == "plan" and rng.chance(0.4):
            faults.append({"kind": "planner_failure", "k": o["k"], "nth": rng.randint(0, 4)})
        if "index" in kinds and o["op"] in ("del", "set") and rng.chance(0.3):
            faults.append({"kind": "bad_index", "k": o["k"]})
    return {"config": cfg, "ops": ops, "faults": faults}


class Nominal:
    """Counts evaluations so that the planner can be killed half-way."""

    def __init__(self, inner, attractor):
        self.inner, self.attractor_position = inner, attractor
        self.left = None

    def evaluate(self, x):
        if self.left is not None:
            if self.left == 0:
                raise InjectedFault("planner died")
            self.left -= 1
        return self.inner(np.array(x, dtype=float))


def make_nominal(cfg):
    dim, goal = cfg["dim"], np.array(cfg["goal"], dtype=float)
    kind = cfg["kind"]
    if kind == "constant":
        v = np.array(cfg["v"])
        still = np.array(cfg["still"])
        # standing still around one point: a goal-less motion with a rest region
        return Nominal(lambda x: np.zeros(dim) if np.linalg.norm(x - still) < 1e-9 else v.copy(), None)
    if kind == "vortex":
        still = np.array(cfg["still"])

        def vortex(x):
            r = x - still
            out = np.zeros(dim)
            out[0], out[1] = -r[1], r[0]
            return out
        return Nominal(vortex, None)
    if kind == "linear":
        return Nominal(LinearSystem(attractor_position=goal.copy(), maximum_velocity=cfg["vmax"]).evaluate, goal)
    if kind == "wavy":
        return Nominal(WavyLinearDynamics(goal.copy(), maximum_velocity=cfg["vmax"]).evaluate, goal)
    if kind == "circular":
        return Nominal(SimpleCircularDynamics(radius=1.5, maximum_velocity=cfg["vmax"], pose=Pose(goal.copy(), 0.0)).evaluate, goal)
    if dim == 2:
        c, s = math.cos(cfg["angle"]), math.sin(cfg["angle"])
        R = np.array([[c, -s], [s, c]])
    else:
        R = Rotation.from_rotvec(np.array(cfg["axis"]) * cfg["angle"]).as_matrix()
    still = np.array(cfg["still"])

    def spiral(x):
        if np.linalg.norm(x - still) < 1e-9:
            return np.zeros(dim)
        v = R @ (goal - x)
        n = np.linalg.norm(v)
        return v * min(1.0, cfg["vmax"] / n) if n else v
    return Nominal(spiral, goal)


def make(o, dim, p=None):
    cls = obsmod.CuboidXd if o["kind"] == "cuboid" else obsmod.EllipseWithAxes
    orient = o["o"] if dim == 2 else Rotation.from_rotvec([0, 0, o["o"]])
    return cls(axes_length=np.array(o["axes"]), pose=Pose(np.array(o["p"] if p is None else p, dtype=float), orient))


class Plan:
    """What one obstacle was planned with (None: not planned)."""

    def __init__(self, spec, p, cfg, common):
        self.p, self.cfg, self.common = np.array(p, dtype=float), dict(cfg), common
        if common is not None:
            self.goal = np.array(common)
            self.eval = LinearSystem(attractor_position=self.goal.copy()).evaluate
            return
        alone = RotationContainer()
        alone.append(make(spec, cfg["dim"], p))
        nom = make_nominal(cfg)
        alone.set_convergence_directions(nom)
        self.goal = nom.attractor_position
        self.direction = nom.evaluate(self.p)
        self.eval = lambda x: alone.get_convergence_direction(x, it_obs=0)


def execute(ctx, plan):
    obsmod.QUERY_HOOK = None
    cfg = dict(plan["config"])
    dim = cfg["dim"]
    box = RotationContainer()
    model = []  # [real obstacle, spec, list of admissible plans]
    for o in cfg["obs"]:
        real = make(o, dim)
        box.append(real)
        model.append([real, o, [None]])
    counts = {}
    by = {(f["kind"], f["k"]): f for f in plan["faults"]}

    def same(a, b):
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12)

    def verify(what, x):
        counts[what] = min(2, counts.get(what, 0) + 1)
        ctx.check(len(box) == len(model) and box.n_obstacles == len(model), "length", f"after {what}: {len(box)} obstacles, expected {len(model)}")
        ctx.check([id(o) for o in box] == [id(m[0]) for m in model], "members", f"after {what}")
        for i, (real, spec, plans) in enumerate(model):
            if None in plans:
                if len(plans) == 1:
                    # not planned: refusing is fine, somebody else's motion is not
                    try:
                        got = box.get_convergence_direction(x, it_obs=i)
                    except Exception:
                        continue
                    for other in model:
                        for p in other[2]:
                            if p is not None and len(model) > 1:
                                ctx.check(not same(np.asarray(got), p.eval(x)), "foreign-motion", f"after {what}: obstacle {i} was never planned but answers with another one's motion")
                continue
            for q in [x, np.array(cfg["probe"][i % 4])]:
                keep = q.copy()
                got = np.asarray(box.get_convergence_direction(q, it_obs=i), dtype=float)
                ctx.check(np.array_equal(q, keep), "argument-changed", "the query position was modified")
                ctx.check(got.shape == (dim,) and np.isfinite(got).all(), "not-finite", lambda: f"after {what}: obstacle {i} at {q}: {got}")
                ok = [p for p in plans if same(got, p.eval(q))]
                ctx.check(ok, "wrong-motion", lambda: f"after {what}: obstacle {i} at {q} answers {got}; planned for it: {[p.eval(q) for p in plans]}")
                ctx.record(got)
            if len(plans) != 1:
                continue
            p = plans[0]
            at = np.asarray(box.get_convergence_direction(p.p.copy(), it_obs=i), dtype=float)
            ctx.check(np.isfinite(at).all(), "not-finite", lambda: f"after {what}: obstacle {i} at its own position: {at}")
            if p.goal is not None:
                g = np.asarray(box.get_convergence_direction(p.goal.copy(), it_obs=i), dtype=float)
                ctx.check(np.allclose(g, 0, atol=1e-9), "goal-velocity", lambda: f"after {what}: obstacle {i} moves with {g} at the goal {p.goal}")
                ctx.check(np.allclose(box.get_intersection_position(i), p.goal), "goal-position", f"after {what}: obstacle {i}")
                far = np.linalg.norm(p.p - p.goal) > 1e-6
            else:
                far = True
            if p.common is None and far:
                n, a = np.linalg.norm(p.direction), np.linalg.norm(at)
                if p.goal is not None and np.linalg.norm(p.goal) > 0.1:
                    ctx.probe("away-from-origin")
                if n > 1e-9:
                    ctx.check(a > 0 and np.allclose(at / a, p.direction / n, atol=1e-6), "own-direction", lambda: f"after {what}: at its own position {p.p} obstacle {i} is sent along {at}, the nominal motion goes along {p.direction}")
                else:
                    ctx.probe("still-nominal")
                    if p.goal is None:
                        w = box.get_convergence_direction(x, it_obs=i)
                        d = p.p - x
                        ctx.check(np.dot(w, d) > 0.999 * np.linalg.norm(w) * np.linalg.norm(d), "own-direction", f"after {what}: obstacle {i} at a resting point does not attract")
            elif p.common is None:
                ctx.probe("on-goal")
        ctx.state(dim, cfg["kind"], len(model), sum(1 for m in model if m[2] != [None]), tuple(sorted(counts.items())))

    def event(o, fault):
        if fault:
            ctx.fault(fault)
        n = len(model)
        bad = ("bad_index", o["k"]) in by
        i = int(o["pick"] * n) if n else 0
        op = o["op"]
        if op == "add":
            real = make(o["o"], dim)
            box.append(real)
            model.append([real, o["o"], [None]])
        elif op in ("del", "set"):
            if bad or not n:
                if bad:
                    ctx.fault("bad_index")
                try:
                    if op == "del":
                        del box[n + 2]
                    else:
                        box[n + 2] = make(o["o"], dim)
                except Exception:
                    ctx.probe("rejected")
                else:
                    ctx.fail("bad-index-accepted", op)
            elif op == "del":
                del box[i - n if o["neg"] else i]
                del model[i]
                ctx.probe("removed")
            else:
                real = make(o["o"], dim)
                box[i - n if o["neg"] else i] = real
                model[i] = [real, o["o"], [None]]
                ctx.probe("replaced")
        elif op == "plan":
            nom = make_nominal(cfg)
            f = by.get(("planner_failure", o["k"]))
            if f:
                nom.left = f["nth"]
            fresh = [Plan(m[1], m[0].center_position, cfg, None) for m in model]
            try:
                box.set_convergence_directions(nom)
            except InjectedFault:
                ctx.fault("planner_failure")
                for m, p in zip(model, fresh):
                    m[2] = m[2] + [p]
            else:
                for m, p in zip(model, fresh):
                    m[2] = [p]
        elif op == "common":
            box.set_convergence_directions(converging_dynamics=LinearSystem(attractor_position=np.array(o["g"])))
            for m in model:
                m[2] = [Plan(m[1], m[0].center_position, cfg, o["g"])]
        elif op == "move" and n:
            model[i][0].pose = Pose(np.array(o["o"]["p"], dtype=float), model[i][0].pose.orientation)
        elif op == "goal":
            cfg["goal"] = o["g"]
        verify(op, np.array(o["x"]))

    sim = Sim(ctx)
    verify("start", np.array(cfg["probe"][0]))
    for o in plan["ops"]:
        if ("drop", o["k"]) in by:
            ctx.fault("drop")
            continue
        d, u = by.get(("delay", o["k"])), by.get(("dup", o["k"]))
        sim.at(o["t"] + (d["dt"] if d else 0.0), lambda o=o, d=d: event(o, "delay" if d else None))
        if u:
            sim.at(o["t"] + u["late"], lambda o=o: event(o, "dup"))
    sim.run()
