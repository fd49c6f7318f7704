"""C03: a compound obstacle moves, turns and grows as one rigid body.

A tracker publishes group poses over a lossy network; the controller applies
whatever arrives, integrates growth with a jittered clock, adds components at
run time (some of them rejected) and answers distance queries, some of which
fail half-way because a component's query fails.
"""
import math

import numpy as np
from scipy.spatial.transform import Rotation

import dynamic_obstacle_avoidance.obstacles as obsmod
from vartools.states import Pose
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
from nonlinear_avoidance.arch_obstacle import BlockArchObstacle, create_arch_obstacle
from nonlinear_avoidance.multi_body_human import create_2d_human, create_3d_human, transform_from_multibodyobstacle_to_multiobstacle

from ..core import InjectedFault, Sim

RUNS = {"quick": 2500, "thorough": 25000}
RULE = "One run is one compound obstacle (random tree, arch or human) driven by a pose stream over a lossy network, growth ticks, run-time additions and queries."
STATE_MEASURE = "distinct (kind, dimension, number of components, multiset of event kinds so far capped at 3) tuples"
REAL = ["nonlinear_avoidance.multi_obstacle", "nonlinear_avoidance.arch_obstacle", "nonlinear_avoidance.geometry", "nonlinear_avoidance.multi_body_human factories"]
STUB = ["vartools / dynamic_obstacle_avoidance (absent packages: stand-ins)", "tracker", "robot clock"]
EXPECTED_PROBES = ["drop", "dup", "reorder", "delay", "rejected_parent", "rejected_disjoint", "query_failure", "clock_jump", "local-query", "growth", "auto-joint", "same-object", "container", "in-neighbour"]


def gen_orient(rng, dim):
    if dim == 2:
        return rng.choice([rng.uni(-3.1, 3.1), 0.0, math.pi / 2, rng.uni(-9, 9)])
    return rng.direction(4)


def orient(o):
    return o if not isinstance(o, list) else Rotation.from_quat(o)


def pose_of(d):
    return Pose(np.array(d["p"], dtype=float), orient(d["o"]))


def gen_pose(rng, dim, scale):
    return {"p": [round(x, 4) for x in rng.vec(dim, -scale, scale)], "o": gen_orient(rng, dim)}


def gen_component(rng, dim, n):
    c = {"op": "add", "kind": rng.choice(["cuboid", "ellipse"]), "axes": [round(rng.uni(0.3, 1.5), 3) for _ in range(dim)],
         "pose": gen_pose(rng, dim, 1.5), "parent": rng.randrange(n), "ref": [round(x, 3) for x in rng.vec(dim, -0.3, 0.3)],
         "margin": rng.choice([0.0, 0.1])}
    if dim == 2 and rng.chance(0.35):
        # let the code find the joint: place it so that it overlaps its parent
        c["ref"] = None
    return c


def generate(rng, tier):
    kind = rng.choice(["tree", "tree", "tree", "tree", "arch", "block", "human2", "human3"])
    dim = 3 if kind == "human3" else (rng.choice([2, 3]) if kind == "tree" else 2)
    cfg = {"kind": kind, "dim": dim, "pose": gen_pose(rng, dim, 4), "margin": rng.choice([0.0, 0.2]),
           "axes": [round(rng.uni(2.0, 5.0), 3), round(rng.uni(2.0, 6.0), 3)], "wall": round(rng.uni(0.3, 0.9), 3),
           "rate": rng.choice([None, rng.uni(-0.3, 0.3), rng.uni(-0.3, 0.3)]) if kind != "block" else None}
    n0 = 0
    ops = []
    t = 0.0
    n = 1 if kind == "tree" else 3
    cfg["root"] = gen_component(rng, dim, 1)
    cfg["root"]["ref"] = None
    # other compound obstacles kept in the same container, some registered before and some after this one
    cfg["others"] = [{**gen_component(rng, dim, 1), "at": gen_pose(rng, dim, 4), "first": rng.chance(0.5)} for _ in range(rng.choice([0, 1, 1, 3]))]
    nops = rng.choice([6, 15, 40]) * (2 if tier == "thorough" else 1)
    weights = {"pose": rng.uni(0.2, 3), "grow": rng.uni(0, 2) if cfg["rate"] is not None else 0, "add": rng.uni(0.2, 2) if kind == "tree" else 0.2,
               "query": rng.uni(0.3, 2), "vel": rng.uni(0, 0.5), "peek": rng.uni(0, 0.5), "same": rng.uni(0, 0.5), "exclude": rng.uni(0.1, 0.6)}
    if kind == "block":
        weights.update(vel=0.0)
    names = list(weights)
    pose = cfg["pose"]
    for k in range(nops):
        t = round(t + rng.choice([0.01, 0.02, 0.05]), 4)
        what = rng.choices(names, [weights[x] for x in names])[0]
        if what == "pose":
            if rng.chance(0.7):
                # small or tiny moves; at times only the position or only the orientation changes
                step = rng.choice([0.3, 0.3, 1e-2, 1e-3, 1e-4, 1e-6])
                kept = rng.choice([None, None, "p", "o"])
                p = pose["p"] if kept == "p" else [round(a + b, 9) for a, b in zip(pose["p"], rng.vec(dim, -step, step))]
                if kept == "o":
                    o = pose["o"]
                elif dim == 2:
                    o = pose["o"] + rng.uni(-step, step)
                else:
                    o = [a + b for a, b in zip(pose["o"], rng.vec(4, -step, step))]
                pose = {"p": p, "o": o}
            else:
                pose = gen_pose(rng, dim, 8)
            ops.append({"op": "pose", "t": t, "pose": pose, "k": k, "one": rng.choice([0, 0, 1, 2])})
        elif what == "same":
            ops.append({"op": "pose", "t": t, "pose": pose, "k": k})
        elif what == "grow":
            ops.append({"op": "grow", "t": t, "dt": rng.choice([0.01, 0.02, 0.1, 0.0, 0.5])})
        elif what == "add":
            if n < 9:
                c = gen_component(rng, dim, n)
                c.update(t=t)
                ops.append(c)
                n += 1
        elif what == "vel":
            ops.append({"op": "vel", "t": t, "v": rng.vec(dim, -2, 2)})
        elif what == "peek":
            ops.append({"op": "peek", "t": t})
        else:
            ops.append({"op": what, "t": t, "x": rng.vec(dim, -4, 4), "local": rng.chance(0.5), "pick": rng.random()})
    faults = []
    kinds = [x for x in ["drop", "dup", "delay", "badparent", "disjoint", "qfail", "jump"] if rng.chance(0.5)]
    for o in ops:
        if o["op"] == "pose":
            if "drop" in kinds and rng.chance(0.2):
                faults.append({"kind": "drop", "k": o["k"]})
            if "dup" in kinds and rng.chance(0.2):
                faults.append({"kind": "dup", "k": o["k"], "late": rng.choice([0.0, 0.03, 0.2])})
            if "delay" in kinds and rng.chance(0.3):
                faults.append({"kind": "delay", "k": o["k"], "dt": rng.choice([0.015, 0.06, 0.15])})
        if o["op"] == "grow" and "jump" in kinds and rng.chance(0.2):
            faults.append({"kind": "clock_jump", "t": o["t"], "dt": rng.choice([0.0, 0.9, 0.3])})
    if kind == "tree":
        if "badparent" in kinds:
            c = gen_component(rng, dim, 1)
            c["ref"] = c["ref"] or [0.0] * dim
            c.update(kind2=c.pop("op"), parent=rng.choice([17, 99]), t=round(rng.uni(0, t), 4))
            faults.append({"kind": "rejected_parent", "c": c})
        if "disjoint" in kinds and dim == 2:
            c = gen_component(rng, dim, 1)
            c.update(ref=None, parent=0, t=round(rng.uni(0, t), 4))
            c["pose"]["p"] = [50.0, 40.0]
            faults.append({"kind": "rejected_disjoint", "c": c})
    if "qfail" in kinds:
        for _ in range(rng.randint(1, 3)):
            faults.append({"kind": "query_failure", "t": round(rng.uni(0, t), 4), "nth": rng.randint(0, 3), "x": rng.vec(dim, -4, 4)})
    return {"config": cfg, "ops": ops, "faults": faults}


def matrix(pose):
    o = pose.orientation
    if isinstance(o, Rotation):
        return o.as_matrix()
    return np.array([[math.cos(o), -math.sin(o)], [math.sin(o), math.cos(o)]])


class Model:
    """Group pose plus, per component, its placement, extents and joint."""

    def __init__(self, pose):
        self.p, self.R = np.array(pose.position), matrix(pose)
        self.comp = []

    def add(self, pose, axes, ref):
        self.comp.append([np.array(pose.position, dtype=float), matrix(pose), np.array(axes, dtype=float), None if ref is None else np.array(ref, dtype=float)])

    def move(self, pose):
        self.p, self.R = np.array(pose.position), matrix(pose)

    def grow(self, factor):
        for c in self.comp:
            c[0], c[2] = c[0] * factor, c[2] * factor
            if c[3] is not None:
                c[3] = c[3] * factor


def make(c):
    cls = obsmod.CuboidXd if c["kind"] == "cuboid" else obsmod.EllipseWithAxes
    return cls(axes_length=np.array(c["axes"]), pose=pose_of(c["pose"]), margin_absolut=c["margin"])


class Run:
    def __init__(self, ctx, plan):
        self.ctx, self.plan, self.cfg = ctx, plan, plan["config"]
        self.sim = Sim(ctx)
        self.counts = {}
        self.build()

    def build(self):
        cfg, dim = self.cfg, self.cfg["dim"]
        base = pose_of(cfg["pose"])
        self.sent = base
        kind = cfg["kind"]
        if kind == "tree":
            self.g = MultiObstacle(base)
            self.m = Model(base)
            o = make(cfg["root"])
            self.m.add(o.pose, o.axes_length, o.get_reference_point())
            self.g.set_root(o)
        else:
            if kind == "arch":
                self.g = create_arch_obstacle(cfg["wall"], np.array(cfg["axes"]), base, cfg["margin"])
            elif kind == "block":
                self.g = BlockArchObstacle(cfg["wall"], np.array(cfg["axes"]), base, cfg["margin"])
            else:
                if kind == "human2":
                    self.g = create_2d_human()
                else:
                    self.g = transform_from_multibodyobstacle_to_multiobstacle(create_3d_human())
                base = self.g.get_pose()
            self.m = Model(base)
            R, p = matrix(base), base.position
            for i in range(self.g.n_components):
                o = self.g.get_component(i)
                local = Pose(R.T @ (o.pose.position - p), o.pose.orientation)
                self.m.add(local, o.axes_length, o.get_reference_point())
                self.m.comp[-1][1] = R.T @ matrix(o.pose)
            if kind in ("arch", "block"):
                # the three walls span the requested outline, arms on one side
                a, w = np.array(cfg["axes"]), cfg["wall"]
                want = [(np.zeros(2), [w, a[1]]), ((a - w) / 2, [a[0], w]), ((a - w) / 2 * np.array([1, -1]), [a[0], w])]
                for (q, ax), c in zip(want, self.m.comp):
                    self.ctx.check(np.allclose(c[0], q, atol=1e-9) and np.allclose(c[2], ax, atol=1e-9), "arch-outline", f"wall at {c[0]} size {c[2]}, expected {q} {ax}")
                self.ctx.check(self.g.n_components == 3, "arch-outline", "three walls")
                for i in (1, 2):
                    x = self.g.get_component(i).get_reference_point(in_global_frame=True)
                    for j in (0, i):
                        self.ctx.check(self.g.get_component(j).get_gamma(x, in_global_frame=True, margin_absolut=0.0) <= 1 + 1e-9, "joint-outside", f"arch joint {i} lies outside wall {j}")
        if cfg["rate"] is not None:
            self.g.deformation_rate = cfg["rate"]
        self.others = []
        before, after = [], []
        for c in cfg.get("others", ()):
            g = MultiObstacle(pose_of(c["at"]))
            g.set_root(make(c))
            self.others.append(g)
            (before if c["first"] else after).append(g)
        self.box = MultiObstacleContainer()
        for g in before + [self.g] + after:
            self.box.append(g)
        self.order = before + [self.g] + after
        self.parents = {i: self.g.get_parent_idx(i) for i in range(self.g.n_components)} if hasattr(self.g, "get_parent_idx") else {}
        self.verify("build")

    def verify(self, what):
        ctx, g, m = self.ctx, self.g, self.m
        self.counts[what] = min(3, self.counts.get(what, 0) + 1)
        ctx.check(len(g) == len(m.comp) and g.n_components == len(m.comp), "component-count", f"after {what}: {len(g)} components, {len(m.comp)} were accepted")
        gp = g.get_pose()
        ctx.check(np.allclose(gp.position, m.p, atol=1e-9) and np.allclose(matrix(gp), m.R, atol=1e-9), "group-pose", f"after {what}")
        for i, c in enumerate(m.comp):
            o = g.get_component(i)
            want = m.R @ c[0] + m.p
            ctx.check(np.allclose(o.pose.position, want, atol=1e-7), "component-position", lambda: f"after {what}: component {i} at {o.pose.position}, rigid motion puts it at {want}")
            ctx.check(np.allclose(matrix(o.pose), m.R @ c[1], atol=1e-7), "component-orientation", f"after {what}: component {i}")
            ctx.check(np.allclose(o.axes_length, c[2], rtol=1e-9, atol=1e-12), "component-size", lambda: f"after {what}: component {i} has extents {o.axes_length}, expected {c[2]}")
            if c[3] is not None:
                r = o.get_reference_point(in_global_frame=True)
                wr = m.R @ (c[1] @ c[3] + c[0]) + m.p
                ctx.check(np.allclose(r, wr, atol=1e-7), "joint-moved", lambda: f"after {what}: joint of component {i} at {r}, expected {wr}")
            ctx.record(what, o.pose.position)
        if hasattr(g, "get_parent_idx"):
            for i, p in self.parents.items():
                ctx.check(g.get_parent_idx(i) == p, "parent-changed", f"after {what}: component {i}")
        ctx.check(g.get_root() is g.get_component(g.root_idx), "root", "")
        ctx.check([id(o) for o in g] == [id(g[i]) for i in range(len(g))], "iteration", "")
        ctx.state(self.cfg["kind"], self.cfg["dim"], len(m.comp), tuple(sorted(self.counts.items())))

    def expected_gamma(self, x, skip=()):
        return min(self.g.get_component(i).get_gamma(x, in_global_frame=True) for i in range(len(self.m.comp)) if i not in skip)

    # ---- events
    def on_pose(self, d, fault=None, one=0):
        if fault:
            self.ctx.fault(fault)
        new = pose_of(d)
        if one:
            # the tracker reports every pose in one and the same object
            self.ctx.probe("same-object")
            if one == 1:
                self.sent.position[:] = new.position
            else:
                self.sent.position = new.position
            self.sent.orientation = new.orientation
            self.place(self.sent)
        else:
            self.sent = new
            self.place(new)
        self.m.move(pose_of(d))
        self.verify("pose")

    def place(self, pose):
        if self.cfg["kind"] == "block":
            # this kind is placed first and refreshed once per control period
            self.g.pose = pose
            self.g.update_obstacles(0.01)
        else:
            self.g.update_pose(pose)

    def on_grow(self, dt, jump=None):
        if jump is not None:
            self.ctx.fault("clock_jump")
            dt = jump
        if self.cfg["kind"] == "block":
            return
        f = 1 + (self.cfg["rate"] or 0.0) * dt
        self.g.update_deformation(dt)
        self.m.grow(f)
        self.ctx.probe("growth")
        self.verify("growth")

    def on_add(self, c):
        dim = self.cfg["dim"]
        n = len(self.m.comp)
        parent = c["parent"] % n
        c = dict(c)
        block = self.cfg["kind"] == "block"
        if block and c["ref"] is None:
            c["ref"] = [0.1, -0.2]
        if c["ref"] is None:
            # overlap the parent: centre it on the parent's placement with an offset
            base = self.m.comp[parent]
            off = np.array(c["pose"]["p"]) / 1.5 * 0.4 * (base[2].min() * 0.5)
            c["pose"] = {"p": (base[0] + base[1] @ off).tolist(), "o": c["pose"]["o"]}
        obs = make(c)
        local, axes = obs.pose, np.array(obs.axes_length)
        idx = self.g.add_component(obs, reference_position=c["ref"], parent_ind=parent)
        self.ctx.check(block or idx == n, "component-id", f"returned {idx}, expected {n}")
        self.parents[n] = parent
        self.m.add(local, axes, c["ref"])
        if c["ref"] is None:
            self.ctx.probe("auto-joint")
            x = obs.get_reference_point(in_global_frame=True)
            self.m.comp[-1][3] = np.array(obs.get_reference_point())
            for j in (n, parent):
                gam = self.g.get_component(j).get_gamma(x, in_global_frame=True)
                self.ctx.check(gam <= 1 + 1e-6, "joint-outside", lambda: f"automatically found joint of component {n} lies outside component {j} (measure {gam:.4f})")
        self.verify("add")

    def on_reject(self, f):
        c = f["c"]
        try:
            self.g.add_component(make(c), reference_position=c["ref"], parent_ind=c["parent"])
        except Exception:
            self.ctx.fault(f["kind"])
        else:
            self.ctx.fail("bad-component-accepted", f["kind"])
        self.verify("reject")

    def on_query(self, o):
        x = np.array(o["x"])
        keep = x.copy()
        glob = x
        kw = {}
        if o["local"]:
            self.ctx.probe("local-query")
            glob = self.m.R @ x + self.m.p
            kw = {"in_global_frame": False}
        n = len(self.m.comp)
        if o["op"] == "exclude":
            k = int(o["pick"] * n)
            if n == 1:
                try:
                    self.g.get_gamma_except_components(x, [0], **kw)
                except ValueError:
                    return
                self.ctx.fail("empty-exclusion", "excluding every component must be refused")
                return
            skip = [k] if o["pick"] < 0.7 or n < 3 else [k, (k + 1) % n]
            got = self.g.get_gamma_except_components(x, skip, **kw)
            want = self.expected_gamma(glob, skip)
        else:
            got = self.g.get_gamma(x, **kw)
            want = self.expected_gamma(glob)
        self.ctx.check(np.array_equal(x, keep), "input-altered", "")
        self.ctx.check(abs(got - want) <= 1e-7 * max(1.0, abs(want)), "distance-not-least", lambda: f"{o['op']} local={o['local']}: {got}, least over components {want}")
        if o["op"] == "query" and not o["local"] and abs(want - 1) > 1e-9:
            self.ctx.check(bool(self.g.is_collision_free(glob)) == (want > 1), "collision-flag", f"{want}")
        if o["op"] == "query":
            self.on_container(glob, self.expected_gamma(glob))
        self.ctx.record("gamma", got)

    def on_container(self, x, own):
        """The container of this and other compound obstacles answers with the least over all of them."""
        ctx = self.ctx
        ctx.check(len(self.box) == len(self.order) and [id(o) for o in self.box] == [id(o) for o in self.order], "container-order", "")
        ctx.check(all(self.box.get_tree(i) is o and self.box.get_obstacle_tree(i) is o for i, o in enumerate(self.order)), "container-order", "")
        every = [own] + [o.get_component(0).get_gamma(x, in_global_frame=True) for o in self.others]
        want = min(every)
        got = self.box.get_gamma(x)
        ctx.probe("container")
        ctx.check(abs(got - want) <= 1e-7 * max(1.0, abs(want)), "container-distance", lambda: f"container reports {got}, its obstacles {every}")
        if min(abs(v - 1) for v in every) < 1e-9:
            return
        if own > 1 >= want:
            ctx.probe("in-neighbour")
        ctx.check(bool(self.box.is_collision_free(x)) == (want > 1), "container-flag", lambda: f"collision free says {self.box.is_collision_free(x)}, distances {every}")
        ctx.check(bool(self.box.is_in_free_space(x)) == (want > 1), "container-flag", lambda: f"in free space says {self.box.is_in_free_space(x)}, distances {every}")

    def on_qfail(self, f):
        count = [0]

        def hook(obstacle, name):
            if count[0] == f["nth"]:
                count[0] += 1
                raise InjectedFault(name)
            count[0] += 1

        obsmod.QUERY_HOOK = hook
        try:
            self.g.get_gamma(np.array(f["x"]))
        except InjectedFault:
            self.ctx.fault("query_failure")
        finally:
            obsmod.QUERY_HOOK = None
        self.verify("qfail")

    def on_vel(self, v):
        if self.cfg["kind"] == "block":
            return
        v = np.array(v)
        self.g.linear_velocity = v
        self.ctx.check(np.allclose(self.g.linear_velocity, v, atol=0), "velocity-readback", f"{v}")
        self.ctx.check(np.allclose(self.g.twist.linear, v, atol=0), "velocity-readback", f"{v}")

    def on_peek(self):
        p = self.g.get_pose()
        p.position[0] += 3.0
        p.orientation = orient([0.0, 1.0, 0.0, 0.0]) if self.cfg["dim"] == 3 else 0.77
        self.verify("peek")

    def run(self):
        sim = self.sim
        by = {}
        for f in self.plan["faults"]:
            if "k" in f:
                by[f["kind"], f["k"]] = f
            elif f["kind"] == "clock_jump":
                by["clock_jump", f["t"]] = f
            elif f["kind"] == "query_failure":
                sim.at(f["t"], lambda f=f: self.on_qfail(f))
            else:
                sim.at(f["c"]["t"], lambda f=f: self.on_reject(f))
        arrived = [-1]

        def pose_event(o, fault):
            if o["k"] < arrived[0]:
                self.ctx.fault("reorder")
            arrived[0] = max(arrived[0], o["k"])
            self.on_pose(o["pose"], fault, o.get("one", 0))

        if self.cfg["kind"] != "block":
            self.ctx.check(np.array_equal(self.g.linear_velocity, np.zeros(self.cfg["dim"])) or self.g.twist is not None, "velocity-default", "")
        for o in self.plan["ops"]:
            if o["op"] == "pose":
                if ("drop", o["k"]) in by:
                    self.ctx.fault("drop")
                    continue
                d = by.get(("delay", o["k"]))
                sim.at(o["t"] + (d["dt"] if d else 0.0), lambda o=o, d=d: pose_event(o, "delay" if d else None))
                u = by.get(("dup", o["k"]))
                if u:
                    sim.at(o["t"] + u["late"], lambda o=o: pose_event(o, "dup"))
            elif o["op"] == "grow":
                j = by.get(("clock_jump", o["t"]))
                sim.at(o["t"], lambda o=o, j=j: self.on_grow(o["dt"], j["dt"] if j else None))
            elif o["op"] == "add":
                sim.at(o["t"], lambda o=o: self.on_add(o))
            elif o["op"] in ("query", "exclude"):
                sim.at(o["t"], lambda o=o: self.on_query(o))
            elif o["op"] == "vel":
                sim.at(o["t"], lambda o=o: self.on_vel(o["v"]))
            elif o["op"] == "peek":
                sim.at(o["t"], self.on_peek)
        sim.run()


def execute(ctx, plan):
    obsmod.QUERY_HOOK = None
    Run(ctx, plan).run()
