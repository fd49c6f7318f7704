"""C11: nominal motions are well defined and settle under clock jitter.

One robot follows one nominal motion.  Its control clock jitters, stalls,
bursts and stands still; pushes throw the robot anywhere, onto the special
points of the motion included; frames and obstacles are moved.  After the last
disturbance the motion has to settle on what it promises.
"""
import math
import random

import numpy as np
from scipy.spatial.transform import Rotation

import dynamic_obstacle_avoidance.obstacles as obsmod
from vartools.dynamical_systems import LinearSystem
from vartools.states import Pose
from nonlinear_avoidance.dynamics.circular_dynamics import CircularRotationDynamics, DynamicDynamics, SimpleCircularDynamics
from nonlinear_avoidance.dynamics.constant_value import ConstantValueWithSequence
from nonlinear_avoidance.dynamics.locally_rotated_linear_dynamics import LocallyRotatedFromObtacle
from nonlinear_avoidance.dynamics.nonlinear_deviation import DeviationOfConstantFlow, PerpendicularDeviatoinOfLinearDS
from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics
from nonlinear_avoidance.dynamics.segmented_dynamics import create_segment_from_points
from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence
from nonlinear_avoidance.dynamics.spiral_dynamics import SpiralingAttractorDynamics3D, SpiralingDynamics3D
from nonlinear_avoidance.dynamics.wavy_attractor_dynamics import WavyLinearDynamics

RUNS = {"quick": 900, "thorough": 30000}
RULE = "One run is one robot following one nominal motion with an irregular control clock, pushes and moved frames, and then left alone until the motion has to have settled."
STATE_MEASURE = "distinct (motion, dimension, multiset of disturbance kinds so far capped at 2, distance-to-goal decade) tuples"
REAL = ["nonlinear_avoidance.dynamics (circular, segmented, wavy, spiral, locally rotated, projected, deviation)", "nonlinear_avoidance.vector_rotation"]
STUB = ["vartools / dynamic_obstacle_avoidance (absent packages: stand-ins)", "the regressor of the deviation motions (a seeded smooth function)", "the robot (a point that integrates its command)"]
EXPECTED_PROBES = ["stall", "burst", "standstill", "push", "onto_special_point", "moved_frame", "lost_update", "repeated_update", "settled", "followed-path"]

KINDS = ["circle", "circle", "turn", "path", "path", "wavy", "local", "local", "spiral", "climb", "perp", "flow", "frame", "guide", "guide", "const"]


def rot2(a):
    return np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])


def generate(rng, tier):
    kind = rng.choice(KINDS)
    dim = {"turn": 2, "path": 2, "wavy": 2, "spiral": 3, "climb": 3}.get(kind) or rng.choice([2, 2, 3])
    logu = lambda lo, hi: 10 ** rng.uni(math.log10(lo), math.log10(hi))
    cfg = {"kind": kind, "dim": dim, "c": [round(v, 3) for v in rng.vec(dim, -3, 3)] if rng.chance(0.85) else [0.0] * dim,
           "angle": rng.uni(-3, 3) if rng.chance(0.8) else 0.0, "axis": rng.direction(3), "R": logu(0.15, 5), "vmax": logu(0.2, 4), "dir": rng.choice([-1, 1]),
           "fin": rng.uni(1, 8), "fout": rng.uni(1, 8), "stretch": rng.uni(0.2, 3), "deviation": rng.uni(0, 0.44) * math.pi, "d": rng.direction(dim),
           "seed": rng.randrange(1 << 30), "axes": [rng.uni(0.5, 4) for _ in range(dim)], "o": [round(v, 3) for v in rng.vec(dim, -6, 6)], "ell": rng.chance(0.6),
           "max_gamma": rng.uni(3, 15), "nominal": rng.choice(["linear", "circle"]), "influence": rng.uni(1.2, 3), "freq": rng.choice([20.0, 50.0, 100.0]),
           "x0": rng.vec(dim, -6, 6), "seed2": rng.randrange(1 << 30), "release": rng.direction(dim), "follow": False, "plain": rng.chance(0.1)}
    if kind == "frame":
        cfg["R"], cfg["vmax"] = logu(0.6, 4), logu(0.5, 3)
        cfg["o"] = [round(a + v * cfg["R"], 3) for a, v in zip(cfg["c"], rng.vec(dim, -3, 3))]
    if kind in ("local", "guide") and rng.chance(0.1):
        cfg["o"] = list(cfg["c"])
    if kind == "path":
        a, pts = rng.uni(-3, 3), [rng.vec(2, -3, 3)]
        cfg["follow"] = rng.chance(0.5)
        bend = 1.4 if cfg["follow"] else 2.2
        for _ in range(rng.randint(1, 5)):
            a += rng.uni(-bend, bend)
            ln = rng.uni(2, 4)
            pts.append([pts[-1][0] + ln * math.cos(a), pts[-1][1] + ln * math.sin(a)])
        cfg["pts"], cfg["margin"] = pts, rng.choice([0.0, 0.1, 0.5])
    ops, k = [], 0
    w = {"run": 3, "push": rng.uni(0, 2), "onto": rng.uni(0, 1), "probe": 1, "move": rng.uni(0, 1) if kind in ("circle", "turn", "local", "guide", "frame") else 0}
    if cfg["follow"]:
        w = {"run": 3, "probe": 1}
    for k in range(rng.choice([2, 6, 12]) * (2 if tier == "thorough" else 1)):
        op = rng.choices(list(w), list(w.values()))[0]
        o = {"op": op, "k": k}
        if op == "run":
            o.update(n=rng.choice([5, 20, 60]), seed=rng.randrange(1 << 30), low=rng.choice([1e-4, 0.1, 1.0]))
        elif op == "push":
            o.update(d=rng.vec(dim, -1, 1), size=logu(1e-3, 8))
        elif op == "onto":
            o.update(pick=rng.random(), off=rng.choice([0.0, 0.0, 1e-12, 1e-6]), d=rng.direction(dim))
        elif op == "probe":
            o.update(x=[float(round(v)) if rng.chance(0.5) else v for v in rng.vec(dim, -9, 9)], far=rng.choice([1, 1, 1e3, 1e6]))
        else:
            o.update(d=rng.vec(dim, -2, 2), a=rng.uni(-1, 1))
        ops.append(o)
    faults = []
    kinds = [x for x in ["stall", "burst", "standstill", "lost_update", "repeated_update"] if rng.chance(0.5)]
    for o in ops:
        if o["op"] != "run":
            continue
        for f in kinds:
            if rng.chance(0.4):
                faults.append({"kind": f, "k": o["k"], "at": rng.randrange(o["n"]), "mult": rng.choice([3, 8]), "n": rng.choice([5, 20])})
    return {"config": cfg, "ops": ops, "faults": faults}


class Smooth:
    """A smooth, bounded, seeded 'learned' deviation."""

    def __init__(self, seed, dim):
        r = np.random.default_rng(seed)
        self.a, self.b, self.amp = r.normal(size=(dim, dim - 1)), r.normal(size=dim - 1) * 2, r.uniform(0.2, 2.5)

    def fit(self, X, y):
        pass

    def predict(self, X):
        return np.sin(np.asarray(X, dtype=float) @ self.a + self.b) * self.amp


class Motion:
    """What a motion promises.  `self.vmax`: limit; `special`: its own points."""
    still = ()          # points where it has to stand still
    exact_speed = None
    step = 0.03

    def __init__(self, cfg):
        self.cfg, self.dim = cfg, cfg["dim"]
        self.c = np.array(cfg["c"], dtype=float)
        self.vmax = cfg["vmax"]
        self.build()

    def orientation(self, extra=0.0):
        if self.dim == 2:
            return self.cfg["angle"] + extra
        return Rotation.from_rotvec(np.array(self.cfg["axis"]) * (self.cfg["angle"] + extra))

    def build(self):
        self.ds = self.make()

    def refresh(self):
        """The same motion, built from scratch in its present state."""
        return self.make()

    def evaluate(self, x, ds=None):
        return (ds or self.ds).evaluate(x)

    def special(self):
        return [self.c]

    def move(self, d, a):
        raise NotImplementedError

    def tick(self, ctx, x, dt, drop, twice):
        pass

    def observe(self, ctx, x, v):
        pass

    def promises_goal(self):
        return True

    def singular(self, x):
        """Measure-zero positions the motion may legitimately rest on."""
        return False


class Goal(Motion):
    tolerance = 0.02

    def budget(self, x):
        return 12 * (np.linalg.norm(x - self.goal()) + 4) / self.vmax + 15

    def goal(self):
        return self.c

    @property
    def still(self):
        return [self.goal()]

    def start_settle(self, x):
        pass

    def settled(self, x, v, dt):
        return np.linalg.norm(x - self.goal()) < self.tolerance


class Circle(Motion):
    """Counter-clockwise in its own frame, at its radius, in its plane."""
    extra = 0.0
    sense = 1

    def make(self):
        return SimpleCircularDynamics(pose=Pose(self.c.copy(), self.orientation(self.extra)), radius=self.cfg["R"], maximum_velocity=self.vmax)

    @property
    def still(self):
        return [self.c]

    @property
    def step(self):
        return 0.05 * self.cfg["R"]

    def local(self, x):
        if self.dim == 2:
            return rot2(self.orientation(self.extra)).T @ (x - self.c)
        return self.orientation(self.extra).inv().apply(x - self.c)

    def move(self, d, a):
        self.c = self.c + np.array(d)
        self.extra += a
        self.ds.pose.position = self.c.copy()
        self.ds.pose.orientation = self.orientation(self.extra)

    def special(self):
        e = np.zeros(self.dim)
        e[0] = self.cfg["R"]
        on = self.c + (rot2(self.orientation(self.extra)) @ e if self.dim == 2 else self.orientation(self.extra).apply(e))
        return [self.c, on]

    def singular(self, x):
        return np.linalg.norm(self.local(x)[:2]) < 1e-3 * self.cfg["R"]

    def budget(self, x):
        return 4 * (np.linalg.norm(x - self.c) + 8 * self.cfg["R"]) / self.vmax

    def start_settle(self, x):
        self.last, self.turned, self.time = None, 0.0, 0.0

    def settled(self, x, v, dt):
        r = self.local(x)
        R = self.cfg["R"]
        if abs(np.linalg.norm(r[:2]) - R) > 0.03 * R or np.linalg.norm(r[2:]) > 0.03 * R:
            self.last, self.turned, self.time = None, 0.0, 0.0
            return False
        a = math.atan2(r[1], r[0])
        if self.last is not None:
            self.turned += ((a - self.last + math.pi) % (2 * math.pi) - math.pi) * self.sense
            self.time += dt
        self.last = a
        # once round the circle in its own sense, at its own speed
        return self.turned > 2 * math.pi and self.turned > 0.9 * self.vmax * self.time / R


class Turn(Circle):
    @property
    def sense(self):
        return self.cfg["dir"]

    @property
    def step(self):
        return 0.02 * self.cfg["R"]

    def make(self):
        base = None if self.cfg["plain"] else rot2(self.cfg["angle"])
        return CircularRotationDynamics(radius=self.cfg["R"], constant_velocity=self.vmax, outside_approaching_factor=self.cfg["fout"], inside_approaching_factor=self.cfg["fin"],
                                        direction=self.cfg["dir"], pose=Pose(self.c.copy(), self.extra), base_matrix=base)

    def budget(self, x):
        return 4 * (np.linalg.norm(x - self.c) + 12 * self.cfg["R"]) / self.vmax


class Path(Goal):
    @property
    def step(self):
        return 0.04

    def make(self):
        ds = create_segment_from_points(self.cfg["pts"], margin=self.cfg["margin"])
        ds.maximum_velocity = self.vmax
        return ds

    def goal(self):
        p, q = np.array(self.cfg["pts"][-2]), np.array(self.cfg["pts"][-1])
        return q - (q - p) / np.linalg.norm(q - p) * self.cfg["margin"]

    def special(self):
        out = [self.goal()]
        for s in self.ds.segments:
            out += [s.start, s.end, (s.start + s.end) / 2, s.end + s.direction, s.start - s.direction]
        return out + [np.array(p, dtype=float) for p in self.cfg["pts"]]

    def budget(self, x):
        length = sum(np.linalg.norm(np.subtract(a, b)) for a, b in zip(self.cfg["pts"], self.cfg["pts"][1:]))
        return 20 * (np.linalg.norm(x - self.goal()) + length + 5) / self.vmax

    def off_path(self, x):
        best = math.inf
        for p, q in zip(self.cfg["pts"], self.cfg["pts"][1:]):
            p, q = np.array(p), np.array(q)
            t = min(1, max(0, (x - p) @ (q - p) / ((q - p) @ (q - p))))
            best = min(best, np.linalg.norm(p + t * (q - p) - x))
        return best


class Wavy(Goal):
    @property
    def step(self):
        return 0.05

    def make(self):
        return WavyLinearDynamics(self.c.copy(), distance_strech_factor=self.cfg["stretch"], maximum_deviation=self.cfg["deviation"], maximum_velocity=self.vmax)

    def observe(self, ctx, x, v):
        d = self.c - x
        n, s = np.linalg.norm(d), np.linalg.norm(v)
        if n > 1e-6 and s > 0:
            ctx.check(v @ d / (n * s) >= math.cos(self.cfg["deviation"]) - 1e-6, "deviates-too-far", f"x={x} v={v}")


class Local(Goal):
    tolerance = 0.05

    def build(self):
        self.oc = np.array(self.cfg["o"], dtype=float)
        cls = obsmod.EllipseWithAxes if self.cfg["ell"] else obsmod.CuboidXd
        self.obs = cls(axes_length=np.array(self.cfg["axes"]), pose=Pose(self.oc.copy(), self.orientation()))
        super().build()

    def make(self):
        return LocallyRotatedFromObtacle(self.obs, self.c.copy(), np.array(self.cfg["d"]) * self.vmax, max_gamma=self.cfg["max_gamma"])

    def refresh(self):
        # (the reference rotation is fixed when the motion is set up)
        oc = self.obs.pose.position
        self.obs.pose.position = self.setup_at
        try:
            return self.make()
        finally:
            self.obs.pose.position = oc

    def promises_goal(self):
        # turned away from a goal its own obstacle covers, it may go round for ever
        a, b = self.c - self.setup_at, np.array(self.cfg["d"])
        ahead = a @ b / max(np.linalg.norm(a), 1e-12)
        return ahead > 0.05 or self.obs.get_gamma(self.c, in_global_frame=True) > 1.5

    @property
    def setup_at(self):
        return self.oc.copy()

    def special(self):
        return [self.c, self.obs.pose.position, 2 * self.c - self.obs.pose.position, (self.c + self.obs.pose.position) / 2,
                self.c + np.array(perp(self.c - self.obs.pose.position)) * 2]

    def move(self, d, a):
        self.obs.pose.position = self.obs.pose.position + np.array(d) * 0.3

    def budget(self, x):
        return 25 * (np.linalg.norm(x - self.c) + 8) / self.vmax + 20

    @property
    def step(self):
        return min(0.05, 0.1 * self.vmax)


def perp(v):
    out = np.zeros(len(v))
    n = np.linalg.norm(v)
    if not n:
        return out
    k = int(np.argmin(np.abs(v)))
    out[k] = 1.0
    out -= v * v[k] / n**2
    return out / np.linalg.norm(out)


class Spiral(Motion):
    def build(self):
        self.d = np.array(self.cfg["d"])
        self.exact_speed = self.vmax
        super().build()

    @property
    def step(self):
        return 0.03 * self.cfg["R"]

    def make(self):
        return SpiralingDynamics3D.create_from_direction(self.c.copy(), self.d.copy(), radius=self.cfg["R"], speed=self.vmax)

    def observe(self, ctx, x, v):
        ctx.check(v @ self.d >= self.vmax * (math.sqrt(0.5) - 1e-6), "no-progress", f"{v @ self.d} of {self.vmax}")

    def special(self):
        return [self.c, self.c + self.d, self.c + perp(self.d) * self.cfg["R"]]

    def off(self, x):
        r = x - self.c
        return r - (r @ self.d) * self.d

    def singular(self, x):
        return np.linalg.norm(self.off(x)) < 1e-3 * self.cfg["R"]

    def budget(self, x):
        return 6 * (np.linalg.norm(self.off(x)) + 12 * self.cfg["R"]) / self.vmax

    def start_settle(self, x):
        self.time = 0.0

    def settled(self, x, v, dt):
        if abs(np.linalg.norm(self.off(x)) - self.cfg["R"]) > 0.04 * self.cfg["R"]:
            self.time = 0.0
            return False
        side = v - (v @ self.d) * self.d
        self.time += dt
        return self.time > self.cfg["R"] / self.vmax and np.linalg.norm(side) > 0.3 * self.vmax


class Climb(Motion):
    """Circling with an attractor: speed and finiteness only."""

    def make(self):
        return SpiralingAttractorDynamics3D.create_from_direction(self.c.copy(), np.array(self.cfg["d"]), radius=self.cfg["R"], speed=self.vmax)

    def special(self):
        return [self.c, np.zeros(3), self.c * np.array([0, 1, 0])]


class Perp(Goal):
    def make(self):
        ds = PerpendicularDeviatoinOfLinearDS(self.c.copy(), Smooth(self.cfg["seed"], self.dim))
        ds.max_velocity = self.vmax
        for i in range(self.dim):
            for j in range(2):
                ds.regressors[i][j] = Smooth(self.cfg["seed"] + 1 + 2 * i + j, self.dim)
        r = np.random.default_rng(self.cfg["seed2"])
        X = self.c + r.uniform(-3, 3, (60, self.dim))
        ds.fit_from_velocities(X, self.c - X)
        return ds

    @property
    def step(self):
        return 0.05

    def special(self):
        e = np.zeros(self.dim)
        e[0] = 1.5
        return [self.c, self.c + e, self.c - e]

    def observe(self, ctx, x, v):
        want = (self.c - x)
        n = np.linalg.norm(want)
        conv = self.ds.evaluate_convergence_velocity(x)
        ctx.check(np.all(np.isfinite(conv)) and np.linalg.norm(conv) <= self.vmax * (1 + 1e-9), "convergence-too-fast", f"x={x} {conv}")
        if n > 1e-9:
            ctx.check(conv @ want >= (1 - 1e-9) * n * np.linalg.norm(conv), "convergence-direction", f"x={x} {conv}")


class Flow(Motion):
    def build(self):
        self.exact_speed = self.vmax
        self.d = np.array(self.cfg["d"])
        super().build()

    def make(self):
        return DeviationOfConstantFlow(self.d * self.vmax, Smooth(self.cfg["seed"], self.dim))

    def observe(self, ctx, x, v):
        ctx.check(v @ self.d >= self.vmax * (math.cos(0.99 * math.pi / 2) - 1e-9), "no-progress", f"{v @ self.d} of {self.vmax}")


class Frame(Circle):
    """A circle whose centre is carried along while the robot is close."""

    def build(self):
        self.lead = np.array(self.cfg["o"], dtype=float)
        self.pace = 0.2 * self.vmax
        super().build()
        self.base = LinearSystem(attractor_position=self.lead.copy(), maximum_velocity=self.pace)
        self.frame = DynamicDynamics(self.ds, self.base, influence_radius=self.cfg["influence"] * self.cfg["R"], frequency=self.cfg["freq"])
        self.clock = 0.0

    def evaluate(self, x, ds=None):
        if ds is not None:
            return ds.evaluate(x)
        before = np.array(self.frame.position)
        v = self.frame.evaluate(x)
        assert np.array_equal(before, self.frame.position), "evaluate moved the frame"
        return v

    def tick(self, ctx, x, dt, drop, twice):
        self.clock += dt
        period = 1 / self.cfg["freq"]
        n = int(self.clock / period)
        self.clock -= n * period
        if n and drop:
            n -= 1
            ctx.fault("lost_update")
        if n and twice:
            n += 1
            ctx.fault("repeated_update")
        for _ in range(min(n, 2000)):
            before = np.array(self.frame.position)
            lead = np.array(self.base.evaluate(before))
            self.frame.update_base(x)
            d = np.array(self.frame.position) - before
            ctx.check(np.linalg.norm(d - (d @ lead) * lead / max(lead @ lead, 1e-300)) < 1e-9 and d @ lead >= -1e-12, "frame-off-course", f"{d} {lead}")
            far = np.linalg.norm(x - before)
            inner = self.frame.influence_radius
            step = np.linalg.norm(lead) * period
            share = np.linalg.norm(d) / step if step > 1e-12 else None
            if share is not None:
                ctx.check(share <= 1 + 1e-6, "frame-too-fast", f"{share}")
                if far < inner * (1 - 1e-9):
                    ctx.check(share > 1 - 1e-6, "frame-lags", f"{far} {inner} {share}")
                elif far > inner * self.frame.decent_factor * (1 + 1e-9):
                    ctx.check(share == 0, "frame-left-alone-moves", f"{far} {share}")
                    ctx.probe("frame-waits")
        self.c = np.array(self.frame.position)

    def move(self, d, a):
        self.c = self.c + np.array(d)
        self.frame.position = self.c.copy()

    def budget(self, x):
        return 4 * (np.linalg.norm(x - self.c) + 8 * self.cfg["R"]) / self.vmax + 3 * (np.linalg.norm(self.c - self.lead) + 3 * self.pace) / self.pace + 12

    def settled(self, x, v, dt):
        there = np.linalg.norm(self.c - self.lead) < 0.05
        if not there:
            self.last, self.turned, self.time = None, 0.0, 0.0
        return super().settled(x, v, dt) and there


class Guide(Motion):
    """The convergence direction around an obstacle of a nominal motion."""

    def build(self):
        cls = obsmod.EllipseWithAxes if self.cfg["ell"] else obsmod.CuboidXd
        self.obs = cls(axes_length=np.array(self.cfg["axes"]), pose=Pose(np.array(self.cfg["o"], dtype=float), self.orientation()))
        if self.cfg["nominal"] == "circle":
            self.nominal = SimpleCircularDynamics(pose=Pose(self.c.copy(), 0.0 if self.dim == 2 else Rotation.identity()), radius=self.cfg["R"], maximum_velocity=self.vmax)
        else:
            self.nominal = LinearSystem(attractor_position=self.c.copy(), maximum_velocity=self.vmax)
        super().build()

    def make(self):
        return ProjectedRotationDynamics(self.c.copy(), initial_dynamics=self.nominal, obstacle=self.obs)

    def evaluate(self, x, ds=None):
        return (ds or self.ds).evaluate_convergence_around_obstacle(x, self.obs)

    def move(self, d, a):
        self.obs.pose.position = self.obs.pose.position + np.array(d)

    @property
    def still(self):
        return [self.c]

    def special(self):
        o = self.obs.pose.position
        return [self.c, o, 2 * self.c - o, self.c + 0.3 * (o - self.c), self.c + 2 * (o - self.c), self.c + perp(o - self.c)]

    def observe(self, ctx, x, v):
        want = np.linalg.norm(self.nominal.evaluate(x))
        ctx.check(abs(np.linalg.norm(v) - want) <= 1e-6 * max(1, want), "speed-lost", f"{np.linalg.norm(v)} {want} at {x}")
        w = self.ds.evaluate_projected_weight(x, self.obs)
        ctx.check(np.isfinite(w) and 0 <= w <= 1, "weight-range", f"{w} at {x}")
        gamma = self.obs.get_gamma(x, in_global_frame=True)
        if gamma <= 1:
            ctx.check(w == 1, "weight-inside", f"{w} at {x}")
        rel = self.obs.pose.transform_position_to_relative(x)
        att = self.obs.pose.transform_position_to_relative(self.c)
        n = np.linalg.norm(att)
        # away from the opposite line, where the plane is torn open, folding is invertible
        if n > 0.05 and np.linalg.norm(rel - att) > 1e-3 and (rel - att) @ (-att) / (n * np.linalg.norm(rel - att)) > -0.95 and np.linalg.norm(rel) < 30:
            folded = self.ds._get_folded_position_opposite_kernel_point(rel, att)
            keep = folded.copy()
            back = self.ds._get_unfolded_position_opposite_kernel_point(folded, att)
            ctx.check(np.array_equal(folded, keep), "moved-the-question", f"{keep} {folded}")
            ctx.check(np.linalg.norm(back - rel) <= 1e-5 * max(1.0, np.linalg.norm(rel - att)), "fold-unfold", f"{rel} -> {folded} -> {back}")
            ctx.probe("fold-unfold")


class Const(Motion):
    """The same velocity everywhere."""

    def build(self):
        self.exact_speed = self.vmax
        super().build()

    def make(self):
        return ConstantValueWithSequence(velocity=np.array(self.cfg["d"]) * self.vmax)

    def observe(self, ctx, x, v):
        ctx.check(np.allclose(v, np.array(self.cfg["d"]) * self.vmax, rtol=0, atol=1e-12 * self.vmax), "not-constant", f"{v} at {x}")


CLASSES = {"const": Const, "circle": Circle, "turn": Turn, "path": Path, "wavy": Wavy, "local": Local, "spiral": Spiral, "climb": Climb, "perp": Perp, "flow": Flow, "frame": Frame, "guide": Guide}


def ask(ctx, m, x, what):
    """One evaluation with everything that has to hold for it."""
    x = np.array(x)
    keep = x.copy()
    v = m.evaluate(x)
    ctx.check(np.array_equal(x, keep), "moved-the-question", f"{what}: {keep} -> {x}")
    ctx.check(isinstance(v, np.ndarray) and v.shape == (m.dim,), "not-a-velocity", f"{what} at {keep}: {v!r}")
    answer, v = v, np.array(v, dtype=float)
    m.asked = getattr(m, "asked", 0) + 1
    deep = what != "tick" or m.asked % 8 == 1
    if deep and answer.flags.writeable:
        answer[:] = 17.0  # the caller works in the array it got
        ctx.check(np.array_equal(m.evaluate(np.array(keep)), v), "changed-through-answer", f"{what} at {keep}: {v}, then {m.evaluate(np.array(keep))}")
    ctx.check(np.all(np.isfinite(v)), "not-finite", f"{what} at {keep}: {v}")
    speed = float(np.linalg.norm(v))
    ctx.check(speed <= m.vmax * (1 + 1e-6), "too-fast", f"{what} at {keep}: {speed} > {m.vmax}")
    if m.exact_speed is not None:
        ctx.check(abs(speed - m.exact_speed) <= 1e-6 * m.exact_speed, "wrong-speed", f"{what} at {keep}: {speed}")
    if deep and not isinstance(m, (Guide, Frame)):
        # the same motion as a sequence of rotations
        goal = getattr(m.ds, "attractor_position", None)
        away = goal is not None and speed > 0 and v @ (goal - keep) <= (1e-9 - 1) * speed * np.linalg.norm(goal - keep)
        # no rotation leads from the way to the goal to the way straight back
        seq = evaluate_dynamics_sequence(keep.astype(float), m.ds) if not away else 0
        if away:
            ctx.probe("straight-back")
        elif seq is None:
            ctx.check(speed == 0 or (goal is not None and np.array_equal(goal, keep)), "no-sequence", f"{what} at {keep}: {v}")
            ctx.probe("no-sequence")
        elif speed > 1e-9 * m.vmax:
            u = np.asarray(seq.get_end_vector())
            ctx.check(np.allclose(u, v / speed, rtol=0, atol=1e-6), "sequence-differs", f"{what} at {keep}: {v / speed} {u}")
            ctx.probe("sequence")
    m.observe(ctx, keep.astype(float), v)
    return v


def same(ctx, m, x, kind, ds):
    a, b = np.array(m.evaluate(np.array(x)), dtype=float), np.array(m.evaluate(np.array(x), ds), dtype=float)
    ctx.check(np.allclose(a, b, rtol=0, atol=1e-9 * m.vmax), kind, f"at {x}: {a} {b}")


def execute(ctx, plan):
    cfg = plan["config"]
    m = CLASSES[cfg["kind"]](cfg)
    seen = {}
    if cfg["follow"]:
        x = m.ds.segments[0].start.copy()
    else:
        x = np.array(cfg["x0"], dtype=float)
        if isinstance(m, Circle):
            x = m.c + x / 3 * cfg["R"]
    faults = {}
    for f in plan["faults"]:
        faults.setdefault(f["k"], []).append(f)
    worst = 0.0

    def note(kind):
        seen[kind] = min(2, seen.get(kind, 0) + 1)

    def go(dt, drop=False, twice=False):
        nonlocal x, worst
        v = ask(ctx, m, x, "tick")
        x = x + v * dt
        m.tick(ctx, x, dt, drop, twice)
        ctx.sim_time = getattr(ctx, "sim_time", 0.0) + dt
        if cfg["follow"]:
            worst = max(worst, m.off_path(x))
        return v

    for o in plan["ops"]:
        op = o["op"]
        if op == "run":
            r = random.Random(o["seed"])
            mine = faults.get(o["k"], ())
            for i in range(o["n"]):
                h = m.step / m.vmax
                dt = h * r.uniform(o["low"], 1)
                drop = twice = False
                for f in mine:
                    if f["at"] != i:
                        continue
                    note(f["kind"])
                    if f["kind"] == "stall":
                        dt = h * f["mult"]
                        ctx.fault("stall")
                    elif f["kind"] == "standstill":
                        ctx.fault("standstill")
                        a = m.evaluate(x.copy())
                        b = m.evaluate(x.copy())
                        ctx.check(np.array_equal(a, b), "answer-drifts", f"at {x}: {a} {b}")
                        dt = 0.0
                    elif f["kind"] == "burst":
                        ctx.fault("burst")
                        for _ in range(f["n"]):
                            go(h * 1e-3 * r.random())
                    elif f["kind"] == "lost_update":
                        drop = True
                    else:
                        twice = True
                go(dt, drop, twice)
        elif op == "push":
            ctx.fault("push")
            scale = cfg["R"] if isinstance(m, Circle) or cfg["kind"] == "spiral" else 1.0
            x = x + np.array(o["d"]) * o["size"] * min(1.0, scale)
        elif op == "onto":
            ctx.fault("onto_special_point")
            pts = m.special()
            x = np.array(pts[int(o["pick"] * len(pts))], dtype=float) + o["off"] * np.array(o["d"])
            v = ask(ctx, m, x, "special")
            if o["off"] == 0 and any(np.array_equal(x, s) for s in m.still):
                ctx.check(np.linalg.norm(v) <= 1e-9 * m.vmax, "restless", f"at its own rest point {x}: {v}")
                ctx.probe("at-rest-point")
        elif op == "probe":
            y = np.array(o["x"]) * o["far"]
            v = ask(ctx, m, y, "probe")
            same(ctx, m, y, "depends-on-history", m.refresh())
            if all(float(c).is_integer() for c in y):
                w = np.array(m.evaluate(y.astype(int)), dtype=float)
                ctx.check(np.allclose(v, w, rtol=0, atol=1e-9 * m.vmax), "whole-numbers", f"at {y}: {v} {w}")
                ctx.probe("whole-numbers")
        elif op == "move":
            ctx.fault("moved_frame")
            m.move(o["d"], o["a"])
        note(op)
        same(ctx, m, x, "depends-on-history", m.refresh())
        far = np.linalg.norm(x - m.c)
        ctx.state(cfg["kind"], m.dim, tuple(sorted(seen.items())), int(math.log10(far)) if far > 1e-6 else -7)
        ctx.record(op, x)

    if not hasattr(m, "settled"):
        return
    if not m.promises_goal():
        ctx.probe("no-promise")
        return
    # -- left alone: it has to settle
    if m.singular(x):
        x = x + np.array(cfg["release"]) * 0.3 * cfg["R"]
        if m.singular(x):
            x = x + perp(np.array(cfg["release"])) * 0.3 * cfg["R"]
    r = random.Random(cfg["seed2"])
    end, t = m.budget(x), 0.0
    m.start_settle(x)
    while True:
        dt = m.step / m.vmax * r.uniform(0.2, 1)
        v = go(dt)
        t += dt
        if m.settled(x, v, dt):
            break
        ctx.check(t < end, "never-settles", f"{cfg['kind']} after {t:.1f} s at {x}, start budget {end:.1f} s")
    ctx.probe("settled")
    ctx.state("settled", cfg["kind"], m.dim, int(10 * t / end))
    ctx.record("settled", x, t)
    if isinstance(m, Goal):
        for _ in range(40):
            go(m.step / m.vmax * r.uniform(0.2, 1))
        ctx.check(np.linalg.norm(x - m.goal()) < 0.15, "leaves-goal", f"at {x}")
    if cfg["follow"]:
        ctx.probe("followed-path")
        slack = 0.06 + cfg["margin"] + 9 * m.step
        ctx.check(worst <= slack, "off-path", f"{worst} > {slack}")
