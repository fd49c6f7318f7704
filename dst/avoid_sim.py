"""Closed-loop world for the avoidance algorithms (C04-C07).

World: obstacles in disjoint cells of the plane or of space, each either one
convex body or a compound one (only for the compound-obstacle avoider), standing
still or swinging and turning inside its cell.  Every pose is a closed-form
function of simulated time, so "the obstacle's own motion" is known exactly.
A controller asks the real avoider for a command at jittered instants; skipped
cycles keep the last command; pushes and localisation jumps move the robot.
Nothing in here reads a clock or draws randomness outside of `gen_*`.
"""
import math

import numpy as np
from scipy.spatial.transform import Rotation

import dynamic_obstacle_avoidance.obstacles as obsmod
from dynamic_obstacle_avoidance.obstacles import CuboidXd, EllipseWithAxes
from vartools.dynamical_systems import AxesFollowingDynamics, ConstantValue, LinearSystem
from vartools.states import Pose, Twist

from nonlinear_avoidance.arch_obstacle import BlockArchObstacle, create_arch_obstacle
from nonlinear_avoidance.avoidance import RotationalAvoider
from nonlinear_avoidance.dynamics.constant_value import ConstantValueWithSequence
from nonlinear_avoidance.dynamics.circular_dynamics import SimpleCircularDynamics
from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics
from nonlinear_avoidance.dynamics.segmented_dynamics import create_segment_from_points
from nonlinear_avoidance.dynamics.spiral_dynamics import SpiralingDynamics3D
from nonlinear_avoidance.dynamics.wavy_attractor_dynamics import WavyLinearDynamics
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
from nonlinear_avoidance.nonlinear_rotation_avoider import ConvergenceDynamicsWithoutSingularity, LinearConvergenceDynamics, NonlinearRotationalAvoider
from nonlinear_avoidance.rotation_container import RotationContainer

SHAPES = {"cuboid": CuboidXd, "ellipse": EllipseWithAxes}


# ------------------------------------------------------------------ generation
def gen_body(rng, dim, radius, compound):
    """Parts of one obstacle, all inside a ball of `radius` about its origin."""
    margin = rng.choice([0.0, 0.05, 0.1])
    shape = rng.choice(["cuboid", "ellipse"])
    if not compound:
        axes = [rng.uni(0.5, 1.0) for _ in range(dim)]
        f = 2 * (radius - margin) / math.sqrt(sum(a * a for a in axes))
        axes = [round(a * f, 4) for a in axes]
        # the reference point need not be the centre
        ref = [round(a * rng.uni(-0.2, 0.2), 4) for a in axes] if rng.chance(0.3) else None
        return [{"shape": shape, "axes": axes, "p": [0.0] * dim, "o": 0.0, "parent": None, "ref": ref,
                 "margin": margin, "tail": rng.chance(0.5)}]
    # star of arms around a root; each arm overlaps the root and has its joint in it
    r0 = radius * rng.uni(0.35, 0.5)
    parts = [{"shape": shape, "axes": [round(r0 * rng.uni(0.9, 1.3), 4) for _ in range(dim)], "p": [0.0] * dim, "o": 0.0,
              "parent": None, "ref": None, "margin": margin, "tail": True}]
    if rng.chance(0.3):
        # a chain: an arm with a forearm
        a, bend = rng.uni(-3.1, 3.1), rng.uni(-1.0, 1.0)
        at = np.zeros(2)
        for k in range(2):
            a += bend * k
            length, width = radius * rng.uni(0.5, 0.55), r0 * rng.uni(0.3, 0.45)
            u = np.array([math.cos(a), math.sin(a)])
            mid = at + u * length / 2
            parts.append({"shape": rng.choice(["cuboid", "ellipse"]), "axes": [round(length * 1.15, 4)] + [round(width, 4)] * (dim - 1),
                          "p": [round(float(x), 4) for x in mid] + [0.0] * (dim - 2), "o": a, "parent": k, "ref": [round(-length / 2, 4)] + [0.0] * (dim - 1),
                          "margin": margin, "tail": True})
            at = at + u * length * 0.95
        if rng.chance(0.3):
            for p in parts:
                p["tail"] = rng.chance(0.5)
        return parts
    for k in range(rng.randint(1, 3)):
        a = rng.choice([0.0, 0.5, 1.0, 1.5]) * math.pi if rng.chance(0.4) else rng.uni(-3.1, 3.1)
        length = radius * rng.uni(0.7, 0.85)
        width = r0 * rng.uni(0.35, 0.6)
        mid = length / 2
        d = [math.cos(a), math.sin(a)] + [0.0] * (dim - 2)
        axes = [round(length, 4)] + [round(width, 4)] * (dim - 1)
        parts.append({"shape": rng.choice(["cuboid", "ellipse"]), "axes": axes, "p": [round(mid * x, 4) for x in d], "o": a,
                      "parent": 0, "ref": [round(-mid * 0.95, 4)] + [0.0] * (dim - 1), "margin": margin, "tail": True})
    if rng.chance(0.3):
        for p in parts:
            p["tail"] = rng.chance(0.5)
    return parts


def gen_scene(rng, dim, n, alg, moving=False, compound=0.0, attractor=None, span=3.2, blocks=False):
    attractor = attractor or [5.0] + [0.0] * (dim - 1)
    cells = []
    tries = 0
    while len(cells) < n and tries < 400:
        tries += 1
        c = [round(rng.uni(-span, span), 4) for _ in range(dim)]
        r = round(rng.uni(0.5, 1.15), 4)
        how = rng.choice(["both", "both", "swing", "turn", "still"]) if moving else "still"
        swing = round(rng.uni(0.1, 0.5), 3) if how in ("both", "swing") else 0.0
        tot = r + swing
        if math.dist(c, attractor) < tot + 1.2:
            continue
        if any(math.dist(c, q["c"]) < tot + q["r"] + q["swing"] + 0.7 for q in cells):
            continue
        cell = {"c": c, "r": r, "swing": swing, "dir": rng.direction(dim), "omega": round(rng.uni(0.2, 0.7), 3), "phase": rng.uni(0, 6.28),
                "o": rng.uni(-3.1, 3.1) if dim == 2 else rng.direction(4), "turn": round(rng.uni(-0.4, 0.4), 3) if how in ("both", "turn") else 0.0,
                "axis": rng.direction(3)}
        cell["parts"] = gen_body(rng, dim, r, alg == "multi" and rng.chance(compound))
        if dim == 2 and len(cell["parts"]) > 1 and rng.chance(0.25):
            # an arch from the library's own factories
            cell["arch"] = {"block": (blocks and rng.chance(0.5)) if how == "still" else bool(blocks and int(cell["phase"] * 1e5) % 2), "wall": round(r * rng.uni(0.15, 0.3), 4),
                            "axes": [round(r * rng.uni(0.5, 0.75), 4), round(r * rng.uni(0.8, 1.2), 4)], "margin": rng.choice([0.0, 0.05])}
            cell["parts"] = cell["parts"][:1]
        if len(cell["parts"]) > 1 and moving and rng.chance(0.3):
            # breathes: its size follows 1 + amp (sin(w t + phase) - 1) / 2
            cell["breathe"] = {"amp": round(rng.uni(0.05, 0.3), 3), "w": round(rng.uni(0.2, 0.7), 3), "phase": rng.uni(0, 6.28)}
            for p in cell["parts"]:
                p["margin"] = 0.0
        if alg == "multi" and how == "still" and "breathe" not in cell and rng.chance(0.4):
            cell["bare"] = True  # nobody told it that it stands still
        if alg == "multi" and rng.chance(0.4):
            cell["reuse"] = True  # perception reports every pose in one and the same object
        if rng.chance(0.3):
            cell["o"] = 0.0 if dim == 2 else [0.0, 0.0, 0.0, 1.0]
        cells.append(cell)
    if alg == "rot" and cells and int(cells[0]["phase"] * 1e7) % 3 == 0:
        # obstacles with a convergence radius of their own (not every one of them)
        for cell in cells:
            cell["rad"] = [None, 0.5, 0.75, 1.0][int(cell["phase"] * 1e6) % 4]
    # obstacles beyond the cut-off are left out (also while others are close)
    near = [20.0, 8.0, 4.0, 2.5][int(cells[0]["phase"] * 1e8) % 4] if cells else 20.0
    vmax = rng.choice([1.0, 1.0, 0.5, 2.0])
    return {"dim": dim, "alg": alg, "attractor": attractor, "vmax": vmax, "cells": cells, "rad": {"rot": rng.choice([0.5, 0.5, 0.75, 1.0]), "multi": rng.choice([0.5, 0.5, 0.55, 0.75]), "sing": 0.5}[alg],
            # how the single-level avoider is asked: its own motion, or handed one
            # motion per call with the container's local motions to converge along
            "flow": rng.choice(["own", "own", "local"]) if alg == "rot" else "own", "sticky": moving or rng.chance(0.6), "tail": rng.chance(0.3),
            "arg": rng.chance(0.5), "smooth": rng.choice([None, None, 0.2, 0.5]), "cutoff": rng.choice([None, None, near]), "build": rng.choice(["factory", "factory", "flag", "single"]),
            "repulsion": rng.choice(["default", "default", None, 0.5]), "hand": rng.chance(0.4),
            # the single-level avoider with local motions can be asked for directions as sequences (in front of standing obstacles)
            "by": "sequence" if alg == "sing" and not moving and rng.chance(0.5) else "value"}


def plain(scene):
    """A changing motion without goal is not defined around compound obstacles (known finding of C05)."""
    if scene["nominal"]["kind"] == "helix":
        for c in scene["cells"]:
            c["parts"] = c["parts"][:1]
            c.pop("arch", None)


def gen_nominal(rng, kind, dim=2):
    if kind == "circular":
        return {"kind": kind, "radius": round(rng.uni(1.0, 3.5), 3)}
    if kind == "wavy":
        return {"kind": kind, "stretch": round(rng.uni(0.3, 1.5), 3), "dev": round(rng.uni(0.2, 1.2), 3)}
    if kind == "constant":
        return {"kind": kind, "direction": rng.direction(dim)}
    if kind == "axis":
        return {"kind": kind, "direction": rng.direction(dim), "offset": [round(rng.uni(-1, 1), 3) for _ in range(dim)]}
    if kind == "helix":
        return {"kind": kind, "direction": rng.direction(3), "radius": round(rng.uni(0.5, 2.0), 3)}
    if kind == "path":
        points = [[-4.0, round(rng.uni(-3, 3), 3)], [round(rng.uni(-2, 0), 3), round(rng.uni(-3, 3), 3)], [round(rng.uni(1, 3), 3), round(rng.uni(-2, 2), 3)]]
        return {"kind": kind, "points": points}
    return {"kind": "linear"}


def gen_kind(rng, alg, dim):
    if rng.chance(0.5):
        return "linear"
    if dim == 3:
        return rng.choice(["constant", "axis"] + ["helix"] * (alg == "multi"))
    return rng.choice(["circular", "wavy", "constant", "axis"] + ["path"] * (alg == "multi"))


# motions which have no goal
ENDLESS = ("constant", "axis", "helix")


# ------------------------------------------------------------------ execution
class Frame:
    """A rigid map frame: x -> R x + t."""

    def __init__(self, dim, R=None, t=None, angle=0.0):
        self.R = np.eye(dim) if R is None else R
        self.t = np.zeros(dim) if t is None else t
        self.angle = angle

    def pos(self, x):
        return self.R @ np.asarray(x, dtype=float) + self.t

    def vec(self, v):
        return self.R @ np.asarray(v, dtype=float)

    def back(self, v):
        return self.R.T @ v


class Body:
    """One obstacle of the world and its exact motion."""

    def __init__(self, cell, dim, alg, frame):
        self.cell, self.dim, self.alg, self.frame = cell, dim, alg, frame
        self.c = np.array(cell["c"], dtype=float)
        self.frozen_at = None
        self.u = np.array(cell["dir"], dtype=float)
        self.size = 1.0
        self.t = 0.0
        parts = cell["parts"]
        pos, ori, lin, ang = self.motion(0.0)
        arch = cell.get("arch")
        self.block = bool(arch and arch["block"])
        if arch:
            make = BlockArchObstacle if arch["block"] else create_arch_obstacle
            self.obs = make(arch["wall"], np.array(arch["axes"]), Pose(pos, orientation=ori), arch["margin"])
            if not cell.get("bare"):
                self.obs.twist = Twist(linear=lin, angular=ang)
        elif alg == "multi":
            self.obs = MultiObstacle(Pose(pos, orientation=ori))
            for k, p in enumerate(parts):
                shape = SHAPES[p["shape"]](axes_length=np.array(p["axes"]), center_position=np.array(p["p"], dtype=float),
                                           orientation=(p["o"] if dim == 2 else Rotation.from_euler("z", p["o"])), margin_absolut=p["margin"],
                                           tail_effect=p["tail"])
                if p["parent"] is None:
                    self.obs.set_root(shape)
                else:
                    self.obs.add_component(shape, parent_ind=p["parent"], reference_position=np.array(p["ref"], dtype=float))
                if p["parent"] is None and p["ref"] is not None:
                    shape.set_reference_point(np.array(p["ref"], dtype=float), in_global_frame=False)
            if not cell.get("bare"):
                self.obs.twist = Twist(linear=lin, angular=ang)
        else:
            p = parts[0]
            self.obs = SHAPES[p["shape"]](axes_length=np.array(p["axes"]), center_position=pos, orientation=ori, margin_absolut=p["margin"],
                                          tail_effect=p["tail"], linear_velocity=lin, angular_velocity=ang)
            if p["ref"] is not None:
                self.obs.set_reference_point(np.array(p["ref"], dtype=float), in_global_frame=False)

    def motion(self, t):
        c = self.cell
        if self.frozen_at is not None:
            t = self.frozen_at
        s = math.sin(c["omega"] * t + c["phase"])
        pos = self.frame.pos(self.c + c["swing"] * s * self.u)
        lin = self.frame.vec(c["swing"] * c["omega"] * math.cos(c["omega"] * t + c["phase"]) * self.u)
        still = self.frozen_at is not None
        if still:
            lin = lin * 0.0
        if self.dim == 2:
            return pos, c["o"] + c["turn"] * t + self.frame.angle, lin, 0.0 if still else c["turn"]
        axis = np.array(c["axis"])
        ori = Rotation.from_matrix(self.frame.R) * Rotation.from_rotvec(axis * c["turn"] * t) * Rotation.from_quat(c["o"])
        return pos, ori, lin, self.frame.vec(axis * c["turn"]) * (0.0 if still else 1.0)

    def growth(self, t):
        """Size and relative rate of growth."""
        q = self.cell.get("breathe")
        if q is None:
            return 1.0, 0.0
        still = self.frozen_at is not None
        a = q["w"] * (self.frozen_at if still else t) + q["phase"]
        s = 1.0 + q["amp"] * (math.sin(a) - 1.0) / 2.0
        return s, 0.0 if still else q["amp"] * q["w"] * math.cos(a) / 2.0 / s

    def freeze(self, at=None):
        """Stops where it is now (or where it was at a given time)."""
        self.frozen_at = self.t if at is None else at

    def set_time(self, t):
        self.t = t
        pos, ori, lin, ang = self.motion(t)
        if self.block:
            self.obs.pose = Pose(np.array(pos), orientation=ori)
            self.obs.update_obstacles(0.01)
        elif self.alg == "multi":
            if self.cell.get("reuse") and hasattr(self, "sent"):
                self.sent.position[:] = pos
                self.sent.orientation = ori
            else:
                self.sent = Pose(np.array(pos), orientation=ori)
            self.obs.update_pose(self.sent)
            if "breathe" in self.cell:
                # one real deformation step to the size of this instant
                size, rate = self.growth(t)
                self.obs.deformation_rate = size / self.size - 1.0
                self.obs.update_deformation(1.0)
                self.obs.deformation_rate = rate
                self.size = size
        else:
            self.obs.pose = Pose(pos, orientation=ori)
        if not self.cell.get("bare"):
            self.obs.twist = Twist(linear=lin, angular=ang)
        self.now = (pos, lin, ang)

    def is_moving(self):
        return self.frozen_at is None and bool(self.cell["swing"] or self.cell["turn"] or "breathe" in self.cell)

    def surface_velocity(self, x, t):
        pos, _, lin, ang = self.motion(t)
        arm = x - pos
        lin = lin + arm * self.growth(t)[1]
        if self.dim == 2:
            return lin + ang * np.array([-arm[1], arm[0]])
        return lin + np.cross(ang, arm)

    def parts(self):
        return list(self.obs._obstacle_list) if self.alg == "multi" else [self.obs]

    def gamma(self, x):
        return float(self.obs.get_gamma(x, in_global_frame=True))


class GoalFree:
    """A motion which says that it has no goal."""

    attractor_position = None

    def __init__(self, motion):
        self.evaluate = motion.evaluate


class World:
    def __init__(self, scene, frame=None, order=None):
        self.scene = scene
        self.dim = scene["dim"]
        self.alg = scene["alg"]
        self.flow = scene.get("flow", "own")
        self.frame = frame or Frame(self.dim)
        self.attractor = self.frame.pos(scene["attractor"])
        self.vmax = scene["vmax"]
        cells = scene["cells"]
        self.order = list(range(len(cells))) if order is None else order
        self.bodies = [Body(cells[i], self.dim, self.alg, self.frame) for i in self.order]
        self.nominal = self.make_nominal()
        self._twin = self.make_nominal()
        if self.alg == "multi":
            box = MultiObstacleContainer()
            self.container = box
            for b in self.bodies:
                box.append(b.obs)
            how = {"convergence_radius": scene["rad"] * math.pi}
            if scene.get("smooth"):
                how["smooth_continuation_power"] = scene["smooth"]
            if scene.get("repulsion", "default") != "default":
                how["gamma_maximum_repulsion"] = scene["repulsion"]
            build = scene.get("build", "factory")
            if self.kind == "helix":
                self.avoider = MultiObstacleAvoider(
                    obstacle_container=box, initial_dynamics=self.nominal, default_dynamics=self.base,
                    convergence_dynamics=ConvergenceDynamicsWithoutSingularity(convergence_dynamics=self.base, initial_dynamics=self.nominal), **how)
            elif self.kind in ENDLESS or build == "factory":
                more = {"reference_dynamics": self.base} if self.kind in ENDLESS else {}
                self.avoider = MultiObstacleAvoider.create_with_convergence_dynamics(obstacle_container=box, initial_dynamics=self.nominal, **more, **how)
            elif build == "single" and len(box) == 1:
                self.avoider = MultiObstacleAvoider(obstacle=self.bodies[0].obs, initial_dynamics=self.nominal, create_convergence_dynamics=True, **how)
                self.container = self.avoider.obstacle_list
            else:
                self.avoider = MultiObstacleAvoider(obstacle_container=box, initial_dynamics=self.nominal, create_convergence_dynamics=True, **how)
        else:
            box = RotationContainer()
            self.container = box
            for b in self.bodies:
                self.enlist(b)
            if self.alg == "sing":
                if self.kind in ENDLESS:
                    around = LinearConvergenceDynamics(convergence_dynamics=self.base, initial_dynamics=self.nominal)
                else:
                    around = ProjectedRotationDynamics(attractor_position=np.copy(self.attractor), initial_dynamics=self.nominal,
                                                       reference_velocity=lambda x: x - self.attractor)
                self.avoider = NonlinearRotationalAvoider(initial_dynamics=self.nominal, obstacle_environment=box, obstacle_convergence=around)
            else:
                how = {} if scene.get("arg") else {"convergence_radius": scene["rad"] * math.pi}
                how["tail_rotation"] = scene.get("tail", False)
                if scene.get("cutoff"):
                    how["cut_off_gamma"] = scene["cutoff"]
                if self.flow == "local":
                    self.avoider = RotationalAvoider(**how)
                elif self.kind == "linear":
                    self.avoider = RotationalAvoider(initial_dynamics=self.nominal, obstacle_environment=box, **how)
                elif self.kind in ENDLESS:
                    self.avoider = RotationalAvoider(initial_dynamics=self.nominal, obstacle_environment=box, convergence_system=self.base, **how)
                else:
                    self.avoider = RotationalAvoider(initial_dynamics=self.nominal, obstacle_environment=box,
                                                     convergence_system=LinearSystem(attractor_position=np.copy(self.attractor)), **how)
                if scene.get("smooth"):
                    self.avoider.smooth_continuation_power = scene["smooth"]
        self.t = 0.0
        self.set_time(0.0)

    def make_nominal(self):
        self.kind = self.scene.get("nominal", {}).get("kind", "linear")
        n = self.scene.get("nominal", {})
        if self.kind == "circular":
            return SimpleCircularDynamics(radius=n["radius"], maximum_velocity=self.vmax,
                                          pose=Pose(np.copy(self.attractor), orientation=self.frame.angle))
        if self.kind == "wavy":
            return WavyLinearDynamics(np.copy(self.attractor), distance_strech_factor=n["stretch"], maximum_deviation=n["dev"],
                                      maximum_velocity=self.vmax)
        if self.kind in ENDLESS:
            # what the motion is like on average, around every obstacle
            main = self.frame.vec(n["direction"]) * self.vmax
            self.base = ConstantValue(velocity=main)
            if self.kind == "axis":
                return AxesFollowingDynamics(center_position=self.frame.pos(n["offset"]), main_direction=main, maximum_velocity=self.vmax)
            if self.kind == "helix":
                return SpiralingDynamics3D.create_from_direction(center=np.copy(self.attractor), direction=main / self.vmax, radius=n["radius"], speed=self.vmax)
            return (ConstantValueWithSequence if self.alg == "multi" else ConstantValue)(velocity=np.copy(main))
        if self.kind == "path":
            path = create_segment_from_points([self.frame.pos(p) for p in n["points"] + [self.scene["attractor"]]], margin=0.1)
            path.maximum_velocity = self.vmax
            self.attractor = np.copy(path.attractor_position)  # the path ends a margin before its last point
            return path
        return LinearSystem(attractor_position=np.copy(self.attractor), maximum_velocity=self.vmax)

    def set_time(self, t):
        self.t = t
        for b in self.bodies:
            b.set_time(t)

    def register(self, i):
        b = Body(self.scene["cells"][i], self.dim, self.alg, self.frame)
        b.set_time(self.t)
        self.bodies.append(b)
        self.enlist(b)
        return b

    def enlist(self, b):
        if b.cell.get("rad"):
            self.container.append(b.obs, convergence_radius=b.cell["rad"] * math.pi)
        else:
            self.container.append(b.obs)

    def unregister(self, body):
        if self.alg == "multi":
            box = MultiObstacleContainer()
            for o in self.container:
                if o is not body.obs:
                    box.append(o)
            self.container = self.avoider.obstacle_list = box
        else:
            k = [j for j, o in enumerate(self.container) if o is body.obs][0]
            del self.container[k]

    def command(self, x):
        return np.asarray(self.ask(np.array(x, dtype=float)), dtype=float)

    def ask(self, x, **more):
        """The controller's question exactly as a caller would put it."""
        self.handed = []

        def hand(name, a):
            # an array of the caller, who uses it again
            self.handed.append((name, a, np.copy(a)))
            return a

        if self.alg == "rot":
            how = {"convergence_radius": self.scene["rad"] * math.pi} if self.scene.get("arg") else {}
            how.update(more)
            if not self.scene.get("sticky", True):
                how["sticky_surface"] = False
            if self.flow == "local":
                # the local motions belong to where the obstacles are now
                self.container.set_convergence_directions(GoalFree(self.nominal) if self.kind in ENDLESS else self.nominal)
                return self.avoider.avoid(x, hand("velocity", self.nominal.evaluate(np.copy(x))), self.container, **how)
            if self.scene.get("hand"):
                how["initial_velocity"] = hand("velocity", self.nominal.evaluate(np.copy(x)))
                how["convergence_velocity"] = hand("convergence", self.avoider.convergence_system.evaluate(np.copy(x)))
            if how:
                return self.avoider.avoid(x, **how)
        if self.scene.get("by") == "sequence" and self.kind not in ENDLESS:
            # (for motions without goal, sequences around an obstacle start from another motion: never composed so)
            return self.avoider.evaluate_sequence(x)
        return self.avoider.evaluate(x)

    def nominal_at(self, x):
        """The nominal motion, computed independently of the avoider."""
        if self.kind != "linear":
            return np.asarray(self._twin.evaluate(np.array(x, dtype=float)), dtype=float)
        v = self.attractor - x
        n = np.linalg.norm(v)
        return v * self.vmax if n <= 1.0 else v * (self.vmax / n)

    def gamma(self, x):
        return min([b.gamma(x) for b in self.bodies], default=math.inf)

    def distance(self, x):
        """Lower bound of the distance to every cell ball (nan-free)."""
        return min([np.linalg.norm(x - b.motion(self.t)[0]) - b.cell["r"] for b in self.bodies], default=math.inf)

    def poses(self):
        out = []
        for b in self.bodies:
            for o in b.parts():
                out.append(np.array(o.pose.position, dtype=float))
                q = o.pose.orientation
                out.append(np.atleast_1d(q.as_matrix().ravel() if isinstance(q, Rotation) else float(q)))
                out.append(np.array(o.get_reference_point(in_global_frame=True), dtype=float))
        return np.concatenate(out) if out else np.zeros(0)


def gen_free(rng, scene, clearance=0.25, span=4.5, away=0.0):
    """A point outside of all cell balls (hence of all obstacles at all times)."""
    dim = scene["dim"]
    for _ in range(500):
        x = rng.vec(dim, -span, span)
        if math.dist(x, scene["attractor"]) < away:
            continue
        if all(math.dist(x, c["c"]) > c["r"] + c["swing"] + clearance for c in scene["cells"]):
            return [round(v, 4) for v in x]
    return [-span - 1.0] + [0.3] * (dim - 1)


def surface_point(body, direction, distance):
    """A point `distance` outside the obstacle's surface in a world direction from
    its origin (bisection on the obstacle's own distance measure)."""
    pos = body.now[0]
    lo, hi = 0.0, body.cell["r"] * 1.5 + 0.2
    for _ in range(60):
        mid = (lo + hi) / 2
        if body.gamma(pos + direction * mid) > 1.0:
            hi = mid
        else:
            lo = mid
    return pos + direction * (hi + distance)


def query_failure(nth, exc):
    """Installs a hook which makes the nth geometric query raise."""
    box = {"n": 0, "fired": False}

    def hook(obstacle, name):
        box["n"] += 1
        if box["n"] == nth:
            box["fired"] = True
            raise exc(f"query {name} failed")
    obsmod.QUERY_HOOK = hook
    return box


def clear_hook():
    obsmod.QUERY_HOOK = None
