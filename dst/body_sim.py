"""Simulated tracking network in front of the articulated body model (C01, C02).

Nodes: a motion-capture sender (publishes one frame per period, one message per
body), a lossy network, and a controller that polls its mailbox and updates the
body.  Real code: MultiBodyObstacle and RigidBody.  Every delay, loss and order
is an entry of the plan.
"""
from __future__ import annotations

import math

import numpy as np
from scipy.spatial.transform import Rotation

from vartools.state_filters import PositionFilter, SimpleOrientationFilter
from vartools.states import ObjectPose
from dynamic_obstacle_avoidance.obstacles import CuboidXd, EllipseWithAxes

from nonlinear_avoidance.multi_body_human import MultiBodyObstacle
from nonlinear_avoidance.rigid_body import RigidBody

from .core import Ctx, Sim

GROUND = 0.2  # the fixed ground height of a measured root


class Robot:
    def __init__(self, optitrack_id):
        self.optitrack_id = optitrack_id
        self.pose = ObjectPose(position=np.zeros(3), orientation=Rotation.from_quat([0, 0, 0, 1.0]))
        self.published = 0

    def publish_robot_transform(self):
        self.published += 1


class Mailbox:
    """What the motion-capture interface hands out: per marker the newest
    arrival since the last poll (plus literal repeats), in arrival order."""

    def __init__(self):
        self.inbox = []
        self.last = []

    def deliver(self, mid, p, q, repeat=False):
        msg = (mid, tuple(p), tuple(q))
        if not (repeat and msg in self.inbox):
            self.inbox = [m for m in self.inbox if m[0] != mid]
        self.inbox.append(msg)

    def get_messages(self):
        self.last, self.inbox = self.inbox, []
        return [RigidBody(obs_id=m, position=np.array(p), rotation=Rotation.from_quat(q)) for m, p, q in self.last]


# ---------------------------------------------------------------- generation
def quat(rng, yaw_only=False):
    if yaw_only:
        a = rng.uni(-3.0, 3.0)
        return [0.0, 0.0, math.sin(a / 2), math.cos(a / 2)]
    return rng.direction(4)


def gen_plan(rng, tier, yaw_only_root):
    n = rng.choice([1, 2, 3, 4, 6, 9])
    ids = rng.sample(list(range(0, 40)), n + 2)
    parts = []
    for i in range(n):
        axes = [round(rng.uni(0.1, 0.8), 3) for _ in range(3)]
        part = {"name": f"p{i}", "kind": rng.choice(["cuboid", "ellipse"]), "axes": axes,
                "uid": ids[i] if rng.chance(0.6) else None}
        if i:
            par = rng.randrange(i) if rng.chance(0.6) else i - 1
            part.update(parent=f"p{par}", ref=[round(rng.uni(-0.4, 0.4), 3) for _ in range(3)],
                        pref=[round(rng.uni(-0.4, 0.4), 3) for _ in range(3)])
            if rng.chance(0.05):
                part["ref"] = [0.0, 0.0, 0.0]
        parts.append(part)
    robot = ids[n] if rng.chance(0.5) else None
    frames = rng.choice([4, 8, 15, 30]) * (2 if tier == "thorough" else 1)
    period = 0.01
    tracked = [p["uid"] for p in parts if p["uid"] is not None] + ([robot] if robot is not None else [])
    root_uid = parts[0]["uid"]
    motion = {}
    for u in tracked:
        motion[u] = {"p": rng.vec(3, -3, 3), "v": rng.vec(3, -1, 1), "q": quat(rng, yaw_only_root and u in (root_uid, robot)),
                     "q2": None}
        motion[u]["w"] = [0.0, 0.0, rng.uni(-3, 3)] if (yaw_only_root and u in (root_uid, robot)) else rng.vec(3, -3, 3)
        if rng.chance(0.1):
            motion[u]["p"] = [round(x) * 1.0 for x in motion[u]["p"]]
            motion[u]["v"] = [0.0, 0.0, 0.0]
    ops = []
    order = list(tracked)
    for k in range(frames):
        if rng.chance(0.3):
            rng.shuffle(order)
        msgs = []
        for u in order:
            m = motion[u]
            t = k * period
            p = [a + b * t for a, b in zip(m["p"], m["v"])]
            q = (Rotation.from_rotvec(np.array(m["w"]) * t) * Rotation.from_quat(m["q"])).as_quat().tolist()
            msgs.append({"id": u, "p": [round(x, 6) for x in p], "q": q})
        ops.append({"op": "frame", "t": round(k * period, 6), "k": k, "msgs": msgs})
    t = 0.004
    while t < frames * period:
        ops.append({"op": "update", "t": round(t, 6)})
        t += period * rng.choice([1, 1, 1, 0.5, 2, 3.5])
    ops.sort(key=lambda o: (o["t"], o["op"]))
    # faults: swarm style, every run enables its own subset
    faults = []
    kinds = [k for k in ["drop", "dup", "delay", "blackout", "foreign", "restart", "idle"] if rng.chance(0.5)]
    rate = rng.choice([0.05, 0.2, 0.5])
    for k in range(frames):
        for u in order:
            if "drop" in kinds and rng.chance(rate):
                faults.append({"kind": "drop", "k": k, "id": u})
            if "dup" in kinds and rng.chance(rate * 0.5):
                faults.append({"kind": "dup", "k": k, "id": u, "late": rng.choice([0.0, 0.0, 0.012, 0.033])})
            if "delay" in kinds and rng.chance(rate):
                faults.append({"kind": "delay", "k": k, "id": u, "dt": rng.choice([0.003, 0.011, 0.025, 0.08])})
        if "foreign" in kinds and rng.chance(rate):
            faults.append({"kind": "foreign", "k": k, "id": rng.choice([-1, 99, 77, ids[n + 1], -3]), "p": rng.vec(3, -5, 5),
                           "q": quat(rng), "first": rng.chance(0.5)})
    if "blackout" in kinds and frames > 2:
        u = rng.choice(order) if order and rng.chance(0.7) else "all"
        a = rng.randrange(frames)
        faults.append({"kind": "blackout", "k": a, "len": rng.randint(1, 6), "id": u})
    if "restart" in kinds:
        faults.append({"kind": "restart", "t": round(rng.uni(0, frames * period), 6)})
    if "idle" in kinds:
        faults.append({"kind": "idle", "t": round(rng.uni(0, frames * period), 6), "n": rng.randint(1, 5)})
    return {"config": {"parts": parts, "robot": robot, "period": period, "settle": 70,
                       "probe": [rng.vec(3, -2, 2) for _ in range(3)], "updater": rng.chance(0.93),
                       "frame": rng.chance(0.9)},
            "ops": ops, "faults": faults}


# ----------------------------------------------------------------- execution
def build(cfg, mailbox, robot):
    body = MultiBodyObstacle(update_frequency=1 / cfg["period"], pose_updater=mailbox, robot=robot)
    for part in cfg["parts"]:
        cls = CuboidXd if part["kind"] == "cuboid" else EllipseWithAxes
        obs = cls(axes_length=np.array(part["axes"]), center_position=np.zeros(3),
                  orientation=Rotation.from_quat([0, 0, 0, 1.0]))
        if "parent" not in part:
            body.set_root(obs, name=part["name"], update_id=part["uid"])
        else:
            body.add_component(obs, name=part["name"], reference_position=part["ref"], parent_name=part["parent"],
                               parent_reference_position=part["pref"], update_id=part["uid"])
    return body


class BodyRun:
    def __init__(self, ctx: Ctx, plan):
        self.ctx, self.plan, self.cfg = ctx, plan, plan["config"]
        self.sim = Sim(ctx)
        self.start()

    def start(self):
        cfg = self.cfg
        self.mail = Mailbox() if cfg["updater"] else None
        self.robot = None if cfg["robot"] is None else Robot(cfg["robot"])
        self.body = build(cfg, self.mail, self.robot)
        self.n_updates = 0
        self.on_start()

    # hooks for the oracles
    def on_start(self):
        pass

    def before(self):
        pass

    def after(self, batch):
        pass

    def finish(self):
        pass

    # ---- network
    def schedule(self):
        sim, ctx = self.sim, self.ctx
        drop, dup, delay = {}, {}, {}
        foreign = {}
        for f in self.plan["faults"]:
            if f["kind"] == "drop":
                drop[f["k"], f["id"]] = "drop"
            elif f["kind"] == "blackout":
                ids = {m["id"] for o in self.plan["ops"] if o["op"] == "frame" for m in o["msgs"]} if f["id"] == "all" else {f["id"]}
                for k in range(f["k"], f["k"] + f["len"]):
                    for u in ids:
                        drop.setdefault((k, u), "blackout")
            elif f["kind"] == "dup":
                dup[f["k"], f["id"]] = f["late"]
            elif f["kind"] == "delay":
                delay[f["k"], f["id"]] = f["dt"]
            elif f["kind"] == "foreign":
                foreign.setdefault(f["k"], []).append(f)
            elif f["kind"] == "restart":
                sim.at(f["t"], self.restart)
            elif f["kind"] == "idle":
                for _ in range(f["n"]):
                    sim.at(f["t"], self.idle_update)
        for o in self.plan["ops"]:
            if o["op"] == "update":
                sim.at(o["t"], self.update)
                continue
            for f in foreign.get(o["k"], []):
                if f["first"]:
                    sim.at(o["t"], lambda f=f: self.arrive(f["id"], f["p"], f["q"], "foreign"))
            for m in o["msgs"]:
                key = (o["k"], m["id"])
                if key in drop:
                    ctx.fault(drop[key])
                    continue
                dt = 0.001 + delay.get(key, 0.0)
                sim.at(o["t"] + dt, lambda m=m, d=key in delay, k=o["k"]: self.arrive(m["id"], m["p"], m["q"], "delay" if d else None, k))
                if key in dup:
                    sim.at(o["t"] + 0.001 + dup[key], lambda m=m, k=o["k"], l=dup[key]: self.arrive(m["id"], m["p"], m["q"], "dup", k, repeat=l == 0.0))
            for f in foreign.get(o["k"], []):
                if not f["first"]:
                    sim.at(o["t"] + 0.001, lambda f=f: self.arrive(f["id"], f["p"], f["q"], "foreign"))

    last_k = None

    def arrive(self, mid, p, q, fault=None, k=None, repeat=False):
        if self.mail is None:
            return
        if fault:
            self.ctx.fault(fault)
        if k is not None:
            if self.last_k is None:
                self.last_k = {}
            if k < self.last_k.get(mid, -1):
                self.ctx.fault("reorder")
            self.last_k[mid] = max(k, self.last_k.get(mid, -1))
        self.mail.deliver(mid, p, q, repeat)

    def restart(self):
        self.ctx.fault("restart")
        self.ctx.record("restart")
        self.start()

    def idle_update(self):
        self.ctx.fault("empty_poll")
        self.update()

    def update(self):
        self.before()
        if self.cfg["updater"] and not self.cfg["frame"]:
            self.body.update_using_optitrack(transform_to_robot_frame=False)
        else:
            self.body.update()
        self.n_updates += 1
        batch = list(self.mail.last) if self.mail else []
        self.ctx.record("update", [m[0] for m in batch])
        for i in range(self.body.n_components):
            p = self.body.get_component(i).pose
            self.ctx.record(i, p.position, p.orientation.as_quat())
        have = {m[0] for m in batch}
        self.ctx.state(len(self.cfg["parts"]), tuple((p["uid"] in have) if p["uid"] is not None else None for p in self.cfg["parts"]),
                       self.cfg["robot"] in have, len(batch) - len(have))
        self.after(batch)

    def run(self):
        self.schedule()
        self.sim.run()
        # faults have stopped: a motionless scene is broadcast without losses
        frames = [o for o in self.plan["ops"] if o["op"] == "frame"]
        self.settled = None
        if frames and self.cfg["updater"]:
            last = frames[-1]
            for _ in range(self.cfg["settle"]):
                for m in last["msgs"]:
                    self.mail.deliver(m["id"], m["p"], m["q"])
                self.update()
                self.sim.now += self.cfg["period"]
            self.settled = {m["id"]: m for m in last["msgs"]}
        self.ctx.sim_time = self.sim.now
        self.finish()


def proper(R):
    return np.all(np.isfinite(R)) and np.allclose(R @ R.T, np.eye(3), atol=1e-8) and abs(np.linalg.det(R) - 1) < 1e-8


def simplify(plan):
    import copy
    # fewer leaf parts, shorter settling
    parts = plan["config"]["parts"]
    if len(parts) > 1:
        for i in reversed(range(1, len(parts))):
            if not any(p.get("parent") == parts[i]["name"] for p in parts):
                c = copy.deepcopy(plan)
                del c["config"]["parts"][i]
                yield c
    for i, p in enumerate(parts):
        if p["uid"] is not None:
            c = copy.deepcopy(plan)
            c["config"]["parts"][i]["uid"] = None
            yield c
