"""C02: each tracked part follows its own newest measurement."""
import numpy as np
from scipy.spatial.transform import Rotation

from vartools.state_filters import PositionFilter, SimpleOrientationFilter
from vartools.states import Pose

from ..body_sim import BodyRun, GROUND, gen_plan, simplify  # noqa: F401

RUNS = {"quick": 900, "thorough": 9000}
RULE = "One run is one random body tree fed by a simulated tracking network, compared update by update with a small reference model of attribution, holding and inheritance."
STATE_MEASURE = "distinct (tree size, which parts/robot were present in the polled batch, number of repeats) tuples"
REAL = ["nonlinear_avoidance.multi_body_human.MultiBodyObstacle", "nonlinear_avoidance.rigid_body"]
STUB = ["vartools / dynamic_obstacle_avoidance (absent packages: stand-ins)", "motion-capture interface", "robot frame publisher"]
EXPECTED_PROBES = ["drop", "dup", "delay", "reorder", "foreign", "restart", "empty_poll", "blackout", "measured-root", "measured-limb", "held", "inherited"]


def generate(rng, tier):
    plan = gen_plan(rng, tier, yaw_only_root=True)
    plan["config"]["updater"] = True
    return plan


def angle(a: Rotation, b: Rotation) -> float:
    return float((a.inv() * b).magnitude())


class Run(BodyRun):
    def on_start(self):
        f = 1 / self.cfg["period"]
        self.pf, self.of = {}, {}
        for p in self.cfg["parts"]:
            if p["uid"] is not None:
                self.pf[p["uid"]] = PositionFilter(update_frequency=f, initial_position=np.zeros(3))
                self.of[p["uid"]] = SimpleOrientationFilter(update_frequency=f, initial_orientation=Rotation.from_quat([0, 0, 0, 1.0]))
        self.rob = Pose(np.zeros(3), Rotation.from_quat([0, 0, 0, 1.0]))
        for i, p in enumerate(self.cfg["parts"]):
            if p["uid"] is not None:
                self.ctx.check(self.body.get_obstacle_id_from_optitrackid(p["uid"]) == i, "marker-lookup", f"marker {p['uid']} is part {i}")
                self.ctx.check(self.body.get_update_id(i) == p["uid"], "marker-lookup", f"part {i}")

    def before(self):
        self.old = [(c.pose.position.copy(), c.pose.orientation) for c in (self.body.get_component(i) for i in range(self.body.n_components))]

    def seen(self, uid):
        """Filtered measurement in the frame the body is expressed in."""
        p, r = self.pf[uid].position, self.of[uid].rotation
        if self.robot is not None and self.cfg["frame"]:
            return self.rob.transform_position_to_relative(p), self.rob.orientation.inv() * r
        return p, r

    def after(self, batch):
        ctx, body, parts = self.ctx, self.body, self.cfg["parts"]
        measured = set()
        for mid, p, q in batch:
            if self.robot is not None and mid == self.robot.optitrack_id:
                self.rob = Pose(np.array(p), Rotation.from_quat(q))
            elif mid in self.pf:
                self.pf[mid].run_once(np.array(p))
                self.of[mid].run_once(Rotation.from_quat(q))
                measured.add(mid)
        if self.robot is not None:
            ctx.check(np.allclose(self.robot.pose.position, self.rob.position, atol=1e-9), "robot-pose", "robot position is not the latest measured one")
            ctx.check(angle(self.robot.pose.orientation, self.rob.orientation) < 1e-7, "robot-pose", "robot orientation is not the latest measured one")
        index = {p["name"]: i for i, p in enumerate(parts)}
        for i, part in enumerate(parts):
            pose = body.get_component(i).pose
            pos, ori = pose.position, pose.orientation
            old_p, old_o = self.old[i]
            got = part["uid"] in measured
            if "parent" not in part:
                if got:
                    ctx.probe("measured-root")
                    p, r = self.seen(part["uid"])
                    ctx.check(np.allclose(pos[:2], p[:2], atol=1e-8), "root-position", lambda: f"root at {pos[:2]}, measured {p[:2]}")
                    head = r.apply([1.0, 0, 0])
                    ctx.check(np.allclose(ori.apply([1.0, 0, 0]), head, atol=1e-7), "root-heading", lambda: f"heading {ori.apply([1.0, 0, 0])}, measured {head}")
                else:
                    ctx.check(np.array_equal(pos, old_p) and angle(ori, old_o) < 1e-12, "root-moved-unmeasured", f"update {self.n_updates}")
                continue
            par = body.get_component(index[part["parent"]]).pose
            joint = par.transform_position_from_relative(np.array(part["pref"]))
            if got:
                ctx.probe("measured-limb")
                p, r = self.seen(part["uid"])
                axis = p - joint
                n = np.linalg.norm(axis)
                if n > 1e-6:
                    have = ori.apply([0, 0, 1.0])
                    ctx.check(np.linalg.norm(have - axis / n) < 1e-6, "limb-direction",
                              lambda: f"update {self.n_updates}: {part['name']} points along {have}, measured {axis / n}")
            elif part["uid"] is not None:
                ctx.probe("held")
                ctx.check(angle(ori, old_o) < 1e-7, "orientation-not-held", lambda: f"update {self.n_updates}: {part['name']} got no message, turned by {angle(ori, old_o):.3g} rad")
            else:
                ctx.probe("inherited")
                ctx.check(angle(ori, par.orientation) < 1e-7, "orientation-not-inherited", lambda: f"{part['name']} differs from its parent by {angle(ori, par.orientation):.3g} rad")

    def finish(self):
        if not self.settled:
            return
        ctx, body, parts = self.ctx, self.body, self.cfg["parts"]
        index = {p["name"]: i for i, p in enumerate(parts)}
        frame = Pose(np.zeros(3), Rotation.from_quat([0, 0, 0, 1.0]))
        if self.robot is not None and self.cfg["frame"] and self.robot.optitrack_id in self.settled:
            m = self.settled[self.robot.optitrack_id]
            frame = Pose(np.array(m["p"]), Rotation.from_quat(m["q"]))
        elif self.robot is not None and self.cfg["frame"]:
            frame = self.rob
        for i, part in enumerate(parts):
            m = self.settled.get(part["uid"])
            if m is None:
                continue
            pose = body.get_component(i).pose
            p = frame.transform_position_to_relative(np.array(m["p"]))
            if "parent" not in part:
                ctx.check(np.allclose(pose.position[:2], p[:2], atol=1e-6), "not-settled", f"root rests at {pose.position}, broadcast {p}")
                head = (frame.orientation.inv() * Rotation.from_quat(m["q"])).apply([1.0, 0, 0])
                ctx.check(np.allclose(pose.orientation.apply([1.0, 0, 0]), head, atol=1e-6), "not-settled", "root heading")
            else:
                par = body.get_component(index[part["parent"]]).pose
                axis = p - par.transform_position_from_relative(np.array(part["pref"]))
                n = np.linalg.norm(axis)
                if n > 1e-3:
                    ctx.check(np.linalg.norm(pose.orientation.apply([0, 0, 1.0]) - axis / n) < 1e-4, "not-settled", f"{part['name']} does not point at its broadcast centre")


def execute(ctx, plan):
    Run(ctx, plan).run()
