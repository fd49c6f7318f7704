"""C01: a tracked articulated body stays assembled under any message history."""
import numpy as np

from ..body_sim import BodyRun, GROUND, gen_plan, proper, simplify  # noqa: F401

RUNS = {"quick": 900, "thorough": 9000}
RULE = "One run is one random body tree fed by a simulated tracking network for 4-30 frames plus a settling phase; faults are drawn per message."
STATE_MEASURE = "distinct (tree size, which parts/robot were present in the polled batch, number of repeats) tuples"
REAL = ["nonlinear_avoidance.multi_body_human.MultiBodyObstacle", "nonlinear_avoidance.rigid_body"]
STUB = ["vartools / dynamic_obstacle_avoidance (absent packages: stand-ins)", "motion-capture interface", "robot frame publisher"]
EXPECTED_PROBES = ["drop", "dup", "delay", "reorder", "foreign", "restart", "empty_poll", "blackout"]


def generate(rng, tier):
    return gen_plan(rng, tier, yaw_only_root=rng.chance(0.3))


class Run(BodyRun):
    def after(self, batch):
        ctx, body, parts = self.ctx, self.body, self.cfg["parts"]
        ctx.check(body.n_components == len(parts), "part-count", f"{body.n_components} parts, {len(parts)} were added")
        index = {p["name"]: i for i, p in enumerate(parts)}
        for i, part in enumerate(parts):
            pose = body.get_component(i).pose
            ctx.check(np.shape(pose.position) == (3,) and np.all(np.isfinite(pose.position)), "pose-not-finite", f"part {part['name']}: {pose.position}")
            ctx.check(proper(pose.orientation.as_matrix()), "improper-rotation", f"part {part['name']}")
            if "parent" in part:
                j = index[part["parent"]]
                parent = body.get_component(j).pose
                a = pose.transform_position_from_relative(np.array(part["ref"]))
                b = parent.transform_position_from_relative(np.array(part["pref"]))
                ctx.check(np.linalg.norm(a - b) < 1e-8, "joint-open",
                          lambda: f"update {self.n_updates}: {part['name']} is {np.linalg.norm(a - b):.3g} m off its joint on {part['parent']}")
                r = body.get_component(i).get_reference_point(in_global_frame=True)
                ctx.check(np.linalg.norm(r - b) < 1e-8, "joint-open", lambda: f"reference point of {part['name']} left the joint by {np.linalg.norm(r - b):.3g} m")
            elif any(m[0] == part["uid"] for m in batch):
                up = pose.orientation.apply([0, 0, 1.0])
                ctx.check(abs(up[2] - 1) < 1e-9, "root-not-upright", f"up axis {up}")
                ctx.check(abs(pose.position[2] - GROUND) < 1e-12, "root-off-ground", f"height {pose.position[2]}")
        for x in self.cfg["probe"]:
            x = np.array(x)
            g = body.get_gamma(x)
            want = min(body.get_component(i).get_gamma(x, in_global_frame=True) for i in range(len(parts)))
            ctx.check(g == want or abs(g - want) < 1e-9 * max(1, abs(want)), "distance-not-least", f"{g} but the nearest part gives {want}")
        ctx.record(g)
        if self.robot is not None and self.cfg["frame"]:
            ctx.check(self.robot.published >= 1, "robot-frame-not-published", "")


def execute(ctx, plan):
    Run(ctx, plan).run()
