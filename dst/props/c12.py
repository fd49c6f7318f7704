"""C12: a motion learned from demonstrations is sound for every random seed.

A learner is fitted (with whatever seed, sample order and number of clusters),
re-fitted on other demonstrations, sometimes interrupted in the middle of a fit,
and a robot follows the learned motion while it is stalled, pushed around and
put onto the special points of the regions.
"""
import math
import sys

import numpy as np

from vartools.handwritting_handler import MotionDataHandler
from nonlinear_avoidance.kmeans_learner.kmeans_motion_learner import KMeansMotionLearner

from ..core import InjectedFault, Sim
from .c14 import interrupted

RUNS = {"quick": 560, "thorough": 12000}
RULE = "One run is one learner that is fitted, re-fitted and interrupted while a robot follows its motion with an irregular control clock and pushes."
STATE_MEASURE = "distinct (dimension, number of regions, how it was built, multiset of disturbance kinds so far capped at 2, region level of the robot) tuples"
REAL = ["nonlinear_avoidance.kmeans_learner (learner, region obstacle)", "nonlinear_avoidance.dynamics.nonlinear_deviation", "nonlinear_avoidance.avoidance.rotational_avoidance", "scikit-learn KMeans and SVR"]
STUB = ["vartools / dynamic_obstacle_avoidance (absent packages: stand-ins)", "the demonstrations (seeded smooth curves)", "the robot (a point that integrates its command)"]
EXPECTED_PROBES = ["stall", "burst", "push", "onto_special_point", "refit", "interrupted_fit", "arrived", "outside", "passed-regions", "sparse-removed", "several-sparse-removed", "other_learner", "foreign_draws"]
RUN_LIMIT_S = 120

TOL = 0.1


def generate(rng, tier):
    cfg = {"dim": rng.choice([2, 2, 3]), "bg": rng.randrange(1 << 30)}
    cfg["first"] = gen_fit(rng)
    ops = []
    w = {"release": 1.5, "run": 2, "push": rng.uni(0, 2), "onto": rng.uni(0.2, 1.5), "probe": 1, "refit": rng.uni(0, 0.5), "other": rng.uni(0, 0.5), "normals": 0.5}
    for k in range(rng.choice([2, 5, 9]) * (2 if tier == "thorough" else 1)):
        op = rng.choices(list(w), list(w.values()))[0]
        o = {"op": op, "k": k}
        if op == "release":
            o.update(pick=rng.random())
        elif op == "run":
            o.update(n=rng.choice([5, 20, 60]), seed=rng.randrange(1 << 30))
        elif op == "push":
            o.update(d=rng.direction(cfg["dim"]), size=rng.choice([0.02, 0.3, 1.0, 3.0]) * rng.uni(0.5, 1.5))
        elif op == "onto":
            o.update(pick=rng.random(), off=rng.choice([0.0, 0.0, 1e-12, 1e-6]), d=rng.direction(cfg["dim"]))
        elif op in ("probe", "normals"):
            o.update(x=[float(round(v)) if rng.chance(0.3) else v for v in rng.vec(cfg["dim"], -9, 9)], far=rng.choice([1, 1, 1, 100, 1e6]), u=rng.random())
        else:
            o.update(fit=gen_fit(rng))
        ops.append(o)
    faults = []
    kinds = [x for x in ("interrupt", "draws") if rng.chance(0.5)]
    for o in ops:
        if "interrupt" in kinds and o["op"] == "refit" and rng.chance(0.6):
            faults.append({"kind": "interrupted_fit", "k": o["k"], "frac": rng.random(), "lines": rng.choice([40, 400, 4000])})
        if "draws" in kinds and rng.chance(0.5):
            faults.append({"kind": "foreign_draws", "k": o["k"], "n": rng.randint(1, 50)})
    if "interrupt" in kinds and rng.chance(0.3):
        faults.append({"kind": "interrupted_fit", "k": -1, "frac": rng.random(), "lines": rng.choice([40, 400, 4000])})
    return {"config": cfg, "ops": ops, "faults": faults}


def gen_fit(rng):
    return {"data": rng.randrange(1 << 30), "seed": rng.randrange(1 << 30), "n": rng.randint(1, 8), "rf": rng.choice([0.7, 0.7, 0.6, 0.9]),
            "how": rng.choice(["fit", "fit", "fit", "centers"])}


def demonstrations(seed, dim):
    """Smooth curves that end in the goal, with noise, warped time, any order."""
    rng = np.random.default_rng(seed)
    n, nd = int(rng.integers(25, 80)), int(rng.integers(1, 5))
    t = np.linspace(0, 1, n)
    if rng.random() < 0.5:
        t = t ** rng.uniform(0.4, 2.5)
    elif rng.random() < 0.4:
        # lingering most of the time, with one to three quick stretches in between (few samples there)
        u = np.linspace(0, 1, 200)
        dens = np.ones(200)
        for _ in range(int(rng.integers(1, 4))):
            a, b = rng.uniform(0.05, 0.85), rng.uniform(0.05, 0.3)
            dens[(u > a) & (u < a + b)] = rng.uniform(0.02, 0.12)
        if rng.random() < 0.5:
            # standing nearly still in a few places, hurrying in between
            n, nd = int(rng.integers(60, 90)), int(rng.integers(2, 5))
            dens[:] = rng.uniform(0.004, 0.02)
            for a in rng.uniform(0, 1, size=int(rng.integers(2, 5))):
                dens[np.abs(u - a) < rng.uniform(0.01, 0.04)] = 1.0
        t = np.linspace(0, 1, n)
        cdf = np.concatenate([[0], np.cumsum((dens[1:] + dens[:-1]) / 2)])
        t = np.interp(t * cdf[-1], cdf, u)
    a0, w, w2 = rng.uniform(-3, 3, size=3)
    s = np.linspace(0, 1, 400)
    ang = a0 + w * s + w2 * np.sin(3 * s) / 3
    path = np.cumsum(np.stack([np.cos(ang), np.sin(ang)], 1), 0) * rng.uniform(2, 8) / 400 + rng.uniform(-2, 2, size=2)
    P = np.stack([np.interp(t, s, path[:, i]) for i in range(2)], 1)
    V = np.stack([np.cos(np.interp(t, s, ang)), np.sin(np.interp(t, s, ang))], 1)
    goal = path[-1].copy()
    pos, vel, seq = [], [], []
    for _ in range(nd):
        off = rng.uniform(0, 0.1) * rng.normal(size=2)
        pos.append(P + np.outer(1 - t, off))
        vel.append(V * rng.uniform(0.3, 1.5))
        seq.append(t)
    pos, vel, seq = np.vstack(pos), np.vstack(vel), np.hstack(seq)
    if dim == 3:
        Q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
        b = rng.uniform(-0.15, 0.15)
        r = ((pos - goal) ** 2).sum(1)
        g = 2 * ((pos - goal) * vel).sum(1)
        pos = np.column_stack([pos, b * r]) @ Q.T
        vel = np.column_stack([vel, b * g]) @ Q.T
        goal = Q[:, :2] @ goal
    if rng.random() < 0.5:
        p = rng.permutation(len(pos))
        pos, vel, seq = pos[p], vel[p], seq[p]
    data = MotionDataHandler(position=pos, velocity=vel, attractor=goal)
    data.sequence_value = seq
    return data


def build(spec, dim):
    """A learner nobody touched before."""
    data = demonstrations(spec["data"], dim)
    np.random.seed(spec["seed"])
    if spec["how"] == "centers":
        pick = np.random.default_rng(spec["seed"]).permutation(len(data.position))
        centers = []
        for x in data.position[pick]:
            # distinct regions
            if len(centers) < spec["n"] and all(np.linalg.norm(x - y) > 0.2 for y in centers):
                centers.append(x)
        return KMeansMotionLearner.from_centers(np.array(centers).T, data)
    return KMeansMotionLearner(data, n_clusters=spec["n"], radius_factor=spec["rf"])


def refit(learner, spec, dim):
    data = demonstrations(spec["data"], dim)
    np.random.seed(spec["seed"])
    learner.n_clusters_fit, learner.radius_factor = spec["n"], spec["rf"]
    learner.fit(data)


def execute(ctx, plan):
    cfg = plan["config"]
    dim = cfg["dim"]
    by = {(f["kind"], f["k"]): f for f in plan["faults"]}
    bg = np.random.RandomState(cfg["bg"])
    counts = {}
    sim = Sim(ctx)
    w = {}

    def centers():
        return np.array(w["L"].kmeans.cluster_centers_)

    def label(x):
        d = np.linalg.norm(w["centers"] - x, axis=1)
        return int(np.argmin(d))

    def inside(x, i=None):
        i = label(x) if i is None else i
        return w["L"].region_obstacles[i].get_gamma(np.array(x), in_global_frame=True) >= 1

    def ask(x):
        q = np.array(x, dtype=float)
        v = np.asarray(w["L"].predict(q), dtype=float)
        ctx.check(np.array_equal(q, x), "argument-changed", "the position was modified")
        ctx.check(v.shape == (dim,) and np.isfinite(v).all(), "not-finite", lambda: f"at {x}: {v}")
        ctx.check(np.linalg.norm(v) <= 1 + 1e-6, "unbounded", lambda: f"at {x}: {v}")
        return v

    def adopt(learner, spec):
        """Everything that has to hold right after a fit."""
        w.update(L=learner, spec=spec, data=learner.data, left=None)
        L, data = learner, learner.data
        w["centers"] = C = centers()
        n = L.n_clusters
        w["goal"] = np.array(data.attractor, dtype=float)
        ctx.check(C.shape == (n, dim) and np.isfinite(C).all() and 1 <= n <= spec["n"], "clusters", f"{C.shape} for {n}")
        if n < spec["n"]:
            ctx.probe("sparse-removed")
            if spec["n"] - n > 1 and spec["how"] == "fit":
                ctx.probe("several-sparse-removed")
        lab = np.asarray(L.kmeans.labels_)
        ctx.check(lab.shape == (data.n_samples,) and lab.min() >= 0 and lab.max() < n, "labels", f"labels {sorted(set(lab.tolist()))} for {n} regions")
        d = np.linalg.norm(data.position[:, None] - C[None], axis=2)
        best = d.min(axis=1)
        ctx.check((d[np.arange(len(lab)), lab] <= best + 1e-9).all(), "sample-in-wrong-region", lambda: f"{int((d[np.arange(len(lab)), lab] > best + 1e-9).sum())} of {len(lab)} samples are assigned to a region that is not theirs")
        ctx.check(len(L.region_obstacles) == n, "regions", f"{len(L.region_obstacles)} regions for {n} clusters")
        for x, l in zip(data.position, lab):
            ctx.check(L.region_obstacles[l].get_gamma(x.copy(), in_global_frame=True) >= 1 - 1e-9, "uncovered-sample", lambda: f"sample {x} lies outside of its region {l}")
        # the hierarchy: one path per region, all of them into the goal region
        succ = {i: list(L.get_successors(i)) for i in range(n)}
        pred = {i: list(L.get_predecessors(i)) for i in range(n)}
        ctx.check(sorted(L._graph.nodes) == list(range(n)), "hierarchy", f"regions {sorted(L._graph.nodes)} for {n}")
        roots = [i for i in range(n) if not succ[i]]
        ctx.check(len(roots) == 1 and all(len(s) <= 1 for s in succ.values()), "hierarchy", f"successors {succ}")
        ctx.check(all(i in pred[s] for i in succ for s in succ[i]) and all(i in succ[p] for i in pred for p in pred[i]), "hierarchy", f"successors {succ} against predecessors {pred}")
        mean = [float(np.mean(data.sequence_value[lab == i])) for i in range(n)]
        w["next"], w["level"] = {}, {}
        for i in range(n):
            j, seen = i, []
            while succ[j]:
                seen.append(j)
                ctx.check(mean[succ[j][0]] >= mean[j] - 1e-12, "hierarchy", f"region {j} is succeeded by an earlier one: {succ}")
                j = succ[j][0]
                ctx.check(j not in seen, "cycle", f"successors {succ}")
            w["next"][i], w["level"][i] = (succ[i] or [None])[0], len(seen)
            ctx.check(L._graph.nodes[i]["level"] == len(seen), "level", f"region {i} is {len(seen)} links away from the goal region, level {L._graph.nodes[i]['level']}")
            ctx.check(list(L.region_obstacles[i].successor_index) == succ[i], "region-successor", f"region {i}: {L.region_obstacles[i].successor_index} against {succ[i]}")
        ctx.check(mean[roots[0]] == max(mean), "goal-region", f"the goal region {roots[0]} is not the last one demonstrated")
        ctx.check(inside(w["goal"], roots[0]), "goal-region", lambda: f"the goal {w['goal']} is not in the goal region")
        v = ask(w["goal"])
        ctx.check(np.linalg.norm(v) < 1e-9, "goal-velocity", lambda: f"{v} at the goal")
        w["x"] = data.position[0].copy()
        for o in plan["ops"][:3]:
            if "x" in o:
                ctx.record(ask(np.array(o["x"])))
        ctx.record(n, lab.tolist(), C, L.region_radius_)

    def same_as_fresh(what):
        ref = build(w["spec"], dim)
        rng = np.random.default_rng(w["spec"]["data"])
        ok = ref.n_clusters == w["L"].n_clusters and np.array_equal(ref.kmeans.cluster_centers_, w["L"].kmeans.cluster_centers_) and np.array_equal(ref.kmeans.labels_, w["L"].kmeans.labels_)
        ctx.check(ok, "not-reproducible", f"{what}: same data and seed, other regions")
        for _ in range(6):
            x = w["data"].position[int(rng.integers(w["data"].n_samples))] + rng.normal(size=dim) * w["L"].region_radius_ * rng.choice([0, 0.3, 2])
            a, b = ask(x), np.asarray(ref.predict(x.copy()), dtype=float)
            ctx.check(np.array_equal(a, b), "not-reproducible", lambda: f"{what}: at {x} {a}, a fresh learner {b}")

    def draws(k):
        f = by.get(("foreign_draws", k))
        if f:
            ctx.fault("foreign_draws")
            np.random.random(f["n"])

    def one_step(dt, free):
        x = w["x"]
        i, was = label(x), inside(x)
        v = ask(x)
        y = x + v * dt
        ctx.sim_time += dt
        j, now = label(y), inside(y)
        if not was:
            ctx.probe("outside")
        elif free and dt <= 0.05:
            # the walls hold; the only way out is the passage to the successor
            ctx.check(now, "left-the-regions", lambda: f"from {x} in region {i} to {y} outside of all regions")
            if j != i:
                ctx.probe("passed-regions")
                d = np.linalg.norm(w["centers"] - y, axis=1)
                corner = w["next"][i] is not None and d[w["next"][i]] - d[j] < 2 * np.linalg.norm(y - x)
                # exactly on a border either side may count as the present region
                tie = abs(np.diff(np.sort(np.linalg.norm(w["centers"] - x, axis=1))[:2])[0]) < 1e-7
                ctx.check(corner or tie or w["next"][i] == j, "wrong-passage", lambda: f"from {x} in region {i} to {y} in region {j}, its successor is {w['next'][i]}")
        w["x"] = y

    def clock(seed, n):
        rng = np.random.RandomState(seed)
        for _ in range(n):
            r = rng.rand()
            if r < 0.05:
                ctx.fault("stall")
                yield float(rng.uniform(0.05, 0.3))
            elif r < 0.12:
                ctx.fault("burst")
                yield float(rng.uniform(1e-4, 2e-3))
            else:
                yield float(rng.uniform(0.01, 0.05))

    def special():
        C, L = w["centers"], w["L"]
        pts = [w["goal"]] + list(C) + [0.5 * (a + b) for i, a in enumerate(C) for b in C[:i]] + [0.5 * (c + w["goal"]) for c in C]
        pts += [L.region_obstacles[i].get_point_on_surface(w["data"].position[i].copy(), in_global_frame=True) for i in range(len(C))]
        return pts

    def event(o):
        op, k = o["op"], o["k"]
        counts[op] = min(2, counts.get(op, 0) + 1)
        draws(k)
        L = w["L"]
        if op == "release":
            w["x"] = w["data"].position[int(o["pick"] * w["data"].n_samples)].copy()
        elif op == "run":
            for dt in clock(o["seed"], o["n"]):
                one_step(dt, True)
        elif op == "push":
            ctx.fault("push")
            w["x"] = w["x"] + np.array(o["d"]) * o["size"] * L.region_radius_
        elif op == "onto":
            ctx.fault("onto_special_point")
            pts = special()
            w["x"] = pts[int(o["pick"] * len(pts))] + o["off"] * np.array(o["d"])
            ask(w["x"])
        elif op == "probe":
            x = np.array(o["x"]) * o["far"]
            a = ask(x)
            np.random.random(3)
            ctx.check(np.array_equal(a, ask(x)), "query-dependent", lambda: f"two answers at {x}")
            ctx.record(a)
        elif op == "normals":
            i = int(o["u"] * L.n_clusters)
            reg = L.region_obstacles[i]
            pts = special()
            for x in [np.array(o["x"]), reg.center_position.copy(), pts[int(o["u"] * len(pts))]]:
                q = x.copy()
                m = np.asarray(reg.get_normal_direction(q, in_global_frame=True), dtype=float)
                s = np.asarray(reg.get_point_on_surface(q, in_global_frame=True), dtype=float)
                g = reg.get_gamma(q, in_global_frame=True, ind_transparent=-1)
                ctx.check(np.array_equal(q, x), "argument-changed", "a region modified the position")
                ctx.check(m.shape == (dim,) and abs(np.linalg.norm(m) - 1) < 1e-6, "normal", lambda: f"region {i} at {x}: {m}")
                ctx.check(np.linalg.norm(s - w["centers"][i]) <= L.region_radius_ * (1 + 1e-9) and np.isfinite(s).all(), "surface", lambda: f"region {i}, surface point {s}")
                ctx.check(g >= 0 and not math.isnan(g), "gamma", lambda: f"region {i} at {x}: {g}")
                d = np.linalg.norm(w["centers"] - s, axis=1)
                ctx.check(d[i] <= d.min() + 1e-6, "surface", lambda: f"the surface point {s} of region {i} lies in another region")
                r = x - w["centers"][i]
                if np.linalg.norm(r) > 1e-9:
                    beyond = np.linalg.norm(r) - np.linalg.norm(s - w["centers"][i])
                    if abs(beyond) > 1e-6:
                        ctx.check((g < 1) == (beyond > 0), "gamma", lambda: f"region {i} at {x}: gamma {g}, {beyond} beyond its surface")
                        ctx.check(np.dot(m, r) < 1e-9, "normal", lambda: f"region {i} at {x}: the normal {m} points out")
        elif op == "other":
            ctx.probe("other_learner")
            x = w["x"].copy()
            a = ask(x)
            build(o["fit"], dim).predict(x.copy())
            ctx.check(np.array_equal(a, ask(x)), "shared-state", "another learner changed the motion")
        elif op == "refit":
            ctx.probe("refit")
            spec = dict(o["fit"], how="fit")
            cut(k, lambda: refit(L, spec, dim))
            refit(L, spec, dim)
            adopt(L, spec)
            same_as_fresh("learned again")
        ctx.state(dim, L.n_clusters, w["spec"]["how"], tuple(sorted(counts.items())), w["level"].get(label(w["x"])))

    def cut(k, fn):
        f = by.get(("interrupted_fit", k))
        if f:
            try:
                interrupted(fn, int(f["frac"] * f["lines"]))
            except InjectedFault:
                ctx.fault("interrupted_fit")

    if ("interrupted_fit", -1) in by and cfg["first"]["how"] == "fit":
        first = cfg["first"]
        L = KMeansMotionLearner(n_clusters=first["n"], radius_factor=first["rf"])
        cut(-1, lambda: refit(L, first, dim))
        refit(L, first, dim)
        adopt(L, first)
        same_as_fresh("first fit interrupted")
    else:
        adopt(build(cfg["first"], dim), cfg["first"])
    for o in plan["ops"]:
        sim.at(0.01 * o["k"], lambda o=o: event(o))
    sim.run()
    draws("end")

    # left alone: the goal within a bounded time
    seed = cfg["bg"]
    rng = np.random.RandomState(seed)
    x0 = w["x"].copy()
    t, limit = 0.0, 60.0 + 8 * np.linalg.norm(x0 - w["goal"])
    while np.linalg.norm(w["x"] - w["goal"]) > TOL:
        dt = float(rng.uniform(0.01, 0.05))
        one_step(dt, True)
        t += dt
        ctx.check(t < limit, "no-arrival", lambda: f"released at {x0}, after {t:.1f} s at {w['x']}, goal {w['goal']}")
    ctx.probe("arrived")
    for _ in range(20):
        one_step(float(rng.uniform(0.01, 0.05)), True)
    ctx.check(np.linalg.norm(w["x"] - w["goal"]) <= 2 * TOL, "left-the-goal", lambda: f"back at {w['x']}, goal {w['goal']}")
    ctx.record(w["x"], t)
    same_as_fresh("at the end")
