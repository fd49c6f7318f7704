"""C13: connected rooms form one reachable space through every edit history.

Map editors add, link, remove and replace rooms over a delayed and duplicated
command stream while localisation asks where the robot is and shifts the relative
reference points; shape queries fail half-way.  The reference model is a list of
rooms with parent links by identity, and fresh containers for relative references.
"""
import math

import numpy as np

import dynamic_obstacle_avoidance.obstacles as obsmod
from vartools.states import Pose
from nonlinear_avoidance.multiboundary_container import MultiBoundaryContainer

from ..core import InjectedFault, Sim

RUNS = {"quick": 4000, "thorough": 60000}
RULE = "One run is one map of rooms edited, linked, re-linked and queried over a delayed, duplicated and lossy command stream."
STATE_MEASURE = "distinct (forest shape, number of linked rooms that overlap, multiset of edit kinds so far capped at 2) tuples"
REAL = ["nonlinear_avoidance.multiboundary_container", "nonlinear_avoidance.rotation_container"]
STUB = ["vartools / dynamic_obstacle_avoidance (absent packages: stand-ins, including the base container and single room shapes)", "editors, localisation and their network"]
EXPECTED_PROBES = ["drop", "dup", "delay", "query_failure", "bad_index", "removed", "replaced", "relinked", "cycle", "passage", "free", "occupied", "reference-moved", "reset"]


def gen_room(rng, near=None):
    p = rng.vec(2, -4, 4)
    if near is not None:
        a = rng.uni(-math.pi, math.pi)
        d = rng.uni(0.3, 2.2)
        p = [near[0] + d * math.cos(a), near[1] + d * math.sin(a)]
    return {"p": p, "axes": [rng.uni(0.8, 4.0), rng.uni(0.8, 4.0)], "o": rng.uni(-3, 3), "kind": rng.choice(["radii", "axes", "radii"]),
            "solid": rng.chance(0.04), "near": near is not None}


def generate(rng, tier):
    cfg = {"auto": rng.chance(0.6)}
    ops, t = [], 0.0
    w = {"add": 3, "link": rng.uni(0.3, 2), "del": rng.uni(0.1, 1), "set": rng.uni(0, 1), "graph": 1, "ref": rng.uni(0.5, 2), "reset": rng.uni(0.1, 1), "where": 1}
    prev = None
    for k in range(rng.choice([5, 12, 30]) * (2 if tier == "thorough" else 1)):
        t = round(t + 0.01, 4)
        op = rng.choices(list(w), list(w.values()))[0]
        room = gen_room(rng, prev if rng.chance(0.7) else None)
        if op == "add":
            prev = room["p"]
        ops.append({"op": op, "t": t, "k": k, "room": room, "pick": rng.random(), "pick2": rng.random(), "neg": rng.chance(0.1),
                    "parent": rng.choice([None, -1, -1, -1, "some"]), "rel": rng.chance(0.75), "u": rng.uni(-1.0, 1.0), "a": rng.uni(-math.pi, math.pi),
                    "special": rng.choice([None, None, None, "centre", "surface", "main"])})
    faults = []
    kinds = [x for x in ["drop", "dup", "delay", "query", "index"] if rng.chance(0.5)]
    for o in ops:
        if "drop" in kinds and rng.chance(0.12):
            faults.append({"kind": "drop", "k": o["k"]})
        if "dup" in kinds and rng.chance(0.15):
            faults.append({"kind": "dup", "k": o["k"], "late": rng.choice([0.0, 0.025])})
        if "delay" in kinds and rng.chance(0.25):
            faults.append({"kind": "delay", "k": o["k"], "dt": rng.choice([0.015, 0.045])})
        if "query" in kinds and o["op"] in ("ref", "where") and rng.chance(0.4):
            faults.append({"kind": "query_failure", "k": o["k"], "nth": rng.randint(0, 6)})
        if "index" in kinds and o["op"] in ("del", "set", "link") and rng.chance(0.3):
            faults.append({"kind": "bad_index", "k": o["k"]})
    return {"config": cfg, "ops": ops, "faults": faults}


def make(r):
    cls = obsmod.Ellipse if r["kind"] == "radii" else obsmod.EllipseWithAxes
    f = 0.5 if r["kind"] == "radii" else 1.0
    return cls(axes_length=f * np.array(r["axes"]), pose=Pose(np.array(r["p"], dtype=float), r["o"]), is_boundary=not r["solid"])


def contains(r, x):
    """Is x inside the room, by the room's defining numbers alone."""
    c, s = math.cos(r["o"]), math.sin(r["o"])
    d = np.array(x) - np.array(r["p"])
    loc = np.array([c * d[0] + s * d[1], -s * d[0] + c * d[1]]) / (np.array(r["axes"]) / 2)
    return float(np.linalg.norm(loc))


class Room:
    def __init__(self, spec):
        self.spec, self.parent, self.obs = spec, None, make(spec)
        self.passage = "unset"  # unset / stale / fresh


def execute(ctx, plan):
    obsmod.QUERY_HOOK = None
    box = MultiBoundaryContainer()
    rooms = []
    counts = {}
    last = {"x": None}  # location the relative references were last computed for
    by = {(f["kind"], f["k"]): f for f in plan["faults"]}

    def point(o):
        if o["rel"] and rooms:
            r = rooms[int(o["pick"] * len(rooms))].spec
            if o["special"] == "centre":
                return np.array(r["p"], dtype=float)
            u = 1.0 if o["special"] == "surface" else abs(o["u"])
            a = 0.0 if o["special"] == "main" else o["a"]
            loc = u * np.array(r["axes"]) / 2 * np.array([math.cos(a), math.sin(a)])
            c, s = math.cos(r["o"]), math.sin(r["o"])
            return np.array(r["p"]) + np.array([c * loc[0] - s * loc[1], s * loc[0] + c * loc[1]])
        return np.array([6 * o["u"], 6 * math.sin(o["a"])])

    def references(rs, x, order=None):
        """What a container that only ever saw this location makes of it."""
        made = [make(r.spec) for r in rs]
        box = MultiBoundaryContainer()
        for k in order or range(len(made)):
            box.append(made[k])
        if x is not None:
            box.update_relative_reference_point(x)
        alone = made
        return [np.array(o.global_relative_reference_point) for o in alone], [o.get_gamma(x if x is not None else np.zeros(2), in_global_frame=True) for o in alone]

    def verify(what):
        counts[what] = min(2, counts.get(what, 0) + 1)
        n = len(rooms)
        ctx.check(len(box) == n and [id(o) for o in box] == [id(r.obs) for r in rooms], "members", f"after {what}: {len(box)} rooms, expected {n}")
        idx = {id(r): i for i, r in enumerate(rooms)}
        want = [-1 if r.parent is None else idx[id(r.parent)] for r in rooms]
        got = [int(box.get_parent(i)) for i in range(n)]
        ctx.check(all((g == w) or (g < 0 and w < 0) for g, w in zip(got, want)), "parents", lambda: f"after {what}: parents {got}, the edits made them {want}")
        for i in range(n):
            kids = sorted(int(c) for c in box.get_children(i))
            wk = [j for j in range(n) if want[j] == i]
            ctx.check(kids == wk, "children", lambda: f"after {what}: children of room {i} are {kids}, the edits made them {wk}")
            if rooms[i].passage == "fresh":
                p = box.get_parent_intersection(i)
                if want[i] < 0:
                    ctx.check(p is None, "root-passage", f"after {what}: root {i} has a passage {p}")
                elif overlap(rooms[i], rooms[want[i]]):
                    ctx.probe("passage")
                    ctx.check(p is not None and np.isfinite(p).all(), "passage", f"after {what}: no passage between room {i} and its parent")
                    a, b = contains(rooms[i].spec, p), contains(rooms[want[i]].spec, p)
                    ctx.check(a <= 1 + 1e-6 and b <= 1 + 1e-6, "passage", lambda: f"after {what}: the passage {p} of room {i} lies outside (relative distance {a:.4f} in the room, {b:.4f} in its parent)")
                    for on_child, who in ((True, i), (False, want[i])):
                        if np.linalg.norm(p - rooms[who].spec["p"]) > 1e-6:
                            q = box.get_convergence_boundary_point(it_child=i, project_on_child=on_child, it_parent=want[i])
                            ctx.check(abs(contains(rooms[who].spec, q) - 1) < 1e-6, "passage-projection", f"after {what}: {q} is not on the wall of room {who}")
            elif want[i] < 0 and rooms[i].passage == "unset":
                ctx.check(box.get_parent_intersection(i) is None, "root-passage", f"after {what}: room {i}")
        if n:
            roots = sorted(int(x) for x in box.get_root(return_multi_values=True))
            ctx.check(roots == [i for i in range(n) if want[i] < 0], "roots", f"after {what}: {roots}")
            ctx.check(int(box.get_root()) in roots, "roots", f"after {what}")
            levels = []
            for r in rooms:
                k = 0
                while r.parent is not None:
                    r, k = r.parent, k + 1
                levels.append(k)
            gl = [int(x) for x in box.get_level_numbers()]
            ctx.check(gl == levels, "levels", lambda: f"after {what}: levels {gl}, the links make them {levels}")
            solid = [r.spec["solid"] for r in rooms]
            ctx.check([bool(b) for b in box.get_boundary_ind()] == [not s for s in solid], "boundary-flags", f"after {what}")
            ctx.check([id(o) for o in box.get_boundary_list()] == [id(r.obs) for r in rooms if not r.spec["solid"]], "boundary-list", f"after {what}")
            ctx.record(what, want, levels)
        ctx.state(tuple(want), sum(1 for i in range(n) if want[i] >= 0 and overlap(rooms[i], rooms[want[i]])), tuple(sorted(counts.items())))

    def overlap(a, b):
        """Do the two ellipses clearly overlap (sampled; False when in doubt)?"""
        for r, s in ((a.spec, b.spec), (b.spec, a.spec)):
            for k in range(24):
                t = 2 * math.pi * k / 24
                for u in (0.0, 0.5, 0.9):
                    loc = u * np.array(r["axes"]) / 2 * np.array([math.cos(t), math.sin(t)])
                    c, q = math.cos(r["o"]), math.sin(r["o"])
                    if contains(s, np.array(r["p"]) + np.array([c * loc[0] - q * loc[1], q * loc[0] + c * loc[1]])) < 0.9:
                        return True
        return False

    def event(o, fault):
        if fault:
            ctx.fault(fault)
        n, op = len(rooms), o["op"]
        i, j = (int(o["pick"] * n), int(o["pick2"] * n)) if n else (0, 0)
        bad = ("bad_index", o["k"]) in by
        q = by.get(("query_failure", o["k"]))
        if q:
            count = [0]

            def hook(obstacle, name):
                count[0] += 1
                if count[0] > q["nth"]:
                    ctx.fault("query_failure")
                    raise InjectedFault("shape query failed")
        if op == "add":
            r = Room(o["room"])
            kw = {}
            if o["parent"] == -1:
                kw, r.parent = {"parent": -1}, (rooms[-1] if rooms else None)
            elif o["parent"] == "some" and n:
                kw, r.parent = {"parent": j}, rooms[j]
            box.append(r.obs, **kw)
            rooms.append(r)
        elif op == "link" and n:
            c, p = (n + 1, j) if bad and o["neg"] else (i, n + 2) if bad else (i, j)
            illegal = bad
            if not bad:
                a = rooms[p]
                while a is not None:
                    illegal = illegal or a is rooms[c]
                    a = a.parent
                if illegal:
                    ctx.probe("cycle")
            else:
                ctx.fault("bad_index")
            try:
                box.extend_graph(child=c, parent=p)
            except Exception:
                if not illegal:
                    raise
            else:
                if not illegal:
                    if rooms[c].parent is not None:
                        ctx.probe("relinked")
                    rooms[c].parent, rooms[c].passage = rooms[p], "stale"
        elif op in ("del", "set"):
            if bad or not n:
                if bad:
                    ctx.fault("bad_index")
                try:
                    if op == "del":
                        del box[n + 1]
                    else:
                        box[n + 1] = make(o["room"])
                except Exception:
                    pass
                else:
                    ctx.fail("bad-index-accepted", op)
            elif op == "del":
                gone = rooms.pop(i)
                del box[i - n if o["neg"] else i]
                for r in rooms:
                    if r.parent is gone:
                        r.parent, r.passage = None, "unset"
                ctx.probe("removed")
            else:
                rooms[i].spec, rooms[i].obs = o["room"], make(o["room"])
                box[i - n if o["neg"] else i] = rooms[i].obs
                for r in rooms:
                    if r is rooms[i] or r.parent is rooms[i]:
                        r.passage = "stale"
                ctx.probe("replaced")
        elif op == "graph":
            # only overlapping rooms have a passage
            if all(r.parent is None or overlap(r, r.parent) for r in rooms):
                box.update_intersection_graph()
                for r in rooms:
                    r.passage = "fresh"
        elif op == "where" and n:
            x = point(o)
            keep = x.copy()
            obsmod.QUERY_HOOK = hook if q else None
            try:
                free = box.is_collision_free(x)
            except InjectedFault:
                free = None
            finally:
                obsmod.QUERY_HOOK = None
            ctx.check(np.array_equal(x, keep), "argument-changed", "")
            if free is not None:
                d = [contains(r.spec, x) * (1 if not r.spec["solid"] else -1) for r in rooms]
                if all(abs(abs(v) - 1) > 1e-6 for v in d):
                    want = any((v < 1 if v >= 0 else v < -1) for v in d) if not any(r.spec["solid"] for r in rooms) else None
                    if want is not None:
                        ctx.probe("free" if want else "occupied")
                        ctx.check(bool(free) == want, "free-space", lambda: f"{x} is {'in' if want else 'out'}side the rooms (relative distances {np.round(d, 3)}), the map says free={free}")
        elif op == "ref" and n:
            x = point(o)
            keep = x.copy()
            obsmod.QUERY_HOOK = hook if q else None
            try:
                box.update_relative_reference_point(x)
            except InjectedFault:
                return
            finally:
                obsmod.QUERY_HOOK = None
            ctx.check(np.array_equal(x, keep), "argument-changed", "")
            ref, gam = references(rooms, x)
            turn = int(o["pick"] * n)
            order = [*range(turn, n), *range(turn)][::-1 if o["rel"] else 1]
            oref, ogam = references(rooms, x, order)
            for k in range(n):
                ctx.check(np.allclose(oref[k], ref[k], rtol=1e-9, atol=1e-12) and (np.isclose(ogam[k], gam[k], rtol=1e-9) or ogam[k] == gam[k]), "reference-order",
                          lambda: f"room {k}, location {x}: relative reference {ref[k]} ({gam[k]}), with the rooms registered in the order {order} {oref[k]} ({ogam[k]})")
            for k, r in enumerate(rooms):
                p = np.array(r.obs.global_relative_reference_point)
                g = r.obs.get_gamma(x, in_global_frame=True)
                ctx.check(np.isfinite(p).all(), "reference-not-finite", lambda: f"room {k}, location {x}: relative reference {p}")
                ctx.check(np.allclose(p, ref[k], rtol=1e-9, atol=1e-12), "reference-history", lambda: f"room {k}, location {x}: relative reference {p}, a fresh map gives {ref[k]}")
                ctx.check(np.isclose(g, gam[k], rtol=1e-9) or g == gam[k], "measure-history", lambda: f"room {k}, location {x}: measure {g}, a fresh map gives {gam[k]}")
                if not r.spec["solid"]:
                    inside = contains(r.spec, x) < 1 - 1e-9
                    if inside:
                        ctx.check(contains(r.spec, p) <= 1 + 1e-9, "reference-outside", lambda: f"room {k}, location {x}: relative reference {p} outside the room")
                        ctx.check(not g < 1 - 1e-9, "measure-flips", lambda: f"room {k}: the robot inside at {x} gets measure {g}")
                        # between the fixed reference point and the robot
                        base = np.array(r.obs.global_reference_point)
                        ctx.check(abs(np.linalg.norm(p - base) + np.linalg.norm(p - x) - np.linalg.norm(x - base)) < 1e-6, "reference-off-line", f"room {k}")
                        if np.linalg.norm(p - base) > 1e-3:
                            ctx.probe("reference-moved")
                    elif contains(r.spec, x) > 1 + 1e-9:
                        ctx.check(np.allclose(p, r.obs.global_reference_point, atol=1e-12), "reference-left-behind", lambda: f"room {k} keeps a relative reference though the robot is outside")
                ctx.record(p, g)
        elif op == "reset":
            box.reset_relative_references()
            ctx.probe("reset")
            for k, r in enumerate(rooms):
                ctx.check(np.allclose(r.obs.global_relative_reference_point, r.obs.global_reference_point, atol=1e-12), "reset", f"room {k} keeps a relative reference after the reset")
        verify(op)

    sim = Sim(ctx)
    for o in plan["ops"]:
        if ("drop", o["k"]) in by:
            ctx.fault("drop")
            continue
        d, u = by.get(("delay", o["k"])), by.get(("dup", o["k"]))
        sim.at(o["t"] + (d["dt"] if d else 0.0), lambda o=o, d=d: event(o, "delay" if d else None))
        if u:
            sim.at(o["t"] + u["late"], lambda o=o: event(o, "dup"))
    sim.run()
