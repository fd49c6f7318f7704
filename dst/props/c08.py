"""C08: hierarchies stay consistent under every edit history.

Two or more editors publish hierarchy edits over a lossy, reordering network to
one registry; edits that arrive too early, twice or with unknown names have to
be rejected without a trace.  Shape queries inside an edit can fail half-way.
The reference model is a parent map.
"""
import math

import numpy as np

import dynamic_obstacle_avoidance.obstacles as obsmod
from scipy.spatial.transform import Rotation
from vartools.states import Pose
from nonlinear_avoidance.graph_handler import BasicGraphHandler, GraphElement, GraphHandler
from nonlinear_avoidance.multi_body_human import MultiBodyObstacle
from nonlinear_avoidance.multi_ellipse_obstacle import MultiEllipseObstacle
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.arch_obstacle import BlockArchObstacle

from ..core import InjectedFault, Sim

RUNS = {"quick": 10000, "thorough": 120000}
RULE = "One run is one registry (value graph, loose elements, element graph, articulated body, compound obstacle, block arch or ellipse compound) edited by a delayed, duplicated, reordered and lossy edit stream."
STATE_MEASURE = "distinct (registry kind, canonical shape of the forest) pairs"
REAL = ["nonlinear_avoidance.graph_handler", "nonlinear_avoidance.multi_body_human registry", "nonlinear_avoidance.multi_obstacle registry", "nonlinear_avoidance.arch_obstacle registry", "nonlinear_avoidance.multi_ellipse_obstacle"]
STUB = ["vartools / dynamic_obstacle_avoidance (absent packages: stand-ins)", "editors and their network"]
EXPECTED_PROBES = ["drop", "dup", "reorder", "delay", "rejected", "moved", "expelled", "deleted", "query_failure", "cycle-refused"]

KINDS = ["values", "values", "elements", "elements", "handler", "body", "compound", "block", "ellipses"]
VERBS = {
    "values": ["root", "add", "add", "add", "move", "move", "delete"],
    "elements": ["new", "new", "child", "parent", "parent", "child", "expel"],
    "handler": ["add", "add", "add", "delete"],
    "body": ["add"],
    "compound": ["add"],
    "block": ["add"],
    "ellipses": ["new", "new", "root", "parent", "parent"],
}


def generate(rng, tier):
    kind = rng.choice(KINDS)
    pool = rng.randint(2, 9)  # names in play; small pools collide often
    values = rng.choice(["int", "str", "tuple", "mixed"])
    ops, t = [], 0.0
    for k in range(rng.choice([3, 6, 12, 30]) * (2 if tier == "thorough" else 1)):
        t = round(t + 0.01, 4)
        verb = rng.choice(VERBS[kind])
        o = {"op": verb, "t": t, "k": k, "a": rng.randrange(pool), "b": rng.randrange(pool),
             "pick": rng.random(), "x": rng.vec(3, -0.4, 0.4), "far": rng.chance(0.1), "u": rng.chance(0.4)}
        if rng.chance(0.6):  # a fresh name
            o["a"] = k
        ops.append(o)
    faults = []
    kinds = [x for x in ["drop", "dup", "delay", "unknown", "query"] if rng.chance(0.5)]
    for o in ops:
        if "drop" in kinds and rng.chance(0.15):
            faults.append({"kind": "drop", "k": o["k"]})
        if "dup" in kinds and rng.chance(0.25):
            faults.append({"kind": "dup", "k": o["k"], "late": rng.choice([0.0, 0.015, 0.055])})
        if "delay" in kinds and rng.chance(0.3):
            faults.append({"kind": "delay", "k": o["k"], "dt": rng.choice([0.015, 0.045, 0.1])})
        if "unknown" in kinds and rng.chance(0.2):
            faults.append({"kind": "unknown", "k": o["k"]})
        if "query" in kinds and kind in ("compound", "ellipses") and rng.chance(0.3):
            faults.append({"kind": "query_failure", "k": o["k"], "nth": rng.randint(0, 3)})
    return {"config": {"kind": kind, "values": values, "pool": pool, "array": rng.chance(0.4), "same": rng.chance(0.3),
                       "initial": rng.randint(0, 4), "ext": rng.chance(0.3)},
            "ops": ops, "faults": faults}


def canonical(parent):
    kids = {}
    for c, p in parent.items():
        kids.setdefault(p, []).append(c)

    def shape(n):
        return "(" + "".join(sorted(shape(c) for c in kids.get(n, []))) + ")"
    return "".join(sorted(shape(r) for r in kids.get(None, [])))


def below(parent, node, ancestor):
    """Is `node` at or below `ancestor`?"""
    while node is not None:
        if node == ancestor:
            return True
        node = parent.get(node)
    return False


class Base:
    """One registry kind: `act` performs an edit on the real registry, `legal`
    says what the model makes of it (a new parent map or None: refuse)."""

    def __init__(self, ctx, cfg):
        self.ctx, self.cfg, self.parent = ctx, cfg, {}

    def children(self, n):
        return [c for c, p in self.parent.items() if p == n]

    def compare(self, what, got_parent, got_children):
        ctx = self.ctx
        for n, p in self.parent.items():
            g = got_parent(n)
            ctx.check(g == p and (g is None) == (p is None), "parent", lambda: f"after {what}: parent of {n!r} is {g!r}, the edits made it {p!r}")
            if got_children is not None:
                c = got_children(n)
                w = self.children(n)
                ctx.check(sorted(map(repr, c)) == sorted(map(repr, w)), "children", lambda: f"after {what}: children of {n!r} are {c!r}, the edits made them {w!r}")
            ctx.record(n, p)


class Values(Base):
    def __init__(self, ctx, cfg):
        super().__init__(ctx, cfg)
        self.given = [self.name(10_000 + i) for i in range(cfg["initial"])]
        self.keep = list(self.given)
        self.order = list(self.given)
        if cfg["initial"] and cfg["values"] == "int" and cfg["ext"]:
            self.g = GraphHandler(n_nodes=cfg["initial"])
            self.order = list(range(cfg["initial"]))
        else:
            self.g = GraphHandler(node_values=self.given) if cfg["initial"] else GraphHandler()
        self.parent = {v: None for v in self.order}

    def name(self, i):
        v = self.cfg["values"]
        if v == "mixed":
            v = ["int", "str", "tuple"][i % 3]
        return {"int": i + 50, "str": f"n{i}", "tuple": ("n", i)}[v]

    def step(self, o, unknown):
        v = self.name(o["a"])
        names = list(self.parent)
        have = names[int(o["pick"] * len(names))] if names else self.name(77)
        if o["op"] == "root":
            legal = v not in self.parent
            act = lambda: self.g.set_root(v)
            new = (v, None)
        elif o["op"] == "add":
            p = self.name(5000) if unknown else have
            legal = v not in self.parent and p in self.parent
            act = lambda: self.g.add_element_with_parent(v, p)
            new = (v, p)
        elif o["op"] == "move":
            v = names[o["a"] % len(names)] if names and not (unknown and o["b"] % 2) else self.name(6000)
            p = self.name(5000) if unknown and not o["b"] % 2 else have
            legal = v in self.parent and p in self.parent
            if legal and below(self.parent, p, v):
                legal = False
                self.ctx.probe("cycle-refused")
            act = lambda: self.g.set_parent_of_element(v, p)
            new = (v, p)
        else:
            try:
                self.g.delete_element(self.name(7000) if unknown else have)
            except Exception:
                self.ctx.probe("rejected")
                return
            if have in self.parent and not unknown:
                raise StopRun()  # deletion is supported after all: not modelled
            return
        self.attempt(o["op"], act, legal)
        if legal:
            if v in self.parent:
                self.ctx.probe("moved")
            else:
                self.order.append(v)
            self.parent[v] = new[1]

    def attempt(self, what, act, legal):
        if legal:
            act()
        else:
            try:
                act()
            except Exception:
                self.ctx.probe("rejected")

    def verify(self, what):
        g, ctx = self.g, self.ctx
        ctx.check(g.n_nodes == len(self.parent), "count", lambda: f"after {what}: {g.n_nodes} nodes, {len(self.parent)} were accepted")
        self.compare(what, g.get_parent, g.get_children)
        roots = [n for n, p in self.parent.items() if p is None]
        idx = sorted(self.order.index(r) for r in roots)
        ctx.check(sorted(g.get_root_indices()) == idx, "root-indices", lambda: f"after {what}: roots at {g.get_root_indices()}, expected {idx}")
        ctx.check(sorted(map(repr, g.roots)) == sorted(map(repr, roots)), "roots", lambda: f"after {what}: {g.roots!r}, expected {roots!r}")
        walk = list(g.get_nodes_hirarchy_descending())
        ctx.check(sorted(map(repr, walk)) == sorted(map(repr, self.parent)), "walk-complete", lambda: f"after {what}: the walk visits {walk!r}")
        for i, n in enumerate(walk):
            p = self.parent[n]
            ctx.check(p is None or p in walk[:i], "walk-order", lambda: f"after {what}: {n!r} is visited before its parent {p!r}: {walk!r}")
        ctx.check(self.given == self.keep, "caller-list", lambda: f"the caller's list of initial values became {self.given!r}")


class StopRun(Exception):
    pass


class Elements(Base):
    def __init__(self, ctx, cfg):
        super().__init__(ctx, cfg)
        self.el = {}

    def value(self, i):
        if self.cfg["same"]:
            i = 0
        return np.arange(3.0) + i if self.cfg["array"] else i

    def verify(self, what):
        ident = {id(e): n for n, e in self.el.items()}
        self.compare(what, lambda n: None if self.el[n].parent is None else ident.get(id(self.el[n].parent), "?"),
                     lambda n: [ident.get(id(c), "?") for c in self.el[n].children])
        for n, e in self.el.items():
            self.ctx.check(e.number_of_children == len(self.children(n)), "number-of-children", f"after {what}: element {n} counts {e.number_of_children}")

    def step(self, o, unknown):
        names = list(self.el)
        if o["op"] == "new" or len(names) < 2:
            n = len(self.el)
            self.el[n] = GraphElement(self.value(n))
            self.parent[n] = None
            return
        a, b = names[o["a"] % len(names)], names[int(o["pick"] * len(names))]
        if o["op"] == "expel":
            self.el[a].expel()
            self.ctx.probe("expelled")
            for c in self.children(a):
                self.parent[c] = None
            self.parent[a] = None
            return
        cyc = below(self.parent, b, a)
        try:
            if o["op"] == "child":
                self.el[b].add_child(self.el[a])
            else:
                self.el[a].set_parent(self.el[b])
        except Exception:
            if not cyc:
                raise
            self.ctx.probe("cycle-refused")
            self.ctx.probe("rejected")
            return
        if cyc:
            return  # unchanged or refused; compared below
        if self.parent[a] is not None:
            self.ctx.probe("moved")
        self.parent[a] = b


class Handler(Elements):
    """Element graph: elements are created by the handler and found by walking
    the children lists from the root."""

    def __init__(self, ctx, cfg):
        super().__init__(ctx, cfg)
        self.h = BasicGraphHandler()
        self.h.root = self.value(0)
        self.el[0] = self.h.root
        self.parent[0] = None
        self.gone = []

    def step(self, o, unknown):
        names = list(self.el)
        if not names:
            self.h.root = self.value(0)
            self.el[o["k"] + 1000] = self.h.root
            self.parent[o["k"] + 1000] = None
            return
        b = names[int(o["pick"] * len(names))]
        foreign = None
        if unknown:
            if self.gone and o["u"]:
                foreign = self.gone[-1]
            else:
                foreign = GraphElement(self.value(3))
                foreign.add_child(GraphElement(self.value(4)))
        if o["op"] == "add":
            n = o["k"] + 1
            target = foreign if foreign is not None else self.el[b]
            before = list(target.children)
            try:
                self.h.add_element_with_parent(self.value(n), target)
            except Exception:
                if foreign is None:
                    raise
                self.ctx.probe("rejected")
                self.ctx.check([id(x) for x in target.children] == [id(x) for x in before], "rejected-edit", "a refused addition changed the foreign parent")
                return
            if foreign is not None:
                return
            new = [c for c in target.children if not any(c is x for x in before)]
            if self.ctx.check(len(new) == 1, "children", f"a new element does not appear among the children of its parent ({len(new)} new)"):
                self.ctx.check(np.array_equal(new[0].value, self.value(n)), "value", "")
                if n in self.el:
                    n = n + 10_000
                    while n in self.el:
                        n += 1
                self.el[n] = new[0]
                self.parent[n] = b
            return
        if foreign is not None:
            kids = list(foreign.children)
            try:
                self.h.delete_element(foreign)
            except Exception:
                self.ctx.probe("rejected")
            self.ctx.check([id(x) for x in foreign.children] == [id(x) for x in kids] and all(x.parent is foreign for x in kids), "rejected-edit", "a refused deletion took a foreign element apart")
            return
        e = self.el.pop(b)
        self.h.delete_element(e)
        self.ctx.probe("deleted")
        for c in self.children(b):
            self.parent[c] = None
        del self.parent[b]
        self.ctx.check(e.parent is None and not e.children, "expelled-state", "a deleted element still names relatives")
        self.gone.append(e)

    def finish(self):
        for n in list(self.el):
            self.h.delete_element(self.el[n])  # each lives in the handler ...
        for e in self.el.values():
            try:
                self.h.delete_element(e)  # ... exactly once
            except Exception:
                continue
            self.ctx.fail("registered-twice", "an element could be deleted twice")


class Body(Base):
    def __init__(self, ctx, cfg):
        super().__init__(ctx, cfg)
        self.g = MultiBodyObstacle()
        self.obs = {}
        self.uid = {}
        o = self.make()
        self.g.set_root(o, name="r", update_id=100 if cfg["ext"] else None)
        self.obs["r"], self.uid["r"] = o, 100 if cfg["ext"] else None
        self.parent["r"] = None

    def make(self):
        return obsmod.EllipseWithAxes(axes_length=np.array([0.4, 0.3, 0.6]), center_position=np.zeros(3), orientation=Rotation.from_quat([0, 0, 0, 1.0]))

    def step(self, o, unknown):
        names = list(self.parent)
        p = "nobody" if unknown else names[int(o["pick"] * len(names))]
        n = f"b{o['k']}"
        if n in self.parent:
            return  # names are unique by construction of the stream
        obs = self.make()
        try:
            self.g.add_component(obs, name=n, reference_position=o["x"], parent_name=p, parent_reference_position=[-x for x in o["x"]], update_id=200 + o["k"] if o["u"] else None)
        except Exception:
            if not unknown:
                raise
            self.ctx.probe("rejected")
            return
        if self.ctx.check(not unknown, "bad-edit-accepted", "a component below an unknown parent"):
            self.parent[n], self.obs[n], self.uid[n] = p, obs, 200 + o["k"] if o["u"] else None

    def verify(self, what):
        g, ctx = self.g, self.ctx
        ids = {n: g.get_obstacle_id_from_name(n) for n in self.parent}
        back = {i: n for n, i in ids.items()}
        ctx.check(len(back) == len(self.parent) == g.n_components, "count", f"after {what}: {g.n_components} components, {len(self.parent)} were accepted")
        self.compare(what, lambda n: back.get(g.get_parent_idx(ids[n])), None)
        for n, i in ids.items():
            ctx.check(g.get_component(i) is self.obs[n] and g[i] is self.obs[n], "wrong-component", f"after {what}: {n}")
            ctx.check(g.get_name(i) == n, "name", f"after {what}: {n}")
            ctx.check(g.get_update_id(i) == self.uid[n], "update-id", f"after {what}: {n}")
            if self.uid[n] is not None:
                ctx.check(g.get_obstacle_id_from_optitrackid(self.uid[n]) == i, "update-id", f"after {what}: {n}")
        ctx.check(g.get_root() is self.obs["r"], "root", "")
        g.update()  # the walk from the root reaches every part: nothing aborts, all poses finite
        for n, o in self.obs.items():
            ctx.check(np.isfinite(o.pose.position).all(), "walk", f"after {what}: {n}")


class Compound(Base):
    def __init__(self, ctx, cfg):
        super().__init__(ctx, cfg)
        self.block = cfg["kind"] == "block"
        pose = Pose(np.array([1.0, -2.0]), 0.7)
        if self.block:
            self.g = BlockArchObstacle(0.4, np.array([3.0, 4.0]), pose)
            self.parent = {0: None, 1: 0, 2: 0}
        else:
            self.g = MultiObstacle(pose)
            self.g.set_root(obsmod.EllipseWithAxes(axes_length=np.array([1.0, 2.0]), pose=Pose(np.zeros(2), 0.0)))
            self.parent = {0: None}
        self.obs = {i: self.g.get_component(i) for i in self.parent}

    def step(self, o, unknown):
        names = list(self.parent)
        p = 40 + o["b"] if unknown else names[int(o["pick"] * len(names))]
        auto = o["u"] and not self.block
        far = o["far"] and auto
        # every placement contains the group centre, so shapes overlap unless far
        place = Pose(np.array(o["x"][:2]) + (30.0 * (1 + len(names)) if far else 0.0), o["pick"])
        keep = (np.array(place.position), place.orientation)
        obs = obsmod.EllipseWithAxes(axes_length=np.array([1.5, 1.2]), pose=place)
        near = auto and not unknown and np.linalg.norm(self.local.get(p, np.zeros(2)) - place.position) < 1.0 if hasattr(self, "local") else False
        kw = {} if auto else {"reference_position": o["x"][:2]}
        must_work = not unknown and not auto
        try:
            self.g.add_component(obs, parent_ind=p, **kw)
        except InjectedFault:
            self.ctx.probe("rejected")
            ok = False
        except Exception:
            if must_work or near:
                raise
            self.ctx.probe("rejected")
            ok = False
        else:
            ok = True
        if not ok:
            self.ctx.check(np.allclose(obs.pose.position, keep[0]) and abs(obs.pose.orientation - keep[1]) < 1e-12, "rejected-edit", "a refused component was moved to the group frame")
            return
        if unknown:
            self.ctx.fail("bad-edit-accepted", "a component below an unknown parent")
        n = len(names)
        self.parent[n], self.obs[n] = p, obs
        if not hasattr(self, "local"):
            self.local = {}
        self.local[n] = keep[0]

    def verify(self, what):
        g, ctx = self.g, self.ctx
        n = len(self.parent)
        ctx.check(len(g) == n and g.n_components == n, "count", f"after {what}: {g.n_components} components, {n} were accepted")
        self.compare(what, g.get_parent_idx, None)
        for i in self.parent:
            ctx.check(g.get_component(i) is self.obs[i] and g[i] is self.obs[i], "wrong-component", f"after {what}: {i}")
        ctx.check([id(x) for x in g] == [id(self.obs[i]) for i in range(n)], "iteration", f"after {what}")
        ctx.check(g.get_root() is self.obs[0] and g.root_idx == 0, "root", "")


class Ellipses(Base):
    """`None` in the model means: registered but not linked; "root" marks the root."""

    def __init__(self, ctx, cfg):
        super().__init__(ctx, cfg)
        self.g = MultiEllipseObstacle()
        self.obs = []
        self.root = None
        self.link = {}

    def step(self, o, unknown):
        n = len(self.obs)
        if o["op"] == "new" or not n:
            obs = obsmod.EllipseWithAxes(axes_length=np.array([1.5, 1.0 + o["pick"]]), center_position=np.array(o["x"][:2]) + (40.0 * (n + 1) if o["far"] else 0.0), orientation=o["pick"])
            self.g.append(obs)
            self.obs.append(obs)
            self.link[n] = None
            return
        a = n + 3 if unknown and o["u"] else o["a"] % n
        if o["op"] == "root":
            legal = a < n and self.root is None and self.link[a] is None
            try:
                self.g.set_root(a)
            except Exception:
                if legal:
                    raise
                self.ctx.probe("rejected")
                return
            if legal:
                self.root = a
            return
        b = n + 5 if unknown and not o["u"] else int(o["pick"] * n)
        legal = a < n and b < n and self.link[a] is None and a != self.root
        if legal and below(self.link, b, a):
            legal = False
            self.ctx.probe("cycle-refused")
        near = legal and np.linalg.norm(self.obs[a].center_position - self.obs[b].center_position) < 5
        ref = self.obs[a].get_reference_point(in_global_frame=True).copy() if a < n else None
        try:
            self.g.set_parent(a, b)
        except Exception as e:
            if near and not isinstance(e, InjectedFault):
                raise
            self.ctx.probe("rejected")
            if ref is not None:
                self.ctx.check(np.array_equal(ref, self.obs[a].get_reference_point(in_global_frame=True)), "rejected-edit", "a refused link moved the joint")
            return
        if not legal:
            return
        self.ctx.check(near, "bad-edit-accepted", "two components that do not meet were linked")
        self.link[a] = b
        x = self.obs[a].get_reference_point(in_global_frame=True)
        for j in (a, b):
            gam = self.obs[j].get_gamma(x, in_global_frame=True)
            self.ctx.check(gam <= 1 + 1e-6, "joint-outside", f"joint of {a} and {b} lies outside component {j} ({gam:.4f})")

    def verify(self, what):
        g, ctx = self.g, self.ctx
        ctx.check(g.n_components == len(self.obs), "count", f"after {what}")
        ctx.check(g.root_idx == self.root, "root", lambda: f"after {what}: root is {g.root_idx}, expected {self.root}")
        self.parent = self.link
        # the root is marked by no parent (None or a negative index)
        none = lambda p: None if p is None or p < 0 else p
        self.compare(what, lambda n: none(g.get_parent_idx(n)), None)
        for i, o in enumerate(self.obs):
            ctx.check(g.get_component(i) is o, "wrong-component", f"after {what}: {i}")
        if self.obs:
            x = np.array([0.9, 0.4])
            want = min(o.get_gamma(x, in_global_frame=True) for o in self.obs)
            ctx.check(g.get_gamma(x) == want and g.is_inside(x) == (want <= 1), "least-distance", "")


CLS = {"values": Values, "elements": Elements, "handler": Handler, "body": Body, "compound": Compound, "block": Compound, "ellipses": Ellipses}


def execute(ctx, plan):
    obsmod.QUERY_HOOK = None
    cfg = plan["config"]
    reg = CLS[cfg["kind"]](ctx, cfg)
    by = {(f["kind"], f["k"]): f for f in plan["faults"]}
    sim = Sim(ctx)
    seen = [-1]

    def event(o, fault):
        if fault:
            ctx.fault(fault)
        if o["k"] < seen[0]:
            ctx.fault("reorder")
        seen[0] = max(seen[0], o["k"])
        unknown = ("unknown", o["k"]) in by
        if unknown:
            ctx.fault("unknown_name")
        q = by.get(("query_failure", o["k"]))
        if q:
            count = [0]

            def hook(obstacle, name):
                count[0] += 1
                if count[0] > q["nth"]:
                    ctx.fault("query_failure")
                    raise InjectedFault("shape query failed")
            obsmod.QUERY_HOOK = hook
        try:
            reg.step(o, unknown)
        except InjectedFault:
            pass
        finally:
            obsmod.QUERY_HOOK = None
        reg.verify(o["op"])
        ctx.record(o["op"], o["k"])
        ctx.state(cfg["kind"], canonical(reg.parent))

    for o in plan["ops"]:
        if ("drop", o["k"]) in by:
            ctx.fault("drop")
            continue
        d, u = by.get(("delay", o["k"])), by.get(("dup", o["k"]))
        sim.at(o["t"] + (d["dt"] if d else 0.0), lambda o=o, d=d: event(o, "delay" if d else None))
        if u:
            sim.at(o["t"] + u["late"], lambda o=o: event(o, "dup"))
    try:
        reg.verify("start")
        sim.run()
        if hasattr(reg, "finish"):
            reg.finish()
    except StopRun:
        ctx.probe("deletion-supported")
