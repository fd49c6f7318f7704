"""C14: averaging directions is independent of history and of registration order.

One direction tree is shared by planners that register branches over a lossy,
reordering network and by callers that ask for weighted averages.  Edits that
arrive too early, twice, too deep or malformed are rejected; queries fail on
bad arguments, on weights that cannot be read, or are interrupted at an
arbitrary line of the evaluation.  The reference model is the plain tree with
an independent computation of the average.
"""
import math
import sys

import numpy as np
from scipy.spatial.transform import Rotation

from nonlinear_avoidance.vector_rotation import VectorRotationSequence, VectorRotationTree, VectorRotationXd

from ..core import REPO, InjectedFault, Sim

RUNS = {"quick": 6000, "thorough": 70000}
RULE = "One run is one direction tree (2-D or 3-D) grown by a delayed, duplicated, reordered and lossy edit stream and queried with random weights; every answer is compared with an independent reference computation and, at times, with a freshly built tree."
STATE_MEASURE = "distinct (dimension, depth, canonical shape of the tree, number of weighted entries) tuples at a query"
REAL = ["nonlinear_avoidance.vector_rotation"]
STUB = ["vartools.linalg (absent package: stand-in)", "planners, callers and their network"]
EXPECTED_PROBES = ["drop", "dup", "reorder", "delay", "rejected", "rejected-sequence", "too-deep", "bad-direction", "unknown-id", "bad-length", "weights-failed", "interrupted", "turned", "fresh-tree", "one-entry", "all-root", "opposite", "re-directed", "sequence", "rotate", "chain", "built-forwards", "built-backwards", "chain-turned"]

EPS_OPPOSITE = 1e-5


class FailingWeights:
    """A weight list whose n-th element access fails (a remote value)."""

    def __init__(self, values, nth):
        self.values, self.left = values, nth

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        v = self.values[i]
        self.left -= 1
        if self.left < 0:
            raise InjectedFault("weight not available")
        return v


def interrupted(fn, nth):
    """Runs `fn`, raising InjectedFault at the nth line executed in /repo code."""
    left = [nth]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] < 0:
                raise InjectedFault("interrupted")
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(REPO):
            return local
        return None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return fn()
    finally:
        sys.settrace(old)


def gen_direction(rng, dim, known):
    """A direction, often in a special relation to one already used."""
    if known and rng.chance(0.4):
        v = list(rng.choice(known))
        r = rng.random()
        if r < 0.35:
            return v  # parallel
        if r < 0.5:
            return [-x for x in v]  # opposite
        e = rng.choice([1e-3, 1e-6, 1e-9, 1e-12])
        s = rng.choice([1.0, 1.0, -1.0])
        return [s * x + e * y for x, y in zip(v, rng.vec(dim, -1, 1))]
    if rng.chance(0.2):
        v = [0.0] * dim
        v[rng.randrange(dim)] = rng.choice([1.0, -1.0])
        return v
    return rng.direction(dim)


def generate(rng, tier):
    dim = rng.choice([2, 2, 3, 3, 4])
    ids = rng.choice(["int", "tuple", "str", "mixed"])
    known = []

    def direction():
        d = gen_direction(rng, dim, known)
        known.append(d)
        return d
    cfg = {"dim": dim, "ids": ids, "root": direction(), "scale": rng.choice([1.0, 3.0, 0.2]), "max_level": rng.choice([None, None, 3, 5, 8]),
           "start": rng.choice(["root", "root", "orientation", "sequence"]), "seq": [direction() for _ in range(rng.randint(1, 4))]}
    w = {"node": rng.uni(1, 3), "orientation": rng.uni(0, 1), "sequence": rng.uni(0, 1.5), "turn": rng.uni(0, 0.8), "query": rng.uni(1, 4), "chain": rng.uni(0, 1)}
    names = list(w)
    deep = rng.random()
    ops, t = [], 0.0
    for k in range(rng.choice([5, 10, 20, 40]) * (2 if tier == "thorough" else 1)):
        t = round(t + 0.01, 4)
        what = rng.choices(names, [w[x] for x in names])[0]
        o = {"op": what, "t": t, "k": k}
        if what in ("node", "orientation", "turn"):
            o.update(id=k + 1, direction=direction(), scale=rng.choice([1.0, 1.0, 2.5, 0.01]))
        if what == "sequence":
            o.update(id=k + 1, vectors=[direction() for _ in range(rng.randint(1, 4))], common=rng.chance(0.7))
        if what == "chain":
            o.update(vectors=[direction() for _ in range(rng.randint(2, 6))], w=[rng.choice([0.0, rng.random(), rng.random()]) for _ in range(6)], scale=rng.choice([1.0, 2.5]),
                     style=rng.choice(["mix", "mix", "one", "end"]), pick=rng.random(), turn=rng.direction(dim), turn2=rng.direction(dim), part=rng.choice([1.0, rng.random()]), nth=int(rng.choice([5, 30, 200]) * rng.random()))
        elif what != "query":
            # parent by rank among what was sent; the newest one for deep trees
            o["pick"] = 1.0 if rng.chance(deep) else rng.random()
            o["clash"] = rng.chance(0.05)
        else:
            o.update(mask=rng.random(), style=rng.choice(["mix", "mix", "mix", "one", "root", "few", "tiny"]), w=[rng.random() for _ in range(12)],
                     pick=rng.random(), form=rng.choice(["list", "array", "tuple"]), fresh=rng.chance(0.3), order=rng.randrange(1 << 30),
                     turned=rng.chance(0.2), quat=rng.direction(dim * dim), rotate=rng.chance(0.3), vec=rng.vec(dim, -2, 2))
        ops.append(o)
    faults = []
    on = [x for x in ["drop", "dup", "delay", "bad"] if rng.chance(0.5)]
    onq = [x for x in ["unknown-id", "bad-length", "weights", "interrupt"] if rng.chance(0.5)]
    for o in ops:
        k = o["k"]
        if o["op"] == "chain":
            continue
        if o["op"] == "query":
            for kind in onq:
                if rng.chance(0.25):
                    faults.append({"kind": kind, "k": k, "nth": int(rng.choice([1, 5, 30, 200, 1000]) * rng.random())})
            continue
        if "drop" in on and rng.chance(0.12):
            faults.append({"kind": "drop", "k": k})
        if "dup" in on and rng.chance(0.2):
            faults.append({"kind": "dup", "k": k, "late": rng.choice([0.0, 0.025, 0.1])})
        if "delay" in on and rng.chance(0.25):
            faults.append({"kind": "delay", "k": k, "dt": rng.choice([0.015, 0.035, 0.1])})
        if "bad" in on and rng.chance(0.12):
            faults.append({"kind": "bad", "k": k, "how": rng.choice(["zero", "nan", "unknown", "no-parent"])})
    return {"config": cfg, "ops": ops, "faults": faults}


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / np.linalg.norm(v)


def log_map(a, b):
    """Angle and unit tangent at a that lead from a to b."""
    c = float(np.clip(a @ b, -1, 1))
    perp = b - a * (a @ b)
    s = float(np.linalg.norm(perp))
    ang = math.atan2(s, c)
    if s < 1e-300:
        return ang, np.zeros_like(a)
    p = perp / s
    p = p - a * (a @ p)
    n = np.linalg.norm(p)
    return ang, (p / n if n > 0 else p)


def plane_rotation(a, p, ang):
    """Matrix turning by ang in the plane of the orthonormal a, p."""
    return np.eye(len(a)) + (math.cos(ang) - 1) * (np.outer(a, a) + np.outer(p, p)) + math.sin(ang) * (np.outer(p, a) - np.outer(a, p))


class Node:
    def __init__(self, key, direction, parent):
        self.key, self.dir, self.parent, self.kids = key, direction, parent, []
        self.level = 0 if parent is None else parent.level + 1
        self.arg = None  # exactly what the tree was given, where that is known
        if parent is not None:
            parent.kids.append(self)


class Model:
    def __init__(self, root_key, direction):
        self.root = Node(root_key, unit(direction), None)
        self.named = {root_key: self.root}

    def add(self, key, direction, parent, named=True):
        n = Node(key, unit(direction), parent)
        if named:
            self.named[key] = n
        return n

    def all(self):
        out = [self.root]
        for n in out:
            out.extend(n.kids)
        return out

    def mean(self, weights):
        """(average, worst angle) by transporting every tangent to the running mean."""
        total = {}

        def weigh(n):
            s = weights.get(n.key, 0.0)
            for c in n.kids:
                s += weigh(c)
            total[id(n)] = s
            return s
        weigh(self.root)
        dim = len(self.root.dir)
        move = {id(self.root): np.eye(dim)}
        m = self.root.dir.copy()
        worst = 0.0
        level = self.root.kids
        while level:
            tangent = np.zeros(dim)
            steps = []
            for n in level:
                ang, p = log_map(n.parent.dir, n.dir)
                if total[id(n)] != 0:
                    worst = max(worst, ang)
                tangent += total[id(n)] * ang * (move[id(n.parent)] @ p)
                steps.append((n, plane_rotation(n.parent.dir, p, ang) if p.any() else np.eye(dim)))
            a = float(np.linalg.norm(tangent))
            q = tangent / a if a > 0 else tangent
            M = plane_rotation(m, q, a) if a > 0 else np.eye(dim)
            for n, R in steps:
                move[id(n)] = M @ move[id(n.parent)] @ R.T
            m = unit(M @ m)
            level = [c for n in level for c in n.kids]
        return m, worst

    def copy_into_tree(self, order, turn=None, max_level=None):
        """A fresh real tree with the siblings registered in another order."""
        T = (lambda v: v) if turn is None else (lambda v: turn @ v)
        tree = VectorRotationTree()
        tree.set_root(self.root.key, self.root.arg.copy() if turn is None and self.root.arg is not None else T(self.root.dir))
        if max_level:
            tree.maximum_level = max_level
        todo = list(self.root.kids)
        r = np.random.default_rng(order)
        while todo:
            n = todo.pop(int(r.integers(len(todo))))
            d = n.arg if turn is None and n.arg is not None else T(n.dir)
            tree.add_node(node_id=n.key, direction=d.copy(), parent_id=n.parent.key)
            todo.extend(n.kids)
        return tree


def orthogonal(q, dim):
    """A proper rotation from dim*dim numbers."""
    Q, R = np.linalg.qr(np.array(q).reshape(dim, dim))
    Q = Q * np.sign(np.diag(R))
    if np.linalg.det(Q) < 0:
        Q[:, 0] *= -1
    return Q


class World:
    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg
        self.dim = cfg["dim"]
        self.inner = 0
        rk = self.name(0)
        root = np.array(cfg["root"]) * cfg["scale"]
        self.max_level = cfg["max_level"] or 100
        if cfg["start"] == "sequence" and len(cfg["seq"]) < self.max_level and self.sequence_vectors(cfg["root"], cfg["seq"]) is not None:
            vecs = self.sequence_vectors(cfg["root"], cfg["seq"])
            self.tree = VectorRotationTree.from_sequence(root_id=rk, node_id=self.name(9000), sequence=VectorRotationSequence.create_from_vector_array(vecs))
            self.model = Model(rk, root)
            self.grow_chain(self.model.root, self.name(9000), vecs[:, 1:])
        elif cfg["start"] == "orientation":
            self.tree = VectorRotationTree()
            self.tree.set_root_orientation(rk, VectorRotationXd.from_directions(unit(root), unit(root)))
            self.model = Model(rk, root)
            self.model.root.arg = unit(root)
        else:
            self.tree = VectorRotationTree(root_idx=rk, root_direction=root)
            self.model = Model(rk, root)
            self.model.root.arg = root.copy()
        if cfg["max_level"]:
            self.tree.maximum_level = cfg["max_level"]

    def name(self, i):
        v = self.cfg["ids"]
        if v == "mixed":
            v = ["int", "str", "tuple"][i % 3]
        return {"int": i - 3, "str": f"n{i}", "tuple": ("n", i)}[v]

    def sequence_vectors(self, start, vectors):
        """Columns of a sequence, or None where consecutive ones are opposite."""
        cols = [unit(start)] + [unit(v) for v in vectors]
        for a, b in zip(cols, cols[1:]):
            if a @ b < -1 + 1e-9:
                return None
        return np.array(cols).T

    def grow_chain(self, parent, key, cols):
        for i in range(cols.shape[1]):
            last = i == cols.shape[1] - 1
            if last:
                parent = self.model.add(key, cols[:, i], parent)
            else:
                self.inner += 1
                parent = self.model.add(("inner-of-model", self.inner), cols[:, i], parent, named=False)

    # ---- observation ----
    def structure(self):
        t = self.tree
        return {k: (None if n.parent is None else t.get_parent(k), [c for c in t.get_children(k)]) for k, n in self.model.named.items()}

    def check_structure(self, what):
        ctx, t, m = self.ctx, self.tree, self.model
        ctx.check(len(t.graph.nodes) == len(m.all()), "left-over", lambda: f"{what}: the tree holds {len(t.graph.nodes)} entries, the accepted edits made {len(m.all())}")
        for k, n in m.named.items():
            kids = list(t.get_children(k))
            want = [c.key for c in n.kids if c.key in m.named]
            ctx.check(len(kids) == len(n.kids) and all(w in kids for w in want), "children", lambda: f"{what}: children of {k!r} are {kids!r}, the accepted edits made {len(n.kids)} of them including {want!r}")
            if n.parent is not None:
                # walk up through intermediate entries
                p, steps = k, 0
                a = n
                while True:
                    p = t.get_parent(p)
                    a = a.parent
                    if a.key in m.named:
                        break
                ctx.check(p == a.key, "parent", lambda: f"{what}: {k!r} hangs below {p!r}, not below {a.key!r}")

    # ---- edits ----
    def edit(self, o, bad):
        ctx, m, t = self.ctx, self.model, self.tree
        keys = list(m.named)
        pk = keys[min(int(o["pick"] * len(keys)), len(keys) - 1)]
        key = self.name(o["id"]) if "id" in o else None
        if o.get("clash"):
            key = keys[o["k"] % len(keys)]
        parent = m.named[pk]
        how = bad["how"] if bad else None
        if how == "unknown":
            pk = self.name(7777)
        # early messages name a parent that has not arrived yet
        before = len(t.graph.nodes)
        if o["op"] == "turn":
            if how == "unknown":
                act = lambda: t.set_direction(self.name(7777), np.array(o["direction"]))
                legal = False
            else:
                d = np.array(o["direction"])
                act = lambda: t.set_direction(pk, unit(d))
                legal = True

                def apply():
                    parent.dir = unit(d)
                    parent.arg = None
                    ctx.probe("re-directed")
        elif o["op"] in ("node", "orientation"):
            d = np.array(o["direction"]) * o["scale"]
            if how == "zero":
                d = np.zeros(self.dim)
            elif how == "nan":
                d = d.copy()
                d[0] = math.nan
            elif how == "no-parent":
                pk = None
            legal = key not in m.named and how is None and parent.level + 1 < self.max_level
            if key not in m.named and how is None and not legal:
                ctx.probe("too-deep")
            if how in ("zero", "nan"):
                ctx.probe("bad-direction")
            if o["op"] == "orientation" and how not in ("zero", "nan"):
                if unit(parent.dir) @ unit(d) < -1 + 1e-9:
                    return "skip"
                rot = VectorRotationXd.from_directions(parent.dir, d)
                d = rot.rotate(parent.dir)
                act = lambda: t.add_node_orientation(node_id=key, orientation=rot, parent_id=pk)
            else:
                arg = d.copy()
                act = lambda: t.add_node(node_id=key, direction=arg, parent_id=pk)

            def apply():
                m.add(key, d, parent).arg = d.copy()
        else:
            start = parent.dir if o["common"] else o["vectors"][0]
            rest = o["vectors"] if o["common"] else o["vectors"][1:] + [o["vectors"][0][::-1]]
            vecs = self.sequence_vectors(start, rest)
            if vecs is None:
                return "skip"
            if how == "nan" and o["common"]:
                # does not start where its parent points
                start = -np.asarray(parent.dir) + 0.3
                vecs = self.sequence_vectors(start, rest)
                if vecs is None or np.allclose(vecs[:, 0], parent.dir, atol=1e-3):
                    return "skip"
            elif how in ("zero", "nan", "no-parent"):
                how = None
            seq = VectorRotationSequence.create_from_vector_array(vecs)
            new = vecs[:, 1:] if o["common"] else vecs
            legal = key not in m.named and how is None and parent.level + new.shape[1] < self.max_level
            if not legal:
                ctx.probe("rejected-sequence")
            act = lambda: t.add_sequence(node_id=key, sequence=seq, parent_id=pk, common_parent=o["common"])

            def apply():
                ctx.probe("sequence")
                self.grow_chain(parent, key, new)
        try:
            act()
            ok = True
        except Exception:
            ok = False
        if legal:
            ctx.check(ok, "refused", lambda: f"a proper edit {o['op']} of {key!r} below {pk!r} was refused")
            apply()
        else:
            ctx.probe("rejected")
            ctx.check(not ok, "accepted", lambda: f"the impossible edit {o['op']} of {key!r} below {pk!r} ({how}) was accepted")
        self.check_structure(f"after {'' if legal else 'refused '}{o['op']} of {key!r} below {pk!r}")
        return "done"

    # ---- queries ----
    def weights(self, o):
        keys = list(self.model.named)
        w = o["w"]
        if o["style"] == "root":
            return {self.model.root.key: 1.0}
        if o["style"] == "one":
            return {keys[int(o["pick"] * len(keys))]: 1.0}
        some = [k for i, k in enumerate(keys) if (w[i % 12] < o["mask"]) or i == int(o["pick"] * len(keys))]
        if o["style"] == "few":
            some = some[:2]
        raw = [w[(i + 5) % 12] ** 2 + 1e-3 for i, _ in enumerate(some)]
        if o["style"] == "tiny":
            raw = [r if i else 1e-9 for i, r in enumerate(raw)]
        s = sum(raw)
        raw = [r / s for r in raw]
        if o["style"] == "mix" and len(raw) > 2 and w[0] < 0.3:
            raw[1] += raw[0]
            raw[0] = 0.0
        return dict(zip(some, raw))

    def query(self, o, flts):
        ctx, m, t = self.ctx, self.model, self.tree
        W = self.weights(o)
        nodes, vals = list(W), list(W.values())
        form = {"list": list, "array": np.array, "tuple": tuple}[o["form"]]
        for f in flts:
            if f["kind"] == "unknown-id":
                j = f["nth"] % len(nodes)
                fn = lambda: t.get_weighted_mean(nodes[:j] + [self.name(7777)] + nodes[j + 1:], form(vals))
            elif f["kind"] == "bad-length":
                fn = lambda: t.get_weighted_mean(nodes + [nodes[0]], form(vals)) if f["nth"] % 2 else t.reduce_weighted_to_sequence(nodes[:-1], form(vals))
            elif f["kind"] == "weights":
                fn = lambda: t.get_weighted_mean(nodes, FailingWeights(vals, f["nth"] % (4 * len(vals) + 1)))
            else:
                fn = lambda: interrupted(lambda: t.get_weighted_mean(nodes, form(vals)), f["nth"])
            try:
                fn()
                failed = False
            except Exception:
                failed = True
            if failed:
                ctx.fault(f["kind"])
                ctx.probe({"weights": "weights-failed", "interrupt": "interrupted"}.get(f["kind"], f["kind"]))
            if f["kind"] in ("unknown-id", "bad-length"):
                ctx.check(failed, "accepted-query", lambda: f"a query with {f['kind']} was answered")
        nodes_in, vals_in = list(nodes), form(vals)
        keep = list(vals)
        got = t.get_weighted_mean(nodes_in, vals_in)
        ctx.check(nodes_in == nodes and list(vals_in) == keep, "caller", "the caller's lists were altered")
        got = np.asarray(got, dtype=float)
        ctx.record(got)
        ctx.check(got.shape == (self.dim,) and np.all(np.isfinite(got)), "not-finite", lambda: f"average of {W} is {got}")
        ctx.check(abs(np.linalg.norm(got) - 1) < 1e-7, "not-unit", lambda: f"average of {W} has length {np.linalg.norm(got)!r}")
        want, worst = m.mean(W)
        ctx.state(self.dim, self.shape(m.root), len(nodes))
        opposite = worst > math.pi - EPS_OPPOSITE
        if opposite:
            ctx.probe("opposite")
        else:
            ctx.check(np.linalg.norm(got - want) < 1e-6, "average", lambda: f"average of {W} is {got}, the tree and these weights give {want}")
        live = [k for k in W if W[k] > 0]
        if len(live) == 1:
            d = m.named[live[0]].dir
            ctx.probe("all-root" if live[0] == m.root.key else "one-entry")
            ctx.check(np.linalg.norm(got - d) < 1e-6, "one-entry", lambda: f"with all weight on {live[0]!r} the average is {got}, its direction is {d}")
        again = np.asarray(t.get_weighted_mean(list(reversed(nodes)), form(list(reversed(vals)))))
        ctx.check(np.linalg.norm(got - again) < 1e-7, "repeat", lambda: f"the same query (entries listed backwards) first gave {got}, then {again}")
        # the reduced sequence carries the root direction to the average
        seq = t.reduce_weighted_to_sequence(nodes, form(vals))
        end = np.asarray(seq.rotate(m.root.dir.copy()))
        ctx.check(np.linalg.norm(end - got) < 1e-6, "sequence", lambda: f"the reduced sequence carries the root direction to {end}, the average is {got}")
        v = np.array(o["vec"])
        ctx.check(abs(np.linalg.norm(seq.rotate(v)) - np.linalg.norm(v)) < 1e-6, "sequence-length", lambda: f"the reduced sequence changes the length of {v}")
        if o["rotate"] and m.root.dir @ got > -1 + 1e-6:
            ctx.probe("rotate")
            a = t.rotate(m.root.dir.copy(), nodes, form(vals))
            ctx.check(np.linalg.norm(a - got) < 1e-6, "rotate", lambda: f"rotate() carries the root direction to {a}, the average is {got}")
            b = t.inverse_rotate(t.rotate(v.copy(), nodes, form(vals)), nodes, form(vals))
            ctx.check(np.linalg.norm(b - v) < 1e-6, "rotate-back", lambda: f"rotate() and inverse_rotate() turn {v} into {b}")
        # Exactly opposite directions leave the plane open (1e-16 decides), so the
        # fresh tree then has to be given bit for bit the same directions.
        if o["fresh"] and (not opposite or all(n.arg is not None for n in m.all())):
            ctx.probe("fresh-tree")
            f = m.copy_into_tree(o["order"])
            g = np.asarray(f.get_weighted_mean(nodes, vals))
            ctx.check(np.linalg.norm(g - got) < 1e-6, "registration-order", lambda: f"average of {W} is {got}, a fresh tree with other sibling order gives {g}")
        if o["turned"] and not opposite:
            ctx.probe("turned")
            Q = orthogonal(o["quat"], self.dim)
            f = m.copy_into_tree(o["order"], turn=Q)
            g = np.asarray(f.get_weighted_mean(nodes, vals))
            ctx.check(np.linalg.norm(g - Q @ got) < 1e-6, "turned", lambda: f"turning all directions turns the average to {g} rather than {Q @ got}")

    # ---- chains of directions that are not (yet) in the tree ----
    def build_chain(self, cols, how):
        S = VectorRotationSequence
        if how == "at-once":
            return S.create_from_vector_array(cols.copy())
        rots = [VectorRotationXd.from_directions(cols[:, i], cols[:, i + 1]) for i in range(cols.shape[1] - 1)]
        if how == "backwards":
            seq = S.create_empty(self.dim)
            for r in reversed(rots):
                seq.push_root_from_base_and_angle(r.base, r.rotation_angle)
        elif how == "forwards":
            seq = S.create_from_vector_array(cols[:, :2].copy())
            for i in range(2, cols.shape[1]):
                seq.append_from_direction(cols[:, i].copy())
        else:
            seq = S.create_empty(self.dim)
            for r in rots:
                seq.append_from_base_and_angle(r.base, r.rotation_angle)
        return seq

    def chain(self, o):
        """One chain of directions, however it was put together, averages like the same chain kept in a tree."""
        ctx = self.ctx
        cols = self.sequence_vectors(o["vectors"][0], o["vectors"][1:])
        n = cols.shape[1] - 1 if cols is not None else 0
        if cols is None or any(cols[:, i] @ cols[:, i + 1] < -1 + 1e-4 for i in range(n)):
            return
        ctx.probe("chain")
        cols = cols * o["scale"]
        m = Model(0, cols[:, 0])
        node = m.root
        for i in range(n):
            node = m.add(i + 1, cols[:, i + 1], node)
        if o["style"] == "mix":
            raw = np.array(o["w"][:n + 1]) + 0.0
            raw = raw / raw.sum() if raw.sum() > 1e-9 else np.eye(n + 1)[-1]
        else:
            raw = np.eye(n + 1)[n if o["style"] == "end" else int(o["pick"] * (n + 1))]
        want, _ = m.mean({i: float(w) for i, w in enumerate(raw)})
        start = m.root.dir
        for how in ("at-once", "forwards", "backwards", "appended"):
            seq = self.build_chain(cols, how)
            if how in ("forwards", "backwards"):
                ctx.probe("built-" + how)
            ctx.check(seq.n_rotations == n and seq.dimension == self.dim, "chain-length", lambda: f"built {how}: {seq.n_rotations} rotations from {n + 1} directions")
            ctx.check(np.linalg.norm(seq.get_end_vector() - unit(cols[:, -1])) < 1e-6, "chain-end", lambda: f"built {how}: the chain over {cols.T.tolist()} ends at {seq.get_end_vector()}")
            keep = (seq.basis_array.copy(), seq.rotation_angles.copy())
            try:
                interrupted(lambda: seq.rotate_weighted(start.copy(), raw[1:].copy()), o["nth"])
            except InjectedFault:
                ctx.fault("interrupt")
            got = seq.rotate_weighted(start.copy(), raw[1:].copy())
            ctx.record(got)
            ctx.check(np.linalg.norm(got - want) < 1e-6, "chain-average", lambda: f"built {how}: average of the chain {cols.T.tolist()} with weights {raw.tolist()} is {got}, a tree with that single branch gives {want}")
            if n:
                end = seq.rotate(start.copy())
                ctx.check(np.linalg.norm(end - unit(cols[:, -1])) < 1e-6, "chain-rotate", lambda: f"built {how}: carries the first direction to {end}, not to the last")
            # turned as a whole
            a, b = unit(o["turn"]), unit(o["turn2"])
            if a @ b > -1 + 1e-4 and abs(a @ b) < 1 - 1e-9:
                ctx.probe("chain-turned")
                R = VectorRotationXd.from_directions(a, b)
                ang, p = log_map(a, b)
                Q = plane_rotation(a, p, ang * o["part"])
                turned = R.rotate_sequence(seq, o["part"])
                g = turned.rotate_weighted(Q @ start, raw[1:].copy())
                ctx.check(np.linalg.norm(g - Q @ want) < 1e-6, "chain-turned", lambda: f"turning the chain turns its average to {g} rather than {Q @ want}")
                r = VectorRotationXd.from_directions(cols[:, 0], cols[:, 1])
                base = r.base.copy()
                s = R.rotate_vector_rotation(r, o["part"])
                g = s.rotate(Q @ start)
                ctx.check(np.linalg.norm(g - Q @ unit(cols[:, 1])) < 1e-6, "rotation-turned", lambda: f"turning the rotation from {start} to {unit(cols[:, 1])} gives one that carries {Q @ start} to {g} rather than {Q @ unit(cols[:, 1])}")
                ctx.check(np.array_equal(r.base, base), "caller", "turning a rotation altered the given one")
            ctx.check(np.array_equal(seq.basis_array, keep[0]) and np.array_equal(seq.rotation_angles, keep[1]), "caller", "asking the chain altered it")

    def shape(self, n):
        return "(" + "".join(sorted(self.shape(c) for c in n.kids)) + ")"


def execute(ctx, plan):
    cfg = plan["config"]
    sim = Sim(ctx)
    w = World(ctx, cfg)
    w.check_structure("at the start")
    drop = {f["k"] for f in plan["faults"] if f["kind"] == "drop"}
    dup = {f["k"]: f for f in plan["faults"] if f["kind"] == "dup"}
    delay = {f["k"]: f for f in plan["faults"] if f["kind"] == "delay"}
    bad = {f["k"]: f for f in plan["faults"] if f["kind"] == "bad"}
    last = [-1]

    def deliver(o, copy=False):
        if o["k"] < last[0] and not copy:
            ctx.fault("reorder")
            ctx.probe("reorder")
        last[0] = max(last[0], o["k"])
        b = bad.get(o["k"])
        if b:
            ctx.fault("bad-edit")
        w.edit(o, b)

    def ask(o):
        w.query(o, [f for f in plan["faults"] if f["k"] == o["k"]])

    for o in plan["ops"]:
        k = o["k"]
        if o["op"] == "query":
            sim.at(o["t"], lambda o=o: ask(o))
            continue
        if o["op"] == "chain":
            sim.at(o["t"], lambda o=o: w.chain(o))
            continue
        if k in drop:
            ctx.fault("drop")
            ctx.probe("drop")
            continue
        t = o["t"]
        if k in delay:
            ctx.fault("delay")
            ctx.probe("delay")
            t += delay[k]["dt"]
        sim.at(t, lambda o=o: deliver(o))
        if k in dup:
            ctx.fault("dup")
            ctx.probe("dup")
            sim.at(t + dup[k]["late"], lambda o=o: deliver(o, True))
    sim.run()
