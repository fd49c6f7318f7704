"""C10: experiment records survive crashes and are summarised faithfully.

A batch experiment writes its records on a simulated disk and is killed, loses
power, or meets a full or failing disk at a seeded point; it is restarted, and
the folder is summarised at any time, listed in any order, with read errors and
repeated evaluations.  The reference model re-integrates every run and averages
exactly the complete records.
"""
import contextlib
import io
import json
import math
import os
import pathlib
import re

import numpy as np

from nonlinear_avoidance.comparison import comparison_multiobstacle_vectorfield as batch
from nonlinear_avoidance.comparison import evaluation_path_following as following
from nonlinear_avoidance.comparison import evaluation_trajectories as plain
from nonlinear_avoidance.comparison import evaluation_trajectories_with_std as spread

from ..core import Killed, Sim
from ..disk import Disk

RUNS = {"quick": 2000, "thorough": 20000}
RULE = "One run is one record folder: batches of simulated robot runs written, killed, powered off or stopped by a full or failing disk at a seeded operation or byte, restarted, and summarised in between; or one set of path-following tables, summarised."
STATE_MEASURE = "distinct (kind, batch faults struck so far, complete records, stuck records, short records, empty records) tuples at a summary"
REAL = ["nonlinear_avoidance.comparison.* (recording and all three summaries)", "numpy / pandas file reading and writing", "a real scratch directory"]
STUB = ["kernel page cache and process death (dst/disk.py)", "vartools / dynamic_obstacle_avoidance (absent packages: stand-ins)", "robot dynamics of most batches (analytic fields)", "the external writer of the path-following tables"]
EXPECTED_PROBES = ["kill", "power", "full", "eio", "read-eio", "shuffled", "restart", "stuck-at-start", "collision", "full-length", "empty-record", "summary-twice", "subset", "torn-table", "shorter-table", "no-preselection", "single-start", "real-avoider", "grid-fault"]


# ---------------------------------------------------------------- generation
def gen_fault(rng, reading=False):
    if reading:
        return {"kind": "eio", "at": "op", "n": rng.randrange(8)}
    kind = rng.choice(["kill", "kill", "kill", "power", "power", "full", "eio"])
    at = rng.choice(["op", "byte"])
    return {"kind": kind, "at": at, "n": rng.randrange(40) if at == "op" else int(rng.choice([30, 500, 4000, 30000]) * rng.random()), "seed": rng.randrange(1 << 30)}


def generate(rng, tier):
    if rng.chance(0.25):
        return gen_tables(rng, tier)
    it_max = rng.choice([2, 3, 6, 20, 60])
    cfg = {"kind": "batch", "it_max": it_max, "dt": rng.choice([0.01, 0.05, 0.2]), "margin": rng.choice([1e-2, 1e-3]),
           "field": rng.choice(["circle", "circle", "sink", "wave"]), "real": rng.chance(0.05),
           "stall": [rng.uni(-3, 3), rng.uni(-3, 3), rng.choice([0.0, 0.5, 2.0])],
           "wall": [rng.uni(-3, 3), rng.uni(-3, 3), rng.choice([0.0, 0.5, 1.5])],
           "grid": rng.choice([1, 2, 3, 3, 4]), "lim": [rng.uni(1, 4), rng.uni(1, 4)], "off": [rng.uni(-0.5, 0.5), rng.uni(-0.5, 0.5)],
           "free": rng.uni(0.0, 1.2), "six": rng.chance(0.2)}
    if cfg["real"]:
        cfg.update(it_max=rng.choice([3, 6]), grid=2, dt=0.05)
    ops, t = [], 0.0
    for k in range(rng.choice([2, 4, 8]) * (2 if tier == "thorough" else 1)):
        t = round(t + 1.0, 3)
        what = rng.choices(["batch", "summary", "empty", "grid"], [3, 4, 0.4, 0.4])[0]
        o = {"op": what, "t": t, "k": k, "folder": rng.choice(["a", "a", "b"])}
        if what == "summary":
            o.update(n=rng.choice([0, -1, 1, 2, 5, 50]), which=rng.choice(["plain", "spread"]), keep=rng.chance(0.6), list=rng.randrange(1 << 30), twice=rng.chance(0.4))
        if what == "empty":
            o.update(i=rng.randrange(12))
        ops.append(o)
    faults = []
    for o in ops:
        if o["op"] in ("batch", "grid") and rng.chance(0.65):
            faults.append(dict(gen_fault(rng), k=o["k"]))
        if o["op"] == "summary" and rng.chance(0.3):
            faults.append(dict(gen_fault(rng, True), k=o["k"]))
    if rng.chance(0.3):
        faults.append(dict(gen_fault(rng), k=-1))
    return {"config": cfg, "ops": ops, "faults": faults}


COLUMNS = [" converged", " distance", " free_fraction", " gammas"]


def gen_tables(rng, tier):
    n_tables = rng.choice([1, 2, 3, 3])
    n = rng.choice([1, 2, 5, 20, 60])
    cols = list(COLUMNS)
    rng.shuffle(cols)
    cfg = {"kind": "tables", "columns": cols, "ints": rng.chance(0.5), "tables": []}
    for i in range(n_tables):
        p = rng.choice([0.0, 0.5, 0.9, 1.0])
        cfg["tables"].append([{" converged": rng.choice([1, 1, 2]) if rng.chance(p) else 0, " distance": round(rng.uni(0, 30), 4),
                               " free_fraction": round(rng.uni(0, 1), 4), " gammas": round(rng.uni(0.5, 9), 4)} for _ in range(n)])
    ops = []
    for k in range(rng.choice([1, 3, 6])):
        ops.append({"op": rng.choice(["compare", "compare", "single"]), "t": float(k + 1), "k": k, "i": rng.randrange(n_tables), "keep": rng.chance(0.6), "preselect": rng.chance(0.5), "order": rng.chance(0.5)})
    faults = []
    for i in range(n_tables):
        if rng.chance(0.3):
            faults.append({"kind": "cut", "i": i, "rows": rng.randint(0, max(0, n - 1)), "torn": rng.choice([None, None, 0, 1, 2])})
    for o in ops:
        if rng.chance(0.25):
            faults.append(dict(gen_fault(rng, True), k=o["k"]))
    return {"config": cfg, "ops": ops, "faults": faults}


# ---------------------------------------------------------------- reference
def close(a, b, tol=1e-8):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def read_rows(path):
    """Rows of numbers of a record; None where it cannot be one."""
    try:
        text = pathlib.Path(path).read_text()
    except FileNotFoundError:
        return "absent"
    if text and not text.endswith("\n"):
        return None
    rows = []
    for line in text.splitlines():
        try:
            rows.append([float(x) for x in line.split(",")])
        except ValueError:
            return None
    return rows


def same(rows, want):
    if rows is None or rows == "absent" or len(rows) != len(want):
        return False
    return all(len(r) == len(w) and all(abs(a - b) < 1e-9 for a, b in zip(r, w)) for r, w in zip(rows, want))


class Field:
    def __init__(self, cfg):
        self.cfg = cfg

    def __call__(self, p):
        c = self.cfg
        x, y, r = c["stall"]
        if (p[0] - x) ** 2 + (p[1] - y) ** 2 < r * r:
            return np.array([0.0, 0.3 * c["margin"]])
        if c["field"] == "circle":
            d = math.hypot(*p) + 1e-3
            return np.array([-p[1] + 0.5 * (2 - d) * p[0], p[0] + 0.5 * (2 - d) * p[1]])
        if c["field"] == "sink":
            return -0.7 * np.asarray(p, dtype=float)
        return np.array([1.0, math.sin(2 * p[0])])

    def hit(self, p):
        x, y, r = self.cfg["wall"]
        return bool((p[0] - x) ** 2 + (p[1] - y) ** 2 < r * r)

    def record(self, start):
        """All positions of a run, why it ended."""
        c = self.cfg
        rows = [[float(start[0]), float(start[1])]]
        while len(rows) < c["it_max"]:
            p = np.array(rows[-1])
            v = self(p)
            n = math.hypot(*v)
            if n < c["margin"]:
                return rows, "stuck"
            q = p + v / n * c["dt"]
            if self.hit(q):
                return rows, "hit"
            rows.append([float(q[0]), float(q[1])])
        return rows, "full"


class Room:
    """Stand-in for an obstacle environment: a disc around the origin is taken."""

    def __init__(self, r):
        self.r = r

    def get_minimum_gamma(self, p):
        return math.inf if self.r <= 0 else math.hypot(*p) / self.r


def metrics(rows, dt, nominal):
    P = np.array(rows)
    out = {"r": np.sum(P**2, axis=1) - 4.0}
    V = np.diff(P, axis=0) / dt
    out["acc"] = np.mean(np.sum((np.diff(V, axis=0) / dt) ** 2, axis=1)) if len(P) > 2 else math.nan
    U = V / np.linalg.norm(V, axis=1, keepdims=True) if len(V) else V
    out["dacc"] = np.mean(np.sum(U[1:] * U[:-1], axis=1)) if len(P) > 2 else math.nan
    N = np.array([nominal(p) for p in P[:-1]]).reshape(-1, 2)
    out["vel"] = np.mean(np.sum((U - N) ** 2, axis=1)) if len(P) > 1 else math.nan
    L = np.linalg.norm(N, axis=1, keepdims=True)
    out["dvel"] = np.mean(np.sum(U * np.divide(N, L, out=np.zeros_like(N), where=L > 0), axis=1)) if len(P) > 1 else math.nan
    return out


def mean(xs):
    xs = [x for x in xs if not math.isnan(x)]
    return sum(xs) / len(xs) if xs else math.nan


def std(xs):
    xs = [x for x in xs if not math.isnan(x)]
    m = mean(xs)
    return math.sqrt(sum((x - m) ** 2 for x in xs) / len(xs)) if xs else math.nan


# ---------------------------------------------------------------- batches
class Batch:
    def __init__(self, ctx, plan, disk):
        self.ctx, self.cfg, self.disk = ctx, plan["config"], disk
        self.faults = {}
        for f in plan["faults"]:
            self.faults.setdefault(f["k"], f)
        self.field = Field(self.cfg)
        self.data = os.path.join(disk.root, "data")
        os.makedirs(self.data)
        with open(os.path.join(disk.root, "comparison_parameters.json"), "w") as f:
            json.dump({"it_max": self.cfg["it_max"], "conv_margin": self.cfg["margin"], "delta_time": self.cfg["dt"]}, f)
        self.evaluators = {}
        self.dirty = {}
        self.struck = 0
        self.expect = {}  # folder -> list of complete records, by number
        self.grid()

    # ---- start positions ----
    def grid(self, fault="first"):
        c, ctx = self.cfg, self.ctx
        env = batch.create_six_obstacle_environment() if c["six"] else Room(c["free"])
        lx = [c["off"][0] - c["lim"][0], c["off"][0] + c["lim"][0]]
        ly = [c["off"][1] - c["lim"][1], c["off"][1] + c["lim"][1]]
        n = c["grid"]
        xs = [lx[0] + (lx[1] - lx[0]) * i / max(1, n - 1) for i in range(n)]
        ys = [ly[0] + (ly[1] - ly[0]) * i / max(1, n - 1) for i in range(n)]
        want = [[x, y] for y in ys for x in xs if env.get_minimum_gamma(np.array([x, y])) > 1]
        if not want:
            env, want = Room(0.0), [[x, y] for y in ys for x in xs]
        self.starts = want
        if len(want) == 1:
            ctx.probe("single-start")
        path = os.path.join(self.data, "initial_positions.csv")
        go = lambda: batch.create_start_positions(n, lx, ly, env, self.data, store_to_file=True)
        f = self.faults.get(-1) if fault == "first" else fault
        if f:
            before = os.path.exists(path)
            done, struck = self.attempt(go, f)
            if struck:
                ctx.probe("grid-fault")
            self.judge_grid(path, want, done and not before, "after an interrupted store of the start positions")
        go()
        self.judge_grid(path, want, True, "after storing the start positions")

    def judge_grid(self, path, want, must, when):
        ctx = self.ctx
        rows = "absent"
        if os.path.exists(path):
            text = pathlib.Path(path).read_text()
            head, _, body = text.partition("\n")
            rows = None
            if text.endswith("\n") and head.startswith("#"):
                try:
                    rows = [[float(x) for x in line.split(",")] for line in body.splitlines()]
                except ValueError:
                    rows = None
        ok = same(rows, want) or (rows == "absent" and not must)
        ctx.check(ok, "start-positions", lambda: f"{when}: {'missing' if rows == 'absent' else 'not the free grid positions: ' + str(rows)[:300]} (expected {len(want)} rows)")

    def attempt(self, fn, fault):
        """(returned normally, fault struck)"""
        ctx, d = self.ctx, self.disk
        f = dict(fault)
        d.arm(f)
        done = False
        try:
            fn()
            done = True
        except Killed:
            pass
        except OSError as e:
            if not f.get("struck"):
                raise
        except Exception:
            if not f.get("struck"):
                raise
        struck = d.disarm()
        if struck:
            kind = f["kind"]
            ctx.fault(kind)
            ctx.probe(kind)
            self.struck += 1
        return done, struck

    # ---- recording ----
    def batch(self, o):
        c, ctx = self.cfg, self.ctx
        folder = os.path.join(self.data, o["folder"])
        if c["real"] and o["folder"] == "b":
            batch.datapath = self.data
            o = dict(o, folder="nonlinear_avoidance")
            folder = os.path.join(self.data, o["folder"])
            go = batch.evaluate_nonlinear_trajectories
            if o["folder"] not in self.expect:
                ref = os.path.join(self.disk.root, "ref", "data")
                os.makedirs(ref)
                for n in ("comparison_parameters.json",):
                    pathlib.Path(self.disk.root, "ref", n).write_text(pathlib.Path(self.disk.root, n).read_text())
                pathlib.Path(ref, "initial_positions.csv").write_text(pathlib.Path(self.data, "initial_positions.csv").read_text())
                batch.datapath = ref
                go()
                batch.datapath = self.data
                self.expect[o["folder"]] = [(read_rows(os.path.join(ref, o["folder"], f"trajectory{i:03d}.csv")), "?") for i in range(len(self.starts))]
                for rows, _ in self.expect[o["folder"]]:
                    ctx.check(isinstance(rows, list) and 1 <= len(rows) <= c["it_max"], "incomplete-record", "an uninterrupted batch left no complete record")
            ctx.probe("real-avoider")
        else:
            hit = self.field.hit if c["wall"][2] > 0 else None
            go = lambda: batch.evaluate_trajectories(datapath=self.data, avoidance_functor=self.field, outputfolder=o["folder"], collision_functor=hit)
            self.expect[o["folder"]] = [self.field.record(s) for s in self.starts]
        want = self.expect[o["folder"]]
        for rows, why in want:
            if why == "stuck" and len(rows) == 1:
                ctx.probe("stuck-at-start")
            ctx.probe({"hit": "collision", "full": "full-length"}.get(why, "other"))
        f = self.faults.get(o["k"])
        done, struck = self.attempt(go, f) if f else (go() is None, False)
        if self.dirty.get(folder):
            ctx.probe("restart")
        self.dirty[folder] = struck
        if struck and done:
            ctx.probe("silent-check")
        names = sorted(n for n in (os.listdir(folder) if os.path.isdir(folder) else []))
        for i, (rows, why) in enumerate(want):
            got = read_rows(os.path.join(folder, f"trajectory{i:03d}.csv"))
            if got == [] and (folder, i) in self.emptied and struck:
                continue  # the empty record that was there before
            ok = same(got, rows) or (got == "absent" and not done)
            ctx.check(ok, "incomplete-record" if f else "record", lambda: f"record {i} of {o['folder']} {'after ' + f['kind'] if f else ''} is {'absent' if got == 'absent' else f'broken ({None if got is None else len(got)} rows)'}, the run has {len(rows)} positions ({why})")
            if got != []:
                self.emptied.discard((folder, i))
        known = {f"trajectory{i:03d}.csv" for i in range(len(want))} | {f"trajectory{i:03d}.csv" for fo, i in self.emptied if fo == folder}
        extra = [n for n in names if n.endswith(".csv") and n not in known]
        ctx.check(not extra, "foreign-record", lambda: f"the batch left {extra} among the records")
        ctx.record(o["folder"], len(names), done, struck)

    emptied: set

    def empty(self, o):
        folder = os.path.join(self.data, o["folder"])
        if not os.path.isdir(folder):
            return
        pathlib.Path(folder, f"trajectory{o['i']:03d}.csv").write_text("")
        self.emptied.add((folder, o["i"]))
        self.ctx.probe("empty-record")
        self.ctx.fault("empty-record")

    # ---- summaries ----
    def summary(self, o):
        c, ctx = self.cfg, self.ctx
        name = o["folder"]
        if c["real"] and name == "b":
            name = "nonlinear_avoidance"
        folder = os.path.join(self.data, name)
        if not os.path.isdir(folder):
            return
        mod = plain if o["which"] == "plain" else spread
        key = (o["which"], name, o["n"])
        ev = self.evaluators.get(key) if o["keep"] else None
        if ev is None:
            ev = self.evaluators[key] = mod.TrajectoryEvaluator(data_folder=name, data_path=self.data, n_runs=o["n"])
        else:
            ctx.probe("summary-twice")
        files = sorted(n for n in os.listdir(folder) if n.endswith(".csv"))
        if o["n"] > 0:
            if o["n"] < len(files):
                ctx.probe("subset")
            files = files[:o["n"]]
        rows = [read_rows(os.path.join(folder, n)) for n in files]
        full = [r for r in rows if r]
        self.disk.list_seed = o["list"]
        ctx.probe("shuffled")
        f = self.faults.get(o["k"])
        if f:
            done, struck = self.attempt(ev.run, f)
            if struck:
                ctx.probe("read-eio")
                ctx.check(not done, "ignored-error", "a summary that could not read a record did not say so")
        ev.run()
        if o["twice"]:
            ctx.probe("summary-twice")
            self.disk.list_seed = o["list"] // 7
            ev.run()
        self.disk.list_seed = None
        short = sum(len(r) < c["it_max"] for r in full)
        ctx.state("batch", min(self.struck, 3), len(full), short, sum(len(r) < 3 for r in full), len(rows) - len(full))
        say = lambda what, got, want: (lambda: f"summary ({o['which']}) of {name}: {what} is {got}, the {len(full)} complete records give {want}")
        ctx.check(ev.n_runs == len(full), "count", say("number of runs", ev.n_runs, len(full)))
        ctx.check(ev.n_local_minima == short, "count", say("number of stuck runs", ev.n_local_minima, short))
        ctx.check(ev.n_converged == len(full) - short, "count", say("number of finished runs", ev.n_converged, len(full) - short))
        if not full:
            return
        nominal = self.nominal
        M = [metrics(r, c["dt"], nominal) for r in full]
        signed = o["which"] == "plain"
        table = {"dist_to_path": [float(np.mean(m["r"] if signed else abs(m["r"]))) for m in M], "squared_acceleration": [m["acc"] for m in M],
                 "squared_error_velocity": [m["vel"] for m in M], "dotprod_err_velocity": [m["dvel"] for m in M], "dotprod_acceleration": [m["dacc"] for m in M]}
        if not signed:
            table["nics_err_velocity"] = [(1 - x) / 2 for x in table["dotprod_err_velocity"]]
            table["nics_acceleration"] = [(1 - x) / 2 for x in table["dotprod_acceleration"]]
        for what, xs in table.items():
            ctx.check(close(getattr(ev, what), mean(xs), 1e-7), "average", say(what, getattr(ev, what), mean(xs)))
            if not signed:
                ctx.check(close(getattr(ev, what + "_std"), std(xs), 1e-6), "spread", say(what + "_std", getattr(ev, what + "_std"), std(xs)))
            ctx.record(what, float(getattr(ev, what)))
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            mod.print_table([ev, ev])
        lines = [[x.strip() for x in line.split("\\\\")[0].split(" & ")] for line in out.getvalue().splitlines()]
        shown = {l[0]: l[1:] for l in lines if len(l) == 3}
        pc = lambda x: f"{x / len(full) * 100:.0f}\\%"
        want = {"$N^c$": pc(len(full) - short), "$N^m$": pc(short)}
        for k, v in want.items():
            if k in shown:
                ctx.check(shown[k] == [v, v], "table", lambda: f"the printed table says {k} = {shown[k]}, the records give {v}")


# ---------------------------------------------------------------- tables
class Tables:
    def __init__(self, ctx, plan, disk):
        self.ctx, self.cfg, self.disk = ctx, plan["config"], disk
        self.faults = {f["k"]: f for f in plan["faults"] if "k" in f}
        self.rows, self.lines, self.made = [], [], {}
        cuts = {f["i"]: f for f in plan["faults"] if f["kind"] == "cut"}
        cols = self.cfg["columns"]
        for i, rows in enumerate(self.cfg["tables"]):
            keep, torn = list(rows), None
            if i in cuts:
                keep = rows[:cuts[i]["rows"]]
                ctx.fault("cut-table")
                at = cuts[i]["torn"]
                # a torn last row has lost at least whether the run converged
                if at is not None and len(keep) < len(rows) and at <= cols.index(" converged") and keep:
                    torn = ", ".join([str(len(keep))] + [str(rows[len(keep)][c]) for c in cols[:at]])
                    ctx.probe("torn-table")
                else:
                    ctx.probe("shorter-table")
            if not keep:
                keep, torn = rows[:1], None
            fmt = lambda r, c: str(r[c]) if c == " converged" and self.cfg["ints"] else f"{float(r[c])!r}"
            text = "run," + ",".join(cols) + "\n" + "".join(f"{j}, " + ", ".join(fmt(r, c) for c in cols) + "\n" for j, r in enumerate(keep)) + (torn or "")
            pathlib.Path(disk.root, f"t{i}.csv").write_text(text)
            self.rows.append(keep)
            self.lines.append(len(keep) + (1 if torn else 0))
        self.attempt = Batch.attempt.__get__(self)
        self.struck = 0

    def evaluator(self, i, keep):
        if keep and i in self.made:
            self.ctx.probe("summary-twice")
            return self.made[i]
        e = following.TrajectoryEvaluator(f"t{i}.csv")
        e.root_path, e.data_path = pathlib.Path(self.disk.root), pathlib.Path(".")
        self.made[i] = e
        return e

    def finished(self, i):
        return [r[" converged"] > 0 for r in self.rows[i]]

    def judge(self, e, i, chosen):
        ctx, rows = self.ctx, self.rows[i]
        picked = [r for r, c in zip(rows, chosen) if c]
        n = self.lines[i]
        say = lambda what, got, want: (lambda: f"path-following summary of table {i}: {what} is {got}, the {len(picked)} chosen of {n} runs give {want}")
        ctx.state("tables", len(self.rows), n, len(picked), sum(self.finished(i)))
        ctx.check(e.n_runs == n, "count", say("number of runs", e.n_runs, n))
        want = sum(self.finished(i)) / n
        ctx.check(close(e.frac_converged, want), "count", say("finished fraction", e.frac_converged, want))

        def var(xs):
            return sum((x - mean(xs)) ** 2 for x in xs) / (len(xs) - 1) if len(xs) > 1 else math.nan
        d = [r[" distance"] for r in picked]
        g = [r[" gammas"] for r in picked]
        o = [1 - r[" free_fraction"] for r in picked]
        for what, got, want in [("distance_mean", e.distance_mean, mean(d)), ("distance_var", e.distance_var, var(d)), ("gammas_mean", e.gammas_mean, mean(g)),
                                ("gammas_var", e.gammas_var, var(g)), ("occupied_mean", e.occupied_mean, mean(o)), ("occupied_std", e.occupied_std, std(o))]:
            ctx.check(close(got, want), "average", say(what, got, want))
            ctx.record(what, float(got))

    def compare(self, o):
        ctx = self.ctx
        idx = list(range(len(self.rows)))
        if o["order"]:
            idx.reverse()
        evs = [self.evaluator(i, o["keep"]) for i in idx]
        f = self.faults.get(o["k"])
        if f:
            done, struck = self.attempt(lambda: following.get_converged(evs), f)
            if struck:
                ctx.probe("read-eio")
                ctx.check(not done, "ignored-error", "a comparison that could not read a table did not say so")
        got = following.get_converged(evs)
        for e in evs:
            e.run(got)
        n = max(len(r) for r in self.rows)
        both = [all(j < len(self.rows[i]) and self.finished(i)[j] for i in idx) for j in range(n)]
        for i, e in zip(idx, evs):
            self.judge(e, i, both[:len(self.rows[i])])
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            following.print_results(evs)
        m = re.search(r"Converged.*?&(.*?)\\\\", out.getvalue())
        if m:
            shown = [x.strip() for x in m.group(1).split("&")]
            want = [f"{sum(self.finished(i)) / self.lines[i] * 100:.0f}" for i in idx]
            ctx.check(shown == want, "table", lambda: f"the printed table says converged = {shown}, the records give {want}")

    def single(self, o):
        ctx, i = self.ctx, o["i"]
        e = self.evaluator(i, o["keep"])
        mine = self.finished(i)
        if o["preselect"]:
            chosen = e.get_converged()
            ctx.check([bool(x) for x in chosen][:len(mine)] == mine, "count", lambda: f"finished runs of table {i}: {list(chosen)}, recorded {mine}")
        else:
            ctx.probe("no-preselection")
            import pandas as pd
            chosen = pd.Series(mine + [False] * (self.lines[i] - len(mine)), dtype=bool)
        f = self.faults.get(o["k"])
        if f and not o["preselect"]:
            self.attempt(lambda: e.run(chosen), f)
        e.run(chosen)
        self.judge(e, i, mine)


def execute(ctx, plan):
    cfg = plan["config"]
    sim = Sim(ctx)
    with Disk(ctx) as disk:
        if cfg["kind"] == "tables":
            w = Tables(ctx, plan, disk)
            act = {"compare": w.compare, "single": w.single}
        else:
            Batch.emptied = set()
            w = Batch(ctx, plan, disk)
            w.nominal = plain.SimpleCircularDynamics(pose=batch.Pose.create_trivial(dimension=2), radius=2.0).evaluate
            act = {"batch": w.batch, "summary": w.summary, "empty": w.empty, "grid": lambda o: w.grid(w.faults.get(o["k"]))}
        for o in plan["ops"]:
            sim.at(o["t"], lambda o=o: act[o["op"]](o))
        sim.run()
