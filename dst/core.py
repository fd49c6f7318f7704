"""Simulation core: one PRNG per run, plans, contexts, violations, digests.

A *plan* is plain JSON: {"property", "seed", "config", "ops", "faults"}.  It is a
pure function of the run seed (`generate`), and an execution is a pure function
of the plan and the code under test (`execute`).  Nothing below reads a real
clock, the process environment or an unseeded generator.
"""
from __future__ import annotations

import hashlib
import heapq
import json
import math
import os
import random
import struct
import sys
import traceback

import numpy as np

REPO = os.path.realpath(os.environ.get("NOA_REPO", "/repo"))


class Violation(Exception):
    """A property does not hold.  `kind` is the class used for minimisation and
    for matching listed findings; `detail` is free text."""

    def __init__(self, kind: str, detail: str = ""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class DebugTrap(Exception):
    """The code under test stopped in an interactive debugger trap."""


class InjectedFault(Exception):
    """An error the simulator injected on purpose."""


class Killed(BaseException):
    """A simulated process kill (not catchable by `except Exception`)."""


class RunTimeout(BaseException):
    """The run exceeded its wall-clock allowance (reported as a hang)."""


def _trap(*args, **kwargs):
    raise DebugTrap("debugger trap reached")


def run_seed(base: int, prop: str, index: int) -> int:
    h = hashlib.sha256(f"{base}/{prop}/{index}".encode()).digest()
    return int.from_bytes(h[:6], "big")


class Rng(random.Random):
    """The single source of randomness of a run (generation side only)."""

    def uni(self, lo, hi):
        return lo + (hi - lo) * self.random()

    def vec(self, dim, lo, hi):
        return [self.uni(lo, hi) for _ in range(dim)]

    def direction(self, dim):
        while True:
            v = [self.gauss(0, 1) for _ in range(dim)]
            n = math.sqrt(sum(x * x for x in v))
            if n > 1e-6:
                return [x / n for x in v]

    def chance(self, p):
        return self.random() < p


class Ctx:
    """Collects everything observable about one execution."""

    def __init__(self, prop: str, known: dict | None = None):
        self.prop = prop
        self.known = known or {}
        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.checks = 0
        self.sim_time = 0.0
        self.events = 0
        self.states: set[int] = set()
        self.known_hits: dict[str, int] = {}
        self._h = hashlib.sha256()
        self.log: list[str] = []
        self.keep_log = False

    # ---- recording (never draws randomness) ----
    def fault(self, kind: str, n: int = 1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name: str, n: int = 1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *parts):
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
        self.states.add(int.from_bytes(h, "big"))

    def record(self, *parts):
        """Adds to the event log (digest) exactly, floats bit for bit."""
        for p in parts:
            self._feed(p)
        self._h.update(b"|")
        self.events += 1
        if self.keep_log:
            self.log.append(" ".join(str(p) for p in parts))

    def _feed(self, p):
        if isinstance(p, np.ndarray):
            q = np.array(p, dtype=float)
            q[np.isnan(q)] = np.nan  # one bit pattern for all
            self._h.update(q.tobytes())
        elif isinstance(p, (float, np.floating)):
            self._h.update(struct.pack("<d", float(p) if p == p else math.nan))
        elif isinstance(p, (list, tuple)):
            for q in p:
                self._feed(q)
        else:
            self._h.update(str(p).encode())

    def digest(self) -> str:
        return self._h.hexdigest()

    # ---- judging ----
    def fail(self, kind: str, detail: str = ""):
        """A violation; listed findings are counted and the run goes on."""
        if kind in self.known:
            self.known_hits[kind] = self.known_hits.get(kind, 0) + 1
            return
        raise Violation(kind, detail)

    def check(self, ok, kind: str, detail=""):
        self.checks += 1
        if not ok:
            self.fail(kind, detail() if callable(detail) else detail)
            return False
        return True


class Sim:
    """Discrete-event core: events are ordered by (time, sequence number)."""

    def __init__(self, ctx: Ctx):
        self.now = 0.0
        self.seq = 0
        self.q: list = []
        self.ctx = ctx

    def at(self, t: float, fn):
        self.seq += 1
        heapq.heappush(self.q, (max(t, self.now), self.seq, fn))

    def after(self, dt: float, fn):
        self.at(self.now + dt, fn)

    def run(self, until: float = math.inf):
        while self.q and self.q[0][0] <= until:
            t, _, fn = heapq.heappop(self.q)
            self.now = t
            fn()
        self.ctx.sim_time = max(self.ctx.sim_time, self.now)


def innermost_repo_frame(tb) -> str | None:
    """file:function of the innermost frame inside the code under test."""
    found = None
    for fr in traceback.extract_tb(tb):
        fn = os.path.realpath(fr.filename)
        if fn.startswith(REPO + os.sep):
            found = f"{os.path.relpath(fn, REPO)}:{fr.name}"
    return found


def execute(module, plan: dict, known: dict | None = None, keep_log=False) -> dict:
    """Runs a plan; returns a JSON-able result."""
    ctx = Ctx(plan["property"], known)
    ctx.keep_log = keep_log
    old_hook = sys.breakpointhook
    old_out = sys.stdout
    sys.breakpointhook = _trap
    random.seed(plan["seed"] & 0xFFFFFFFF)
    np.random.seed(plan["seed"] & 0xFFFFFFFF)
    violation = None
    harness_error = None
    sink = open(os.devnull, "w")
    sys.stdout = sink
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            module.execute(ctx, plan)
    except Violation as v:
        violation = {"kind": v.kind, "detail": v.detail[:2000]}
    except RunTimeout:
        violation = {"kind": "hang", "detail": "the run made no progress within its allowance"}
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        where = innermost_repo_frame(e.__traceback__)
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if where is not None:
            kind = "abort"
            if "abort" in (known or {}):
                pass
            violation = {"kind": kind, "detail": f"{type(e).__name__} at {where}: {e}\n{text}"}
        else:
            harness_error = text
    finally:
        sys.breakpointhook = old_hook
        sys.stdout = old_out
        sink.close()
        logging.disable(logging.NOTSET)
    return {
        "violation": violation,
        "harness_error": harness_error,
        "digest": ctx.digest(),
        "faults": ctx.faults,
        "probes": ctx.probes,
        "checks": ctx.checks,
        "sim_time": ctx.sim_time,
        "events": ctx.events,
        "states": ctx.states,
        "known_hits": ctx.known_hits,
        "log": ctx.log,
    }


def generate(module, prop: str, seed: int, tier: str) -> dict:
    rng = Rng(seed)
    plan = module.generate(rng, tier)
    plan.setdefault("ops", [])
    plan.setdefault("faults", [])
    plan.setdefault("config", {})
    plan["property"] = prop
    plan["seed"] = seed
    # The plan must be exactly what a replay file can hold.
    return json.loads(json.dumps(plan))
