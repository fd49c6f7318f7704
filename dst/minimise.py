"""Shrinks a failing plan: faults first, then operations, then scenario-specific
simplifications, keeping the class of violation."""
from __future__ import annotations

import copy
import time


def _ddmin(items, fails, deadline):
    n = 2
    while items and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        chunks = [items[i : i + size] for i in range(0, len(items), size)]
        for k in range(len(chunks)):
            rest = [x for j, c in enumerate(chunks) if j != k for x in c]
            if fails(rest):
                items = rest
                n = max(2, n - 1)
                break
            if time.monotonic() > deadline:
                return items
        else:
            if size == 1:
                break
            n = min(len(items), 2 * n)
    return items


def minimise(plan, run, kind, budget_s=60.0, simplify=None):
    """`run(plan)` returns the violation kind or None."""
    deadline = time.monotonic() + budget_s
    best = copy.deepcopy(plan)
    runs = 0

    def attempt(candidate):
        nonlocal runs
        runs += 1
        return run(candidate) == kind

    for key in ("faults", "ops", "faults"):
        if not best.get(key):
            continue

        def fails(rest, key=key):
            c = copy.deepcopy(best)
            c[key] = rest
            return attempt(c)

        if fails([]):
            best[key] = []
            continue
        best[key] = _ddmin(best[key], fails, deadline)

    if simplify is not None:
        progress = True
        while progress and time.monotonic() < deadline:
            progress = False
            for cand in simplify(copy.deepcopy(best)):
                if time.monotonic() > deadline:
                    break
                if attempt(cand):
                    best = cand
                    progress = True
                    break
    return best, runs
