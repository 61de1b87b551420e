"""Helpers shared by the scenarios."""
import random

from .engine import ScenarioBase, clone, derive  # noqa
from .faults import Injected, InjectedBase  # noqa


def spawn_all(sim, fns, names=None):
    return [sim.spawn(fn, names[i] if names else f"client{i}") for i, fn in enumerate(fns)]


def run_all(sim, fns, names=None):
    sim.join(*spawn_all(sim, fns, names))


def weighted(rng, table):
    """table: list of (weight, value)"""
    total = sum(w for w, _ in table)
    r = rng.random() * total
    for w, v in table:
        r -= w
        if r < 0:
            return v
    return table[-1][1]


def other_index(i, n, f):
    """The place i to insert at in a list of n items, told in one of the ways list.insert understands."""
    j = int(f * 997) % 4
    if j == 0 and i < n:
        return i - n
    if j == 1 and i == n:
        return n + 3
    if j == 2 and i == 0:
        return -n - 2
    return i


def from_end(i, n, f):
    """The index of item i of n, at times counted from the end."""
    return i - n if int(f * 997) % 4 == 0 else i


class Hashed:
    """An object whose place in sets and dicts is decided by the plan, not by its address."""

    def __init__(self, h):
        self._h = h

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other


def linearizable(ops, init, apply):
    """ops: list of (begin, end, operation, result); apply(state, operation) -> (result, state).  Real-time order kept."""
    n = len(ops)
    order = sorted(range(n), key=lambda i: ops[i][0])
    seen = set()

    def search(done, state):
        if done == (1 << n) - 1:
            return True
        if (done, state) in seen:
            return False
        seen.add((done, state))
        horizon = min(ops[i][1] for i in order if not done >> i & 1)
        for i in order:
            if done >> i & 1:
                continue
            if ops[i][0] > horizon:
                break
            r, s = apply(state, ops[i][2])
            if r == ops[i][3] and search(done | 1 << i, s):
                return True
        return False

    return search(0, init)
