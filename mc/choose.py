"""Stateless search: every random decision of the code under test is a choice point, enumerated depth first by replaying
prefixes.  Beyond `depth` choices the value is fixed (a deterministic pattern), which bounds the exploration."""
import random as _random
import sys
import numpy as np
from contextlib import contextmanager
from kit import Violation


class Chooser:
    def __init__(self, prefix, depth):
        self.prefix, self.taken, self.width, self.extra = prefix, [], [], 0
        self.budget = dict(depth) if isinstance(depth, dict) else {None: depth}

    def pick(self, n, kind=None):
        i = len(self.taken)
        if n <= 1:
            return 0
        kind = kind if kind in self.budget else None
        left = self.budget.get(kind, 0)
        self.budget[kind] = left - 1        # float("inf") stays unlimited
        if left <= 0:
            self.extra += 1
            return (self.extra * 7 + 3) % n
        v = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append(v); self.width.append(n)
        return v

    def next(self):
        t = list(self.taken)
        while t and t[-1] == self.width[len(t) - 1] - 1:
            t.pop()
        if not t:
            return None
        t[-1] += 1
        return t


def explore(depth, first=None, limit=None):
    """Yields choosers until every choice sequence up to `depth` was executed.  `depth`: number of explored choices, or a
    budget per kind of choice ("rnd", "cost", "acc").  `first`: fixed prefix (partitions work)."""
    prefix, n = list(first or []), 0
    fixed = len(prefix)
    while prefix is not None:
        ch = Chooser(prefix, depth)
        yield ch
        n += 1
        if limit and n >= limit:
            return
        prefix = ch.next()
        if prefix is not None and fixed and prefix[:fixed] != list(first):
            return


UNIT = [0.0, 0.3, 0.75, 0.999999]


NAMES = ("random", "uniform", "randrange", "randint", "choice")
NP_NAMES = ("random", "rand", "random_sample", "uniform", "randint", "choice")
REAL = {n: getattr(_random, n) for n in NAMES}
_holders = {}


def holders(modules):
    """(module, attribute, name) wherever a loaded module of the code under test imported a random function by name."""
    key = len(sys.modules)
    if key not in _holders:
        own = [m for n, m in list(sys.modules.items()) if m is not None and n.split(".")[0] in ("itcl_quantizer", "itcl_quantization", "itcl_inference_engine", "demo_lib", "simanneal")]
        _holders[key] = [(m, k, n) for m in {id(m): m for m in own + list(modules)}.values() for k, v in list(vars(m).items()) for n in NAMES if v == REAL[n]]
    return _holders[key]


@contextmanager
def controlled(ch, modules, unit=UNIT, spread=None):
    """The random functions draw from the chooser, in the random module, in numpy.random and wherever the code under test
    imported them by name.  `spread(n)`: subset of range(n) that is explored (default: all)."""
    def idx(n):
        s = list(spread(n)) if spread else range(n)
        return s[ch.pick(len(s), "rnd")]
    fake = {
        "random": lambda: unit[ch.pick(len(unit), "rnd")],
        "randrange": lambda start, stop=None, step=1: (idx(len(range(start))) if stop is None else range(start, stop, step)[idx(len(range(start, stop, step)))]),
        "randint": lambda a, b: a + idx(b - a + 1),
        "choice": lambda seq: seq[idx(len(seq))],
    }
    fake["uniform"] = lambda a, b: a + (b - a) * fake["random"]()

    def sized(one, size):
        if size is None:
            return one()
        return np.array([one() for _ in range(int(np.prod(size)))]).reshape(size)
    np_fake = {
        "random": lambda size=None: sized(fake["random"], size),
        "random_sample": lambda size=None: sized(fake["random"], size),
        "rand": lambda *size: sized(fake["random"], size or None),
        "uniform": lambda low=0.0, high=1.0, size=None: sized(lambda: fake["uniform"](low, high), size),
        "randint": lambda low, high=None, size=None, dtype=int: sized(lambda: fake["randrange"](low, high), size),
        "choice": lambda a, size=None, replace=True, p=None: sized(lambda: fake["choice"](range(a) if np.ndim(a) == 0 else a), size),
    }
    saved = []
    for m, attr, name in holders(modules):
        saved.append((m, attr, getattr(m, attr))); setattr(m, attr, fake[name])
    for name in NAMES:
        saved.append((_random, name, getattr(_random, name))); setattr(_random, name, fake[name])
    for name in NP_NAMES:
        saved.append((np.random, name, getattr(np.random, name))); setattr(np.random, name, np_fake[name])
    try:
        yield
    finally:
        for m, name, real in reversed(saved):
            setattr(m, name, real)


class Landscape:
    """A cost function over hidden states: the value of every newly visited state is a choice."""

    def __init__(self, ch, values):
        self.ch, self.values, self.memo, self.order = ch, values, {}, []

    def __call__(self, key):
        if key not in self.memo:
            self.memo[key] = self.values[self.ch.pick(len(self.values), "cost")]
        self.order.append(key)
        if len(self.order) > 5000:      # a finite landscape ends within a few dozen evaluations
            raise Violation("the search does not end")
        return self.memo[key]

    def best(self):
        return min(self.memo.values())
