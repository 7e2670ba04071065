"""A random source whose every draw is a choice point of an exhaustive exploration.

The library takes its randomness either from numpy.random.mtrand._rand (no seed) or from numpy.random.RandomState(seed).
Both are replaced by the objects below while a scenario runs; `explore` then runs the scenario once for every possible
sequence of outcomes (depth-first, by replaying prefixes) and yields (result, probability of the outcomes).
"""

import itertools

import numpy as np
import numpy.random as npr
import numpy.random.mtrand as mtrand


class Chooser:

    def __init__(self, prefix):
        self.prefix = prefix
        self.trail = []           # (number of options, chosen)
        self.prob = 1.0

    def pick(self, weights):
        """weights: the probability of each option; options of weight None are possible outcomes of probability zero."""
        k = len(self.trail)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.trail.append((len(weights), c))
        w = weights[c]
        self.prob = self.prob * (w if w is not None else 0.0)
        return c


class FakeRandom:
    """Subset of the RandomState interface; uniform draws take the midpoints of a grid (or of the intervals between the given cuts, with their lengths as
    probabilities) plus the given extreme values."""

    def __init__(self, chooser, name, grid=4, extremes=(), cuts=None, limit=400):
        self._c = chooser
        self._name = name
        self._grid = grid
        if cuts is None:
            cuts = [j / grid for j in range(grid + 1)]
        self._points = [(a + b) / 2 for a, b in zip(cuts, cuts[1:])] + list(extremes)
        self._weights = [b - a for a, b in zip(cuts, cuts[1:])] + [None] * len(extremes)
        self._limit = limit
        self.draws = 0

    def _pick(self, weights):
        self.draws += 1
        if self.draws > self._limit:
            raise RuntimeError('too many draws')
        return self._c.pick(weights)

    def _array(self, size, one, dtype):
        if size is None:
            return one()
        shape = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
        flat = [one() for _ in range(int(np.prod(shape)))]
        return np.array(flat, dtype=dtype).reshape(shape)

    def choice(self, a, size=None, replace=True, p=None):
        if np.ndim(a) == 0:
            pop = np.arange(int(a))
        else:
            pop = np.asarray(a)
        if pop.ndim != 1 or len(pop) == 0:
            raise ValueError('a must be a non-empty 1-dimensional array or an integer')
        if p is None:
            w = np.full(len(pop), 1.0 / len(pop))
        else:
            w = np.array(p, dtype=float)
            if w.shape != (len(pop),):
                raise ValueError("'a' and 'p' must have same size")
            if not np.all(np.isfinite(w)) or np.any(w < 0.0):
                raise ValueError('probabilities are not non-negative')
            if abs(w.sum() - 1.0) > np.sqrt(np.finfo(float).eps):
                raise ValueError('probabilities do not sum to 1')
        alive = [i for i in range(len(pop)) if w[i] > 0.0]
        if replace or size is None:
            def one():
                return pop[alive[self._pick([float(w[i]) / float(w.sum()) for i in alive])]]
            return self._array(size, one, pop.dtype)
        left = list(alive)

        def one():
            tot = float(sum(w[i] for i in left))
            return pop[left.pop(self._pick([float(w[i]) / tot for i in left]))]
        return self._array(size, one, pop.dtype)

    def random(self, size=None):
        return self._array(size, lambda: self._points[self._pick(self._weights)], float)

    random_sample = random
    ranf = random
    sample = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def beta(self, a, b, size=None):
        """Every outcome on the grid is possible for every pair of parameters (their law is not modelled)."""
        return self.random(size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        if high <= low:
            raise ValueError('low >= high')
        return self._array(size, lambda: low + self._pick([1.0 / (high - low)] * (high - low)), int)

    def permutation(self, x):
        items = list(range(int(x))) if np.ndim(x) == 0 else list(np.asarray(x))
        out = []
        while items:
            out.append(items.pop(self._pick([1.0 / len(items)] * len(items)) if len(items) > 1 else 0))
        return np.array(out, dtype=None if out else int)

    def shuffle(self, x):
        perm = self.permutation(len(x))
        y = [x[i] for i in perm]
        for i, v in enumerate(y):
            x[i] = v

    def __getattr__(self, name):
        raise RuntimeError(f'the random source was asked for {name}, which is not modelled')


class Patched:
    """Installs the fake sources; records which of them are used and with which seeds."""

    def __init__(self, chooser, **kw):
        self.chooser = chooser
        self.kw = kw
        self.glob = FakeRandom(chooser, 'global', **kw)
        self.seeded = []

    def _factory(self, seed=None):
        f = FakeRandom(self.chooser, ('seed', seed), **self.kw)
        self.seeded.append((seed, f))
        return f

    def __enter__(self):
        self._old = (mtrand._rand, npr.RandomState, mtrand.RandomState)
        mtrand._rand = self.glob
        npr.RandomState = self._factory
        mtrand.RandomState = self._factory
        return self

    def __exit__(self, *exc):
        mtrand._rand, npr.RandomState, mtrand.RandomState = self._old
        return False


class TooMany(RuntimeError):
    pass


def explore(scenario, max_runs=200000, **kw):
    """Runs `scenario(patched)` for every sequence of outcomes; yields (result, probability, patched)."""
    prefix = []
    for _ in range(max_runs):
        ch = Chooser(prefix)
        with Patched(ch, **kw) as pt:
            res = scenario(pt)
        yield res, ch.prob, pt
        trail = ch.trail
        while trail and trail[-1][1] + 1 >= trail[-1][0]:
            trail.pop()
        if not trail:
            return
        prefix = [c for _, c in trail[:-1]] + [trail[-1][1] + 1]
    raise TooMany(f'more than {max_runs} sequences of outcomes')


def law(scenario, **kw):
    """The exact distribution of the (hashable) results: {result: probability}, and the number of outcome sequences."""
    out = {}
    runs = 0
    for res, pr, _ in explore(scenario, **kw):
        out[res] = out.get(res, 0.0) + pr
        runs += 1
    return out, runs


__all__ = ['FakeRandom', 'Patched', 'TooMany', 'explore', 'itertools', 'law']
