"""Exact reference model of a finite Markov chain, written independently of the library (rational arithmetic, bit masks).

A chain is given by a matrix of non-negative integers N; the exact transition probabilities are N[i][j] / sum(N[i]).
"""

from fractions import Fraction as F
from math import gcd

import numpy as np


def solve(a, b):
    """Solves a x = b exactly; b may have several columns. Raises ZeroDivisionError when singular."""
    n = len(a)
    m = len(b[0])
    t = [list(map(F, a[i])) + list(map(F, b[i])) for i in range(n)]
    for c in range(n):
        piv = next((r for r in range(c, n) if t[r][c] != 0), None)
        if piv is None:
            raise ZeroDivisionError('singular')
        t[c], t[piv] = t[piv], t[c]
        d = t[c][c]
        row = t[c] = [v / d if v else v for v in t[c]]
        for r in range(n):
            if r != c:
                f = t[r][c]
                if f:
                    t[r] = [x - f * y if y else x for x, y in zip(t[r], row)]
    return [r[n:] for r in t]


def det(a):
    n = len(a)
    t = [list(map(F, r)) for r in a]
    d = F(1)
    for c in range(n):
        piv = next((r for r in range(c, n) if t[r][c] != 0), None)
        if piv is None:
            return F(0)
        if piv != c:
            t[c], t[piv] = t[piv], t[c]
            d = -d
        d *= t[c][c]
        for r in range(c + 1, n):
            if t[r][c]:
                f = t[r][c] / t[c][c]
                t[r] = [x - f * y for x, y in zip(t[r], t[c])]
    return d


def rank(a):
    t = [list(map(F, r)) for r in a]
    n, m, k = len(t), len(t[0]), 0
    for c in range(m):
        piv = next((r for r in range(k, n) if t[r][c] != 0), None)
        if piv is None:
            continue
        t[k], t[piv] = t[piv], t[k]
        for r in range(k + 1, n):
            if t[r][c]:
                f = t[r][c] / t[k][c]
                t[r] = [x - f * y for x, y in zip(t[r], t[k])]
        k += 1
    return k


def matmul(a, b):
    return [[sum((x * b[k][j] for k, x in enumerate(r) if x), F(0)) for j in range(len(b[0]))] for r in a]


def vecmat(v, a):
    return [sum((v[i] * a[i][j] for i in range(len(v)) if v[i]), F(0)) for j in range(len(a[0]))]


def matvec(a, v):
    return [sum((x * v[j] for j, x in enumerate(r) if x), F(0)) for r in a]


def identity(n):
    return [[F(int(i == j)) for j in range(n)] for i in range(n)]


def fl(x):
    """Nested lists of exact numbers -> nested lists of floats (None stays None)."""
    if isinstance(x, (list, tuple)):
        return [fl(v) for v in x]
    return None if x is None else float(x)


def bits(m):
    r = []
    i = 0
    while m:
        if m & 1:
            r.append(i)
        m >>= 1
        i += 1
    return r


class Ref:

    def __init__(self, N):
        self.N = N
        self.n = n = len(N)
        self.S = [sum(r) for r in N]
        self._P = None
        self.succ = [sum(1 << j for j in range(n) if N[i][j]) for i in range(n)]
        # reflexive and transitive closure
        reach = [self.succ[i] | (1 << i) for i in range(n)]
        for k in range(n):
            bk, rk = 1 << k, reach[k]
            for i in range(n):
                if reach[i] & bk:
                    reach[i] |= rk
        self.reach = reach
        seen, classes = 0, []
        for i in range(n):
            if seen >> i & 1:
                continue
            c = [j for j in bits(reach[i]) if reach[j] >> i & 1]
            for j in c:
                seen |= 1 << j
            classes.append(c)
        self.classes = sorted(classes, key=lambda c: (-len(c), c[0]))
        self.closed = {c[0]: reach[c[0]] == sum(1 << j for j in c) for c in classes}
        self.recurrent_classes = [c for c in self.classes if self.closed[c[0]]]
        self.transient_classes = [c for c in self.classes if not self.closed[c[0]]]
        self.recurrent = sorted(i for c in self.recurrent_classes for i in c)
        self.transient = sorted(i for c in self.transient_classes for i in c)
        self.absorbing = [i for i in range(n) if N[i][i] == self.S[i]]
        self.irreducible = len(self.classes) == 1
        self.periods_recurrent = {c[0]: self._period(c) for c in self.recurrent_classes}
        self.periods = [self.periods_recurrent.get(c[0], 1) for c in self.classes]
        self.period = 1
        for v in self.periods_recurrent.values():
            self.period = self.period * v // gcd(self.period, v)
        self.aperiodic = self.period == 1
        self.ergodic = self.irreducible and self.aperiodic
        # absorbing chain: an absorbing state can be reached from every state
        am = sum(1 << i for i in self.absorbing)
        self.is_absorbing = bool(am) and all(r & am for r in reach)
        self._pi = None

    @property
    def P(self):
        if self._P is None:
            self._P = [[F(v, s) for v in r] for r, s in zip(self.N, self.S)]
        return self._P

    def Pf(self):
        """The matrix of correctly rounded doubles given to the implementation."""
        return np.array([[v / s for v in r] for r, s in zip(self.N, self.S)], dtype=float)

    def _period(self, c):
        """Greatest common divisor of the lengths of the cycles of a closed class, from the return lengths themselves."""
        mask = sum(1 << j for j in c)
        level = {c[0]: 0}
        todo = [c[0]]
        g = 0
        while todo:
            u = todo.pop()
            for v in bits(self.succ[u] & mask):
                if v in level:
                    g = gcd(g, abs(level[u] + 1 - level[v]))
                else:
                    level[v] = level[u] + 1
                    todo.append(v)
        return g

    def cyclic_classes(self):
        if not self.irreducible:
            return []
        d = self.period
        level = {0: 0}
        todo = [0]
        while todo:
            u = todo.pop()
            for v in bits(self.succ[u]):
                if v not in level:
                    level[v] = (level[u] + 1) % d
                    todo.append(v)
        groups = {}
        for i in range(self.n):
            groups.setdefault(level[i], []).append(i)
        return sorted(groups.values(), key=lambda c: (-len(c), c[0]))

    def pi(self):
        """Stationary distributions, one per recurrent class, in the order of the recurrent classes."""
        if self._pi is None:
            out = []
            for c in self.recurrent_classes:
                m = len(c)
                a = [[(self.P[c[j]][c[i]] - (i == j)) for j in range(m)] for i in range(m)]
                a[m - 1] = [F(1)] * m
                x = solve(a, [[F(int(i == m - 1))] for i in range(m)])
                v = [F(0)] * self.n
                for i, s in enumerate(c):
                    v[s] = x[i][0]
                out.append(v)
            self._pi = out
        return self._pi

    def power(self, t):
        m = identity(self.n)
        for _ in range(t):
            m = matmul(m, self.P)
        return m

    # hitting ---------------------------------------------------------------

    def hitting_probabilities(self, targets):
        n, P = self.n, self.P
        tm = sum(1 << t for t in targets)
        # reach of the targets along paths: plain reachability (a path through a target has already hit)
        can = [i for i in range(n) if self.reach[i] & tm]
        unk = [i for i in can if not tm >> i & 1]
        h = [F(0)] * n
        for t in targets:
            h[t] = F(1)
        if unk:
            a = [[F(int(i == j)) - P[i][j] for j in unk] for i in unk]
            b = [[sum((P[i][t] for t in targets), F(0))] for i in unk]
            for i, x in zip(unk, solve(a, b)):
                h[i] = x[0]
        return h

    def hitting_times(self, targets):
        h = self.hitting_probabilities(targets)
        n, P = self.n, self.P
        k = [None] * n       # None stands for infinity
        for t in targets:
            k[t] = F(0)
        unk = [i for i in range(n) if h[i] == 1 and i not in targets]
        if unk:
            a = [[F(int(i == j)) - P[i][j] for j in unk] for i in unk]
            for i, x in zip(unk, solve(a, [[1]] * len(unk))):
                k[i] = x[0]
        return k

    def return_probability(self, i, j):
        """Probability of visiting j at some time >= 1 starting from i."""
        h = self.hitting_probabilities([j])
        return sum((self.P[i][k] * h[k] for k in range(self.n)), F(0))


# ---------------------------------------------------------------------------
# brute force over trajectories


def paths(P, start, steps):
    """All trajectories of positive probability: yields (states, probability)."""
    stack = [([start], F(1))]
    n = len(P)
    while stack:
        w, pr = stack.pop()
        if len(w) == steps + 1:
            yield w, pr
            continue
        u = w[-1]
        for v in range(n):
            if P[u][v]:
                stack.append((w + [v], pr * P[u][v]))


# ---------------------------------------------------------------------------
# canonical representatives of support patterns


def permute(N, perm):
    """Chain whose state k is state perm[k] of N."""
    return [[N[i][j] for j in perm] for i in perm]


# ---------------------------------------------------------------------------
# exact characteristic polynomials and accurate eigenvalues


def charpoly(a):
    """Coefficients (leading one first) of the characteristic polynomial, by Faddeev-LeVerrier."""
    n = len(a)
    c = [F(1)]
    m = [[F(0)] * n for _ in range(n)]
    for k in range(1, n + 1):
        m = matmul(a, m)
        for i in range(n):
            m[i][i] += c[-1]
        am = matmul(a, m)
        c.append(-sum(am[i][i] for i in range(n)) / k)
    return c


def _trim(p):
    i = 0
    while i < len(p) - 1 and p[i] == 0:
        i += 1
    return p[i:]


def _divmod(a, b):
    a, q = list(a), []
    while len(a) >= len(b):
        f = a[0] / b[0]
        q.append(f)
        for i in range(len(b)):
            a[i] -= f * b[i]
        a.pop(0)
    return q or [F(0)], _trim(a or [F(0)])


def _gcd(a, b):
    while len(b) > 1 or b[0] != 0:
        a, b = b, _divmod(a, b)[1]
    return [v / a[0] for v in a]


def _deriv(p):
    n = len(p) - 1
    return [v * (n - i) for i, v in enumerate(p[:-1])] or [F(0)]


def _shift(p):
    """Coefficients of p(x + 1)."""
    p = list(p)
    n = len(p)
    for k in range(1, n):
        for i in range(1, n - k + 1):
            p[i] = p[i] + p[i - 1]
    return p


def _cut(x):
    return F(round(x * (1 << 120)), 1 << 120)


def roots(p):
    """Roots of an exact polynomial with their multiplicities: list of (complex, multiplicity)."""
    out = []
    k = 0
    while len(p) > 1 and p[-1] == 0:
        p = p[:-1]
        k += 1
    if k:
        out.append((0j, k))
    if len(p) == 1:
        return out
    # square-free factorisation (Yun)
    d = _deriv(p)
    a = _gcd(p, d)
    b = _divmod(p, a)[0]
    c = _divmod(d, a)[0]
    mult = 1
    while len(b) > 1:
        db = _deriv(b)
        c = [F(0)] * (len(db) - len(c)) + c
        db = [F(0)] * (len(c) - len(db)) + db
        e = _trim([x - y for x, y in zip(c, db)])
        g = _gcd(b, e)
        if len(g) > 1:
            near = [complex(z) + 1 for z in np.roots([float(v) for v in _shift(g)]) if abs(z) < 0.5]
            far = sorted((complex(z) for z in np.roots([float(v) for v in g])), key=lambda z: -abs(z - 1))
            for z in near + far[:len(g) - 1 - len(near)]:
                dg = _deriv(g)
                re, im = F(z.real), F(z.imag)
                for _ in range(12):      # Newton steps with exact residuals
                    vr, vi = F(0), F(0)
                    for co in g:
                        vr, vi = vr * re - vi * im + co, vr * im + vi * re
                    wr, wi = F(0), F(0)
                    for co in dg:
                        wr, wi = wr * re - wi * im + co, wr * im + wi * re
                    step = complex(float(vr), float(vi)) / complex(float(wr), float(wi))
                    re, im = _cut(re - F(step.real)), _cut(im - F(step.imag))
                    if abs(step) < 1e-22:
                        break
                z = complex(float(re), float(im))
                out.append((z, mult))
        b = _divmod(b, g)[0]
        c = _divmod(e, g)[0]
        mult += 1
    return out
