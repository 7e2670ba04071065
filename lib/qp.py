"""Exact closest reversible chain: the minimiser of a weighted square distance over the polytope of the chains reversible for a distribution.

The vertices of the complementarity conditions are enumerated: every set of active inequalities is solved with fractions."""

import itertools
from fractions import Fraction as F

from . import ref as R


def closest_reversible(P, d, weighted):
    """Returns (optimal matrix, squared distance); P and d are lists of fractions."""
    n = len(P)
    var = []                      # every variable is a list of (i, j, coefficient) of off-diagonal entries
    for i in range(n):
        for j in range(i + 1, n):
            if d[i] == 0 and d[j] == 0:
                var += [[(i, j, F(1))], [(j, i, F(1))]]
            elif d[i] == 0:
                var.append([(i, j, F(1))])     # a null probability of i forbids the transitions from j to i
            elif d[j] == 0:
                var.append([(j, i, F(1))])
            else:
                var.append([(i, j, d[j]), (j, i, d[i])])
    m = len(var)
    # U = I + sum x_k B_k with B_k = offdiagonal part minus its row sums on the diagonal
    B = []
    for v in var:
        b = {}
        for i, j, c in v:
            b[i, j] = b.get((i, j), F(0)) + c
            b[i, i] = b.get((i, i), F(0)) - c
        B.append(b)

    def w(i, j):
        return d[i] / d[j] if weighted else F(1)
    T = [[P[i][j] - (i == j) for j in range(n)] for i in range(n)]
    H = [[sum((B[a][k] * B[b][k] * w(*k) for k in B[a] if k in B[b]), F(0)) for b in range(m)] for a in range(m)]
    g = [sum((B[a][k] * T[k[0]][k[1]] * w(*k) for k in B[a]), F(0)) for a in range(m)]
    # inequalities c.x >= e
    ineq = [([F(int(a == b)) for b in range(m)], F(0)) for a in range(m)]
    for i in range(n):
        ineq.append(([B[a].get((i, i), F(0)) for a in range(m)], F(-1)))

    def feasible(x):
        return all(sum((a * b for a, b in zip(c, x) if a and b), F(0)) >= e for c, e in ineq)

    for size in range(m + 1):
        for act in itertools.combinations(range(len(ineq)), size):
            k = m + size
            a = [[F(0)] * k for _ in range(k)]
            b = [[F(0)] for _ in range(k)]
            for r in range(m):
                for c in range(m):
                    a[r][c] = H[r][c]
                b[r][0] = g[r]
                for q, t in enumerate(act):
                    a[r][m + q] = -ineq[t][0][r]
                    a[m + q][r] = ineq[t][0][r]
            for q, t in enumerate(act):
                b[m + q][0] = ineq[t][1]
            try:
                s = [v[0] for v in R.solve(a, b)]
            except ZeroDivisionError:
                continue
            if all(v >= 0 for v in s[m:]) and feasible(s[:m]):     # Karush-Kuhn-Tucker: the problem is strictly convex
                x = s[:m]
                U = [[F(int(i == j)) for j in range(n)] for i in range(n)]
                for a_, bb in zip(x, B):
                    for (i, j), c in bb.items():
                        U[i][j] += a_ * c
                dist = sum(((U[i][j] - P[i][j])**2 * w(i, j) for i in range(n) for j in range(n)), F(0))
                return U, dist
    raise ArithmeticError('no optimum')
