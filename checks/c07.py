import itertools
from fractions import Fraction as F

from lib import families as fam
from lib import ref as R
from lib.ref import Ref

import numpy as np

PROPERTY = 'C07'
RULE = ('every chain of the enumerated families with every non-empty set of targets (given as labels, indices and in several orders); '
        'non-trivial: some hitting probability strictly between 0 and 1 or some infinite hitting time')
ASSUMPTIONS = ['numbers are compared within 1e-7 relative or 1e-9 absolute; no return probability of the families lies within 1e-4 of 1 without being 1',
               'the set of all the states is used when no targets are given']


def jobs(tier, seed):
    if tier == 'quick':
        s = [(('grid', 2, 8), 1), (('sup', 3, 'd'), 8), (('sup', 3, 'u'), 4), (('grid', 3, 3), 16), (('can', 4, 'd', [1]), 48),
             (('fun', 4), 8), (('two', 3, 's'), 4), (('struct5', 'd', [0, 3]), 48), (('sup', 3, 't'), 8), (('two', 3, 't'), 4), (('wide', [11], 'd', [0, 3]), 20)]
    else:
        s = [(('sup', 3, 't'), 8), (('can', 4, 't', [0, 1]), 64), (('grid', 2, 20), 1), (('sup', 3, 'd'), 8), (('sup', 3, 'u'), 4), (('sup', 3, 's'), 4), (('grid', 3, 3), 16), (('grid', 3, 4), 64), (('grid', 4, 2), 200),
             (('sup', 4, 'd'), 800), (('fun', 4), 8), (('fun', 5), 200), (('two', 3, 's'), 4), (('two', 4, 'u'), 200), (('struct5', 'd', [0, 1, 2, 3]), 200), (('struct', 'd', [1]), 200), (('wide', [9, 10, 11, 12, 13, 16, 17], 'd', [0, 3]), 140), (('wide', [11, 20], 's', [2]), 20)]
    return fam.make_jobs(s, 1)


def cases(job):
    (spec, i, k) = job
    if spec[0] == 'struct5':
        for c in fam.case_iter((('struct',) + tuple(spec[1:]), i, k)):
            if len(c['N']) <= 7:
                yield c
    else:
        yield from fam.case_iter(job)


INF = float('inf')


def agree(ctx, extreme, kind, got, exp):
    """Extremely unequal probabilities: null, infinite and positive entries are exact, the values are only compared coarsely."""
    if not extreme:
        return ctx.close(kind, got, exp, 1e-7, 1e-9)
    g, e = np.array(got, dtype=float), np.array(exp, dtype=float)
    ctx.expect(g.shape == e.shape and np.array_equal(np.isinf(g), np.isinf(e)), kind + ' infinite entries', lambda: f'got {got}, expected {exp}')
    if kind.startswith('mean-number'):
        ctx.expect(np.array_equal(g == 0.0, e == 0.0), kind + ' null entries', lambda: f'got {got}, expected {exp}')
    if extreme < 2:
        ctx.close(kind, got, exp, 1e-3, 1e-5)


def check(ctx, case):
    import pydtmc
    N = case['N']
    n = len(N)
    r = Ref(N)
    st = fam.labels(case['L'], n)
    mc = pydtmc.MarkovChain(r.Pf(), st)
    ctx.states += 1
    nontrivial = False
    ex = 0
    if max(v for row in N for v in row) > 10**4:     # 2: too ill-conditioned to compare values
        a = [[F(int(i == j)) - r.P[i][j] for j in r.transient] for i in r.transient]
        inv = R.solve(a, R.identity(len(a))) if a else []
        ex = 1 + (any(v > 10**8 for row in inv for v in row) or any(0 < v < F(1, 10**8) for row in r.P for v in row) and any(len(c) > 1 for c in r.recurrent_classes))
    single_h = {}
    sets = [s for m in range(1, n + 1) for s in itertools.combinations(range(n), m)]
    if n > 6:
        sets = [s for s in sets if len(s) <= 2 or len(s) >= n - 1]
    for idx, s in enumerate(sets):
        h = r.hitting_probabilities(s)
        t = r.hitting_times(s)
        if len(s) == 1:
            single_h[s[0]] = h
        arg = list(s) if idx % 2 else [st[i] for i in s]
        if idx % 3 == 2:
            arg = arg[::-1]
        if len(s) == 1 and idx % 2:
            arg = st[s[0]]
        agree(ctx, ex, 'hitting-probabilities', mc.hitting_probabilities(arg), R.fl(h))
        agree(ctx, ex, 'hitting-times', mc.hitting_times(arg), [INF if v is None else float(v) for v in t])
        ctx.transitions += 2
        nontrivial = nontrivial or any(0 < v < 1 for v in h) or None in t
    if nontrivial:
        ctx.nontrivial += 1
    agree(ctx, ex, 'hitting-probabilities all', mc.hitting_probabilities(), [1.0] * n)
    agree(ctx, ex, 'hitting-times all', mc.hitting_times(), [0.0] * n)
    # mean number of visits at times 1, 2, ...
    f = [[sum((r.P[i][k] * single_h[j][k] for k in range(n)), F(0)) for j in range(n)] for i in range(n)]
    mnv = [[0.0 if f[i][j] == 0 else (INF if f[j][j] == 1 else float(f[i][j] / (1 - f[j][j]))) for j in range(n)] for i in range(n)]
    agree(ctx, ex, 'mean-number-visits', mc.mean_number_visits(), mnv)
    agree(ctx, ex, 'mean-number-visits again', mc.mnv(), mnv)
    # absorbing chains
    fm, ap, mat, kc = mc.fundamental_matrix, mc.absorption_probabilities(), mc.mean_absorption_times(), mc.kemeny_constant
    ctx.transitions += 8
    if not r.is_absorbing or not r.transient:
        ctx.same('undefined when not absorbing', [fm, ap, mat, kc], [None] * 4)
    else:
        tr = r.transient
        m = len(tr)
        q = [[F(int(i == j)) - r.P[tr[i]][tr[j]] for j in range(m)] for i in range(m)]
        inv = R.solve(q, R.identity(m))
        agree(ctx, ex, 'fundamental-matrix', fm, R.fl(inv))
        agree(ctx, ex, 'kemeny-constant', kc, float(sum(inv[i][i] for i in range(m))))
        agree(ctx, ex, 'mean-absorption-times', mat, [float(sum(v)) for v in inv])
        agree(ctx, ex, 'absorption-probabilities', ap, [[float(single_h[a][i]) for i in tr] for a in r.absorbing])
