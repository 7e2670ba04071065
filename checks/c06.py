from fractions import Fraction as F
from math import log

from lib import families as fam
from lib import ref as R
from lib.ref import Ref, bits

import numpy as np

PROPERTY = 'C06'
RULE = ('every chain of the enumerated families; stationary distributions, rank and determinant compared with exact rational solutions; '
        'non-trivial: several recurrent classes, transient states or a non-uniform stationary distribution')
ASSUMPTIONS = ['numbers are compared within 1e-8 relative or 1e-12 absolute (1e-6 for spectral radii of possibly defective adjacency matrices)',
               'reversibility is not judged when a detailed-balance difference lies within 100 times the tolerance of the library']


def jobs(tier, seed):
    if tier == 'quick':
        s = [(('grid', 2, 8), 1), (('sup', 3, 'd'), 4), (('sup', 3, 's'), 4), (('sup', 3, 'u'), 2), (('grid', 3, 4), 16), (('can', 4, 'd', [1]), 32),
             (('can', 4, 'u', [2]), 32), (('fun', 5), 12), (('two', 3, 'd'), 4), (('struct', 'd', [0, 3]), 32), (('struct', 's', [1]), 16), (('can', 4, 't', [0]), 32), (('wide', [11], 'd', [0, 3]), 20), (('wide', [11], 't', [1]), 10), (('sup', 3, 't'), 4), (('two', 3, 't'), 2)]
    else:
        s = [(('sup', 3, 't'), 4), (('can', 4, 't', [0, 1]), 64), (('grid', 2, 30), 1), (('sup', 3, 'd'), 4), (('sup', 3, 's'), 4), (('sup', 3, 'u'), 2), (('grid', 3, 4), 16), (('grid', 3, 6), 64), (('grid', 4, 2), 64),
             (('sup', 4, 'd'), 200), (('sup', 4, 'u'), 200), (('can', 4, 's', [1, 2, 3]), 64), (('fun', 5), 12), (('fun', 6), 100), (('two', 4, 'd'), 64),
             (('two', 5, 'd'), 1600), (('struct', 'd', [0, 1, 2, 3]), 32), (('struct', 's', [1, 4]), 32), (('struct', 'u', [2]), 16)]
    return fam.make_jobs(s, 1)


cases = fam.case_iter


def spectral_radius(masks_succ, classes):
    """Bounds of the spectral radius of a 0/1 matrix by Collatz-Wielandt on every strongly connected class."""
    lo_all, hi_all = F(0), F(0)
    for c in classes:
        m = len(c)
        b = [[(1 if masks_succ[c[i]] >> c[j] & 1 else 0) + (i == j) for j in range(m)] for i in range(m)]
        x = [1] * m
        lo, hi = F(0), F(m + 1)
        for _ in range(400):
            y = [sum(x[j] for j in range(m) if b[i][j] == 1) + sum(2 * x[j] for j in range(m) if b[i][j] == 2) for i in range(m)]
            q = [F(y[i], x[i]) for i in range(m)]
            lo, hi = max(lo, min(q)), min(hi, max(q))
            if hi - lo < F(1, 10**9):
                break
            s = max(y)
            x = [max(1, v * 10**18 // s) for v in y] if s > 10**18 else y
        lo_all, hi_all = max(lo_all, lo - 1), max(hi_all, hi - 1)
    return float(lo_all), float(hi_all)


def check(ctx, case):
    import pydtmc
    N = case['N']
    n = len(N)
    r = Ref(N)
    st = fam.labels(case['L'], n)
    mc = pydtmc.MarkovChain(r.Pf(), st)
    ctx.states += 1
    pis = r.pi()
    if len(pis) > 1 or r.transient or len(set(pis[0])) > 1:
        ctx.nontrivial += 1
    got = mc.pi
    ctx.transitions += 9
    if not ctx.same('number of stationary distributions', len(got), len(pis)):
        return
    for g, e, c in zip(got, pis, r.recurrent_classes):
        ctx.close('pi', g, R.fl(e), 1e-8, 1e-12)
        ctx.same('support of pi', [i for i in range(n) if g[i] != 0.0], c)
        ctx.expect(abs(float(np.sum(g)) - 1.0) < 1e-12 and np.all(g >= 0.0), 'pi is a distribution', lambda: g)
    for name in ('stationary_distributions', 'steady_states'):
        ctx.same('pi alias', list(getattr(mc, name)), list(got))
    # reversibility
    if len(pis) > 1:
        ctx.same('is-reversible', mc.is_reversible, False)
    else:
        x = [[pis[0][i] * r.P[i][j] for j in range(n)] for i in range(n)]
        diffs = [(abs(x[i][j] - x[j][i]), max(x[i][j], x[j][i])) for i in range(n) for j in range(i)]
        if all(d == 0 for d, _ in diffs):
            ctx.same('is-reversible', mc.is_reversible, True)
        elif any(d > F(1, 10**6) + m / 1000 for d, m in diffs):
            ctx.same('is-reversible', mc.is_reversible, False)
        else:
            ctx.count('reversibility_skipped')
    # entropies
    lo, hi = spectral_radius(r.succ, r.classes)
    te = mc.topological_entropy
    ctx.traces += 1
    ctx.expect(log(max(lo, 1e-300)) - 1e-6 <= te <= log(hi) + 1e-6, 'topological-entropy', lambda: f'{te} not in log [{lo}, {hi}]')
    if len(pis) > 1:
        ctx.same('entropy-rate', mc.entropy_rate, None)
        ctx.same('entropy-rate-normalized', mc.entropy_rate_normalized, None)
    else:
        h = -sum(float(pis[0][i] * v) * log(v) for i in range(n) if pis[0][i] for v in r.P[i] if v)
        ctx.close('entropy-rate', mc.entropy_rate, h, 1e-8, 1e-9 if h > 1e-6 else 1e-3 * h)
        ctx.expect(mc.entropy_rate >= 0.0, 'entropy-rate sign', lambda: mc.entropy_rate)
        hn = mc.entropy_rate_normalized
        if h < 1e-7:
            ctx.close('entropy-rate-normalized', hn, 0.0, 0.0, 1e-6)
        else:
            ctx.close('entropy-rate-normalized', hn, min(1.0, max(0.0, h / log((lo + hi) / 2))), 1e-5, 1e-7)
    ctx.close('determinant', mc.determinant, float(R.det(r.P)), 1e-8, 1e-11)
    if max(v for row in N for v in row) < 10**5:
        ctx.same('rank', int(mc.rank), R.rank(r.P))
    ctx.close('density', mc.density, sum(1 for i in range(n) for j in range(n) if i != j and N[i][j]) / (n * (n - 1)), 1e-12, 0)
