import itertools
import math
from fractions import Fraction as F

from lib import families as fam

import numpy as np
import scipy.special as sp

PROPERTY = 'C27'
RULE = ('every size up to a bound and every combination of parameters over grids including the boundary values and extreme magnitudes, of every parametric family; '
        'non-trivial: a boundary value or an extreme magnitude among the parameters')
ASSUMPTIONS = ['births in the last state and deaths in the first one are rejected', 'urns of 2n balls; populations with absorbing ends, selection before mutation '
               'weighted as 1-s (Moran) and 1+s (Wright-Fisher)', 'numbers are compared within 1e-9; the normal distribution functions and the exact rational formulas of the reference are trusted']

RHOS = [-1.0, -0.99, -0.9, -0.5, -0.1, 0.0, 0.25, 0.5, 0.9, 0.99, 1.0]
SIGMAS = [1.0, 0.1, 3.3, 1e-12, 1e6]
ALPHAS = [0.0, -2.5, 1e3]
PAIRS = [(F(0), F(0)), (F(1, 4), F(1, 4)), (F(1, 2), F(1, 2)), (F(1), F(0)), (F(0), F(1)), (F(1, 8), F(3, 4)), (F(3, 4), F(0)), (F(0), F(1, 8)),
         (F(1, 2), F(1, 2) - F(1, 2**12)), (F(2**30 - 1, 2**30), F(0))]


def jobs(tier, seed):
    q = tier == 'quick'
    out = []
    for n in range(2, 6 if q else 9):
        out += [('ap', 'adda-cooper', n, i, len(RHOS), q) for i in range(len(RHOS))]
    for kind in ('rouwenhorst', 'tauchen', 'tauchen-hussey'):
        out += [('ap', kind, n, 0, 1, q) for n in (range(2, 13) if q else list(range(2, 26)) + [40])]
    out += [('ruin', n) for n in (list(range(3, 13)) + [30] + ([] if q else [60, 120]))]
    out += [('bd', n, i, m) for n, m in ((2, 1), (3, 2), (4, 16)) for i in range(m)] + [('bdl', 20), ('bdl', 100)]
    if not q:
        out += [('bd', 5, i, 100) for i in range(100)]
    out += [('urn', n) for n in list(range(1, 13)) + ([] if q else [25, 50])]
    out += [('wf', n) for n in list(range(2, 13)) + [50] + ([] if q else [20, 100, 500])]
    out += [('mo', n) for n in list(range(2, 13)) + [50] + ([] if q else [20, 100, 500])]
    return out + [('id', 0)]


def cases(job):
    k = job[0]
    if k == 'ap':
        q = job[5]
        for rho in RHOS[job[3]::job[4]]:
            for a, s in itertools.product(ALPHAS, SIGMAS):
                if job[1] != 'rouwenhorst' and q and (job[1][0] == 'a' or job[2] > 5) and (ALPHAS.index(a) + SIGMAS.index(s) + RHOS.index(rho)) % 5 > 1:
                    continue
                for kk in {'tauchen': (None, 1.0, 2.5, 6.0), 'tauchen-hussey': (None, 0.5, 2.0, s)}.get(job[1], (None,)):
                    yield {'f': 'ap', 'type': job[1], 'n': job[2], 'rho': rho, 'alpha': a, 'sigma': s, 'k': kk}
    elif k == 'ruin':
        for w in (1e-300, 1e-9, 0.125, 0.3, 0.5, 0.75, 1.0 - 2.0**-53):
            yield {'f': 'ruin', 'n': job[1], 'w': w}
    elif k == 'bd':
        for c in itertools.islice(itertools.product(range(len(PAIRS)), repeat=job[1]), job[2], None, job[3]):
            yield {'f': 'bd', 'c': list(c), 'ends': True}
            if job[1] <= 3:
                yield {'f': 'bd', 'c': list(c), 'ends': False}
    elif k == 'bdl':
        for a, b in itertools.product(range(len(PAIRS)), repeat=2):
            yield {'f': 'bd', 'c': [a if i % 3 else b for i in range(job[1])], 'ends': True}
    elif k == 'urn':
        for m in ('ehrenfest', 'bernoulli-laplace'):
            yield {'f': 'urn', 'm': m, 'n': job[1]}
    elif k in ('wf', 'mo'):
        ms = [0.0, 1e-9, 0.25, 0.5, 1.0] if k == 'mo' else [0.0, 1e-9, 0.125 / job[1], 0.25 / job[1]]
        ss = [-1.0, -0.5, 0.0, 1e-3, 0.25, 1.0] + ([3.0] if k == 'wf' else [])
        for s, u, v in itertools.product(ss, ms, ms):
            if k == 'mo' or 4.0 * job[1] * max(u, v) <= 1.0:
                yield {'f': k, 'n': job[1], 's': s, 'u': u, 'v': v}
    else:
        for n in list(range(2, 14)) + [64, 100]:
            yield {'f': 'id', 'n': n}


def model(ctx, case, size, exp, make, kind='transition probabilities', alt=None, rtol=1e-9, atol=1e-12):
    """Compares the model with the expected matrix, without and with labels; returns the model."""
    mc = make({})
    ctx.transitions += 2
    ctx.same('size', mc.size, size)
    ctx.same('default labels', mc.states, [str(i) for i in range(1, size + 1)])
    p = np.asarray(mc.p)
    ctx.expect(np.abs(p.sum(axis=1) - 1.0).max() < 1e-9 and p.min() >= 0.0 and p.max() <= 1.0 + 1e-12, 'valid rows', lambda: p.tolist())
    e = np.array([[float(v) for v in r] for r in exp])
    if alt is not None and not np.allclose(p, e, rtol=rtol, atol=atol) and np.allclose(p, alt[1], rtol=rtol, atol=atol):
        ctx.known(alt[0], f'{case}')
        ctx.traces += 1
    else:
        ctx.close(kind, p, e, rtol, atol)
    lab = fam.labels(fam.MODES[size % 4], size)
    mc2 = make({'states': list(lab)})
    ctx.same('labels', mc2.states, list(lab))
    ctx.expect(np.array_equal(mc2.p, mc.p), 'labels change the probabilities')
    return mc


def check(ctx, case):
    ctx.states += 1
    {'ap': check_ap, 'ruin': check_ruin, 'bd': check_bd, 'urn': check_urn, 'wf': check_wf, 'mo': check_mo, 'id': check_id}[case['f']](ctx, case)


def check_id(ctx, case):
    import pydtmc
    n = case['n']
    mc = model(ctx, case, n, np.eye(n).tolist(), lambda kw: pydtmc.MarkovChain.identity(n, **kw))
    ctx.same('absorbing', sorted(mc.absorbing_states), sorted(mc.states))


def check_ruin(ctx, case):
    import pydtmc
    n, w = case['n'], case['w']
    ctx.nontrivial += w in (1e-300, 1e-9, 1.0 - 2.0**-53)
    e = [[0] * n for _ in range(n)]
    e[0][0] = e[-1][-1] = F(1)
    for i in range(1, n - 1):
        e[i][i + 1], e[i][i - 1] = F(w), 1 - F(w)
    mc = model(ctx, case, n, e, lambda kw: pydtmc.MarkovChain.gamblers_ruin(n, w, **kw), atol=0.0)
    ctx.same('absorbing states', mc.absorbing_states, ['1', str(n)])
    rho = (1 - F(w)) / F(w)
    if 0.1 <= w <= 0.9:
        win = [F(i, n - 1) if rho == 1 else (1 - rho**i) / (1 - rho**(n - 1)) for i in range(1, n - 1)]
        ap = np.asarray(mc.absorption_probabilities())
        ctx.close('probability of ruin', ap, [[float(1 - x) for x in win], [float(x) for x in win]], 1e-7, 1e-12)


def check_bd(ctx, case):
    import pydtmc
    c = case['c']
    n = len(c)
    up, dn = [PAIRS[i][0] for i in c], [PAIRS[i][1] for i in c]
    if case['ends']:
        up[-1] = dn[0] = F(0)
    e = []
    for i in range(n):
        r = [F(0)] * n
        r[i] = 1 - up[i] - dn[i]
        if i < n - 1:
            r[i + 1] = up[i]
        if i:
            r[i - 1] = dn[i]
        e.append(r)
    ctx.nontrivial += any(r[i] == 0 for i, r in enumerate(e))
    p, q = [float(x) for x in up], [float(x) for x in dn]
    as_list = sum(c) % 2 == 0
    for i in range(n):
        for d in (1e-9, 1e-3):
            if up[i] + dn[i] == 1 and i < n - 1:
                try:
                    pydtmc.MarkovChain.birth_death([v + d * (i == j and up[i] < 1) for j, v in enumerate(p)], [v + d * (i == j and up[i] == 1) for j, v in enumerate(q)])
                    ctx.fail('sums of births and deaths above 1', f'{p} {q} {i} {d} accepted')
                except pydtmc.ValidationError:
                    ctx.traces += 1
    if up[-1] or dn[0]:
        try:
            pydtmc.MarkovChain.birth_death(p, q)
            ctx.fail('births in the last state', 'accepted')
        except pydtmc.ValidationError:
            ctx.traces += 1
        ctx.count('rejected')
        return
    mc = model(ctx, case, n, e, lambda kw: pydtmc.MarkovChain.birth_death(p if as_list else np.array(p), q if as_list else np.array(q), **kw))
    if n <= 4 and all(e[i][i + 1] > 0 and e[i + 1][i] > 0 for i in range(n - 1)) and all(e[i][j] == 0 for i in range(n) for j in range(n) if abs(i - j) > 1):
        w = [F(1)]
        for i in range(n - 1):
            w.append(w[-1] * e[i][i + 1] / e[i + 1][i])
        ctx.expect(len(mc.pi) == 1, 'one stationary distribution')
        ctx.close('stationary distribution', mc.pi[0], [float(x / sum(w)) for x in w], 1e-8, 1e-10)
        ctx.expect(mc.is_reversible, 'reversible')


def check_urn(ctx, case):
    import pydtmc
    n, m = case['n'], case['m']
    d = 2 * n
    e = [[F(0)] * (d + 1) for _ in range(d + 1)]
    for i in range(d + 1):
        x = F(i, d)
        if m == 'ehrenfest':
            probs = (x, F(0), 1 - x)
        else:
            probs = (x * x, 2 * x * (1 - x), (1 - x)**2)
        for k, v in zip((i - 1, i, i + 1), probs):
            if v:
                e[i][k] = v
    mc = model(ctx, case, d + 1, e, lambda kw: pydtmc.MarkovChain.urn_model(m, n, **kw))
    w = [math.comb(d, i)**(1 if m == 'ehrenfest' else 2) for i in range(d + 1)]
    if d <= 16:
        ctx.close('stationary distribution', mc.pi[0], [x / sum(w) for x in w], 1e-7, 1e-10)
        ctx.same('period', mc.period, 2 if m == 'ehrenfest' else 1)
    ctx.nontrivial += n == 1


def check_wf(ctx, case):
    import pydtmc
    n, s, u, v = case['n'], F(case['s']), F(case['u']), F(case['v'])
    e = [[F(0)] * (n + 1) for _ in range(n + 1)]
    e[0][0] = e[n][n] = F(1)
    for i in range(1, n):
        x = F(i, n)
        m = x * (1 - u) + (1 - x) * v
        t = m * (1 + s) / (1 + m * s)
        if n <= 20:
            e[i] = [math.comb(n, j) * t**j * (1 - t)**(n - j) for j in range(n + 1)]
        else:
            f = float(t)
            if f in (0.0, 1.0):
                e[i] = [float(j == f * n) for j in range(n + 1)]
            else:
                e[i] = [math.exp(math.lgamma(n + 1) - math.lgamma(j + 1) - math.lgamma(n - j + 1) + j * math.log(f) + (n - j) * math.log1p(-f)) for j in range(n + 1)]
    ctx.nontrivial += case['s'] in (-1.0, 0.0) or case['u'] == 0.0 or case['v'] == 0.0
    model(ctx, case, n + 1, e, lambda kw: pydtmc.MarkovChain.population_genetics_model('wright-fisher', n, case['s'], case['u'], case['v'], **kw))


def check_mo(ctx, case):
    import pydtmc
    n, s, u, v = case['n'], F(case['s']), F(case['u']), F(case['v'])

    def matrix(a):
        e = [[F(0)] * (n + 1) for _ in range(n + 1)]
        e[0][0] = e[n][n] = F(1)
        for i in range(1, n):
            g, h = (1 - s) * i, F(n - i)       # weights of the two types among the parents
            one = (g * (1 - u) + h * v) / (g + h)      # the offspring is of the first type
            two = (g * a + h * (1 - v)) / (g + h)
            dn, up = F(i, n) * two, F(n - i, n) * one
            e[i][i - 1], e[i][i], e[i][i + 1] = dn, 1 - dn - up, up
        return e
    ctx.nontrivial += case['s'] in (-1.0, 1.0) or case['u'] in (0.0, 1.0) or case['v'] in (0.0, 1.0)
    wrong = np.array([[float(x) for x in r] for r in matrix(v)])
    args = ('moran', n, case['s'], case['u'], case['v'])
    if u != v and wrong.min() < 0.0:
        try:
            mc = pydtmc.MarkovChain.population_genetics_model(*args)
        except (ValueError, pydtmc.ValidationError):
            return
        p = np.asarray(mc.p)
        if np.allclose(p, wrong / wrong.sum(axis=1, keepdims=True), rtol=1e-9, atol=1e-12):
            ctx.known('moran-mutations', f'{case}: {p.min()}')
        else:
            ctx.close('transition probabilities', p, [[float(x) for x in r] for r in matrix(u)], 1e-9, 1e-12)
        return
    model(ctx, case, n + 1, matrix(u), lambda kw: pydtmc.MarkovChain.population_genetics_model(*args, **kw), alt=('moran-mutations', wrong) if u != v else None)


# autoregressive processes ---------------------------------------------------

GL_X, GL_W = np.polynomial.legendre.leggauss(24)


def ref_adda(n, rho):
    s = math.sqrt(1.0 - rho * rho)
    z = sp.ndtri(np.arange(n + 1) / n)
    zc = np.clip(z, -9.0, 9.0)
    e = np.zeros((n, n))
    for i in range(n):
        cuts = set(np.linspace(zc[i], zc[i + 1], 60).tolist())
        if rho:
            for zz in zc[1:-1]:
                for d in (-3, -1, 0, 1, 3):
                    c = (zz + d * s) / rho
                    if zc[i] < c < zc[i + 1]:
                        cuts.add(float(c))
        cuts = np.array(sorted(cuts))
        x = ((cuts[1:] + cuts[:-1]) / 2)[:, None] + ((cuts[1:] - cuts[:-1]) / 2)[:, None] * GL_X
        w = ((cuts[1:] - cuts[:-1]) / 2)[:, None] * GL_W
        f = np.exp(-x * x / 2) / math.sqrt(2 * math.pi) * w * n
        c = [sp.ndtr((zz - rho * x) / s) for zz in z]
        for j in range(n):
            e[i, j] = float(np.sum(f * (c[j + 1] - c[j])))
    return e


def ref_tauchen(n, rho, k):
    if abs(abs(rho) - 1.0) < 1e-6:
        rho = math.copysign(1.0 - 1e-8, rho)
    y = 1.0 / math.sqrt((1.0 - rho) * (1.0 + rho))
    x = np.linspace(-k * y, k * y, n)
    h = k * y / (n - 1)
    e = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            a = -np.inf if j == 0 else x[j] - rho * x[i] - h
            b = np.inf if j == n - 1 else x[j] - rho * x[i] + h
            e[i, j] = sp.ndtr(b) - sp.ndtr(a) if b < 0 else sp.ndtr(-a) - sp.ndtr(-b)
    return e


def ref_rouwenhorst(n, rho):
    z, m = (1 + F(rho)) / 2, n - 1

    def binom(t, q):
        return [math.comb(t, j) * q**j * (1 - q)**(t - j) for j in range(t + 1)]
    e = []
    for i in range(n):
        a, b = binom(i, z), binom(m - i, 1 - z)
        r = [F(0)] * n
        for x, v in enumerate(a):
            for y, w in enumerate(b):
                r[x + y] += v * w
        e.append(r)
    return e


def ref_hussey(n, rho, sigma, k, scale):
    """The logarithms avoid underflows; the common mean alpha cancels out."""
    x, w = np.polynomial.hermite.hermgauss(n)
    y = x * scale * k
    lw = np.log(w)
    e = np.zeros((n, n))
    for i in range(n):
        lf = lw - ((y - rho * y[i]) / sigma)**2 / 2 + (y / k)**2 / 2
        f = np.exp(lf - lf.max())
        e[i] = f / f.sum()
    low = any((((y - rho * y[i]) / sigma)**2 / 2).min() > 650 for i in range(n)) or ((y / k)**2 / 2).max() > 650
    return e, low


def check_ap(ctx, case):
    import pydtmc
    kind, n, rho, alpha, sigma, k = case['type'], case['n'], case['rho'], case['alpha'], case['sigma'], case['k']
    ctx.nontrivial += abs(rho) == 1.0 or rho == 0.0 or sigma in (1e-12, 1e6)

    def make(kw):
        if k is not None:
            kw = dict(kw, k=k)
        return pydtmc.MarkovChain.approximation(n, kind, alpha, sigma, rho, **kw)

    def raises():
        try:
            make({})
        except ValueError:
            ctx.traces += 1
            return True
        return False
    unit = abs(rho) == 1.0
    if unit and (kind == 'adda-cooper' or (kind == 'tauchen-hussey' and k is None)):
        ctx.expect(raises(), 'undefined approximations are rejected')
        return
    if kind == 'adda-cooper':
        mc = model(ctx, case, n, ref_adda(n, rho), make, atol=1e-9)
        if n <= 5:
            ctx.close('stationary distribution', mc.pi[0], [1.0 / n] * n, 1e-6, 1e-8)
        return
    if kind == 'rouwenhorst':
        model(ctx, case, n, ref_rouwenhorst(n, rho), make)
        return
    if kind == 'tauchen':
        model(ctx, case, n, ref_tauchen(n, rho, 3.0 if k is None else k), make, atol=1e-7 if unit else 1e-10)
        return
    t = 0.5 + rho / 4.0
    kk = t * sigma + (1.0 - t) * sigma / math.sqrt(1.0 - rho**2) if k is None else k
    right, _ = ref_hussey(n, rho, sigma, kk, math.sqrt(2.0))
    wrong, low = ref_hussey(n, rho, sigma, kk, 2.0)
    if low and raises():
        ctx.count('underflows')
        return
    # large means lose the digits of the nodes; the same holds for standard deviations much lower than the one of the quadrature
    loose = 1e-9 + 1e-15 * (abs(alpha) + 5.0 * kk) / sigma * max(1.0, 5.0 * kk / sigma) * 100.0
    if loose > 1e-4:
        try:
            p = np.asarray(make({}).p)
        except ValueError:
            return
        ctx.traces += 1
        ctx.expect(np.isfinite(p).all() and p.min() >= 0.0 and np.abs(p.sum(axis=1) - 1.0).max() < 1e-9, 'valid rows', lambda: p.tolist())
        ctx.count('ill_conditioned')
        return
    model(ctx, case, n, right, make, alt=('tauchen-hussey-nodes', wrong), rtol=1e-9, atol=loose)
