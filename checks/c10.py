import itertools
import math
from fractions import Fraction as F

from lib import families as fam
from lib import ref as R
from lib import spectral
from lib.ref import Ref

import numpy as np

PROPERTY = 'C10'
RULE = ('every chain of the enumerated families; eigenvalue moduli from the exact characteristic polynomial; time correlations and relaxations for all observation sequences of a set, '
        'all time points up to twice the size and all pairs of them; non-trivial: ergodic, or a time point above the size')
ASSUMPTIONS = ['an eigenvalue of multiplicity m is expected within 20 * (1e-15)^(1/m)', 'numbers are compared within 1e-8 relative or 1e-10 absolute elsewhere',
               'time points above the size of chains with complex spectra: see the known findings']


def jobs(tier, seed):
    extra = [[[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[1, 2, 0], [0, 1, 2], [2, 0, 1]], [[1, 3, 0, 0], [0, 1, 3, 0], [0, 0, 1, 3], [3, 0, 0, 1]],
             [[0, 1, 0, 0, 0], [0, 0, 1, 0, 0], [0, 0, 0, 1, 0], [0, 0, 0, 0, 1], [1, 1, 0, 0, 0]], [[1, 1, 0, 0], [0, 0, 1, 1], [1, 1, 0, 0], [0, 0, 1, 1]],
             [[2, 1, 1], [1, 2, 1], [1, 1, 2]], [[0, 1, 0], [0, 0, 1], [0, 0, 1]], [[1, 1, 0, 0], [0, 1, 1, 0], [0, 0, 1, 1], [0, 0, 0, 1]], [[1, 1, 1]] * 3, [[1, 2, 3, 4]] * 4, [[0, 1, 3], [2, 1, 1], [0, 1, 3]], [[int(j // 2 == i % 4) for j in range(8)] for i in range(8)],
             [[10**7 - 1, 1], [1, 10**7 - 1]], [[1, 10**7 - 1], [10**7 - 1, 1]], [[10**7 - 2, 2, 0], [1, 10**7 - 2, 1], [0, 2, 10**7 - 2]], [[0, 1, 0], [1, 0, 10**6], [0, 1, 0]],
             [[1, 10**6, 0], [10**6, 0, 1], [0, 1, 0]]]
    if tier == 'quick':
        s = [(('grid', 2, 10), 2), (('sup', 3, 'd'), 24), (('sup', 3, 's'), 16), (('grid', 3, 3), 32), (('list', extra), 4), (('can', 4, 'd', [1]), 64), (('wide', [11], 'd', [0, 3]), 20)]
    else:
        s = [(('grid', 2, 30), 8), (('sup', 3, 'd'), 24), (('sup', 3, 's'), 16), (('sup', 3, 'u'), 16), (('grid', 3, 4), 200), (('list', extra), 4), (('sup', 4, 'd'), 800), (('grid', 4, 2), 300),
             (('struct', 'd', [0, 1]), 64), (('fun', 5), 100), (('wide', [9, 10, 11, 12, 13], 'd', [0, 3]), 100)]
    return fam.make_jobs(s, 1)


cases = fam.case_iter


def interval(ctx, kind, got, lo, hi, rt=1e-8, at=1e-9):
    ctx.traces += 1
    ok = got is not None and lo - at - rt * abs(lo) <= float(got) <= hi + at + rt * abs(hi)
    return ctx.expect(ok, kind, lambda: f'got {got}, expected between {lo} and {hi}')


def timescale(m):
    return 0.0 if m <= 0.0 else (math.inf if m >= 1.0 else -1.0 / math.log(m))


def check(ctx, case):
    import pydtmc
    N = case['N']
    n = len(N)
    r = Ref(N)
    P = r.P
    pf = r.Pf()
    st = fam.labels(case['L'], n)
    mc = pydtmc.MarkovChain(pf, st)
    ctx.states += 1
    ctx.transitions += 4
    if not r.ergodic:
        ctx.same('undefined', [mc.spectral_gap, mc.relaxation_rate, mc.mixing_rate, mc.implied_timescales], [None] * 4)
    else:
        ctx.nontrivial += 1
        ev = R.roots(R.charpoly(P))
        mods = sorted(((abs(z), m) for z, m in ev for _ in range(m)), reverse=True)
        assert len(mods) == n and abs(mods[0][0] - 1) < 1e-12 and mods[1][0] < 1, (N, mods)
        # moduli that cannot be told apart numerically form one cluster: their order is irrelevant
        tol = [20 * 1e-15 ** (1.0 / m) for _, m in mods]
        its = mc.implied_timescales
        if ctx.expect(isinstance(its, np.ndarray) and its.shape == (n,) and its[0] == math.inf, 'implied-timescales shape', lambda: its):
            for k in range(1, n):
                m, t = mods[k][0], max(tol[max(1, k - 1):k + 2])
                interval(ctx, 'implied-timescales', its[k], timescale(m - t), timescale(min(m + t, 1.0)), 1e-6)
        m, t = mods[1][0], max(tol[1:3])
        sg, rr, mr = mc.spectral_gap, mc.relaxation_rate, mc.mixing_rate
        if m == 0.0:
            if sg is None:
                ctx.same('no second modulus', [sg, rr, mr], [None] * 3)
            elif mods[1][1] > 1 and interval(ctx, 'spectral-gap', sg, 1.0 - t, 1.0):
                ctx.known('null-moduli-noise', f'N={N}: second modulus 0 of multiplicity {mods[1][1]}, spectral gap {sg}')
            else:
                ctx.fail('no second modulus', f'got {sg} {rr} {mr}')
        else:
            interval(ctx, 'spectral-gap', sg, 1.0 - m - t, 1.0 - m + t)
            interval(ctx, 'relaxation-rate', rr, 1.0 / (1.0 - m + t), 1.0 / (1.0 - m - t) if 1.0 - m > t else math.inf)
            interval(ctx, 'mixing-rate', mr, timescale(m - t), timescale(min(1.0, m + t)))
    # correlations and relaxations
    pis = r.pi()
    seqs = [[0, 1], [1, 1, 0], [n - 1, 0, n - 1, 1], list(range(n))]
    if len(pis) > 1:
        for s in seqs:
            ctx.same('undefined correlations', [mc.time_correlations(s), mc.time_correlations(s, s, [1, 9]), mc.time_relaxations(s), mc.time_relaxations(s, None, [0, 12])], [None] * 4)
            ctx.transitions += 4
        return
    pi = pis[0]
    kind, rdl = spectral.analyse(pf)
    ctx.count('spectrum_' + kind)
    T = 2 * n + 1
    count = lambda s: [F(s.count(i)) for i in range(n)]  # noqa: E731
    vec = {}
    for si, s in enumerate(seqs):
        v = [count(s)]
        for _ in range(T):
            v.append(R.matvec(P, v[-1]))
        vec[si] = v
    times = [[t] for t in range(T + 1)] + [[a, b] for a in range(T + 1) for b in range(T + 1) if a != b and (a + b) % 4 == 1] + [[n, 0, n - 1], [1, n + 2, 0], list(dict.fromkeys([T, 2, n]))]
    starts = [('uni', [F(1, n)] * n), ('one', [F(int(i == 1)) for i in range(n)]), ('skew', [F(i + 1, n * (n + 1) // 2) for i in range(n)])]

    def judge(name, got, exp, ts, bad):
        ctx.transitions += 1
        ctx.traces += 1
        if isinstance(got, list) == isinstance(exp, list) and np.shape(got) == np.shape(exp) and np.allclose(got, exp, rtol=1e-7, atol=1e-9):
            return
        if max(ts) > n and kind in ('complex', 'unclear') and np.shape(got) == np.shape(exp) and np.allclose(got, bad(), rtol=1e-9, atol=1e-9):
            ctx.known(name + '-complex', f'times {ts} N={N}')
            return
        ctx.fail(name, f'times {ts} spectrum {kind}: got {got}, expected {exp}')

    for k, ts in enumerate(times):
        ts_sorted = sorted(ts)
        single = len(ts) == 1 and k % 3 != 2
        arg = ts[0] if single else ts
        ctx.nontrivial += max(ts) > n
        for a, b in ((0, None), (1, 2), (2, 3), (3, 0)):
            if k % 2 and a == 1:
                continue
            oa, vb = vec[a][0], vec[a if b is None else b]
            exp = [float(sum(oa[i] * pi[i] * vb[t][i] for i in range(n))) for t in ts_sorted]
            s1 = [st[i] for i in seqs[a]] if k % 2 else seqs[a]
            s2 = None if b is None else ([st[i] for i in seqs[b]] if k % 3 else seqs[b])
            got = mc.time_correlations(list(s1), None if s2 is None else list(s2), arg if single else list(arg))
            ob = np.array(R.fl(vb[0]))
            w = np.array(R.fl([x * y for x, y in zip(oa, pi)]))
            judge('time-correlations', got, exp[0] if single else exp, ts,
                  lambda: (lambda v: v[0] if single else v)([float(w @ (spectral.power(rdl, t) @ ob)) for t in ts_sorted]))
            name, d0 = starts[(k + a) % 3]
            exp = [float(sum(d0[i] * vb[t][i] for i in range(n))) for t in ts_sorted]
            got = mc.time_relaxations(list(seqs[a if b is None else b]), None if name == 'uni' else np.array(R.fl(d0)), arg if single else list(arg))
            df = np.array(R.fl(d0))
            judge('time-relaxations', got, exp[0] if single else exp, ts,
                  lambda: (lambda v: v[0] if single else v)([float(df @ (spectral.power(rdl, t) @ ob)) for t in ts_sorted]))
