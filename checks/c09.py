import itertools
import math
from fractions import Fraction as F

from lib import families as fam
from lib import ref as R
from lib.ref import Ref

import numpy as np

PROPERTY = 'C09'
RULE = ('every chain of the enumerated families with every target set, every ordered pair of disjoint sets of states (size up to 4) and every state; '
        'non-trivial: ergodic (irreducible for the sensitivity)')
ASSUMPTIONS = ['numbers are compared within 1e-7 relative or 1e-9 absolute', 'a mixing time is not judged when a distance lies within 1e-9 of the cutoff',
               'mixing times with a jump above 1: see the known finding']


def jobs(tier, seed):
    if tier == 'quick':
        s = [(('grid', 2, 10), 1), (('sup', 2, 't'), 1), (('sup', 3, 't'), 8), (('ring', [4, 5], 't'), 4), (('sup', 3, 'd'), 8), (('sup', 3, 's'), 8), (('grid', 3, 3), 16), (('can', 4, 'd', [1]), 64), (('list', TINY), 1),
             (('struct7', 'd', [0, 3]), 32), (('ring', [5], 'd'), 4), (('wide', [11], 'd', [0, 3]), 20)]
    else:
        s = [(('grid', 2, 30), 1), (('sup', 3, 'd'), 8), (('sup', 3, 's'), 8), (('grid', 3, 4), 100), (('sup', 4, 'd'), 1200), (('list', TINY), 1),
             (('grid', 4, 2), 400), (('struct7', 'd', [0, 1, 2, 3]), 64), (('ring', [5, 6], 'd'), 8), (('two', 4, 'u'), 100), (('wide', [9, 10, 11, 12, 13, 16, 17], 'd', [0, 3]), 140)]
    return fam.make_jobs(s, 1)


TINY = [[[0, 10**9], [1, 10**9 - 1]][::-1], [[10**9 - 1, 1], [1, 1]], [[10**5 - 1, 1, 0], [1, 1, 10**5], [0, 1, 10**5]], [[10**10 - 1, 1, 0], [1, 1, 1], [1, 0, 3]]]


def cases(job):
    spec, i, k = job
    if spec[0] == 'struct7':
        for c in fam.case_iter((('struct',) + tuple(spec[1:]), i, k)):
            if len(c['N']) <= 7:
                yield c
    else:
        yield from fam.case_iter(job)


def vary(st, idx, k):
    """The same set of states as labels, as indices, in another order, or as a single value."""
    idx = list(idx)
    if k % 3 == 1:
        idx = idx[::-1]
    v = [st[i] for i in idx] if k % 2 else idx
    return v[0] if len(v) == 1 and k % 4 == 3 else v


def check(ctx, case):
    import pydtmc
    N = case['N']
    n = len(N)
    r = Ref(N)
    st = fam.labels(case['L'], n)
    mc = pydtmc.MarkovChain(r.Pf(), st)
    ctx.states += 1
    one = F(1)
    P = r.P
    # sensitivity
    if not r.irreducible:
        for s in range(n):
            ctx.same('sensitivity undefined', mc.sensitivity(s), None)
    else:
        pi = r.pi()[0]
        z = R.solve([[F(int(i == j)) - P[i][j] + pi[j] for j in range(n)] for i in range(n)], R.identity(n))
        d = [[z[i][j] - pi[j] for j in range(n)] for i in range(n)]
        for s in range(n):
            got = mc.sensitivity(s if s % 2 else st[s])
            ctx.close('sensitivity', got, [[float(pi[i] * d[j][s]) for j in range(n)] for i in range(n)], 1e-6, 1e-8)
            ctx.transitions += 1
    if not r.ergodic:
        ctx.same('undefined', [mc.mean_recurrence_times(), mc.mean_first_passage_times_to(), mc.mean_first_passage_times_to([0]), mc.mean_first_passage_times_between([0], [1]),
                               mc.committor_probabilities('forward', [0], [1]), mc.committor_probabilities('backward', [0], [n - 1]), mc.mixing_time()], [None] * 7)
        ctx.transitions += 7
        return
    ctx.nontrivial += 1
    ctx.close('mean-recurrence-times', mc.mean_recurrence_times(), [float(1 / v) for v in pi], 1e-8, 0)
    # first passage times to sets
    times = {}
    sets = [s for m in range(1, n + 1) for s in itertools.combinations(range(n), m)]
    if n > 5:
        sets = [s for s in sets if len(s) <= 2 or len(s) >= n - 1]
    for s in sets:
        times[s] = r.hitting_times(s)
    # the equations amplify the rounding of the probabilities by the largest of the times
    rt = max(1e-7, 1e-14 * float(max(max(t) for t in times.values())))
    for k, s in enumerate(sets):
        t = times[s]
        ctx.close('mean-first-passage-times-to', mc.mean_first_passage_times_to(vary(st, s, k)), R.fl(t), rt, 1e-9)
        ctx.transitions += 1
    ctx.close('mean-first-passage-times-to all', mc.mean_first_passage_times_to(), [[float(times[(j,)][i]) for j in range(n)] for i in range(n)], rt, 1e-8)
    # pairs of sets
    rev = [[pi[j] * P[j][i] / pi[i] for j in range(n)] for i in range(n)]
    k = 0
    for a in sets:
        for b in sets:
            if n > 4 and len(a) + len(b) not in (2, 3, n):
                continue
            if len(a) == n or len(b) == n:
                continue
            if n > 7 and (len(a) + len(b) == 3 or (a[0] * 5 + b[0]) % 4):
                continue
            k += 1
            if n <= 4 or k % 3 == 0:
                w = sum(pi[i] for i in a)
                ctx.close('mean-first-passage-times-between', mc.mean_first_passage_times_between(vary(st, a, k), vary(st, b, k + 1)),
                          float(sum(pi[i] * times[b][i] for i in a) / w), rt, 1e-9)
                ctx.transitions += 1
            if set(a) & set(b):
                continue
            unk = [i for i in range(n) if i not in a and i not in b]
            for kind, m, goal in (('forward', P, b), ('backward', rev, a)):
                q = [one if i in goal else F(0) for i in range(n)]
                if unk:
                    x = R.solve([[F(int(i == j)) - m[i][j] for j in unk] for i in unk], [[sum((m[i][t] for t in goal), F(0))] for i in unk])
                    for i, v in zip(unk, x):
                        q[i] = v[0]
                ctx.close(f'committor-{kind}', mc.committor_probabilities(kind, vary(st, a, k), vary(st, b, k + 2)), R.fl(q), 1e-7, 2e-8)
                ctx.transitions += 1
    # mixing times
    starts = [None] + [[F(int(i == j)) for j in range(n)] for i in range(n)]
    if n > 4:
        starts = starts[:3]
    cut = {'natural': 1.0 / (2.0 * math.e), 'traditional': 0.25}
    Pf = [[float(v) for v in row] for row in P]
    pif = [float(v) for v in pi]
    for si, s0 in enumerate(starts):
        d = [1.0 / n] * n if s0 is None else [float(v) for v in s0]
        dist = []
        for _ in range(330):
            d = [math.fsum(d[i] * Pf[i][j] for i in range(n)) for j in range(n)]
            dist.append(math.fsum(abs(x - y) for x, y in zip(d, pif)))
            if dist[-1] < 1e-6:
                break
        dist += [0.0] * (330 - len(dist))
        for jump in (1, 3):
            for ct, c in cut.items():
                it = next((t for t in range(1, 101) if dist[t - 1] <= c), None)
                upto = (it or 100) * jump
                if any(abs(v - c) < 1e-9 for v in dist[:upto]):
                    ctx.count('mixing_skipped')
                    continue
                pinned = None if it is None or it == 100 else it * jump
                k2 = next((t for t in range(1, 101) if dist[t * jump - 1] <= c), None)
                exact = None if k2 is None or k2 == 100 else k2 * jump
                got = mc.mixing_time(None if s0 is None else R.fl(s0), jump, ct)
                ctx.transitions += 1
                ctx.traces += 1
                if got != exact:
                    if got == pinned:
                        ctx.known('mixing-jump', f'jump={jump} N={N} start={si}: {got} instead of {exact}')
                    else:
                        ctx.fail('mixing-time', f'jump={jump} cutoff={ct} start={si}: got {got}, expected {exact} (or {pinned})')
    if n <= 4:
        got = mc.mixing_time(np.array(pif), 2, 'natural')
        ctx.same('mixing-time from equilibrium', got, 2)
