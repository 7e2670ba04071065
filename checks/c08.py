import itertools
from fractions import Fraction as F

from lib import families as fam
from lib import ref as R
from lib import spectral
from lib.ref import Ref

import numpy as np

PROPERTY = 'C08'
RULE = ('every chain of the enumerated families, every initial state and set of first passage states, all horizons 1..9 (1..16 on size 2); the exact value is the sum over all '
        'trajectories, unfolded explicitly for horizons up to 3 and by exact rational powers beyond; non-trivial: the horizon exceeds the size')
ASSUMPTIONS = ['numbers are compared within 1e-8 relative or 1e-10 absolute', 'expected transitions beyond the size of chains with complex spectra: see the known finding',
               'the spectral shortcut for expected transitions is accurate to 1e-7 when a probability is below 1e-6', 'a prediction is not judged when the two largest probabilities differ by rounding only']


def jobs(tier, seed):
    ring = [[[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[1, 2, 0], [0, 1, 2], [2, 0, 1]], [[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [1, 0, 0, 0]],
            [[1, 3, 0, 0], [0, 1, 3, 0], [0, 0, 1, 3], [3, 0, 0, 1]], [[0, 1, 0, 0, 0], [0, 0, 1, 0, 0], [0, 0, 0, 1, 0], [0, 0, 0, 0, 1], [1, 1, 0, 0, 0]],
            [[2, 1, 1], [1, 2, 1], [1, 1, 2]], [[0, 1, 0], [0, 0, 1], [0, 0, 1]], [[1, 1, 0, 0], [0, 1, 1, 0], [0, 0, 1, 1], [0, 0, 0, 1]], [[1, 1, 1]] * 3, [[1, 2, 3, 4]] * 4]
    if tier == 'quick':
        s = [(('grid', 2, 6), 4), (('sup', 3, 'd'), 24), (('sup', 3, 's'), 24), (('grid', 3, 2), 16), (('sup', 2, 'e'), 1), (('sup', 3, 'e'), 16), (('sup', 2, 't'), 1), (('sup', 3, 't'), 16), (('list', ring), 10), (('fun', 4), 16), (('canS', 4, 'd', [1], 6), 32), (('wide', [11], 'd', [0, 3]), 20)]
    else:
        s = [(('grid', 2, 20), 16), (('sup', 2, 'e'), 1), (('sup', 3, 'e'), 16), (('sup', 2, 't'), 1), (('sup', 3, 't'), 16), (('sup', 3, 'd'), 24), (('sup', 3, 's'), 24), (('sup', 3, 'u'), 24), (('grid', 3, 3), 64), (('grid', 3, 4), 200), (('list', ring), 10), (('fun', 4), 16),
             (('fun', 5), 100), (('can', 4, 'd', [1]), 200), (('can', 4, 'u', [2]), 200), (('struct', 'd', [0, 1]), 64), (('wide', [9, 10, 11, 12, 13], 'd', [0, 3]), 100)]
    return fam.make_jobs(s, 1)


def cases(job):
    spec, i, k = job
    if spec[0] == 'canS':        # every m-th canonical pattern: a strided, still fixed, family
        for idx, c in enumerate(fam.case_iter((('can',) + tuple(spec[1:4]), 0, 1))):
            if idx % spec[4] == 0 and (idx // spec[4]) % k == i:
                yield c
    else:
        for c in fam.case_iter(job):
            if len(c['N']) <= 8 or spec[0] == 'wide':
                yield c


def check(ctx, case):
    import pydtmc
    N = case['N']
    n = len(N)
    r = Ref(N)
    P = r.P
    pf = r.Pf()
    st = fam.labels(case['L'], n)
    mc = pydtmc.MarkovChain(pf, st)
    ctx.states += 1
    T = 16 if n == 2 else (9 if n <= 4 else n + 2)
    uni = [F(1, n)] * n
    unit = [[F(int(i == j)) for j in range(n)] for i in range(n)]
    skew = [F(i + 1, n * (n + 1) // 2) for i in range(n)]
    # one-step laws
    for i in range(n):
        ctx.same('conditional-probabilities', mc.conditional_probabilities(st[i] if i % 2 else i), pf[i])
        for j in range(n):
            ctx.same('transition-probability', float(mc.transition_probability(st[j] if i % 2 else j, i if j % 2 else st[i])), float(pf[i, j]))
    # distributions after t steps, by exact powers (and by explicit trajectories for short horizons)
    powers = [R.identity(n)]
    for t in range(T + 1):
        powers.append(R.matmul(powers[-1], P))
    for start in range(n):
        for t in (1, 2, 3):
            acc = [F(0)] * n
            for w, pr in R.paths(P, start, t):
                acc[w[-1]] += pr
            assert acc == powers[t][start]
    dists = {}
    for name, v in [('uni', uni), ('skew', skew)] + [(i, unit[i]) for i in range(n)]:
        seq = [v]
        for _ in range(T):
            seq.append(R.vecmat(seq[-1], P))
        dists[name] = seq
    for steps in sorted({1, 2, 3, n, n + 1, T}):
        for name, seq in dists.items():
            status = None if name == 'uni' else (R.fl(seq[0]) if name == 'skew' else (st[name] if steps % 2 else name))
            arg = np.array(status) if name == 'skew' else status
            got = mc.redistribute(steps, arg, True)
            ctx.close('redistribute-last', got, R.fl(seq[steps]), 1e-9, 1e-12)
            got = mc.redistribute(steps, arg, False)
            ctx.close('redistribute-all', got, R.fl(seq[:steps + 1]), 1e-9, 1e-12)
            ctx.transitions += 2
    # rows rounded to six digits: a distribution remains one
    if n < 5:
        pr = np.round(pf, 6)
        if (abs(pr.sum(axis=1) - 1.0) < 8e-6).all() and (pr <= 1.0).all():
            rounded = pydtmc.MarkovChain(pr, st)
            for steps in (T, 40):
                got = np.array(rounded.redistribute(steps, R.fl(uni), False))
                ctx.close('redistribute-sum', got.sum(axis=1), np.ones(steps + 1), 0, 1e-9)
                ctx.transitions += 1
    # rewards
    rewards = [F(3 * i - 2) for i in range(n)]
    acc = list(rewards)
    for steps in range(1, T + 1):
        acc = [x + y for x, y in zip(rewards, R.matvec(P, acc))]
        ctx.close('expected-rewards', mc.expected_rewards(steps, np.array(R.fl(rewards))), R.fl(acc), 1e-9, 1e-10)
        ctx.transitions += 1
    # expected transitions
    kind, rdl = spectral.analyse(pf)
    ctx.count('spectrum_' + kind)
    for steps in range(1, T + 1):
        ctx.nontrivial += steps > n
        for name, seq in dists.items():
            occ = [sum(seq[t][i] for t in range(steps)) for i in range(n)]
            exp = [[float(occ[i] * P[i][j]) for j in range(n)] for i in range(n)]
            arg = None if name == 'uni' else np.array(R.fl(seq[0]))
            got = mc.expected_transitions(steps, arg)
            ctx.transitions += 1
            ctx.traces += 1
            good = np.shape(got) == (n, n) and np.allclose(got, exp, rtol=1e-7, atol=1e-9 if kind != 'real' or pf[pf > 0.0].min() > 1e-6 else 1e-7)
            if good:
                continue
            if steps > n and kind in ('complex', 'unclear'):
                bad = spectral.expected_transitions(pf, rdl, steps, np.array(R.fl(seq[0])))
                if np.allclose(got, bad, rtol=1e-9, atol=1e-9, equal_nan=True):
                    ctx.known('expected-transitions-complex', f'steps={steps} N={N}')
                    continue
            ctx.fail('expected-transitions', f'steps={steps} start={name} spectrum={kind}: got {np.asarray(got).tolist()}, expected {exp}')
    # first passages
    fpp = {}
    for j in range(n):      # f_t(i, j) by the taboo recurrence over trajectories avoiding j
        f = [[P[i][j] for i in range(n)]]
        for t in range(2, T + 1):
            prev = f[-1]
            f.append([sum((P[i][k] * prev[k] for k in range(n) if k != j and P[i][k]), F(0)) for i in range(n)])
        fpp[j] = f
    for i in range(n):
        for w, pr in R.paths(P, i, 3):
            pass
        first3 = [F(0)] * n
        for w, pr in R.paths(P, i, 3):
            if w[3] not in w[1:3]:
                first3[w[3]] += pr
        assert first3 == [fpp[j][2][i] for j in range(n)]
    for steps in (1, 2, 3, n + 1, T):
        for i in range(n):
            got = mc.first_passage_probabilities(steps, st[i] if steps % 2 else i)
            ctx.close('first-passage-probabilities', got, [[float(fpp[j][t][i]) for j in range(n)] for t in range(steps)], 1e-8, 1e-12)
            ctx.transitions += 1
            for m in range(1, n + 1):
                for s in itertools.combinations(range(n), m):
                    if n > 4 and 2 < m < n or n > 8 and (m == 2 and (s[0] + i) % 3 or i % 3 and m < n):
                        continue
                    arg = list(s) if steps % 2 else [st[k] for k in s][::-1]
                    got = mc.first_passage_probabilities(steps, i, arg)
                    ctx.close('first-passage-probabilities-set', got, [float(sum(fpp[j][t][i] for j in s)) for t in range(steps)], 1e-8, 1e-12)
                    ctx.transitions += 1
    # first passage rewards
    if n > 2:
        for m in range(1, n - 1):
            for s in itertools.combinations(range(n), m):
                if n > 4 and m > 2 or n > 8 and (m > 1 or s[0] % 3):
                    continue
                other = [i for i in range(n) if i not in s]
                sub = [[P[i][j] for j in other] for i in other]
                for i in other:
                    row = [F(int(k == i)) for k in other]
                    acc, tot = F(0), {}
                    for t in range(1, T + 1):
                        row = R.vecmat(row, sub)
                        acc += sum(x * rewards[k] for x, k in zip(row, other))
                        tot[t] = acc
                    for t in (1, 2, n + 1, T):
                        arg = list(s)[::-1] if t % 2 else [st[k] for k in s]
                        got = mc.first_passage_reward(t, st[i] if t % 2 else i, arg, np.array(R.fl(rewards)))
                        ctx.close('first-passage-reward', float(got), float(tot[t]), 1e-8, 1e-10)
                        ctx.transitions += 1
    # sequences of states
    for length in (2, 3, 4):
        if n ** length > 300 and n <= 8:
            continue
        for seq in itertools.product(range(n), repeat=length) if n <= 8 else [[(a * q + b) % n for q in range(length + 8)] for a in range(3) for b in range(n)]:
            pr = F(1)
            for a, b in zip(seq, seq[1:]):
                pr *= P[a][b]
            arg = list(seq) if sum(seq) % 2 else [st[k] for k in seq]
            ctx.close('sequence-probability', float(mc.sequence_probability(arg)), float(pr), 1e-9, 0)
            ctx.transitions += 1
    # most probable walk
    for i in range(n):
        walk, defined, near = [i], True, False
        for _ in range(T):
            row = P[walk[-1]]
            best = max(row)
            arg = [j for j in range(n) if row[j] == best]
            if len(arg) > 1 and len({pf[walk[-1], j] for j in arg}) > 1:
                near = True
            if len(arg) > 1:
                defined = False
                break
            walk.append(arg[0])
        if near:
            continue
        for steps in (1, 2, T):
            exp = walk[:steps + 1] if len(walk) > steps else None
            got = mc.predict(steps, st[i], True)
            ctx.same('predict-indices', got if got is None else [int(v) for v in got], exp)
            ctx.same('predict', mc.predict(steps, i), None if exp is None else [st[k] for k in exp])
            ctx.transitions += 2
