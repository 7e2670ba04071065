import itertools
from fractions import Fraction as F

from lib import families as fam
from lib import hmms
from lib import ref as R
from lib.ref import Ref

import numpy as np

PROPERTY = 'C22'
RULE = ('every hidden Markov model of the enumerated families and every pair of subsets of states and symbols (as labels or indices, in any order); '
        'non-trivial: a restriction that leaves an empty row, or a model which is not ergodic or not regular')
ASSUMPTIONS = ['a model is ergodic when its chain is ergodic and no emission probability is null, regular when its emission matrix has as many independent columns as symbols (definitions of the documentation and tests)',
               'numbers are compared within 1e-12']


def jobs(tier, seed):
    if tier == 'quick':
        s = [(('sup', 2, 't'), ('sup', 2, 2, 't'), 2), (('sup', 2, 'e'), ('sup', 2, 3, 't'), 4), (('sup', 2, 'd'), ('sup', 2, 2, 'd'), 2), (('sup', 2, 'd'), ('sup', 2, 3, 'd'), 8), (('list', [N for N in fam.matrices(('sup', 3, 'd'))][::7]), ('sup', 3, 2, 'd'), 24),
             (('list', [N for N in fam.matrices(('sup', 3, 'd'))][3::19]), ('sup', 3, 3, 's'), 48), (('sup', 2, 'u'), ('grid', 2, 2, 6), 4),
             (('list', [N for N in fam.matrices(('fun', 4))][5::51]), ('list', [E for E in hmms.emissions(('sup', 4, 4, 'd'))][7::5003]), 8), (('wide', [11], 'd', [3]), ('wide', 11, 7), 16)]
    else:
        s = [(('sup', 2, 't'), ('sup', 2, 3, 't'), 8), (('sup', 2, 'e'), ('sup', 2, 3, 't'), 4), (('sup', 3, 'd'), ('sup', 3, 2, 'd'), 64), (('sup', 3, 'd'), ('sup', 3, 3, 'd'), 800), (('sup', 2, 's'), ('sup', 2, 4, 's'), 16),
             (('list', [N for N in fam.matrices(('fun', 4))][5::21]), ('list', [E for E in hmms.emissions(('sup', 4, 4, 'd'))][7::1003]), 48), (('wide', [11], 'd', [0, 1, 2, 3]), ('wide', 11, 12), 64), (('wide', [12], 'd', [0, 3]), ('wide', 12, 7), 64)]
    return hmms.make_jobs(s)


cases = hmms.case_iter


def select(M, rows, cols):
    out = []
    for i in rows:
        s = sum(M[i][j] for j in cols)
        out.append([F(M[i][j], s) if s else F(1, len(cols)) for j in cols])
    return out


def subsets(n):
    """All the proper subsets, in order; for many elements all the intervals and all the arithmetic progressions to the end."""
    if n <= 6:
        return [c for m in range(2, n) for c in itertools.combinations(range(n), m)]
    return [c for i in range(n) for c in [tuple(range(i, j)) for j in range(i + 2, n + 1)] + [tuple(range(i, n, d)) for d in range(2, n - i)] if len(c) < n]


def check(ctx, case):
    import pydtmc
    N, E = case['N'], case['E']
    n, k = len(N), len(E[0])
    st, sy = hmms.labels(case['L'], n, k)
    P, e = np.array(hmms.floats(N)), np.array(hmms.floats(E))
    hmm = pydtmc.HiddenMarkovModel(P, e, st, sy)
    ctx.states += 1
    r = Ref(N)
    erg = r.ergodic and all(v > 0 for row in E for v in row)
    reg = R.rank([[F(v) for v in row] for row in E]) == k
    ctx.nontrivial += not erg or not reg
    ctx.same('views', [hmm.n, hmm.k, hmm.size, hmm.states, hmm.symbols, bool(hmm.is_ergodic), bool(hmm.is_regular)], [n, k, (n, k), st, sy, erg, reg])
    text = str(hmm)
    exp = f'STATES:  {n}', f'SYMBOLS: {k}', f'ERGODIC: {"YES" if erg else "NO"}', f'REGULAR: {"YES" if reg else "NO"}'
    ctx.same('summary', [v in text for v in exp], [True] * 4)
    got = [[hmm.transition_probability(st[j] if (i + j) % 2 else j, st[i] if j % 2 else i) for j in range(n)] for i in range(n)]
    ctx.same('transition probabilities', np.array(got), P)
    got = [[hmm.emission_probability(sy[j] if (i + j) % 2 else j, st[i] if j % 2 else i) for j in range(k)] for i in range(n)]
    ctx.same('emission probabilities', np.array(got), e)
    ctx.transitions += n * n + n * k + 8
    # restrictions
    idx = 0
    for a in [None] + subsets(n):
        for b in [None] + subsets(k):
            if a is None and b is None or n > 6 and k > 6 and a and b and (a[0] + b[0]) % 3:
                continue
            idx += 1
            ra, rb = list(a) if a is not None else list(range(n)), list(b) if b is not None else list(range(k))
            aa = None if a is None else (list(a) if idx % 2 else [st[i] for i in a])
            bb = None if b is None else ([sy[i] for i in b] if idx % 3 else list(b))
            if idx % 4 >= 2:
                aa, bb = aa and aa[::-1], bb and bb[::-1]
            sub = hmm.restrict(aa, bb)
            p = select(N, ra, ra)
            q = select(E, ra, rb)
            ctx.same('restricted labels', [sub.states, sub.symbols, sub.size], [[st[i] for i in ra], [sy[j] for j in rb], (len(ra), len(rb))])
            ctx.close('restricted transitions', sub.p, R.fl(p), 1e-12, 1e-14)
            ctx.close('restricted emissions', sub.e, R.fl(q), 1e-12, 1e-14)
            ctx.nontrivial += any(not any(N[i][j] for j in ra) or not any(E[i][j] for j in rb) for i in ra)
            ctx.transitions += 1
    for bad in (dict(states=0), dict(states=st[0]), dict(symbols=0), dict(symbols=sy[-1]), dict(states=[1]), dict(symbols=[0]), dict(), dict(states=list(range(n))), dict(symbols=list(sy))):
        ctx.traces += 1
        try:
            sub = hmm.restrict(**bad)
        except pydtmc.ValidationError:
            continue
        ctx.fail('restriction accepted', f'restrict({bad}) gives a model of size {sub.size}')
    ctx.same('unchanged', [hmm.p, hmm.e, hmm.states, hmm.symbols], [P, e, st, sy])
