from lib import families as fam
from lib.ref import Ref, bits

import networkx as nx
import numpy as np

PROPERTY = 'C05'
RULE = ('every chain of the enumerated families (all support patterns, grids, rings with chords, structured and large chains); '
        'non-trivial: at least two communicating classes or a period above 1')
ASSUMPTIONS = ['symmetry, double stochasticity and monotonicity are not judged when they hold up to the tolerance of the library (deviations below 1e-4) only',
               'incidence matrix: incidence of the ordered pairs of distinct states with the states, as fixed by the repository tests']


def jobs(tier, seed):
    if tier == 'quick':
        s = [(('sup', 2, 'y'), 1), (('sup', 3, 'd'), 4), (('sup', 3, 'y'), 4), (('grid', 2, 8), 1), (('grid', 3, 4), 8), (('pair', 3, 10), 8), (('can', 4, 'y', [0, 1]), 24),
             (('sup', 2, 't'), 1), (('sup', 3, 't'), 8), (('can', 4, 't', [0]), 24), (('ring', [4, 5, 6, 8], 't'), 8),
             (('fun', 5), 16), (('two', 3, 's'), 4), (('ring', [5, 6, 8, 12], 'd'), 8), (('struct', 'd', [0, 3]), 16), (('big', [63, 64, 65, 66], 'u'), 32)]
    else:
        s = [(('sup', 2, 'y'), 1), (('sup', 3, 'd'), 4), (('sup', 3, 'y'), 4), (('sup', 4, 'y'), 64), (('sup', 4, 's'), 64), (('sup', 2, 't'), 1), (('sup', 3, 't'), 8), (('can', 4, 't', [0, 1]), 64), (('ring', [4, 5, 6, 7, 8, 9, 10, 12], 't'), 32), (('grid', 2, 16), 1), (('grid', 3, 4), 8),
             (('grid', 4, 2), 16), (('pair', 3, 20), 32), (('pair', 4, 6), 16), (('fun', 5), 8), (('fun', 6), 64), (('two', 4, 'd'), 32), (('two', 5, 'd'), 900),
             (('ring', [4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 18], 'd'), 32),
             (('struct', 'd', [0, 1, 2, 3, 4, 5]), 32), (('big', [31, 32, 33, 63, 64, 65, 66, 67, 100, 127, 128, 129], 'u'), 96)]
    return fam.make_jobs(s, 1)


cases = fam.case_iter


def monotone(P):
    """(do the tail sums never decrease from a state to the next, is a decrease too small for the tolerance of the library)"""
    n = len(P)
    tails = [[sum(row[m:]) for m in range(1, n)] for row in P]
    falls = [x - y for a, b in zip(tails, tails[1:]) for x, y in zip(a, b) if y < x]
    return not falls, any(d < 1e-4 for d in falls)


def check(ctx, case):
    import pydtmc
    N = case['N']
    n = len(N)
    r = Ref(N)
    st = fam.labels(case['L'], n)
    pf = r.Pf()
    mc = pydtmc.MarkovChain(pf, st)
    ctx.states += 1
    if len(r.classes) > 1 or r.period > 1:
        ctx.nontrivial += 1
    lab = lambda idx: [st[i] for i in idx]  # noqa: E731
    same = ctx.same
    same('communicating-classes', mc.communicating_classes, [lab(c) for c in r.classes])
    same('recurrent-classes', mc.recurrent_classes, [lab(c) for c in r.recurrent_classes])
    same('transient-classes', mc.transient_classes, [lab(c) for c in r.transient_classes])
    same('recurrent-states', mc.recurrent_states, lab(r.recurrent))
    same('transient-states', mc.transient_states, lab(r.transient))
    same('absorbing-states', mc.absorbing_states, lab(r.absorbing))
    same('is-absorbing', mc.is_absorbing, r.is_absorbing)
    same('is-irreducible', mc.is_irreducible, r.irreducible)
    cyc = r.cyclic_classes()
    same('cyclic-classes', mc.cyclic_classes, [lab(c) for c in cyc])
    same('cyclic-states', mc.cyclic_states, lab(sorted(i for c in cyc for i in c)))
    same('periods', mc.periods, r.periods)
    known_bad = False
    got_ap = mc.is_aperiodic
    if got_ap is True and not r.aperiodic and not r.irreducible:
        g = nx.DiGraph()
        g.add_nodes_from(st)
        g.add_edges_from((st[i], st[j]) for i in range(n) for j in range(n) if N[i][j])
        known_bad = nx.is_aperiodic(g)
    if known_bad:
        ctx.known('aperiodic-reducible', f'is_aperiodic True, recurrent class periods {sorted(r.periods_recurrent.values())}, N={N}')
        same('period', mc.period, 1)
    else:
        same('is-aperiodic', got_ap, r.aperiodic)
        same('period', mc.period, r.period)
    same('is-ergodic', mc.is_ergodic, r.ergodic)
    same('is-regular', mc.is_regular, r.ergodic)
    canonical = not r.transient or not r.recurrent or max(r.transient) < min(r.recurrent)
    same('is-canonical', mc.is_canonical, canonical)
    # not judged when true up to the tolerance of the library only
    worst = max(abs(r.P[i][j] - r.P[j][i]) for i in range(n) for j in range(n))
    if worst == 0 or worst > 1e-4:
        same('is-symmetric', mc.is_symmetric, worst == 0)
    worst = max(abs(sum(r.P[i][j] for i in range(n)) - 1) for j in range(n))
    if worst == 0 or worst > 1e-4:
        same('is-doubly-stochastic', mc.is_doubly_stochastic, worst == 0)
    mono, near = monotone(r.P)
    if not near:
        same('is-monotone', mc.is_stochastically_monotone, mono)
    same('adjacency', mc.adjacency_matrix, np.array([[int(v > 0) for v in row] for row in N]))
    same('accessibility', mc.accessibility_matrix, np.array([[r.reach[i] >> j & 1 for j in range(n)] for i in range(n)]))
    comm = [[int(bool(r.reach[i] >> j & 1 and r.reach[j] >> i & 1)) for j in range(n)] for i in range(n)]
    same('communication', mc.communication_matrix, np.array(comm))
    if n <= 12:
        inc = np.zeros((n, n * n), dtype=int)
        for u in range(n):
            for v in range(n):
                if u != v:
                    inc[u, u * n + v] = inc[v, u * n + v] = 1
        same('incidence', mc.incidence_matrix, inc)
    cyc_states = {i for c in cyc for i in c}
    idx = range(n) if n <= 12 else [0, 1, n // 2, n - 1]
    for i in idx:
        for ref in (i, st[i]):
            same('is-absorbing-state', mc.is_absorbing_state(ref), i in r.absorbing)
            same('is-recurrent-state', mc.is_recurrent_state(ref), i in r.recurrent)
            same('is-transient-state', mc.is_transient_state(ref), i in r.transient)
            same('is-cyclic-state', mc.is_cyclic_state(ref), i in cyc_states)
            ctx.transitions += 4
        for j in idx:
            a, b = (i, st[j]) if (i + j) % 2 else (st[i], j)
            same('is-accessible', bool(mc.is_accessible(a, b)), bool(r.reach[j] >> i & 1))
            same('are-communicating', bool(mc.are_communicating(a, b)), bool(comm[i][j]))
            ctx.transitions += 2
    ctx.transitions += 24
    if n <= 8:
        lines = str(mc).split('\n')
        d = {l.split(':', 1)[0].strip(' >'): l.split(':', 1)[1].strip() for l in lines if ':' in l}
        yn = lambda b: 'YES' if b else 'NO'  # noqa: E731
        exp = {'SIZE': str(n), 'CLASSES': str(len(r.classes)), 'RECURRENT': str(len(r.recurrent_classes)), 'TRANSIENT': str(len(r.transient_classes)),
               'ERGODIC': yn(r.ergodic), 'IRREDUCIBLE': yn(r.irreducible), 'ABSORBING': yn(r.is_absorbing), 'REGULAR': yn(r.ergodic),
               'RANK': str(mc.rank), 'REVERSIBLE': yn(mc.is_reversible), 'SYMMETRIC': yn(mc.is_symmetric), 'MONOTONE': yn(mc.is_stochastically_monotone),
               'APERIODIC': 'YES' if mc.is_aperiodic else f'NO ({mc.period})'}
        same('summary', {k: d.get(k) for k in exp}, exp)
