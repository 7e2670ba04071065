import itertools

from lib import families as fam
from lib import fakerng
from lib.ref import Ref

import numpy as np

PROPERTY = 'C11'
RULE = ('every chain of the enumerated families, every initial and final state and every sequence of outcomes of the random source up to a number of steps; '
        'non-trivial: a chain with a null transition probability or a walk that stops early')
ASSUMPTIONS = ['a weighted draw of the random source returns each index with its weight and never one of null weight',
               'uniform draws are represented by one value of each interval between consecutive cumulative transition probabilities, and the smallest and largest possible values',
               'a final state stops the walk from the first simulated step on (an initial state equal to the final one does not)']

SPECIAL = [
    [[1 / 3, 1 / 3, 1 / 3]] * 3,
    [[0.333333, 0.333333, 0.333333]] * 3,
    [[0.1] * 10] + [[0.0] * 9 + [1.0]] * 9,
    [[1e-300, 1.0], [1.0, 0.0]],
    [[1.0, 1e-13, 0.0], [0.0, 1.0, 1e-13], [0.5, 0.5 - 1e-9, 1e-9]],
    [[0.7000004, 0.3], [0.2, 0.7999996]],
    [[0.0, 1.0], [1.0, 0.0]],
]

TOP = 1.0 - 2.0**-53

LONG = [[[0.0, 1.0], [1.0, 0.0]], [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]], [[float(j == (i * 3 + 2) % 13) for j in range(13)] for i in range(13)],
        [[float(j == min(i + 1, 19)) for j in range(20)] for i in range(20)], [[float(j == (i + 1) % 37) for j in range(37)] for i in range(37)],
        [[float(j == (i + 1) % 300) for j in range(300)] for i in range(300)]]


def jobs(tier, seed):
    if tier == 'quick':
        s = [(('sup', 2, 'd'), 2), (('sup', 2, 't'), 2), (('can', 3, 't', [0, 1]), 16), (('sup', 3, 'd'), 48), (('can', 4, 's', [1]), 24), (('fun', 4), 8)]
    else:
        s = [(('sup', 2, 's'), 2), (('sup', 3, 'd'), 48), (('sup', 3, 's'), 48), (('can', 4, 'd', [0, 1, 2]), 64), (('fun', 5), 24), (('grid', 3, 3), 48)]
    return [('special',), ('uniform', tier)] + [('long', tier, i, 8) for i in range(8)] + [('fam', tier) + j for j in fam.make_jobs(s, 1)]


def cases(job):
    if job[0] == 'special':
        for P in SPECIAL:
            yield {'P': P, 'steps': [2, 3] if len(P) < 4 else [2], 'L': 'mix'}
        return
    if job[0] == 'long':
        every = [{'P': P, 'walk': steps, 'L': fam.MODES[i % 4]} for i, P in enumerate(LONG) for steps in (list(range(2, 70)) + [100, 128, 255, 256, 257, 512, 1000, 1001] + ([] if job[1] == 'quick' else [2048, 4096, 5000]))]
        yield from every[job[2]::job[3]]
        for n, i in itertools.product((2, 3), range(3)):
            if (n + i) % job[3] == job[2]:
                yield {'P': [[0.5 if j in (a, (a + i + 1) % n) else 0.0 for j in range(n)] if (i + 1) % n else [1.0 / n] * n for a in range(n)], 'steps': [6] if n == 3 and not (i + 1) % n else [9], 'L': 'rev', 'few': True}
        return
    if job[0] == 'uniform':
        for n in (5, 6, 7):
            yield {'P': [[1.0 / n] * n] * n, 'steps': [2], 'L': 'rev'}
        return
    for c in fam.case_iter(job[2:]):
        n = len(c['N'])
        deep = job[1] == 'thorough'
        yield {'P': [list(map(float, r)) for r in Ref(c['N']).Pf()], 'steps': {2: [2, 3, 5], 3: [2, 3, 4] if deep else [2, 3], 4: [2, 3] if deep else [2]}.get(n, [2]), 'L': c['L']}


def walks(P, n, starts, steps, final):
    """The exact law: {walk: probability} over all starts."""
    out = {}
    stack = [((s,), pr) for s, pr in starts]
    while stack:
        w, pr = stack.pop()
        if len(w) == steps + 1 or (len(w) > 1 and w[-1] == final):
            out[w] = out.get(w, 0.0) + pr
            continue
        tot = sum(P[w[-1]])
        for j in range(n):
            if P[w[-1]][j] > 0.0:
                stack.append((w + (j,), pr * P[w[-1]][j] / tot))
    return out


def compare(ctx, kind, got, exp):
    ctx.traces += len(exp)
    bad = [w for w in got if w not in exp]
    miss = [w for w in exp if w not in got]
    if bad or miss:
        ctx.fail(kind, f'walks that must not occur {bad[:3]}, walks that never occur {miss[:3]}')
        return
    for w, p in exp.items():
        if abs(got[w] - p) > 1e-9 * max(p, 1e-3):
            ctx.fail(kind, f'walk {w} has probability {got[w]} instead of {p}')
            return


def check(ctx, case):
    import pydtmc
    P = case['P']
    n = len(P)
    st = fam.labels(case['L'], n)
    mc = pydtmc.MarkovChain(np.array(P), st)
    ctx.states += 1
    ctx.nontrivial += any(v == 0.0 for r in P for v in r)
    pos = {s: i for i, s in enumerate(st)}
    if 'walk' in case:      # chains with one outcome per step: the walk is determined
        steps = case['walk']
        succ = [r.index(1.0) for r in P]
        for init, final in [(i, f) for i in (0, n - 1) for f in (None, 0, n - 1, (steps * 7) % n, succ[succ[i]])]:
            exp = [init]
            while len(exp) < steps + 1 and (len(exp) == 1 or exp[-1] != final):
                exp.append(succ[exp[-1]])
            kw = {} if final is None else {'final_state': st[final]}
            ctx.same('long walk', [mc.simulate(steps, st[init], seed=steps, **kw), mc.simulate(steps, init, output_indices=True, **kw)], [[st[i] for i in exp], exp])
            ctx.transitions += 2
        return

    # the intervals on which every inversion of the cumulative transition (or uniform) probabilities is constant
    ends = {0.0, 1.0}.union(k / n for k in range(1, n) if 'few' not in case)
    for r in P:
        c = list(itertools.accumulate(r))
        ends.update(v / c[-1] for v in c)
    cuts = [0.0]
    for v in sorted(ends):
        if v - cuts[-1] > 1e-14:
            cuts.append(v)
    cuts[-1] = 1.0
    kw_rng = {'cuts': cuts, 'extremes': () if 'few' in case else (0.0, TOP)}

    for i in range(n if 'few' not in case else 0):
        for mode in range(3):
            def one_next(pt):
                g = mc.next(st[i] if mode else i, **({'output_index': True} if mode == 1 else {}), **({'seed': 3} if mode == 2 else {}))
                if mode == 2:
                    ctx.expect(pt.glob.draws == 0 and [s for s, _ in pt.seeded] == [3], 'next random source', lambda: (pt.glob.draws, pt.seeded))
                else:
                    ctx.expect(not pt.seeded, 'next random source', lambda: pt.seeded)
                ctx.expect(type(g) is (int if mode == 1 else str), 'next type', lambda: type(g))
                return (i, g if mode == 1 else pos[g])
            got, runs = fakerng.law(one_next, **kw_rng)
            ctx.transitions += runs
            compare(ctx, 'next', got, walks(P, n, [(i, 1.0)], 1, None))

    combos = itertools.product(case['steps'], [None] + list(range(n)) if 'few' not in case else [n - 1], [None] + list(range(n)))
    for k, (steps, init, final) in enumerate(combos):
        mode = k % 4

        def one_walk(pt):
            kw = {}
            if init is not None:
                kw['initial_state'] = st[init] if mode % 2 else init
            if final is not None:
                kw['final_state'] = st[final] if mode in (1, 2) else final
            if mode in (1, 3):
                kw['output_indices'] = True
            if mode == 3:
                kw['seed'] = 11
            g = mc.simulate(steps, **kw)
            if mode == 3:
                ctx.expect(pt.glob.draws == 0 and [s for s, _ in pt.seeded] == [11], 'simulate random source', lambda: (pt.glob.draws, pt.seeded))
            else:
                ctx.expect(not pt.seeded, 'simulate random source', lambda: pt.seeded)
            ok = isinstance(g, list) and all(type(v) is (int if mode in (1, 3) else str) for v in g)
            ctx.expect(ok, 'simulate type', lambda: g)
            return tuple(g) if mode in (1, 3) else tuple(pos[v] for v in g)

        got, runs = fakerng.law(one_walk, **kw_rng)
        ctx.transitions += runs
        exp = walks(P, n, [(init, 1.0)] if init is not None else [(s, 1.0 / n) for s in range(n)], steps, final)
        ctx.nontrivial += any(len(w) < steps + 1 for w in exp)
        compare(ctx, f'simulate steps={steps} initial={init} final={final}', got, exp)
