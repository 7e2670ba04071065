import itertools

from lib import families as fam
from lib import fakerng

import numpy as np

PROPERTY = 'C21'
RULE = ('every hidden Markov model with probabilities on a grid, every initial state, final state and final symbol, and every sequence of outcomes of the random source '
        '(uniform draws: all midpoints of the grid plus the extreme values 0 and 1-2^-53) up to a number of steps; non-trivial: a null probability or a sequence that stops early')
ASSUMPTIONS = ['a weighted draw of the random source returns each index with its weight and never one of null weight',
               'uniform draws are represented by the midpoints of a grid whose size is a multiple of the denominators and by their extreme values',
               'a final state or symbol stops the sequence from the first simulated step on']

TOP = 1.0 - 2.0 ** -53

SPECIAL = [
    ([[1 / 3, 1 / 3, 1 / 3]] * 3, [[1 / 3, 1 / 3, 1 / 3]] * 3, 3),
    ([[0.333333, 0.333333, 0.333333]] * 3, [[0.333333, 0.666666], [0.0, 1.0], [1.0, 0.0]], 3),
    ([[0.1] * 10 + [0.0]] + [[0.0] * 10 + [1.0]] * 10, [[0.0] + [0.1] * 10] * 10 + [[0.1] * 10 + [0.0]], 10),
    ([[0.2, 0.2, 0.2, 0.2, 0.2, 0.0]] * 6, [[0.0, 0.2, 0.2, 0.2, 0.2, 0.2]] * 6, 5),
    ([[0.0, 1.0, 0.0]] * 3, [[0.0, 0.0, 1.0]] * 3, 2),
]


def rows(n, d):
    return [[v / d for v in c] for c in fam.compositions(d, n)]


def models(n, k, d):
    for P in itertools.product(rows(n, d), repeat=n):
        for E in itertools.product(rows(k, d), repeat=n):
            yield [list(r) for r in P], [list(r) for r in E]


def jobs(tier, seed):
    out = [('special',)]
    one = [((2, 2, 4), 16), ((2, 3, 2), 8), ((2, 2, 3), 4)]
    many = [((2, 2, 2), 40)]
    if tier != 'quick':
        one += [((3, 2, 2), 64), ((2, 2, 6), 32), ((2, 3, 4), 200), ((3, 2, 3), 300)]
        many += [((2, 3, 2), 200)]
    for s, k in one:
        out += [('one', s, i, k) for i in range(k)]
    for s, k in many:
        out += [('many', s, i, k) for i in range(k)]
    out += [('long', tier, i, 27) for i in range(27)]
    out += [('walks', tier, i, 8) for i in range(8)]
    return out


LONG_P = [[[0.25, 0.75], [0.5, 0.5]], [[1.0, 0.0], [0.25, 0.75]], [[0.0, 1.0], [0.75, 0.25]]]
LONG_E = [[[0.75, 0.25], [0.0, 1.0]], [[0.5, 0.5], [0.25, 0.75]], [[0.25, 0.25, 0.5], [0.0, 0.75, 0.25]]]


def cases(job):
    if job[0] == 'special':
        for P, E, d in SPECIAL:
            yield {'P': P, 'E': E, 'd': d, 'many': len(P) == 3, 'L': 'mix'}
        return
    if job[0] == 'walks':
        every = [{'walk': steps, 'n': n, 'k': k, 'a': a, 'b': b, 'L': fam.MODES[(n + k) % 4]} for n, k, a, b in ((2, 2, 1, 1), (3, 2, 1, 1), (2, 5, 1, 3), (13, 4, 2, 3), (20, 20, 1, 7), (6, 37, 5, 1))
                 for steps in (list(range(2, 70)) + [100, 128, 255, 256, 257, 512, 1000] + ([] if job[1] == 'quick' else [2048, 4096, 5000]))]
        yield from every[job[2]::job[3]]
        return
    if job[0] == 'long':
        c = itertools.product(LONG_P, LONG_E, [None, 0, 1])
        for P, E, init in itertools.islice(c, job[2], None, job[3]):
            yield {'P': P, 'E': E, 'd': 4, 'long': 2 if job[1] == 'quick' else 3, 'init': init, 'L': 'rev'}
        return
    kind, (n, k, d), i, parts = job
    for idx, (P, E) in enumerate(itertools.islice(models(n, k, d), i, None, parts)):
        yield {'P': P, 'E': E, 'd': d, 'many': kind == 'many', 'L': fam.MODES[idx % 4]}


def sequences(P, E, n, k, starts, steps, fs, fy):
    out = {}
    stack = []
    for s, pr in starts:
        t = sum(E[s])
        stack += [((s,), (y,), pr * E[s][y] / t) for y in range(k) if E[s][y] > 0.0]
    while stack:
        a, b, pr = stack.pop()
        if len(a) == steps + 1 or (len(a) > 1 and (a[-1] == fs or b[-1] == fy)):
            out[(a, b)] = out.get((a, b), 0.0) + pr
            continue
        tp = sum(P[a[-1]])
        for j in range(n):
            if P[a[-1]][j] > 0.0:
                te = sum(E[j])
                for y in range(k):
                    if E[j][y] > 0.0:
                        stack.append((a + (j,), b + (y,), pr * P[a[-1]][j] / tp * E[j][y] / te))
    return out


def compare(ctx, kind, got, exp, tol):
    ctx.traces += len(exp)
    bad = [w for w in got if w not in exp]
    miss = [w for w in exp if w not in got]
    if bad or miss:
        ctx.fail(kind, f'sequences that must not occur {bad[:3]}, sequences that never occur {miss[:3]}')
        return
    for w, p in exp.items():
        if abs(got[w] - p) > tol:
            ctx.fail(kind, f'{w} has probability {got[w]} instead of {p}')
            return


def walk(ctx, case):
    """Models with one outcome per step and symbol: the sequence is determined."""
    import pydtmc
    n, k, a, b, steps = case['n'], case['k'], case['a'], case['b'], case['walk']
    st = fam.labels(case['L'], n)
    sy = ['y' + s for s in reversed(fam.labels('num', k))]
    succ, emit = [(i + a) % n for i in range(n)], [(i * b) % k for i in range(n)]
    hmm = pydtmc.HiddenMarkovModel(np.array([[float(j == succ[i]) for j in range(n)] for i in range(n)]), np.array([[float(j == emit[i]) for j in range(k)] for i in range(n)]), st, sy)
    ctx.states += 1
    for init, fs, fy in [(i, f, y) for i in (0, n - 1) for f in (None, 0, n - 1, (steps * 7) % n) for y in (None, 0, emit[n - 1])]:
        x = [init]
        while len(x) < steps + 1 and (len(x) == 1 or x[-1] != fs and emit[x[-1]] != fy):
            x.append(succ[x[-1]])
        y = [emit[i] for i in x]
        kw = {q: v for q, v in (('final_state', fs), ('final_symbol', fy)) if v is not None}
        kl = {q: (st if q == 'final_state' else sy)[v] for q, v in kw.items()}
        ctx.nontrivial += len(x) < steps + 1
        ctx.same('long sequence', hmm.simulate(steps, st[init], output_indices=True, **kw), (x, y))
        ctx.same('long sequence', hmm.simulate(steps, init, seed=steps, **kl), ([st[i] for i in x], [sy[i] for i in y]))
        ctx.transitions += 2


def check(ctx, case):
    import pydtmc
    if 'walk' in case:
        walk(ctx, case)
        return
    P, E, d = case['P'], case['E'], case['d']
    n, k = len(P), len(E[0])
    st = fam.labels(case['L'], n)
    sy = ['y' + s for s in reversed(fam.labels('num', k))]
    hmm = pydtmc.HiddenMarkovModel(np.array(P), np.array(E), st, sy)
    ctx.states += 1
    ctx.nontrivial += any(v == 0.0 for r in P + E for v in r)
    ps, py = {s: i for i, s in enumerate(st)}, {s: i for i, s in enumerate(sy)}
    rng = {'grid': d, 'extremes': (0.0, TOP)}

    if 'long' in case:
        steps, init = case['long'], case['init']
        for fs, fy in ((None, None), (1, None), (None, 0)):
            got, runs = fakerng.law(lambda pt: tuple(tuple(v) for v in hmm.simulate(steps, init, fs, fy, True)), grid=d)
            ctx.transitions += runs
            exp = sequences(P, E, n, k, [(init, 1.0)] if init is not None else [(s, 1.0 / n) for s in range(n)], steps, fs, fy)
            compare(ctx, f'simulate steps={steps} initial={init} final={fs},{fy}', got, exp, 1e-9)
        return

    # one step
    for i in range(n):
        law2 = sequences(P, E, n, k, [(i, 1.0)], 1, None, None)
        for mode in range(4):
            target = ('both', 'state', 'symbol', None)[mode]
            idx = (i + mode) % 2 == 0

            def one(pt):
                kw = {} if target is None else {'target': target}
                if idx:
                    kw['output_index'] = True
                if mode == 1:
                    kw['seed'] = 7
                g = hmm.next(i if mode % 2 else st[i], **kw)
                ctx.expect((pt.glob.draws == 0 and [s for s, _ in pt.seeded] == [7]) if mode == 1 else not pt.seeded, 'next random source', 'wrong source')
                parts = g if target in ('both', None) else (g,)
                ctx.expect((type(g) is tuple) == (target in ('both', None)) and all(type(v) is (int if idx else str) for v in parts), 'next type', lambda: g)
                if idx:
                    return tuple(parts)
                maps = {'state': [ps], 'symbol': [py]}.get(target, [ps, py])
                return tuple(m[v] for m, v in zip(maps, parts))

            got, runs = fakerng.law(one, **rng)
            ctx.transitions += runs
            exp = {}
            for (a, b), pr in law2.items():
                key = {'state': (a[1],), 'symbol': (b[1],)}.get(target, (a[1], b[1]))
                exp[key] = exp.get(key, 0.0) + pr
            compare(ctx, f'next {target}', got, exp, 1e-9)
    if not case['many']:
        return
    # two steps, all stopping conditions
    combos = itertools.product([None] + list(range(n)), [None] + list(range(n)), [None] + list(range(k)))
    for c, (init, fs, fy) in enumerate(combos):
        if n == 3 and c % 5:
            continue
        mode = c % 3

        def many(pt):
            kw = {}
            if init is not None:
                kw['initial_state'] = st[init] if mode else init
            if fs is not None:
                kw['final_state'] = st[fs] if mode == 1 else fs
            if fy is not None:
                kw['final_symbol'] = sy[fy] if mode == 2 else fy
            if mode == 1:
                kw['output_indices'] = True
            if mode == 2:
                kw['seed'] = 5
            g = hmm.simulate(2, **kw)
            ctx.expect((pt.glob.draws == 0 and [s for s, _ in pt.seeded] == [5]) if mode == 2 else not pt.seeded, 'simulate random source', 'wrong source')
            if not ctx.expect(type(g) is tuple and len(g) == 2 and all(type(v) is list for v in g) and all(type(v) is (int if mode == 1 else str) for q in g for v in q), 'simulate type', lambda: g):
                return ((), ())
            return (tuple(g[0]), tuple(g[1])) if mode == 1 else (tuple(ps[v] for v in g[0]), tuple(py[v] for v in g[1]))

        got, runs = fakerng.law(many, grid=d, extremes=() if n == 3 else (0.0, TOP))
        ctx.transitions += runs
        exp = sequences(P, E, n, k, [(init, 1.0)] if init is not None else [(s, 1.0 / n) for s in range(n)], 2, fs, fy)
        ctx.nontrivial += any(len(a) < 3 for a, _ in exp)
        compare(ctx, f'simulate initial={init} final={fs},{fy}', got, exp, 1e-6 if n == 3 else 1e-9)
