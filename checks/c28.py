import itertools
import math

from lib import fakerng

import numpy as np

PROPERTY = 'C28'
RULE = ('every mask over a small alphabet of entries, every number of null probabilities (also impossible ones) and every sequence of outcomes of the random source '
        '(positions and permutations exhaustively, uniform draws on a grid with the value 0); non-trivial: a mask or null probabilities are requested')
ASSUMPTIONS = ['integer draws and permutations of the random source take every value of their range', 'a row whose fixed probabilities already sum to 1 is complete: its free entries are null and do not count',
               'no row of draws of a Dirichlet process is completely null']

NAN = float('nan')
ROWS3 = [[NAN, NAN, NAN], [0.0, NAN, NAN], [NAN, 0.25, NAN], [NAN, NAN, 0.5], [0.25, 0.75, 0.0], [NAN, 1.0, NAN], [0.5, 0.5, NAN], [0.0, NAN, 0.0], [0.5, 0.0, 0.0], [0.5, NAN, 0.75]]
ROWS4 = [[0.7, 0.2, 0.1, NAN], [0.05, 0.55, 0.3, 0.1], [NAN, 0.1, 0.7, 0.2], [0.3, NAN, 0.4, NAN]]     # the first ones are complete up to rounding
ROWS2 = [[a, b] for a in (NAN, 0.0, 0.5, 1.0) for b in (NAN, 0.0, 0.5, 1.0)] + [[0.9995, NAN], [NAN, 0.9999]]


def jobs(tier, seed):
    deep = tier != 'quick'
    out = [('mc2', i, 16) for i in range(16)] + [('mc3', deep, i, 120) for i in range(120)]
    out += [('hmmp', i, 16, deep) for i in range(16)] + [('hmme', i, 16, deep) for i in range(16)] + [('hmme3', i, 50, deep) for i in range(50)]
    out = [('mc4', i, 32) for i in range(32)] + [('dist', i, 12) for i in range(12)] + out + [('dirichlet', deep), ('labels',)]
    out += [('seeded', i, 16, deep) for i in range(16)]
    return out


def cases(job):
    kind = job[0]
    if kind == 'mc2':
        for m in itertools.islice(itertools.product(ROWS2, repeat=2), job[1], None, job[2]):
            yield {'kind': 'mc', 'mask': [list(r) for r in m], 'size': 2, 'grid': 2, 'ext': True}
        if job[1] == 0:
            yield {'kind': 'mc', 'mask': None, 'size': 2, 'grid': 2, 'ext': True}
    elif kind == 'mc3':
        for m in itertools.islice(itertools.product(ROWS3, repeat=3), job[2], None, job[3]):
            free = sum(1 for r in m for v in r if v != v)
            if free <= (9 if job[1] else 7):
                yield {'kind': 'mc', 'mask': [list(r) for r in m], 'size': 3, 'grid': 1, 'ext': False}
    elif kind == 'mc4':
        for m in itertools.islice(itertools.product(ROWS4, repeat=4), job[1], None, job[2]):
            yield {'kind': 'mc', 'mask': [list(r) for r in m], 'size': 4, 'grid': 1, 'ext': False}
            yield {'kind': 'hmme', 'mask': [list(r) for r in m[:2]], 'size': 4, 'grid': 1, 'ext': False}
    elif kind in ('hmmp', 'hmme'):
        for x, m in enumerate(itertools.islice(itertools.product(ROWS2, repeat=2), job[1], None, job[2])):
            yield {'kind': kind, 'mask': [list(r) for r in m], 'size': 2, 'grid': 1, 'ext': job[3] or (job[1] + x) % 3 == 0}
    elif kind == 'hmme3':
        rows = ROWS3 if job[3] else ROWS3[:1] + ROWS3[3:9]
        for m in itertools.islice(itertools.product(rows, repeat=2), job[1], None, job[2]):
            yield {'kind': 'hmme', 'mask': [list(r) for r in m], 'size': 3, 'grid': 1, 'ext': False}
    elif kind == 'dist':
        values = [NAN, -1.0, 0.0, 0.5, 2.0, float('inf'), 1.5e308, 5e-324]
        for rows in itertools.islice(itertools.product(itertools.product(values, repeat=2), repeat=2), job[1], None, job[2]):
            yield {'kind': 'dist', 'draws': [list(r) for r in rows]}
        for name in ('uniform', 'beta') if job[1] == 0 else ():
            yield {'kind': 'distname', 'name': name}
    elif kind == 'seeded':       # more states: every number of zeros, with the real random source
        every = [{'kind': 'seeded', 'n': n, 'k': k, 'zeros': z, 'mask': m} for n, k in ((5, 3), (9, 9), (11, 4), (6, 12), (13, 11)) for m in range(4) for z in range(n * max(n, k))]
        yield from every[job[1]:: job[2] * (1 if job[3] else 2)]
    elif kind == 'dirichlet':
        for size, df, bias, shift in itertools.product((2, 3) if job[1] else (2,), (1, 2), (None, 0.5, 3.0), (False, True)):
            yield {'kind': 'dirichlet', 'size': size, 'df': df, 'bias': bias, 'shift': shift}
    else:
        yield {'kind': 'labels'}


def number(v):
    return v == v


def legal(mask, cols):
    for r in mask:
        s = math.fsum(v for v in r if number(v))
        if s > 1.0 + 1e-12 or (all(map(number, r)) and abs(s - 1.0) > 1e-12):
            return False
    return True


def free_cells(mask):
    """The cells of incomplete rows which are not fixed, by row."""
    return [[j for j, v in enumerate(r) if not number(v)] if math.fsum(v for v in r if number(v)) < 1.0 - 1e-12 else [] for r in mask]


def arrangements(free, zeros):
    cells = [(i, j) for i, r in enumerate(free) for j in r]
    out = set()
    for z in itertools.combinations(cells, zeros):
        if all(not r or any((i, j) not in z for j in r) for i, r in enumerate(free)):
            out.add(z)
    return out


def valid_rows(m):
    m = np.asarray(m)
    return bool(np.all(np.isfinite(m)) and np.all(m >= 0.0) and np.all(m <= 1.0) and np.allclose(np.sum(m, axis=1), 1.0, rtol=0, atol=1e-9))


def judge(ctx, what, got, mask, free, zeros, extreme, seen):
    """One outcome: `got` is the matrix."""
    ok = ctx.expect(valid_rows(got), what + ' rows', lambda: got.tolist())
    fixed = all(got[i, j] == v for i, r in enumerate(mask) for j, v in enumerate(r) if number(v))
    ok &= ctx.expect(fixed, what + ' mask', lambda: f'{got.tolist()} does not honour {mask}')
    full = all(got[i, j] == 0.0 for i, r in enumerate(mask) if not free[i] for j, v in enumerate(r) if not number(v))
    ok &= ctx.expect(full, what + ' complete rows', lambda: got.tolist())
    z = tuple((i, j) for i, r in enumerate(free) for j in r if got[i, j] == 0.0)
    if extreme:
        ok &= ctx.expect(len(z) >= zeros, what + ' zeros', lambda: f'{len(z)} null probabilities instead of {zeros}: {got.tolist()} mask {mask}')
    else:
        ok &= ctx.expect(len(z) == zeros, what + ' zeros', lambda: f'{len(z)} null probabilities instead of {zeros}: {got.tolist()} mask {mask}')
        seen.add(z)
    return ok


def check(ctx, case):
    import pydtmc
    MC, HMM = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel
    kind = case['kind']
    ctx.states += 1
    if kind in ('mc', 'hmmp', 'hmme'):
        return masks(ctx, case, MC, HMM)
    if kind == 'dist':
        MC.random_distribution(2, 'uniform', seed=1)      # the list of distributions is computed with the real source
        d = np.array(case['draws'], dtype=float)

        def scen(pt):
            pt.glob.normal = lambda size=None: d.copy()
            return MC.random_distribution(2, 'normal').p

        for p, _, _ in fakerng.explore(scen):
            ctx.transitions += 1
            ctx.traces += 1
            ctx.nontrivial += 1
            if not ctx.expect(valid_rows(p), 'random-distribution rows', lambda: f'draws {d.tolist()} give {p.tolist()}'):
                return
            for i in range(2):
                w = [max(0.0, v) if number(v) else 0.0 for v in case['draws'][i]]
                if max(w) < 1e300:
                    s = sum(w)
                    ctx.close('random-distribution weights', p[i], [v / s for v in w] if s > 0.0 else [0.5, 0.5], 1e-12, 1e-12)
                else:
                    ctx.expect(all((v > 0.4) == (u > 1e300) for u, v in zip(w, p[i])), 'random-distribution weights', lambda: f'draws {d.tolist()} give {p.tolist()}')
        return
    if kind == 'distname':
        MC.random_distribution(2, 'uniform', seed=1)

        def scen2(pt):
            mc = MC.random_distribution(2, case['name'], states=['a', 'b'], **({'a': 1.0, 'b': 2.0} if case['name'] == 'beta' else {}))
            return mc.p, mc.states

        for (p, s), _, _ in fakerng.explore(scen2, grid=3, extremes=(0.0,)):
            ctx.transitions += 1
            ctx.traces += 1
            ctx.expect(valid_rows(p) and s == ['a', 'b'], 'random-distribution rows', lambda: p.tolist())
        return
    if kind == 'seeded':
        return seeded(ctx, case, MC, HMM)
    if kind == 'dirichlet':
        def scen3(pt):
            mc = MC.dirichlet_process(case['size'], case['df'], None, case['bias'], case['shift'])
            return mc.p, mc.states

        for (p, s), _, _ in fakerng.explore(scen3, grid=2, extremes=(1.0,) if case['size'] == 2 else ()):
            ctx.transitions += 1
            ctx.traces += 1
            ctx.expect(valid_rows(p) and s == [str(i + 1) for i in range(case['size'])], 'dirichlet rows', lambda: p.tolist())
        return
    # labels
    ctx.nontrivial += 1
    for seed in (None, 0, 5):
        for n in (2, 3, 5):
            given = [f'q{i}' for i in range(n)]
            sym = [f'y{i}' for i in range(n + 1)]
            for s in (None, given):
                exp = given if s else [str(i + 1) for i in range(n)]
                ctx.same('labels', MC.random(n, s, seed=seed).states, exp)
                ctx.same('labels', MC.random_distribution(n, 'uniform', s, seed=seed).states, exp)
                ctx.same('labels', MC.dirichlet_process(n, 1, s, seed=seed).states, exp)
                for y in (None, sym):
                    h = HMM.random(n, n + 1, s, 0, None, y, 0, None, seed)
                    ctx.same('labels', [h.states, h.symbols, list(h.size)], [given if s else [f'P{i + 1}' for i in range(n)], sym if y else [f'E{i + 1}' for i in range(n + 1)], [n, n + 1]])
                ctx.transitions += 5


def seeded(ctx, case, MC, HMM):
    import pydtmc
    n, k, zeros, mode = case['n'], case['k'], case['zeros'], case['mask']
    for what, rows, cols in (('mc', n, n), ('hmmp', n, n), ('hmme', n, k)):
        mask = [[NAN] * cols for _ in range(rows)]
        if mode == 1:        # the diagonal is given
            for i in range(rows):
                mask[i][i % cols] = (i % 4) / 4.0
        elif mode == 2:      # some complete rows, some null probabilities
            for i in range(0, rows, 3):
                mask[i] = [0.5 if j in (i % cols, (i + 1) % cols) else 0.0 if j % 2 else NAN for j in range(cols)]
            mask[1] = [0.0] * (cols - 1) + [NAN]
        elif mode == 3:
            mask[rows - 1] = [NAN] * (cols - 2) + [0.25, 0.5]
            mask[0][0] = 0.0
        free = free_cells(mask)
        most = sum(max(0, len(r) - 1) for r in free)
        arg = None if mode == 0 else np.array(mask)
        for seed in (None,) if zeros > most else (0, 1, 12345 + zeros):
            ctx.transitions += 1
            try:
                m = MC.random(n, None, zeros, arg, seed) if what == 'mc' else HMM.random(n, k, p_zeros=zeros, p_mask=arg, seed=seed) if what == 'hmmp' else HMM.random(n, k, e_zeros=zeros, e_mask=arg, seed=seed)
            except pydtmc.ValidationError as ex:
                ctx.traces += 1
                if zeros <= most:
                    ctx.fail('rejection', f'{what} mask {mask} with {zeros} zeros refused: {ex}')
                continue
            if zeros > most:
                ctx.fail('rejection', f'{what} mask {mask} with {zeros} zeros accepted')
                continue
            ctx.nontrivial += zeros > 0
            ctx.traces += 1
            judge(ctx, what, m.e if what == 'hmme' else m.p, mask, free, zeros, False, set())


def masks(ctx, case, MC, HMM):
    import pydtmc
    kind, size = case['kind'], case['size']
    given = case['mask']
    rows = 2 if kind == 'hmme' else size
    mask = given if given is not None else [[NAN] * size for _ in range(rows)]
    ok = legal(mask, size)
    free = free_cells(mask) if ok else None
    most = sum(max(0, len(r) - 1) for r in free) if ok else 0
    for zeros in range(most + 2):
        arg = None if given is None else np.array(given)

        def build():
            if kind == 'mc':
                return MC.random(size, None, zeros, arg)
            if kind == 'hmmp':
                return HMM.random(2, 2, p_zeros=zeros, p_mask=arg)
            return HMM.random(2, size, e_zeros=zeros, e_mask=arg)

        if not ok or zeros > most:
            ctx.traces += 1
            ctx.transitions += 1
            try:
                m = build()
            except pydtmc.ValidationError:
                continue
            ctx.fail('rejection', f'mask {mask} with {zeros} zeros accepted: {m.p.tolist()}')
            continue
        seen = set()
        ctx.nontrivial += zeros > 0 or given is not None

        def scen(pt):
            m = build()
            # a draw of the extreme value can add null probabilities
            return m.p, (m.e if kind != 'mc' else None), case['ext'] and pt.chooser.prob == 0.0

        kw = {'grid': case['grid'], 'extremes': (0.0,) if case['ext'] else ()}
        for (p, e, extreme), _, _ in fakerng.explore(scen, **kw):
            ctx.transitions += 1
            ctx.traces += 1
            got = e if kind == 'hmme' else p
            if kind != 'mc':
                other = p if kind == 'hmme' else e
                ctx.expect(valid_rows(other) and (extreme or np.all(other > 0.0)), 'other matrix', lambda: other.tolist())
            if not judge(ctx, kind, got, mask, free, zeros, extreme, seen):
                return
        ctx.same('arrangements', sorted(seen), sorted(arrangements(free, zeros)))
        if arg is not None:
            ctx.expect(np.array_equal(arg, np.array(given), equal_nan=True), 'mask argument', 'the mask was modified')
