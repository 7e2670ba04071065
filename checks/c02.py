import itertools
import math
import traceback

from lib import families as fam

import numpy as np

PROPERTY = 'C02'
RULE = ('every way of creating a model, over grids of arguments which include the limits of the ranges and extreme magnitudes, and every transformation of every chain '
        'of families with extreme weights; non-trivial: a model was produced')
ASSUMPTIONS = ['a documented error is a ValidationError, or a ValueError raised by the code of the models themselves']

TINY, HUGE = 5e-324, 1.7e308

APPROX = {
    'alpha': [-1e6, 0.0, 0.5, 1e6], 'sigma': [1e-12, 0.01, 0.5, 1.0, 10.0, 1e6], 'rho': [-1.0, -0.999999, -0.5, 0.0, 0.5, 0.9, 0.999999, 1.0],
    'k': [None, 1.0, 3.0, 0.01, 50.0],
}

FUNCS = {
    'zero': lambda x_index, x_value, y_index, y_value: 0.0,
    'one': lambda x_index, x_value, y_index, y_value: 1.0,
    'gauss': lambda x_index, x_value, y_index, y_value: math.exp(-(y_value - x_value)**2 * 20.0),
    'sharp': lambda x_index, x_value, y_index, y_value: math.exp(-min(700.0, (y_value - x_value)**2 * 1e6)),
    'huge': lambda x_index, x_value, y_index, y_value: HUGE,
    'tiny': lambda x_index, x_value, y_index, y_value: TINY,
    'mixed': lambda x_index, x_value, y_index, y_value: HUGE if y_index == 0 else TINY,
    'spread': lambda x_index, x_value, y_index, y_value: 10.0**(-60 * y_index),
    'single': lambda x_index, x_value, y_index, y_value: float(x_index == y_index),
    'row': lambda x_index, x_value, y_index, y_value: float(x_index != 0),
    'negative': lambda x_index, x_value, y_index, y_value: x_value - y_value,
    'minus': lambda x_index, x_value, y_index, y_value: -1.0,
    'integer': lambda x_index, x_value, y_index, y_value: x_index + y_index,
    'inverse': lambda x_index, x_value, y_index, y_value: 1.0 / (1e-9 + abs(y_value - x_value)),
    'poly': lambda x_index, x_value, y_index, y_value: (x_value * y_value)**2,
}
QUADS = ['gauss-chebyshev', 'gauss-legendre', 'niederreiter', 'newton-cotes', 'simpson-rule', 'trapezoid-rule']

DISTS = {
    'beta': [dict(a=1e-3, b=1e-3), dict(a=1.0, b=2.0), dict(a=1e300, b=1.0)], 'binomial': [dict(n=1, p=0.5), dict(n=10, p=0.0), dict(n=3, p=1.0)], 'chisquare': [dict(df=1e-3), dict(df=3.0)],
    'exponential': [dict(scale=0.0), dict(scale=1.0), dict(scale=1e308), dict(scale=1e-320)], 'f': [dict(dfnum=1.0, dfden=1e-2), dict(dfnum=1.0, dfden=1.0)], 'gamma': [dict(shape=1e-4), dict(shape=2.0, scale=1e300)],
    'geometric': [dict(p=1e-10), dict(p=1.0), dict(p=0.5)], 'gumbel': [dict(loc=-5.0), dict(loc=0.0, scale=1e308)], 'hypergeometric': [dict(ngood=1, nbad=1, nsample=1), dict(ngood=0, nbad=2, nsample=1)],
    'laplace': [dict(loc=0.0, scale=1.0), dict(loc=-1e300)], 'logistic': [dict(loc=0.0, scale=1e308)], 'lognormal': [dict(mean=0.0, sigma=1.0), dict(mean=0.0, sigma=500.0)], 'logseries': [dict(p=0.5)],
    'negative_binomial': [dict(n=1, p=0.5)], 'noncentral_chisquare': [dict(df=3.0, nonc=20.0)], 'noncentral_f': [dict(dfnum=3.0, dfden=2.0, nonc=1.0)], 'normal': [dict(loc=0.0, scale=1.0), dict(loc=-100.0, scale=1.0), dict(scale=0.0)],
    'pareto': [dict(a=1e-3), dict(a=3.0)], 'poisson': [dict(lam=0.0), dict(lam=1.0)], 'power': [dict(a=1e-3), dict(a=5.0)], 'rayleigh': [dict(scale=0.0), dict(scale=1.0)], 'triangular': [dict(left=-3.0, mode=-2.0, right=-1.0), dict(left=0.0, mode=0.5, right=1.0)],
    'uniform': [{}, dict(low=-1.0, high=0.0), dict(low=0.0, high=TINY), dict(low=0.0, high=HUGE)], 'vonmises': [dict(mu=0.0, kappa=4.0)], 'wald': [dict(mean=1.0, scale=1e-3)], 'weibull': [dict(a=1e-2), dict(a=5.0)], 'zipf': [dict(a=1.01), dict(a=2.0)],
}


def jobs(tier, seed):
    deep = tier != 'quick'
    parts = {'approx': 48, 'birthdeath': 16, 'function': 32, 'sequence': 8, 'matrix': 16, 'mapping': 8, 'gambler': 1, 'identity': 1, 'genetics': 8, 'random': 8, 'dist': 8, 'dirichlet': 4, 'urn': 4,
             'estimate': 8, 'hmmfit': 16, 'hmmother': 8}
    out = [(k, deep, i, n) for k, n in parts.items() for i in range(n)]
    s = [(('sup', 2, 't'), 1), (('sup', 3, 't'), 16), (('can', 4, 't', [1]), 24), (('ring', [5, 7], 't'), 4), (('fun', 4), 4)]
    if deep:
        s += [(('sup', 3, 's'), 16), (('can', 4, 't', [0, 2, 3, 4]), 96), (('struct', 't', [0, 1]), 48)]
    return out + [('trans', deep) + j for j in fam.make_jobs(s, 1)] + [('extreme', deep, i, 32) for i in range(32)]


def grid(kind, deep):
    if kind == 'approx':
        sizes = (2, 3, 4, 5, 9, 15) if deep else (2, 3, 7)
        for t in ('rouwenhorst', 'tauchen', 'tauchen-hussey', 'adda-cooper'):
            # the integrals of the Adda-Cooper method are slow
            ks = APPROX['k'] if t.startswith('tauchen') else [None]
            al = APPROX['alpha'] if t != 'adda-cooper' or deep else [0.0, 1e6]
            for n, a, s, r, k in itertools.product(sizes if t != 'adda-cooper' or deep else (2, 4), al, APPROX['sigma'], APPROX['rho'], ks):
                yield [n, t, a, s, r, k]
    elif kind == 'birthdeath':
        for n in (2, 3, 4) if deep else (2, 3):
            v = [0.0, 1e-300, 0.25, 1 / 3, 0.5, 2 / 3, 1.0] if n == 2 or deep else [0.0, 1e-300, 1 / 3, 2 / 3, 1.0]
            if n == 4:
                v = [0.0, 1 / 3, 2 / 3, 1.0]
            for p in itertools.product(v, repeat=n):
                for q in itertools.product(v, repeat=n):
                    if p[-1] == 0.0 and q[0] == 0.0 and all(a + b <= 1.0 for a, b in zip(p, q)):
                        yield [list(p), list(q)]
    elif kind == 'function':
        for q, n, f in itertools.product(QUADS, (2, 3, 4, 5, 6, 9, 16, 33) if deep else (2, 3, 4, 5, 9), sorted(FUNCS)):
            for iv in (None, (-1.0, 1.0), (0.0, 1e-300), (-1e300, 1e300), (5.0, 5.5)):
                yield [q, n, f, iv]
    elif kind == 'sequence':
        for n in (2, 3):
            for m in range(2, 7 if n == 2 else 5 + deep):
                for s in itertools.product(range(n), repeat=m):
                    yield [n, list(s)]
    elif kind == 'matrix':
        v = [0.0, TINY, 1e-200, 0.1, 1.0, 3.0, 1e200, HUGE]
        for r in itertools.product(v, repeat=4):
            yield [[list(r[:2]), list(r[2:])]]
        for r in itertools.product([0.0, TINY, 0.1, 1.0, HUGE], repeat=3):
            for k in range(3):
                m = [[0.0, 0.0, 0.0], [1.0, 2.0, 3.0], [HUGE, HUGE, HUGE]]
                m[k] = list(r)
                yield [m]
    elif kind == 'mapping':
        for r in itertools.product([0.0, 1e-300, 0.1, 0.5, 0.9, 1.0, 3.0, HUGE, float('inf')], repeat=4):
            yield list(r)
    elif kind == 'gambler':
        for n in range(3, 40):
            for w in (TINY, 1e-17, 0.1, 1 / 3, 0.5, 0.7, 1.0 - 1e-16):
                yield [n, w]
    elif kind == 'identity':
        for n in range(2, 60):
            yield [n]
    elif kind == 'genetics':
        for m in ('moran', 'wright-fisher'):
            for n in (2, 3, 4, 7, 20, 100, 500) if deep else (2, 3, 7, 60):
                for s, u, v in itertools.product((-1.0, -0.999, -0.5, 0.0, 1e-12, 0.5, 1.0, 20.0, 1e300), (0.0, 1e-300, 1e-9, 1e-3, 0.1, 1.0), (0.0, 1e-9, 1e-3, 0.1, 0.5, 1.0)):
                    yield [m, n, s, u, v]
    elif kind == 'random':
        for n in (2, 3, 4, 6):
            for z in range(n * (n - 1) + 2):
                for seed in range(12 if deep else 4):
                    yield [n, z, seed]
    elif kind == 'dist':
        for name, args in DISTS.items():
            for i in range(len(args)):
                for n, seed in itertools.product((2, 3, 8), range(10 if deep else 3)):
                    yield [name, i, n, seed]
    elif kind == 'dirichlet':
        for n, seed in itertools.product((2, 3, 5, 9), range(10 if deep else 3)):
            for df in range(1, n + 1):
                for bias, shift in itertools.product((None, 1e-12, 0.5, 3.0, 1e12), (False, True)):
                    yield [n, df, bias, shift, seed]
    elif kind == 'urn':
        for n in range(1, 60 if deep else 25):
            for m in ('bernoulli-laplace', 'ehrenfest'):
                yield [m, n]
    elif kind == 'estimate':
        for n in (2, 3):
            for m in range(2, 5 + deep):
                if n == 3 and m > 3:
                    continue
                for s in itertools.product(range(n), repeat=m):
                    for y in itertools.product(range(2), repeat=m):
                        yield [n, list(s), list(y)]
    elif kind == 'hmmfit':
        ps = [[[0.5, 0.5], [0.5, 0.5]], [[0.9, 0.1], [0.2, 0.8]], [[1.0, 0.0], [0.0, 1.0]], [[0.0, 1.0], [1.0, 0.0]], [[1.0, 0.0], [0.5, 0.5]], [[1e-300, 1.0], [1.0, 1e-300]]]
        es = [[[0.5, 0.5], [0.5, 0.5]], [[0.8, 0.2], [0.3, 0.7]], [[1.0, 0.0], [0.0, 1.0]], [[1.0, 0.0], [1.0, 0.0]], [[1e-300, 1.0], [0.5, 0.5]]]
        for t, p, e in itertools.product(('baum-welch', 'map', 'mle', 'viterbi'), range(len(ps)), range(len(es))):
            for m in (2, 3, 4, 5) if deep else (2, 3, 4):
                for y in itertools.product(range(2), repeat=m):
                    yield [t, ps[p], es[e], list(y)]
    elif kind == 'hmmother':
        v = [0.0, TINY, 0.3, 1.0, HUGE]
        for r in itertools.product(v, repeat=4):
            for e in ([1.0, 0.0, 0.0], [TINY, HUGE, 0.3], [0.0, 0.0, 0.0]):
                yield ['from', [list(r[:2]), list(r[2:])], [e, e[::-1]]]
        for n, k, seed in itertools.product((2, 3), (2, 3, 4), range(3)):
            for pz, ez in itertools.product(range(n * (n - 1) + 2), range(n * (k - 1) + 2)):
                yield ['random', n, k, pz, ez, seed]
        yield from (['restrict', i] for i in range(81))


def cases(job):
    kind, deep = job[:2]
    if kind == 'trans':
        for c in fam.case_iter(job[2:]):
            yield {'kind': 'trans', 'N': c['N'], 'L': c['L']}
    elif kind == 'extreme':
        rows = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1e-300, 1.0, 0.0], [1.0, TINY, 1e-17], [0.5, 0.5, 0.0], [1e-9, 0.5, 0.5 - 1e-9], [1 / 3, 1 / 3, 1 / 3], [0.0, 1e-12, 1.0]]
        for m in itertools.islice(itertools.product(rows, repeat=3), job[2], None, job[3]):
            yield {'kind': 'trans', 'P': [list(r) for r in m], 'L': 'mix'}
    else:
        for a in itertools.islice(grid(kind, deep), job[2], None, job[3]):
            yield {'kind': kind, 'a': a}


def valid(ctx, what, m, n, k=None):
    """The model is valid and can be constructed anew from its own matrices and labels."""
    import pydtmc
    ctx.traces += 1
    ctx.nontrivial += 1
    hidden = isinstance(m, pydtmc.HiddenMarkovModel)
    mats = [('p', m.p)] + ([('e', m.e)] if hidden else [])
    labs = [('states', m.states)] + ([('symbols', m.symbols)] if hidden else [])
    shapes = {'p': (n, n) if n else m.p.shape, 'e': (n, k) if k else (m.e.shape if hidden else None)}
    for name, x in mats:
        ok = isinstance(x, np.ndarray) and x.dtype == np.float64 and x.shape == shapes[name] and bool(np.isfinite(x).all() and (x >= 0.0).all() and (x <= 1.0).all() and (abs(x.sum(axis=1) - 1.0) < 1e-8).all())
        if not ctx.expect(ok, f'{name} of {what[0]}', lambda: f'{what}: {x.tolist()}'):
            return
    for name, x in labs:
        size = m.p.shape[0] if name == 'states' else m.e.shape[1]
        ok = isinstance(x, list) and len(x) == size and len(set(x)) == size and all(isinstance(s, str) and s.strip() for s in x)
        if not ctx.expect(ok, f'{name} of {what[0]}', lambda: f'{what}: {x}'):
            return
    if hidden:
        ctx.expect(not set(m.states) & set(m.symbols), f'labels of {what[0]}', lambda: f'{what}: {m.states} {m.symbols}')
        again = pydtmc.HiddenMarkovModel(m.p, m.e, m.states, m.symbols)
    else:
        again = pydtmc.MarkovChain(m.p, m.states)
    ctx.expect(again == m and np.array_equal(again.p, m.p) and again.states == m.states, f'reconstruction of {what[0]}', lambda: f'{what}: {m.p.tolist()}')


def make(ctx, what, f, n=None, k=None, refuse=None):
    """refuse: True (must be refused), False (must not be), None (either)."""
    import pydtmc
    ctx.transitions += 1
    try:
        m = f()
    except pydtmc.ValidationError as ex:
        ctx.traces += 1
        ctx.expect(refuse is not False, f'refusal of {what[0]}', lambda: f'{what}: {ex}')
        return None
    except ValueError as ex:
        ctx.traces += 1
        last = traceback.extract_tb(ex.__traceback__)[-1]
        ok = type(ex) is ValueError and last.filename.endswith(('pydtmc/markov_chain.py', 'pydtmc/hidden_markov_model.py'))
        ctx.expect(ok and refuse is not False, f'error of {what[0]}', lambda: f'{what}: {ex!r}')
        return None
    ctx.expect(refuse is not True, f'no refusal of {what[0]}', lambda: f'{what}: {m.p.tolist()}')
    valid(ctx, what, m, n, k)
    return m


def check(ctx, case):
    import pydtmc
    MC, HM = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel
    kind = case['kind']
    ctx.states += 1
    if kind == 'trans':
        return transformations(ctx, case, MC)
    a = case['a']
    what = (kind, *a)
    if kind == 'approx':
        # a unit root has no finite stationary variance; the methods replace it or refuse it
        make(ctx, what, lambda: MC.approximation(*a[:5], k=a[5]), a[0], refuse=None)
        if a[4] not in (-1.0, 1.0) and a[5] is None and 1e-3 < a[3] < 100 and abs(a[2]) < 2 and abs(a[4]) < 0.99:
            make(ctx, what, lambda: MC.approximation(*a[:5], states=[f'v{i}' for i in range(a[0])]), a[0], refuse=False)
    elif kind == 'birthdeath':
        make(ctx, what, lambda: MC.birth_death(np.array(a[0]), np.array(a[1])), len(a[0]), refuse=False)
    elif kind == 'function':
        make(ctx, what, lambda: MC.fit_function(a[0], [f'v{i}' for i in range(a[1])], FUNCS[a[2]], a[3] and tuple(a[3])), a[1], refuse=None if a[2] in ('negative', 'minus') or (a[0] == 'simpson-rule' and a[1] % 2 == 0) or a[3] else False)
    elif kind == 'sequence':
        n, s = a
        lab = [f'v{i}' for i in range(n)]
        for t, par in (('map', None), ('map', np.full((n, n), 7)), ('map', np.eye(n) * 10**9 + 1), ('mle', None), ('mle', True), ('mle', False)):
            make(ctx, what + (t, repr(par)), lambda: MC.fit_sequence(t, lab, [lab[i] for i in s], par), n, refuse=False)
    elif kind == 'matrix':
        make(ctx, what, lambda: MC.from_matrix(np.array(a[0])), len(a[0]), refuse=False)
    elif kind == 'mapping':
        import networkx as nx
        d = {(str(i), str(j)): a[2 * i + j] for i in range(2) for j in range(2)}
        make(ctx, what + ('dictionary',), lambda: MC.from_dictionary(d), 2, refuse=None)
        for cls in (nx.DiGraph, nx.MultiDiGraph):
            g = cls()
            g.add_nodes_from(['0', '1'])
            for (i, j), w in d.items():
                if w:
                    g.add_edge(i, j, weight=w)
            make(ctx, what + ('graph',), lambda: MC.from_graph(g), 2, refuse=None)
    elif kind == 'gambler':
        make(ctx, what, lambda: MC.gamblers_ruin(*a), a[0], refuse=False)
    elif kind == 'identity':
        make(ctx, what, lambda: MC.identity(a[0]), a[0], refuse=False)
    elif kind == 'genetics':
        make(ctx, what, lambda: MC.population_genetics_model(*a), a[1] + 1, refuse=None)
    elif kind == 'random':
        n, z, seed = a
        make(ctx, what, lambda: MC.random(n, None, z, None, seed), n, refuse=z > n * (n - 1))
    elif kind == 'dist':
        name, i, n, seed = a
        with np.errstate(all='ignore'):
            make(ctx, what, lambda: MC.random_distribution(n, name, None, seed, **DISTS[name][i]), n, refuse=False)
    elif kind == 'dirichlet':
        n, df, bias, shift, seed = a
        make(ctx, what, lambda: MC.dirichlet_process(n, df, None, bias, shift, seed), n, refuse=False)
    elif kind == 'urn':
        make(ctx, what, lambda: MC.urn_model(*a), 2 * a[1] + 1, refuse=False)
    elif kind == 'estimate':
        n, s, y = a
        make(ctx, what, lambda: HM.estimate([f's{i}' for i in range(n)], ['a', 'b'], [f's{i}' for i in s], [f'{"ab"[i]}' for i in y]), n, 2, refuse=False)
    elif kind == 'hmmfit':
        t, p, e, y = a
        for st in (None, 0, [0.25, 0.75]):
            make(ctx, what + (st,), lambda: HM.fit(t, ['s', 't'], ['a', 'b'], np.array(p), np.array(e), ['ab'[i] for i in y], st if not isinstance(st, list) else np.array(st)), 2, 2)
        if len(y) == 4:
            make(ctx, what + ('two',), lambda: HM.fit(t, ['s', 't'], ['a', 'b'], np.array(p), np.array(e), [['ab'[i] for i in y[:2]], ['ab'[i] for i in y[2:]]]), 2, 2)
    else:
        if a[0] == 'from':
            make(ctx, what, lambda: HM.from_matrices(np.array(a[1]), np.array(a[2])), 2, 3, refuse=False)
        elif a[0] == 'random':
            _, n, k, pz, ez, seed = a
            make(ctx, what, lambda: HM.random(n, k, p_zeros=pz, e_zeros=ez, seed=seed), n, k, refuse=pz > n * (n - 1) or ez > n * (k - 1))
        else:
            rows = [[1.0, 0.0, 0.0], [0.0, 0.5, 0.5], [1e-300, 1e-17, 1.0]]
            idx = list(itertools.product(range(3), repeat=4))[a[1]]
            h = HM([rows[i] for i in idx[:3]], [rows[idx[3]], rows[(idx[3] + idx[0]) % 3], rows[0]])
            for sub in ([0, 1], [0, 2], [2, 1], [1, 2], ['P1', 'P3']):
                make(ctx, what + (sub,), lambda: h.restrict(states=sub), 2, 3, refuse=False)
                make(ctx, what + (sub,), lambda: h.restrict(symbols=[s if isinstance(s, int) else 'E' + s[1] for s in sub]), 3, 2, refuse=False)
                make(ctx, what + (sub,), lambda: h.restrict(sub, [0, 1]), 2, 2, refuse=False)


def transformations(ctx, case, MC):
    from lib.ref import Ref
    p = np.array(case['P']) if 'P' in case else Ref(case['N']).Pf()
    n = p.shape[0]
    st = fam.labels(case['L'], n)
    mc = MC(p, st)
    what = ('trans', case.get('N') or case.get('P'))
    for b in (0.0, 1e-300, 0.5, 1.0, 'absorbing', 'reflecting'):
        make(ctx, ('bounded chain', b) + what, lambda: mc.to_bounded_chain(b), n, refuse=False)
    make(ctx, ('canonical form',) + what, mc.to_canonical_form, n, refuse=False)
    for w in (1e-300, 0.5, 1.0 - 1e-16, 0.0, 1.0, [(i % 3) / 2 for i in range(n)]):
        make(ctx, ('lazy chain', w) + what, lambda: mc.to_lazy_chain(w), n, refuse=False)
    for k in (2, 3, 7, 64, 1000, 10**6):
        make(ctx, ('chain of order', k) + what, lambda: mc.to_nth_order(k), n, refuse=False)
    for size in (1, 2) if n > 2 else (1,):
        for sub in itertools.combinations(range(n), size):
            make(ctx, ('subchain', sub) + what, lambda: mc.to_subchain(list(sub)))
    other = MC(p[::-1])
    for g in (1e-300, 0.3, 1.0 - 1e-16):
        make(ctx, ('merged chain', g) + what, lambda: mc.merge_with(other, g), n, refuse=False)
    for s in range(2, n):
        for m in ('spectral-bottom-up', 'spectral-top-down'):
            make(ctx, ('aggregated chain', s, m) + what, lambda: mc.aggregate(s, m), s, refuse=None if not mc.is_ergodic else False)
    if n > 2:
        for cuts in itertools.product((0, 1), repeat=n - 1):
            if 1 <= sum(cuts) < n - 1:
                part, cur = [], [0]
                for i, c in enumerate(cuts):
                    if c:
                        part.append(cur)
                        cur = []
                    cur.append(i + 1)
                part.append(cur)
                make(ctx, ('lumped chain', part) + what, lambda: mc.lump(part), len(part))
                big = next(b for b in part if len(b) > 1)
                names = [f's{i}' for i in range(n)]
                names[next(b for b in part if b is not big)[0]] = ','.join(names[i] for i in big)
                make(ctx, ('lumped chain with commas', part) + what, lambda: MC(p, names).lump(part), len(part))
    for d in (None, [1.0] + [0.0] * (n - 1), [2 * (i + 1) / (n * (n + 1)) for i in range(n)]):
        make(ctx, ('closest reversible chain', d) + what, lambda: mc.closest_reversible(d, False), n)
        if d is None or 0.0 not in d:
            make(ctx, ('closest reversible chain', d, True) + what, lambda: mc.closest_reversible(d, True), n)
    make(ctx, ('dictionary',) + what, lambda: MC.from_dictionary(mc.to_dictionary()), n, refuse=False)
    make(ctx, ('graph',) + what, lambda: MC.from_graph(mc.to_graph()), n, refuse=False)
    make(ctx, ('matrix',) + what, lambda: MC.from_matrix(mc.to_matrix(), mc.states), n, refuse=False)
