import copy
import itertools
import pickle

from lib import queries as q

import numpy as np

PROPERTY = 'C03'
RULE = ('every ordered pair of queries with the first result and arguments altered in between, pairs of memoised queries followed by all queries, every creation followed by an alteration of its arguments, '
        'every pair of models queried alternately, on models of every structural type; non-trivial: a history in which something could be altered')
ASSUMPTIONS = ['results are altered through the public interface of the returned objects (arrays, lists, dictionaries, graphs, models)']

KINDS = list(q.TYPES) + list(q.HIDDEN)
PARTS = 6


def jobs(tier, seed):
    deep = tier != 'quick'
    out = [('pairs', k, i) for k in KINDS for i in range(PARTS)]
    out += [('create', i) for i in range(4)] + [('two', a, b) for a in KINDS for b in KINDS] + [('alias', k) for k in KINDS] + [('copies', k) for k in KINDS] + [('plots', k) for k in (KINDS if deep else KINDS[:1] + KINDS[5:6] + KINDS[-2:])]
    out += [('functions', 0)]
    if deep:
        out += [('triples', k, i, 24) for k in KINDS for i in range(24)]
    else:
        out += [('triples', k, i, 96) for k in ('absorbing', 'hmm', 'periodic') for i in range(8)]
    return out


def memoised(kind):
    """Queries which keep what they computed, found by looking at the attributes of a model before and after."""
    cat, _ = q.catalogue(kind)
    out = []
    for i, c in enumerate(cat):
        m = q.build(kind)
        before = state_size(m)
        c.run(m)
        if state_size(m) != before:
            out.append(i)
    return out


def state_size(m):
    return [(k, len(v) if isinstance(v, dict) else None) for k, v in sorted(vars(m).items())]


def cases(job):
    kind = job[0]
    if kind == 'pairs':
        n = len(q.catalogue(job[1])[0])
        for i in range(job[2], n, PARTS):
            yield {'k': 'pairs', 'm': job[1], 'i': i}
    elif kind == 'triples':
        mem = memoised(job[1])
        for i, j in itertools.islice(itertools.permutations(mem, 2), job[2], None, job[3]):
            yield {'k': 'triples', 'm': job[1], 'i': i, 'j': j}
    else:
        yield {'k': kind, 'a': list(job[1:])}


_fresh = {}


def fresh(kind):
    if kind not in _fresh:
        cat, alias = q.catalogue(kind)
        _fresh[kind] = (cat, alias, [c.run(q.build(kind))[0] for c in cat])
    return _fresh[kind]


def tell(a):
    return repr(a)[:300]


def ask(ctx, kind, m, i, history):
    """One query on a model with a history; its answer must be that of a fresh model."""
    cat, _, exp = fresh(kind)
    ctx.transitions += 1
    ctx.traces += 1
    c = cat[i]
    args0 = q.freeze(c.args()) if c.args is not None else None
    got, res, args = c.run(m)
    if not q.agree(got, exp[i]):
        ctx.fail(f'answer of {c.name} depends on history', f'{kind}: {history} then {c}: {tell(got)} instead of {tell(exp[i])}')
        return False, res, args
    if args0 is not None and not q.agree(q.freeze(args), args0):
        ctx.fail(f'arguments changed by {c.name}', f'{kind}: {c}: {tell(args)}')
    return True, res, args


def check(ctx, case):
    k = case['k']
    if k == 'pairs':
        pairs(ctx, case['m'], case['i'])
    elif k == 'triples':
        triples(ctx, case['m'], case['i'], case['j'])
    else:
        globals()[k](ctx, *case['a'])


def pairs(ctx, kind, i):
    cat, _, _ = fresh(kind)
    for j in range(len(cat)):
        m = q.build(kind)
        ctx.states += 1
        hist = f'{cat[i]}, alteration of the result'
        ok, res, args = ask(ctx, kind, m, i, 'nothing')
        if not ok:
            return
        ctx.nontrivial += bool(q.alter(res) + q.alter(args))
        if not ask(ctx, kind, m, j, hist)[0]:
            return
        if not ask(ctx, kind, m, i, hist + f', {cat[j]}')[0]:
            return


def triples(ctx, kind, i, j):
    cat, _, _ = fresh(kind)
    m = q.build(kind)
    ctx.states += 1
    for a, b in ((i, 'nothing'), (j, cat[i]), (i, f'{cat[i]}, {cat[j]}')):
        ok, res, args = ask(ctx, kind, m, a, b)
        if not ok:
            return
        ctx.nontrivial += bool(q.alter(res) + q.alter(args))
    everything(ctx, kind, m, f'{cat[i]}, {cat[j]}, {cat[i]}', (i + j) % 2 == 1)


def everything(ctx, kind, m, history, reverse=False):
    cat, _, _ = fresh(kind)
    ok = True
    for i in range(len(cat))[::-1 if reverse else 1]:
        good, res, args = ask(ctx, kind, m, i, history)
        ok &= good
        q.alter(res)
        q.alter(args)
        if not good:
            break
    return ok


def two(ctx, a, b):
    """Two models are queried alternately, in all the orders of the catalogue and its reverse; none influences the other."""
    ca, cb = fresh(a)[0], fresh(b)[0]
    ctx.nontrivial += 1
    for rev in (False, True):
        ma, mb = q.build(a), q.build(b)
        ctx.states += 1
        n = max(len(ca), len(cb))
        for t in range(n):
            for kind, m, c in ((a, ma, ca), (b, mb, cb)):
                i = (n - 1 - t if rev else t) % len(c)
                ok, res, args = ask(ctx, kind, m, i, f'queries of another model ({b if kind == a else a})')
                if not ok:
                    return
                q.alter(res)
                q.alter(args)


def alias(ctx, kind):
    cat, names, exp = fresh(kind)
    by = {c.name: i for i, c in enumerate(cat) if c.args is None}
    for a, p in names.items():
        for order in (('a', 'p', 'a', 'p'), ('p', 'a', 'p', 'a'), ('a', 'a', 'p')):
            m = q.build(kind)
            ctx.states += 1
            for o in order:
                ctx.transitions += 1
                ctx.traces += 1
                got, res, _ = q.Query(a if o == 'a' else p).run(m)
                ctx.expect(q.agree(got, exp[by[p]]), 'alias', lambda: f'{kind}: {a if o == "a" else p}: {tell(got)} instead of {tell(exp[by[p]])}')
                ctx.nontrivial += bool(q.alter(res))
    for a, p in q.method_aliases(type(q.build(kind))).items():
        for i, c in enumerate(cat):
            if c.name == p and c.args is not None:
                m = q.build(kind)
                for o in (a, p, a):
                    ctx.transitions += 1
                    ctx.traces += 1
                    got, res, args = q.Query(o, c.args).run(m)
                    if got[0] == 'raises' and exp[i][0] == 'raises':
                        continue
                    ctx.expect(q.agree(got, exp[i]), 'alias', lambda: f'{kind}: {o}: {tell(got)} instead of {tell(exp[i])}')
                    ctx.nontrivial += bool(q.alter(res) + q.alter(args))


def copies(ctx, kind):
    """Copies of models (by the standard library) with and without memoised results behave as the original."""
    cat = fresh(kind)[0]
    for warm in (False, True):
        for how in (copy.copy, copy.deepcopy, lambda m: pickle.loads(pickle.dumps(m))):
            m = q.build(kind)
            ctx.states += 1
            if warm:
                for c in cat:
                    c.run(m)
            try:
                n = how(m)
            except Exception as ex:
                if warm or how not in (copy.copy, copy.deepcopy):
                    # locks or functions kept by a model may prevent copies; nothing is promised
                    ctx.count('copies refused')
                    continue
                raise ex
            ctx.nontrivial += 1
            everything(ctx, kind, n, 'copy')
            everything(ctx, kind, m, 'queries of a copy')


def plots(ctx, kind):
    import matplotlib.pyplot as plt
    import pydtmc
    m = q.build(kind)
    hidden = kind in q.HIDDEN
    st = list(m.states)
    n = len(st)
    calls = [lambda: pydtmc.plot_eigenvalues(m), lambda: pydtmc.plot_graph(m), lambda: pydtmc.plot_graph(m, force_standard=True), lambda: pydtmc.plot_graph(m, False, False, False), lambda: pydtmc.plot_comparison([m, q.build(kind)]), lambda: pydtmc.plot_flow(m, 4, 1, None),
             lambda: pydtmc.plot_redistributions(m, 4, None, 'heatmap'), lambda: pydtmc.plot_redistributions(m, 4, [1.0 / n] * n, 'projection'), lambda: pydtmc.plot_sequence(m, 5, 0, 'histogram', 1), lambda: pydtmc.plot_sequence(m, 5, st[0], 'heatmap', 1), lambda: pydtmc.plot_sequence(m, 5, None, 'matrix', 1)]
    if hidden:
        calls.append(lambda: pydtmc.plot_trellis(m, 3, 0, 1))
        calls.append(lambda: pydtmc.plot_trellis(m, 3, 0, 1, True))
        calls.append(lambda: pydtmc.plot_comparison([m], 'emission'))
    for i, c in enumerate(calls):
        ctx.states += 1
        ctx.nontrivial += 1
        try:
            c()
        except Exception as ex:
            ctx.count('plots refused')
            if not isinstance(ex, (ValueError, pydtmc.ValidationError)):
                raise
        plt.close('all')
        if not everything(ctx, kind, m, f'plot {i}', i % 2 == 1):
            return


def containers(p):
    import pandas as pd
    import scipy.sparse as sp
    big = np.zeros((2 * len(p), 3 * len(p[0])))
    big[::2, ::3] = p
    yield 'array', np.array(p)
    yield 'fortran', np.asfortranarray(np.array(p))
    yield 'view', big[::2, ::3]
    yield 'transposed', np.array(p).T.copy().T
    yield 'list', [list(r) for r in p]
    yield 'list of arrays', [np.array(r) for r in p]
    yield 'tuple of lists', tuple(list(r) for r in p)
    yield 'frame', pd.DataFrame(p)
    yield 'sparse', sp.csr_matrix(np.array(p))
    yield 'coordinates', sp.coo_matrix(np.array(p))
    yield 'float32', np.array(p, dtype=np.float32)
    yield 'object', np.array(p, dtype=object)
    ro = np.array(p)
    ro.flags.writeable = False
    yield 'read-only', ro


def alter_input(x):
    import pandas as pd
    import scipy.sparse as sp
    if isinstance(x, pd.DataFrame):
        x.iloc[:, :] = 7.0
    elif sp.issparse(x):
        x.data[...] = 7.0
    else:
        q.alter(x)


def snapshot(x):
    import pandas as pd
    import scipy.sparse as sp
    if isinstance(x, pd.DataFrame):
        return ('frame', x.to_numpy().copy(), tuple(x.columns), tuple(x.index))
    if sp.issparse(x):
        return ('sparse', x.toarray())
    return q.freeze(x)


def create(ctx, part):
    """Every creation from every container; the arguments are unchanged, and altering them later changes nothing."""
    import networkx as nx
    import pydtmc
    MC, HM = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel

    def trial(kind, what, args, f):
        before = [snapshot(a) for a in args]
        try:
            m = f(*args)
        except pydtmc.ValidationError:
            ctx.count('containers refused')
            return
        ctx.states += 1
        ctx.traces += 1
        ctx.nontrivial += 1
        ctx.expect(all(q.agree(snapshot(a), b) for a, b in zip(args, before)), 'arguments changed', f'{kind} {what}')
        half = copy.deepcopy(before)
        for a in args:
            alter_input(a)
        if everything(ctx, kind, m, f'alteration of the arguments of the creation ({what})'):
            everything(ctx, kind, m, f'alteration of the arguments of the creation ({what})', True)
        del half

    for kind in KINDS[part::4]:
        if kind in q.TYPES:
            p, st = q.TYPES[kind]
            for name, x in containers(p):
                trial(kind, f'constructor, {name}', [x, list(st)], MC)
            for name, x in containers(p):
                trial(kind, f'from_matrix, {name}', [x, list(st)], MC.from_matrix)
            for s in (list(st), np.array(st), tuple(st)):
                trial(kind, 'constructor, labels', [np.array(p), s], MC)
            d = {(a, b): p[i][j] for i, a in enumerate(st) for j, b in enumerate(st)}
            trial(kind, 'from_dictionary', [d], MC.from_dictionary)
            g = nx.DiGraph()
            g.add_nodes_from(st)
            for i, a in enumerate(st):
                for j, b in enumerate(st):
                    if p[i][j]:
                        g.add_edge(a, b, weight=p[i][j])
            trial(kind, 'from_graph', [g], MC.from_graph)
            x = q.build(kind)
            trial(kind, 'matrix of another model', [x.p, x.states], MC)
            trial(kind, 'dictionary of another model', [x.to_dictionary()], MC.from_dictionary)
            trial(kind, 'graph of another model', [x.to_graph()], MC.from_graph)
        else:
            p, e, st, sy = q.HIDDEN[kind]
            for (name, x), (_, y) in zip(containers(p), containers(e)):
                trial(kind, f'constructor, {name}', [x, y, list(st), list(sy)], HM)
            for (name, x), (_, y) in zip(containers(p), containers(e)):
                trial(kind, f'from_matrices, {name}', [x, y, list(st), list(sy)], HM.from_matrices)
            x = q.build(kind)
            trial(kind, 'dictionary of another model', [x.to_dictionary()], HM.from_dictionary)
            trial(kind, 'graph of another model', [x.to_graph()], HM.from_graph)
            trial(kind, 'matrices of another model', [*x.to_matrices(), x.states, x.symbols], HM)


def functions(ctx, _):
    """Assessments, fits and generators: same answers in any order and after any alteration; arguments unchanged."""
    import pydtmc as d
    ab = ['a', 'b']
    s1 = [['a', 'b', 'b', 'a', 'b', 'a', 'a', 'b'], ['a', 'a', 'b', 'a'], ['b', 'a', 'a', 'a', 'b', 'b']]
    masks = [[0.5, float('nan')], [float('nan'), float('nan')]]
    p2 = [[0.25, 0.75], [0.5, 0.5]]
    calls = {
        'assess_first_order': (d.assess_first_order, lambda: (list(ab), list(s1[0]))), 'assess_markov_property': (d.assess_markov_property, lambda: (list(ab), list(s1[0]))), 'assess_stationarity': (d.assess_stationarity, lambda: (list(ab), list(s1[0]), 2)),
        'assess_homogeneity': (d.assess_homogeneity, lambda: (list(ab), [list(s) for s in s1])), 'assess_theoretical_compatibility': (d.assess_theoretical_compatibility, lambda: (d.MarkovChain(p2, ab), list(s1[0]))),
        'fit_sequence': (d.MarkovChain.fit_sequence, lambda: ('map', list(ab), list(s1[0]), np.array([[1, 2], [3, 4]]))), 'fit_sequence mle': (d.MarkovChain.fit_sequence, lambda: ('mle', list(ab), list(s1[0]), True)),
        'fit_function': (d.MarkovChain.fit_function, lambda: ('trapezoid-rule', list(ab), lambda x_index, x_value, y_index, y_value: 1.0 + x_value + y_value)), 'random': (d.MarkovChain.random, lambda: (2, list(ab), 0, [list(r) for r in masks], 3)), 'random array': (d.MarkovChain.random, lambda: (2, list(ab), 0, np.array(masks), 3)),
        'birth_death': (d.MarkovChain.birth_death, lambda: (np.array([0.5, 0.0]), np.array([0.0, 0.25]), list(ab))), 'dirichlet': (d.MarkovChain.dirichlet_process, lambda: (3, 2, ['a', 'b', 'c'], None, False, 3)), 'from_matrix': (d.MarkovChain.from_matrix, lambda: (np.array([[1.0, 3.0], [2.0, 0.0]]), list(ab))),
        'from_matrix list': (d.MarkovChain.from_matrix, lambda: ([[1.0, 3.0], [2.0, 0.0]], list(ab))), 'gambler': (d.MarkovChain.gamblers_ruin, lambda: (3, 0.25, ['a', 'b', 'c'])), 'identity': (d.MarkovChain.identity, lambda: (2, list(ab))), 'urn': (d.MarkovChain.urn_model, lambda: ('ehrenfest', 1, ['a', 'b', 'c'])),
        'approximation': (d.MarkovChain.approximation, lambda: (2, 'tauchen', 0.0, 1.0, 0.5, list(ab), 2.0)), 'genetics': (d.MarkovChain.population_genetics_model, lambda: ('moran', 2, 0.5, 0.1, 0.1, ['a', 'b', 'c'])), 'distribution': (d.MarkovChain.random_distribution, lambda: (2, 'uniform', list(ab), 3)),
        'estimate': (d.HiddenMarkovModel.estimate, lambda: (list(ab), ['x', 'y'], ['a', 'b', 'a'], ['x', 'y', 'y'])), 'hmm random': (d.HiddenMarkovModel.random, lambda: (2, 2, list(ab), 0, [list(r) for r in masks], ['x', 'y'], 0, np.array(masks), 3)),
        'hmm from_matrices': (d.HiddenMarkovModel.from_matrices, lambda: (np.array([[1.0, 3.0], [2.0, 0.0]]), [[1.0, 3.0], [2.0, 0.0]], list(ab), ['x', 'y'])),
    }
    for t in ('baum-welch', 'map', 'mle', 'viterbi'):
        calls['hmm fit ' + t] = (d.HiddenMarkovModel.fit, lambda t=t: (t, list(ab), ['x', 'y'], np.array(p2), np.array([[0.5, 0.5], [0.125, 0.875]]), ['x', 'y', 'y', 'x'], np.array([0.5, 0.5])))
        calls['hmm fit two ' + t] = (d.HiddenMarkovModel.fit, lambda t=t: (t, list(ab), ['x', 'y'], np.array(p2), np.array([[0.5, 0.5], [0.125, 0.875]]), [['x', 'y'], ['y', 'x']]))
    for name, x in containers(masks):
        calls[f'random, mask in {name}'] = (d.MarkovChain.random, lambda x=x: (2, list(ab), 0, copy.deepcopy(x), 3))
        y = [v for n, v in containers([[1.0, 3.0], [2.0, 0.5]]) if n == name][0]
        calls[f'from_matrix, {name}'] = (d.MarkovChain.from_matrix, lambda y=y: (copy.deepcopy(y), list(ab)))

    def run(name):
        f, mk = calls[name]
        args = mk()
        b = [snapshot(a) for a in args]
        try:
            r = f(*args)
            a = ('value', q.freeze(r))
        except Exception as ex:
            r, a = None, ('raises', type(ex).__name__, str(ex))
        ctx.transitions += 1
        ctx.traces += 1
        ctx.expect(all(callable(x) or q.agree(snapshot(x), y) for x, y in zip(args, b)), 'arguments changed', name)
        for x in args:
            if not callable(x):
                alter_input(x)
        q.alter(r)
        return a

    exp = {k: run(k) for k in calls}
    for k, a in exp.items():
        ctx.expect(a[0] == 'value' or ',' in k or 'fit' in k, 'failure', f'{k}: {a}')
    for a, b in itertools.product(calls, repeat=2):
        ctx.states += 1
        ctx.nontrivial += 1
        run(a)
        got = run(b)
        if not ctx.expect(q.agree(got, exp[b]), f'answer of {b} depends on history', lambda: f'after {a}: {tell(got)} instead of {tell(exp[b])}'):
            return
