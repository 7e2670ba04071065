import copy
import itertools
import math
import os
import random
import shutil
import tempfile
import types

import numpy as np

from lib import queries as q

PROPERTY = 'C26'
RULE = ('every public operation on models of every structural type, every parameter with every value of a catalogue of legal values (at the limits of the range) and of illegal ones, and every pair of parameters with every pair of such values, '
        'the others being legal; non-trivial: an illegal argument')
ASSUMPTIONS = ['values whose legality is not documented (numpy booleans, tuples as vectors, ...) are not used', 'effects observed: state of the global generators, model, arguments, files and figures', 'legal combinations of plotting options are the matter of C29']

NAN, INF = float('nan'), float('inf')
KINDS = ['ergodic', 'absorbing', 'reducible', 'periodic', 'lumpable']
WORKERS_CLEAN = True


class D:
    """A domain: legal and illegal values."""

    def __init__(self, legal, illegal):
        self.values = [(True, v) for v in legal] + [(False, v) for v in illegal]
        self.legal, self.illegal = legal, illegal

    def __or__(self, other):
        return D(self.legal + other.legal, self.illegal)

    def without(self, *bad):
        return D(self.legal, [v for v in self.illegal if not any(type(v) is type(b) and v == b for b in bad)])


class Make:
    """A value made afresh at every use."""

    def __init__(self, f, text):
        self.f, self.text = f, text

    def __repr__(self):
        return self.text


def fresh(v):
    if isinstance(v, Make):
        return v.f()
    if callable(v):
        return v
    return v if isinstance(v, types.ModuleType) else copy.deepcopy(v)


THINGS = [[], {}, (), 1j, b'A', object]


def opt(d):
    """The same domain with None."""
    return D([None] + d.legal, [v for v in d.illegal if v is not None])


def label(ls):
    n = len(ls)
    return D([0, n - 1, np.int64(1), ls[0], ls[-1]], [-1, n, 10 ** 30, '', ' ', 'none', ls[0] + ' ', 0.0, True, None, [0], [ls[0]], (0,), NAN, b'A'])


def labels(ls, subset=False, minimum=1):
    n = len(ls)
    top = n - 1 if subset else n
    legal = [v for v in ([0, n - 1, np.int32(1), ls[0], ls[-1], [0], [ls[-1]], [np.int64(n - 1)]] if minimum == 1 else [])] + [list(range(minimum)), ls[:minimum][::-1], list(range(n))[-top:][::-1], list(ls)[:top]]
    illegal = [-1, n, '', 'none', [], [0, 0], [ls[0], ls[0]], [0, ls[1]], [0, n], [-1, 0], ['none', ls[0]], [ls[0], ''], 1.0, [1.0, 0.0], True, [True, False], None, [None], (0, 1), {0, 1}, {0: 1}, NAN, [[0, 1]]]
    if subset:
        illegal += [list(range(n)), list(ls)]
    if minimum > 1:
        illegal += [0, ls[0], [0], [ls[0]]]
    return D(legal, illegal)


def integer(lo, hi=None):
    legal = [lo, np.int64(lo), lo + 1 if hi is None or lo < hi else lo] + ([hi] if hi is not None else [lo + 2])
    return D(legal, [lo - 1, -10 ** 9, -10 ** 30, float(lo), lo + 0.5, True, None, str(lo), '', [lo], (lo,), NAN, INF, np.float64(lo), 1j, b'1'] + ([hi + 1, 10 ** 30] if hi is not None else []))


def real(lo=None, lo_open=True, hi=None, hi_open=True, more=()):
    legal, illegal = list(more), [None, '0.5', '', 1, True, [0.5], (0.5,), NAN, INF, -INF, 0.5j, 0]
    if lo is not None:
        above, below = math.nextafter(lo, INF), math.nextafter(lo, -INF)
        (illegal if lo_open else legal).append(float(lo))
        legal.append(above if lo != 0.0 else 1e-300)
        illegal += [below, lo - 1.0]
    if hi is not None:
        (illegal if hi_open else legal).append(float(hi))
        legal.append(math.nextafter(hi, -INF))
        illegal += [math.nextafter(hi, INF), hi + 1.0]
    mid = (lo + hi) / 2 if lo is not None and hi is not None else (lo or 0.0) + 0.5
    return D([mid, np.float64(mid), np.float32(mid)] + legal, illegal)


def boolean():
    return D([False, True], [0, 1, 'True', '', None, 0.0, [True], (True,), NAN])


def choice(*values):
    return D(list(values), ['', ' ', 'none', values[0].upper(), values[0] + ' ', values[0][:-1], None, 0, 1.0, True, [values[0]], (values[0],), values[0].encode()])


def stochastic(n):
    import pandas as pd
    import scipy.sparse as sp
    u = [1.0 / n] * n
    e = [1.0] + [0.0] * (n - 1)
    return D([u, e, np.array(u), np.array([u]), [0] * (n - 1) + [1], Make(lambda: pd.Series(u), 'Series'), Make(lambda: sp.csr_matrix(np.array([u])), 'sparse')], bad_vectors(n) + [[0.5 / n] * n, [0.0] * n, [1.0] * n, [-0.5, 1.5] + [0.0] * (n - 2), 0.5] + nearly(np.array(u))[0:2] + nearly(np.array(e)))


def nearly(v):
    """Arrays just outside the accepted ones: sums wrong by 1e-4, a slightly negative entry, an entry slightly above 1."""
    j = tuple(np.argwhere(v == v.min())[-1])
    out = [v * (1 + 1e-4), v * (1 - 1e-4)]
    for d in (1e-12, 1e-6):
        w = np.array(v)
        w[j] = -d
        out.append(w)
        w = np.zeros(v.shape)
        w[..., 0] = 1.0
        w[(0,) * v.ndim] += d
        out.append(w)
    return out


def bad_vectors(n):
    return [[], [1.0], [1.0 / (n - 1)] * (n - 1), [1.0 / (n + 1)] * (n + 1), [[1.0 / n]] * n, np.full((n, n), 1.0 / n ** 2), [NAN] + [1.0 / n] * (n - 1), [INF] + [0.0] * (n - 1), ['a'] * n, ['1.0'] + ['0.0'] * (n - 1), [None] * n, [1.0 + 1j] + [-1j] * (n - 1), 'none', {}, None,
            [[1.0], [0.0, 0.0]], True, np.zeros((1, 1, n)), (1.0,)]


def rewards(n):
    return D([[0.0] * n, list(range(n)), [-1e6] * n, np.arange(n) * 1e6, np.array([[0.5] * n])], [v for v in bad_vectors(n)] + [1.0, 5])


def status(ls):
    n = len(ls)
    lab = label(ls)
    vec = stochastic(n)
    return D(lab.legal + vec.legal, [v for v in vec.illegal] + [-1, n, '', 'none', 0.0, ls[0] + ' '])


def sequence(ls):
    n = len(ls)
    return D([[0, 1], [ls[0], ls[1]], [n - 1] * 3, [np.int64(0), 1, 0], [ls[-1], ls[0], ls[1], ls[1]]], [[], [0], [ls[0]], [0, n], [-1, 0], [0, ls[1]], [ls[0], 'none'], [ls[0], ''], [0.0, 1.0], [True, False], None, [None, None], (0, 1), ls[0], 0, '', np.array([0, 1]), [[0, 1], [1, 0]], {0: 1},
                                                                                                      [0, 10 ** 30], [NAN, 0]])


def sequences(ls, flex):
    n = len(ls)
    one = sequence(ls)
    legal = [[[0, 1], [1, 0, 0]], [[ls[0], ls[1]], [0, 1]], [[0, 0]] * 3]
    illegal = [[], [[0, 1]], [[0, 1], []], [[0, 1], [0]], [[0, 1], [0, n]], [[0, 1], [-1, 0]], [[0, 1], [0.0, 1.0]], [[0, 1], None], [[0, 1], (0, 1)], [[0, 1], [ls[0], 'none']], [[0, 1], [0, ls[0]]], None, ls[0], 0, ((0, 1), (1, 0)), [[0, 1], 'none'], [[[0, 1]], [[1, 0]]], {}]
    if flex:
        return D(legal + [[0, 1, 1], [ls[0], ls[1]]], illegal + [[0], [0, n], [ls[0], 'none'], [0, ls[1]], [0.0, 1.0], [None, None]])
    return D(legal, illegal + [[0, 1], [ls[0], ls[1]]])


def times():
    return D([0, 1, np.int64(3), [0], [1, 2], [5, 0, 3], [np.int64(2), 1]], [-1, [], [0, 0], [-1, 1], 1.0, [1.0], None, [None], '1', ['1'], (1,), True, [True], [0, 0.5], NAN, {1}, np.array([1, 2])])


def states_in(n):
    ls = ['s%d' % i for i in range(n)]
    return D([ls, ls[::-1], [' x', 'x ', 'x'][:n] + ls[:max(0, n - 3)]], [[], ls[:-1], ls + ['more'], [ls[0]] * n, ls[:-1] + [''], ls[:-1] + [' '], ls[:-1] + [None], list(range(n)), tuple(ls), 'abc'[:n], 0, {}, [ls], ls[:-1] + [1], b'abc', True])


def possible():
    return D([['a', 'b', 'c'], ['1', '0', '10'], ['a', 'b', ' ']][:2], [[], ['a'], ['a', 'a', 'b'], ['a', '', 'b'], ['a', ' ', 'c'], [0, 1, 2], ['a', 'b', None], ('a', 'b', 'c'), 'abc', None, 0, {}, [['a', 'b', 'c']], ['a', 'b', 1]])


def matrix(rows=None, cols=None, unit=False):
    """Any non-negative matrix of the given size (or square), or with unit rows."""
    r, c = rows or 3, cols or 3
    ok = np.full((r, c), 1.0 / c)
    eye = np.zeros((r, c))
    eye[:, 0] = 1.0
    bad = [None, [], [[]], [[0.5]], 0.5, 'none', {}, [[0.5] * c] * (r - 1) + [[0.5]], ok[0], ok.reshape((1, r, c)), [['a'] * c] * r, [['0.5'] * c] * r, np.where(np.arange(c) == 1, NAN, ok), np.where(np.arange(c) == 1, INF, ok), ok - 1.0, ok + 0.1j, [[None] * c] * r, tuple(map(tuple, ok)), True,
           np.ones((1, 1)), np.ones((1, c)) / c]
    if not cols:
        bad += [np.ones((r, 1))]
    if not rows and not cols:
        bad += [np.full((2, 3), 0.5), np.full((3, 2), 0.5)]
    if rows:
        bad += [np.full((rows + 1, c), 1.0 / c), np.full((rows - 1, c), 1.0 / c)]
    if cols:
        bad += [np.full((r, cols + 1), 1.0 / (cols + 1)), np.full((r, cols - 1), 1.0 / (cols - 1))]
    if unit:
        return D([ok, ok.tolist(), eye], bad + [np.full((r, c), 1.0), np.full((r, c), 0.9 / c), np.where(np.arange(c) == 0, 1.5, np.where(np.arange(c) == 1, -0.5, 0.0)) + 0 * ok, np.zeros((r, c))] + nearly(ok) + nearly(eye))
    return D([ok, ok.tolist(), eye, np.zeros((r, c)), np.full((r, c), 1e6), eye.astype(int)], bad)


def mask(r, c):
    nans = np.full((r, c), NAN)
    half = nans.copy()
    half[0, 0] = 0.5
    full = nans.copy()
    full[0] = 1.0 / c
    big = nans.copy()
    big[0, 0] = 1.5
    over = nans.copy()
    over[0, :2] = [0.75, 0.5]
    short = nans.copy()
    short[-1] = 0.5 / c
    neg = nans.copy()
    neg[0, 0] = -0.5
    inf = nans.copy()
    inf[-1, -1] = INF
    one = nans.copy()
    one[0, 0] = 1.0
    near = []
    for v in ([0.75, 0.25 + 1e-4], [-1e-12], [1.0 + 1e-6]):
        near.append(nans.copy())
        near[-1][-1, :len(v)] = v
    near.append(nans.copy())
    near[-1][-1] = (1.0 - 1e-4) / c
    return D([nans, half, full, one, half.tolist()], near + [big, over, short, neg, inf, [], nans[:-1], nans[:, :-1], nans[0], [['a'] * c] * r, 0.5, 'none', {}, np.zeros((r, c)), nans + 1j, np.full((r + 1, c + 1), NAN), [[None] * c] * r])


def seed():
    return D([None, 0, 1, 2 ** 32 - 1, np.int64(5)], [-1, 2 ** 32, 10 ** 30, 1.0, '1', '', True, [1], (1,), NAN, b'1', {}])


def boundary():
    return D([0.0, 1.0, 0.5, 0, 1, 'absorbing', 'reflecting', np.float64(0.25)], [-0.5, 1.5, -1, 2, math.nextafter(1.0, 2.0), -5e-324, NAN, INF, '', 'none', 'Absorbing', None, True, [0.5], (0.5,), 0.5j, b'absorbing'])


def weights(n):
    return D([0.0, 1.0, 0.5, 0, 1, [0.5] * n, [0.0] * (n - 1) + [1.0], np.array([[0.25] * n])], [v for v in bad_vectors(n) if not isinstance(v, list) or len(v) != n or not all(isinstance(x, float) and 0 <= x <= 1 for x in v)] + [-0.5, 1.5, 2, -1, NAN, INF, [-0.5] + [0.5] * (n - 1), [1.5] + [0.5] * (n - 1), [-1e-12] + [0.5] * (n - 1), [1.0 + 1e-12] + [0.5] * (n - 1), '0.5'])


def partitions(ls):
    n = len(ls)
    r = list(range(n))
    legal = [[[0], r[1:]], [r[:-1], [n - 1]], [ls[:1], ls[1:]]] if n > 2 else []
    return D(legal, [[], [r], [[i] for i in r], [[0], r[2:]], [[0, 0], r[1:]], [[0], r[1:] + [n]], [[1, 0], r[2:]], [r[1:], [0]], [[0], [float(x) for x in r[1:]]], [['none'], ls[1:]], [ls[:1], r[1:]], None, 0, ls[0], [0, r[1:]], (tuple(r[:1]), tuple(r[1:])), [[0], None], [[0], tuple(r[1:])], [[-1], r[1:]], {},
                          [[True], r[1:]], [ls[0], ls[1:]]])


def function():
    class Holder:
        def method(self, x_index, x_value, y_index, y_value):
            return 1.0

        def __call__(self, x_index, x_value, y_index, y_value):
            return 1

    def plain(x_index, x_value, y_index, y_value):
        return 0.5 + x_index + y_index

    def boom(x_index, x_value, y_index, y_value):
        raise RuntimeError('boom')
    return D([plain, lambda x_index, x_value, y_index, y_value: 1, Holder().method, Make(Holder, 'callable object'), lambda y_value, y_index, x_value, x_index: 2.0],
             [None, 0, 'f', '', Holder, lambda: 1.0, lambda x_index, x_value, y_index: 1.0, lambda a, b, c, d: 1.0, lambda x_index, x_value, y_index, y_value, z: 1.0, boom, lambda x_index, x_value, y_index, y_value: 'a', lambda x_index, x_value, y_index, y_value: None,
              lambda x_index, x_value, y_index, y_value: NAN, lambda x_index, x_value, y_index, y_value: INF, lambda x_index, x_value, y_index, y_value: 1j, lambda x_index, x_value, y_index, y_value: [1.0], [], {}, 1.0])


def interval():
    return D([None, (0.0, 1.0), (0, 1), (5, 10.5), (0.0, 1e-6)], [(), (0.0,), (0.0, 1.0, 2.0), (1.0, 0.0), (1.0, 1.0), (-1.0, 1.0), (-1e-12, 1.0), (1.0, 1.0 - 1e-12), (0.0, NAN), (NAN, 1.0), (0.0, INF), ('0', '1'), (None, 1.0), [0.0, 1.0], 1.0, 'none', (0.0, True), {0.0, 1.0}, (0.0, 1j), ((0.0, 1.0),)])


def hyper(n):
    return D([None, [[1] * n] * n, np.full((n, n), 2.0), np.full((n, n), 10 ** 6)], [[[0] * n] * n, [[1.5] * n] * n, [[1 + 1e-9] * n] * n, [[2 - 1e-9] * n] * n, [[1 - 1e-9] * n] * n, [[-1] * n] * n, [[1] * n] * (n - 1), [[1] * (n - 1)] * n, [1] * n, 1, 'none', [[NAN] * n] * n, [[INF] * n] * n, [['1'] * n] * n, {}, [], True, False, np.full((n, n), 1 + 1j), [[None] * n] * n])


def dpi():
    return D([100, 75, np.int64(150)], [0, -100, 99, 101, 10 ** 9, 100.0, '100', '', None, True, [100], NAN])


def model_arg():
    return D([Make(lambda: q.build('ergodic'), 'chain'), Make(lambda: q.build('hmm'), 'hidden')], others() + [Make(lambda: type(q.build('ergodic')), 'MarkovChain')])


def others():
    return [None, 0, 1.5, '', 'model', [], {}, True, (), np.zeros((2, 2)), object(), object, math, [[0.5, 0.5], [0.5, 0.5]], {('a', 'a'): 1.0}, np.float64(1.0)]


def hidden_arg():
    return D([Make(lambda: q.build('hmm'), 'hidden')], others() + [Make(lambda: q.build('ergodic'), 'chain')])


def chain_arg(n=None):
    from pydtmc import MarkovChain
    legal = [Make(lambda: MarkovChain.identity(n or 3), 'identity'), Make(lambda: MarkovChain.random(n or 3, seed=1), 'random')]
    return D(legal, others() + [Make(lambda: q.build('hmm'), 'hidden')] + ([Make(lambda: MarkovChain.identity(n + 1), 'larger'), Make(lambda: MarkovChain.identity(n - 1), 'smaller')] if n else []))


def models_arg():
    two = Make(lambda: [q.build('ergodic'), q.build('hmm')], 'chain and hidden')
    hid = Make(lambda: [q.build('hmm'), q.build('hmm-reducible')], 'two hidden')
    return D([hid, two], [None, [], 0, 'models', {}, Make(lambda: [q.build('ergodic')], 'single'), Make(lambda: (q.build('ergodic'), q.build('hmm')), 'tuple'), Make(lambda: q.build('ergodic'), 'model'), [None, None], [0, 1]] +
             [Make(lambda o=o: [q.build('ergodic'), o], f'chain and {o!r}') for o in others()])


def dictionary(hidden=False):
    a = {('a', 'a'): 0.5, ('a', 'b'): 0.5, ('b', 'a'): 1, ('b', 'b'): 0}
    if hidden:
        a = {('P', 'a', 'a'): 0.5, ('P', 'a', 'b'): 0.5, ('P', 'b', 'a'): 1, ('P', 'b', 'b'): 0, ('E', 'a', 'x'): 0.25, ('E', 'a', 'y'): 0.75, ('E', 'b', 'x'): 0, ('E', 'b', 'y'): 1.0}
    keys = list(a)

    def but(**kw):
        d = dict(a)
        d.update(kw.get('add', {}))
        for k in kw.get('drop', []):
            del d[k]
        return d
    k0 = keys[0]
    bad = [None, [], {}, 0, 'd', list(a.items()), but(drop=keys[:1]), but(drop=keys[-1:]), but(drop=keys[1:2]), but(add={k0: -0.5}), but(add={keys[-1]: 1.0 + 1e-6}), but(add={keys[-2]: -1e-12}), but(add={k0: 1.5}), but(add={k0: NAN}), but(add={k0: '0.5'}), but(add={k0: None}), but(add={k0: 0.5j}), but(add={k0: True}), but(add={k0[:-1]: 0.5}), but(add={k0 + ('c',): 0.5}), but(add={'ab': 0.5}),
           but(add={0: 0.5}), but(add={k0[:-1] + ('',): 0.0}), but(add={k0[:-1] + (1,): 0.0}), but(add={k0[:-1] + ('c',): 0.0}) if not hidden else but(add={('Z', 'a', 'a'): 0.0}), tuple(a.items())]
    return D([a, dict(reversed(list(a.items())))], bad)


def graph(hidden=False):
    import networkx as nx

    def g(cls=nx.DiGraph, edges=((0, 0, 1.0), (0, 1, 1.0), (1, 0, 3)), names=('a', 'b', 'x', 'y'), drop=None, layers=(1, 1, 0, 0), types=None, typed=True):
        r = cls()
        for i, n in enumerate(names[:4 if hidden else 2]):
            if hidden:
                r.add_node(n, layer=layers[i])
            else:
                r.add_node(n)
        every = list(edges) + ([(0, 2, 0.5), (0, 3, 0.5), (1, 3, 1.0)] if hidden else [])
        for k, (u, v, w) in enumerate(every):
            if (u, v) == drop:
                continue
            kw = {'weight': w}
            if hidden and typed:
                kw['type'] = types or ('E' if v > 1 else 'P')
            r.add_edge(names[u], names[v], **kw)
        return r
    bad = [None, 0, 'g', [], {}, Make(lambda: nx.DiGraph(), 'empty'), Make(lambda: g(nx.Graph), 'undirected'), Make(lambda: g(edges=((0, 0, 1.0), (0, 1, -1.0), (1, 0, 1.0))), 'negative'), Make(lambda: g(edges=((0, 0, 1.0), (0, 1, NAN), (1, 0, 1.0))), 'nan'), Make(lambda: g(edges=((0, 0, 1.0), (0, 1, 'a'), (1, 0, 1.0))), 'text'),
           Make(lambda: g(edges=((0, 0, 1.0), (0, 1, INF), (1, 0, 1.0))), 'infinite'), Make(lambda: g(edges=((0, 0, 1.0), (0, 1, 0.0), (1, 0, 1.0))), 'null weight'), Make(lambda: g(edges=((0, 0, 1.0), (0, 1, None), (1, 0, 1.0))), 'no weight'), Make(lambda: g(names=('a', '', 'x', 'y')), 'empty name'),
           Make(lambda: g(names=('a', 1, 'x', 'y')), 'number as name'), Make(lambda: nx.MultiGraph(g()), 'undirected multigraph'), np.eye(2)]
    if hidden:
        bad += [Make(lambda: g(layers=(1, 1, 1, 0)), 'one symbol'), Make(lambda: g(layers=(1, 0, 0, 0)), 'one state'), Make(lambda: g(layers=(1, 1, 0, 2)), 'layer'), Make(lambda: g(layers=('1', 1, 0, 0)), 'layer as text'), Make(lambda: g(layers=(None, 1, 0, 0)), 'no layer'), Make(lambda: g(types='Z'), 'type'), Make(lambda: g(typed=False), 'no type'),
                Make(lambda: g(types='P'), 'all P')]
    else:
        one = Make(lambda: (lambda r: (r.add_edge('a', 'a', weight=1.0), r)[1])(nx.DiGraph()), 'one node')
        bad += [one]
    return D([Make(g, 'graph'), Make(lambda: nx.MultiDiGraph(g()), 'multigraph')], bad)


def path_out():
    import pathlib
    return D(['m.csv', 'm.json', Make(lambda: pathlib.Path('m.xml'), 'path'), 'M.TXT', Make(lambda: os.path.join(os.getcwd(), 'n.txt'), 'absolute')], [None, 0, '', ' ', 'm', 'm.bin', 'm.csv.bak', 'csv', '.csv', b'm.csv', [], 1.5, True, Make(lambda: os.path.join(os.getcwd(), 'missing', 'm.csv'), 'no folder'), 'missing/m.csv', ('m.csv',)])


def path_in():
    return D([], [None, 0, '', ' ', 'm', 'm.bin', 'missing.csv', b'm.csv', [], 1.5, True, 'missing/m.csv', '.', Make(lambda: open('empty.csv', 'w').close() or 'empty.csv', 'empty file'), Make(lambda: os.makedirs('folder.csv', exist_ok=True) or 'folder.csv', 'folder')])


def distribution():
    import numpy.random as npr
    return D(['uniform', 'beta', 'exponential', 'gamma', 'normal'][:1] + [npr.uniform, npr.exponential, 'exponential'], [None, '', ' ', 'none', 'seed', 'RandomState', 'get_state', 'shuffle', 'Uniform', 0, 1.0, True, [], len, random.random, math.sin, np.sum, random.Random, lambda size: np.zeros(size), object, npr.seed, npr.get_state, b'uniform'])


def birth(n, last):
    ok = [0.25] * n
    ok[-1 if last else 0] = 0.0
    bad = [0.25] * n
    return D([ok, np.array(ok), [0.0] * n, [v * 2.0 for v in ok]], [bad, [], None, 'none', 0.5, [[v] for v in ok], [-0.25 if v else 0.0 for v in ok], [1.25 if v else 0.0 for v in ok], [NAN if v else 0.0 for v in ok], [str(v) for v in ok], ok[::-1], {}, [None] * n, True, np.zeros((2, n)), [v or 1e-6 for v in ok], [-1e-12 if v else 0.0 for v in ok], [1.0 + 1e-6 if v else 0.0 for v in ok]])


# operations -----------------------------------------------------------

def operations():
    """name -> (target, parameters as functions of a model, optional consistency of the arguments, documented errors)"""
    import pydtmc as d
    MC, HM = d.MarkovChain, d.HiddenMarkovModel
    st = lambda m: list(m.states)
    ops = {}

    def add(name, target, params, legal=None, value=False, kinds=None):
        ops[name] = (target, params, legal, value, kinds)

    def mc(name, params, legal=None, value=False):
        add('mc.' + name, name, params, legal, value, KINDS)

    def hm(name, params, legal=None, value=False):
        add('hmm.' + name, name, params, legal, value, ['hmm', 'hmm-reducible'])

    def free(name, f, params, legal=None, value=False):
        add(name, f, params, legal, value, [None])

    lab = lambda m: label(st(m))
    n = lambda m: m.size if not isinstance(m.size, tuple) else m.size[0]
    mc('aggregate', {'s': lambda m: integer(2, n(m) - 1), 'method': lambda m: choice('adaptive', 'spectral-bottom-up', 'spectral-top-down')}, value=True)
    mc('are_communicating', {'state1': lab, 'state2': lab})
    mc('is_accessible', {'state_target': lab, 'state_origin': lab})
    mc('transition_probability', {'state_target': lab, 'state_origin': lab})
    for k in ('is_absorbing_state', 'is_cyclic_state', 'is_recurrent_state', 'is_transient_state', 'conditional_probabilities', 'sensitivity'):
        mc(k, {'state': lab})
    mc('closest_reversible', {'initial_distribution': lambda m: opt(stochastic(n(m))), 'weighted': lambda m: boolean()}, lambda a: not a['weighted'] or a['initial_distribution'] is None or np.all(np.asarray(a['initial_distribution'].todense() if hasattr(a['initial_distribution'], 'todense') else a['initial_distribution']) > 0), True)
    sub = lambda m: labels(st(m), True)
    whole = lambda m: labels(st(m))

    def disjoint(m, x, y):
        idx = lambda v: {st(m).index(i) if isinstance(i, str) else int(i) for i in (v if isinstance(v, list) else [v])}
        return not idx(x) & idx(y), idx(x), idx(y)
    mc('committor_probabilities', {'committor_type': lambda m: choice('backward', 'forward'), 'states1': sub, 'states2': sub}, lambda a, m=None: disjoint(a['self'], a['states1'], a['states2'])[0])
    pos = lambda m: integer(1)
    mc('expected_rewards', {'steps': pos, 'rewards': lambda m: rewards(n(m))})
    mc('expected_transitions', {'steps': pos, 'initial_distribution': lambda m: opt(stochastic(n(m)))})
    mc('first_passage_probabilities', {'steps': pos, 'initial_state': lab, 'first_passage_states': lambda m: opt(labels(st(m)))})
    mc('first_passage_reward', {'steps': pos, 'initial_state': lab, 'first_passage_states': sub, 'rewards': lambda m: rewards(n(m))},
       lambda a: (lambda r: r[0] and len(r[2]) < n(a['self']) - 1)(disjoint(a['self'], a['initial_state'], a['first_passage_states'])))
    for k in ('hitting_probabilities', 'hitting_times', 'mean_first_passage_times_to'):
        mc(k, {'targets': lambda m: opt(labels(st(m)))})
    mc('lump', {'partitions': lambda m: partitions(st(m))}, value=True)
    mc('mean_first_passage_times_between', {'origins': sub, 'targets': sub})
    mc('merge_with', {'other': lambda m: chain_arg(n(m)), 'gamma': lambda m: real(0.0, True, 1.0, True)})
    mc('mixing_time', {'initial_distribution': lambda m: opt(stochastic(n(m))), 'jump': pos, 'cutoff_type': lambda m: choice('natural', 'traditional')})
    mc('next', {'initial_state': lab, 'output_index': lambda m: boolean(), 'seed': lambda m: seed()})
    mc('predict', {'steps': pos, 'initial_state': lab, 'output_indices': lambda m: boolean()})
    mc('redistribute', {'steps': pos, 'initial_status': lambda m: opt(status(st(m))), 'output_last': lambda m: boolean()})
    mc('sequence_probability', {'sequence': lambda m: sequence(st(m))})
    mc('simulate', {'steps': lambda m: integer(2), 'initial_state': lambda m: opt(lab(m)), 'final_state': lambda m: opt(lab(m)), 'output_indices': lambda m: boolean(), 'seed': lambda m: seed()})
    mc('time_correlations', {'sequence1': lambda m: sequence(st(m)), 'sequence2': lambda m: opt(sequence(st(m))), 'time_points': lambda m: times()})
    mc('time_relaxations', {'sequence': lambda m: sequence(st(m)), 'initial_distribution': lambda m: opt(stochastic(n(m))), 'time_points': lambda m: times()})
    mc('to_bounded_chain', {'boundary_condition': lambda m: boundary()})
    mc('to_lazy_chain', {'inertial_weights': lambda m: weights(n(m))})
    mc('to_nth_order', {'order': lambda m: integer(2)})
    mc('to_subchain', {'states': sub}, value=True)
    mc('to_file', {'file_path': lambda m: path_out()})
    hm('to_file', {'file_path': lambda m: path_out()})

    sy = lambda m: list(m.symbols)
    hs = lambda m: sequence(sy(m))
    hm('decode', {'symbols': hs, 'initial_status': lambda m: opt(status(st(m))), 'use_scaling': lambda m: boolean()})
    hm('emission_probability', {'symbol': lambda m: label(sy(m)), 'state': lab})
    hm('transition_probability', {'state_target': lab, 'state_origin': lab})
    hm('next', {'initial_state': lab, 'target': lambda m: choice('both', 'state', 'symbol'), 'output_index': lambda m: boolean(), 'seed': lambda m: seed()})
    hm('predict', {'prediction_type': lambda m: choice('map', 'mle', 'viterbi'), 'symbols': hs, 'initial_status': lambda m: opt(status(st(m))), 'output_indices': lambda m: boolean()})
    hm('restrict', {'states': lambda m: opt(labels(st(m), True, 2)), 'symbols': lambda m: opt(labels(sy(m), True, 2)) if len(sy(m)) > 2 else D([None], [v for v in labels(sy(m), True, 2).illegal if v is not None])}, lambda a: a['states'] is not None or a['symbols'] is not None)
    hm('simulate', {'steps': lambda m: integer(2), 'initial_state': lambda m: opt(lab(m)), 'final_state': lambda m: opt(lab(m)), 'final_symbol': lambda m: opt(label(sy(m))), 'output_indices': lambda m: boolean(), 'seed': lambda m: seed()})

    s3 = lambda m: opt(states_in(3))
    free('MC', MC, {'p': lambda m: matrix(unit=True), 'states': s3})
    free('HMM', HM, {'p': lambda m: matrix(unit=True), 'e': lambda m: matrix(3, None, True), 'states': s3, 'symbols': lambda m: opt(D([['E', 'F', 'G']], states_in(3).illegal))})
    free('MC.approximation', MC.approximation, {'size': lambda m: D([2, np.int64(2)], integer(2).illegal), 'approximation_type': lambda m: choice('tauchen', 'tauchen-hussey', 'rouwenhorst', 'adda-cooper'), 'alpha': lambda m: real(more=[-5.0, 0.0]), 'sigma': lambda m: real(0.0, True, more=[2.0]),
                                                 'rho': lambda m: real(-1.0, False, 1.0, False), 'states': lambda m: D([None], states_in(2).illegal + states_in(3).illegal[:1]), 'k': lambda m: D([None, 1.5], [0.0, -1.0, NAN, INF, 1, '1', True, [1.0], 1j])}, None, True)
    free('MC.birth_death', MC.birth_death, {'p': lambda m: birth(3, True), 'q': lambda m: birth(3, False), 'states': s3})
    free('MC.dirichlet_process', MC.dirichlet_process, {'size': lambda m: D([3, np.int64(3)], integer(2).illegal), 'diffusion_factor': lambda m: integer(1, 3), 'states': s3, 'diagonal_bias_factor': lambda m: opt(real(0.0, True, more=[10.0])), 'shift_concentration': lambda m: boolean(), 'seed': lambda m: seed()})
    free('MC.fit_function', MC.fit_function, {'quadrature_type': lambda m: choice('gauss-chebyshev', 'gauss-legendre', 'niederreiter', 'newton-cotes', 'simpson-rule', 'trapezoid-rule'), 'possible_states': lambda m: possible(), 'f': lambda m: function(), 'quadrature_interval': lambda m: interval()}, None, True)
    free('MC.fit_sequence.map', lambda *a, **k: MC.fit_sequence('map', *a, **k), {'possible_states': lambda m: possible(), 'sequence': lambda m: D([[0, 1, 2], [0, 0]], sequence(['a', 'b', 'c']).illegal), 'fitting_param': lambda m: hyper(3)})
    free('MC.fit_sequence.mle', lambda *a, **k: MC.fit_sequence('mle', *a, **k), {'possible_states': lambda m: possible(), 'sequence': lambda m: D([[0, 1, 2], [0, 0]], sequence(['a', 'b', 'c']).illegal), 'fitting_param': lambda m: opt(boolean())})
    free('MC.fit_sequence', MC.fit_sequence, {'fitting_type': lambda m: choice('map', 'mle'), 'possible_states': lambda m: possible(), 'sequence': lambda m: D([[0, 1, 2]], sequence(['a', 'b', 'c']).illegal)})
    free('MC.from_dictionary', MC.from_dictionary, {'d': lambda m: dictionary()})
    free('HMM.from_dictionary', HM.from_dictionary, {'d': lambda m: dictionary(True)})
    free('MC.from_graph', MC.from_graph, {'graph': lambda m: graph()})
    free('HMM.from_graph', HM.from_graph, {'graph': lambda m: graph(True)})
    free('MC.from_file', MC.from_file, {'file_path': lambda m: path_in()})
    free('HMM.from_file', HM.from_file, {'file_path': lambda m: path_in()})
    free('MC.from_matrix', MC.from_matrix, {'m': lambda m: matrix(), 'states': s3})
    free('HMM.from_matrices', HM.from_matrices, {'mp': lambda m: matrix(), 'me': lambda m: matrix(3), 'states': s3, 'symbols': lambda m: opt(D([['E', 'F', 'G']], states_in(3).illegal))})
    free('MC.gamblers_ruin', MC.gamblers_ruin, {'size': lambda m: D([3], integer(3).illegal), 'w': lambda m: real(0.0, True, 1.0, True), 'states': s3})
    free('MC.identity', MC.identity, {'size': lambda m: D([3], integer(2).illegal), 'states': s3})
    free('MC.population_genetics_model', MC.population_genetics_model, {'model': lambda m: choice('moran', 'wright-fisher'), 'n': lambda m: D([2, np.int32(2)], integer(2, 500).illegal), 's': lambda m: real(-1.0, False, more=[1.0, 0.0]), 'u': lambda m: real(0.0, False, 1.0, False), 'v': lambda m: real(0.0, False, 1.0, False), 'states': s3},
         lambda a: (a['s'] <= 1.0 if a['model'] == 'moran' else 8.0 * max(a['u'], a['v']) <= 1.0))
    free('MC.random', MC.random, {'size': lambda m: D([3], integer(2).illegal), 'states': s3, 'zeros': lambda m: integer(0, 2).without(3, 10 ** 30), 'mask': lambda m: opt(mask(3, 3)), 'seed': lambda m: seed()})
    free('MC.random_distribution', MC.random_distribution, {'size': lambda m: D([3], integer(2).illegal), 'f': lambda m: distribution(), 'states': s3, 'seed': lambda m: seed()})
    free('MC.urn_model', MC.urn_model, {'model': lambda m: choice('bernoulli-laplace', 'ehrenfest'), 'n': lambda m: D([1], integer(1).illegal), 'states': s3})
    free('HMM.random', HM.random, {'n': lambda m: D([3], integer(2).illegal), 'k': lambda m: D([4], integer(2).illegal), 'states': s3, 'p_zeros': lambda m: integer(0, 2).without(3, 10 ** 30), 'p_mask': lambda m: opt(mask(3, 3)), 'symbols': lambda m: opt(D([['E', 'F', 'G', 'H']], states_in(4).illegal)), 'e_zeros': lambda m: integer(0, 2).without(3, 10 ** 30),
                                   'e_mask': lambda m: opt(mask(3, 4)), 'seed': lambda m: seed()})
    ps, py = lambda m: D([['a', 'b', 'c']], possible().illegal), lambda m: D([['x', 'y']], [v for v in possible().illegal] + [['b', 'z']][:0])
    free('HMM.estimate', HM.estimate, {'possible_states': ps, 'possible_symbols': py, 'sequence_states': lambda m: D([[0, 1, 2], ['c', 'a', 'a']], sequence(['a', 'b', 'c']).illegal), 'sequence_symbols': lambda m: D([[0, 1, 1], ['y', 'x', 'y']], sequence(['x', 'y']).illegal)})
    free('HMM.fit', HM.fit, {'fitting_type': lambda m: choice('baum-welch', 'map', 'mle', 'viterbi'), 'possible_states': ps, 'possible_symbols': py, 'p_guess': lambda m: matrix(3, 3, True), 'e_guess': lambda m: matrix(3, 2, True), 'symbols': lambda m: sequences(['x', 'y'], True), 'initial_status': lambda m: opt(status(['a', 'b', 'c']))}, None, True)

    sig = lambda m: real(0.0, True, 0.2, False)
    seq3 = lambda m: D([[0, 1, 2, 0], [0, 0]], sequence(['a', 'b', 'c']).illegal)
    for k in ('assess_first_order', 'assess_markov_property'):
        free(k, getattr(d, k), {'possible_states': lambda m: possible(), 'sequence': seq3, 'significance': sig})
    free('assess_homogeneity', d.assess_homogeneity, {'possible_states': lambda m: possible(), 'sequences': lambda m: D([[[0, 1], [1, 0, 2]]], sequences(['a', 'b', 'c'], False).illegal), 'significance': sig})
    free('assess_stationarity', d.assess_stationarity, {'possible_states': lambda m: possible(), 'sequence': seq3, 'blocks': lambda m: integer(1), 'significance': sig})
    free('assess_theoretical_compatibility', d.assess_theoretical_compatibility, {'mc': lambda m: chain_arg(), 'sequence': seq3, 'significance': sig})

    st3 = lambda m: D([None], [v for v in status(['a', 'b', 'c']).illegal if v is not None])
    lb3 = lambda m: D([None], [v for v in label(['a', 'b', 'c']).illegal if v is not None])
    free('plot_comparison', d.plot_comparison, {'models': lambda m: models_arg(), 'underlying_matrices': lambda m: choice('transition', 'emission'), 'names': lambda m: opt(D([['a', 'a']], [[], ['a'], ['a', 'b', 'c'], ['a', ''], ['a', None], 'ab', ('a', 'b'), 0, {}, [0, 1]])), 'dpi': lambda m: dpi()})
    free('plot_eigenvalues', d.plot_eigenvalues, {'model': lambda m: model_arg(), 'dpi': lambda m: dpi()})
    free('plot_flow', d.plot_flow, {'model': lambda m: model_arg(), 'steps': pos, 'interval': pos, 'initial_status': st3, 'palette': lambda m: choice('viridis', 'plasma'), 'dpi': lambda m: dpi()})
    free('plot_graph', d.plot_graph, {'model': lambda m: model_arg(), 'nodes_color': lambda m: boolean(), 'nodes_shape': lambda m: boolean(), 'edges_label': lambda m: boolean(), 'force_standard': lambda m: boolean(), 'dpi': lambda m: dpi()})
    free('plot_redistributions', d.plot_redistributions, {'model': lambda m: model_arg(), 'redistributions': pos, 'initial_status': st3, 'plot_type': lambda m: choice('heatmap', 'projection'), 'dpi': lambda m: dpi()})
    free('plot_sequence', d.plot_sequence, {'model': lambda m: model_arg(), 'steps': lambda m: integer(2), 'initial_state': lb3, 'plot_type': lambda m: choice('histogram', 'heatmap', 'matrix'), 'seed': lambda m: seed(), 'dpi': lambda m: dpi()})
    free('plot_trellis', d.plot_trellis, {'hmm': lambda m: hidden_arg(), 'steps': lambda m: integer(2), 'initial_state': lb3, 'seed': lambda m: seed(), 'force_standard': lambda m: boolean(), 'dpi': lambda m: dpi()})
    return ops


_ops = None
SLOW = {'mc.closest_reversible', 'HMM.fit', 'mc.aggregate'}


def ops():
    global _ops
    if _ops is None:
        _ops = operations()
    return _ops


def jobs(tier, seed):
    import pydtmc  # noqa: F401
    out = []
    for name, (_, params, _, _, kinds) in ops().items():
        for kind in (kinds if tier != 'quick' else kinds[:3]):
            out.append(('single', name, kind))
            m = 1 if len(params) < 4 else 4
            if len(params) > 1:
                out += [('pairs', name, kind, i, m, tier != 'quick') for i in range(m)]
    out += [('unknown',)]
    return out


def domain(name, kind):
    model = q.build(kind) if kind else None
    return {k: f(model) for k, f in ops()[name][1].items()}


def cases(job):
    if job[0] == 'unknown':
        yield {'k': 'covered'}
        return
    name, kind = job[1:3]
    dom = domain(name, kind)
    if job[0] == 'single':
        for p, d in dom.items():
            for i in range(len(d.values)):
                yield {'op': name, 'm': kind, 'v': {p: i}}
        return
    every = []
    for p, r in itertools.combinations(dom, 2):
        for i, (a, _) in enumerate(dom[p].values):
            for j, (b, _) in enumerate(dom[r].values):
                if name.startswith('plot_') and a and b:
                    continue
                # two illegal arguments, an illegal one among several legal ones, or two legal ones; at quick one illegal value in three
                if not job[5] and not (a and b) and (i + 2 * j) % (3 if kind in (KINDS[0], None, 'hmm') else 7):
                    continue
                if a and b and name in SLOW and not job[5] and (i + j) % 4:
                    continue
                every.append({'op': name, 'm': kind, 'v': {p: i, r: j}})
    yield from itertools.islice(every, job[3], None, job[4])


def snapshot(model):
    return q.freeze(model) if model is not None else None


def generators():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], s[3], s[4]), random.getstate()


def same_args(a, b):
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, (list, dict, np.ndarray, tuple)) and '<' not in repr(x) and repr(x) != repr(y):
            return k
    return None


def figures():
    import matplotlib.pyplot as plt
    return list(plt.get_fignums())


ALIAS = {'mc.to_file': 'file_path'}


def named(params, message):
    text = message.lower()
    return any(f'"{p.lower()}"' in text for p in params) or 'seed' in params and 'seed' in text


def check(ctx, case):
    import pydtmc as d
    if case.get('k') == 'covered':
        return covered(ctx)
    name, kind = case['op'], case['m']
    target, params, legal, value, _ = ops()[name]
    dom = domain(name, kind)
    model = q.build(kind) if kind else None
    args, bad = {}, []
    for p, dm in dom.items():
        i = case['v'].get(p)
        ok, v = dm.values[i] if i is not None else (True, dm.legal[0]) if dm.legal else (True, None)
        args[p] = None if p == 'file_path' else fresh(v)  # files: made later, in the scratch folder
        if not ok:
            bad.append(p)
    if i is not None and name.startswith('plot_') and not bad and len(case['v']) == 1:
        return
    copyof = {}
    for k, v in args.items():
        try:
            copyof[k] = copy.deepcopy(v)
        except Exception:
            copyof[k] = v
    consistent = True
    if not bad and legal is not None:
        consistent = legal(dict(args, self=model))
        if consistent is not None and not consistent:
            consistent = False
    if name == 'MC.approximation' and bad == ['k'] and args['approximation_type'] in ('rouwenhorst', 'adda-cooper'):
        return  # not used by these approximations
    ctx.states += 1
    ctx.transitions += 1
    ctx.traces += 1
    ctx.nontrivial += bool(bad)
    here, folder = os.getcwd(), tempfile.mkdtemp(prefix='c26_')
    os.chdir(folder)
    for k in list(args):
        if k == 'file_path':
            args[k] = fresh(dom[k].values[case['v'][k]][1]) if k in case['v'] else (fresh(dom[k].legal[0]) if dom[k].legal else None)
            copyof[k] = args[k]
    files, before, rng, figs = sorted(os.listdir(folder)), snapshot(model), generators(), figures()
    what = f'{name}({", ".join(f"{k}={args[k]!r:.80}" for k in args if k in case["v"])})' + (f' of {kind}' if kind else '')
    try:
        error = None
        try:
            f = getattr(model, target) if isinstance(target, str) else target
            f(**args)
        except Exception as ex:
            error = ex
        after = generators()
        if bad:
            if error is None:
                ctx.fail('illegal argument accepted', what)
            elif not isinstance(error, d.ValidationError) and not ('file_path' in bad and isinstance(error, OSError)):
                ctx.fail('undocumented error', f'{what}: {type(error).__name__}: {error}')
            elif not named(bad, str(error)):
                ctx.fail('parameter not named', f'{what}: {error}')
            if error is not None:
                ctx.expect(rng == after, 'effect of a refused call', lambda: f'{what}: the global generator moved')
                ctx.expect(figures() == figs, 'effect of a refused call', lambda: f'{what}: figures {figures()}')
                ctx.expect(sorted(os.listdir(folder)) == files, 'effect of a refused call', lambda: f'{what}: files {os.listdir(folder)}')
        elif consistent is False:
            if error is None:
                ctx.fail('inconsistent arguments accepted', what)
            elif not isinstance(error, d.ValidationError):
                ctx.fail('undocumented error', f'{what}: {type(error).__name__}: {error}')
            else:
                ctx.expect(rng == after, 'effect of a refused call', lambda: f'{what}: the global generator moved')
        elif error is not None and consistent is True:
            if not (value and type(error) is ValueError):
                ctx.fail('legal arguments refused' if isinstance(error, d.ValidationError) else 'undocumented error', f'{what}: {type(error).__name__}: {error}')
        elif error is not None and not isinstance(error, (d.ValidationError, ValueError)):
            ctx.fail('undocumented error', f'{what}: {type(error).__name__}: {error}')
        ctx.expect(q.agree(before, snapshot(model), 0.0), 'model changed', lambda: what)
        k = same_args(args, copyof)
        ctx.expect(k is None, 'argument changed', lambda: f'{what}: {k}: {args[k]!r:.200} was {copyof[k]!r:.200}')
    finally:
        os.chdir(here)
        shutil.rmtree(folder, ignore_errors=True)
        if figures() != figs:
            import matplotlib.pyplot as plt
            plt.close('all')


def covered(ctx):
    """Every public operation with parameters is in the catalogue, with all its parameters."""
    import inspect
    import pydtmc as d
    for prefix, cls in (('mc', d.MarkovChain), ('hmm', d.HiddenMarkovModel)):
        for k, v in vars(cls).items():
            f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v
            if inspect.isfunction(f) and not k.startswith('_') and f.__name__ == k:
                ps = [p for p in inspect.signature(f).parameters.values() if p.name != 'self' and p.kind is not p.VAR_KEYWORD]
                names = [f'{prefix}.{k}', f'{prefix.upper()}.{k}']
                known = [set(ops()[x][1]) for x in names if x in ops()]
                if ps and not known:
                    ctx.count('operations not in the catalogue')
                elif ps and set(p.name for p in ps) - known[0]:
                    ctx.count('parameters not in the catalogue', len(set(p.name for p in ps) - known[0]))
