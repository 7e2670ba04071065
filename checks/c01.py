import itertools
import math
import types

import numpy as np

PROPERTY = 'C01'
RULE = ('every matrix of small size over an alphabet of legal and illegal entries, every shape, every container, every list of labels over an alphabet of legal '
        'and illegal labels, and every name of a constructing function; non-trivial: an input that must be rejected')
ASSUMPTIONS = ['rows whose sum differs from 1 by between 1e-9 and 1e-4 are not judged (the library tolerates about 1e-5)',
               'boolean and object arrays, and labels in containers other than lists, are either rejected or stored faithfully']

BAD = object()
NAN, INF = float('nan'), float('inf')
ENTRIES = [0.0, 1.0, 0.5, 0.25, 0.75, 1 / 3, 2 / 3, -0.0, 1e-300, 0.4999, 1.0 + 1e-7, -0.5, 1.5, -1e-300, NAN, INF, None, 0.5 + 0.1j]
MORE = ENTRIES + [0.1, 0.9, 0, 1, -INF, '0.5']
SMALL = [0.0, 1.0, 0.5, 0.25, 0.75, 0.3, 0.6, -0.5, 1.5, 0.4999, NAN, None]
LABELS = ['A', 'B', 'C', ' A', 'A ', 'é', '1', '', ' ', '\t\n', None, 1, 2.0, b'A', 'E1', ['A'], True]


def jobs(tier, seed):
    out = [('mc2', i, 64) for i in range(64)]
    out += [('row3', i, 16) for i in range(16)]
    out += [('shape',), ('other',)] + [('container', i, 8) for i in range(8)]
    out += [('labels2', i, 2) for i in range(2)] + [('labels3', i, 16) for i in range(16)]
    out += [('emission', i, 16) for i in range(16)] + [('hmmlabels', i, 16) for i in range(16)]
    out += [('function', i, 8) for i in range(8)]
    if tier == 'thorough':
        out += [('mc3', i, 128) for i in range(128)] + [('row4', i, 64) for i in range(64)] + [('labels3b', i, 32) for i in range(32)]
    return out


def enc(x):
    """Entries that JSON cannot express are encoded."""
    return repr(x)


def cases(job):
    kind = job[0]
    if kind in ('shape', 'other'):
        yield {'kind': kind}
        return
    i, k = job[1:]
    if kind == 'mc2':
        it = ([a, b] for a in itertools.product(range(len(ENTRIES)), repeat=2) for b in itertools.product(range(len(ENTRIES)), repeat=2))
    elif kind == 'row3':
        it = ([pos, r] for r in itertools.product(range(len(MORE)), repeat=3) for pos in range(3))
    elif kind == 'row4':
        it = ([pos, r] for r in itertools.product(range(len(SMALL)), repeat=4) for pos in range(4))
    elif kind == 'mc3':
        rows = [r for r in itertools.product((0.0, 1.0, 0.5, 0.25, -0.5), repeat=3)]
        good = [r for r in rows if abs(sum(r) - 1) < 1e-9]
        it = ([list(a), list(b), list(c)] for a in rows for b in good for c in rows)
    elif kind == 'container':
        it = range(len(CONTAINERS))
    elif kind == 'labels2':
        it = itertools.chain.from_iterable(itertools.product(range(len(LABELS)), repeat=m) for m in range(3))
    elif kind == 'labels3':
        it = itertools.product(range(len(LABELS)), repeat=3)
    elif kind == 'labels3b':
        it = itertools.product(range(len(LABELS)), repeat=4)
    elif kind == 'emission':
        it = itertools.product(range(len(SMALL)), repeat=4)
    elif kind == 'hmmlabels':
        pool = ['A', 'B', 'P1', 'E1', 'E2', 'P2', 'é', '']
        pairs = [None] + [list(p) for p in itertools.product(pool, repeat=2)]
        it = itertools.product(pairs, pairs)
    else:
        it = function_names()
    for v in itertools.islice(it, i, None, k):
        yield {'kind': kind, 'v': v}


def verdict(M, rows=None, square=True):
    """True (must be accepted), False (must be rejected), None (not judged)."""
    n = len(M)
    if any(len(r) != len(M[0]) for r in M):
        return False
    if square and (n < 2 or len(M[0]) != n):
        return False
    if not square and (n != rows or len(M[0]) < 2):
        return False
    res = True
    for r in M:
        for x in r:
            if x is None or isinstance(x, (str, complex)) or not math.isfinite(x) or x < 0 or x > 1:
                return False
        d = abs(sum(r) - 1)
        if d > 1e-4:
            return False
        if d > 1e-9:
            res = None
    return res


def attempt(ctx, build):
    import pydtmc
    ctx.states += 1
    ctx.transitions += 1
    try:
        return build()
    except pydtmc.ValidationError:
        return None
    except Exception as ex:
        ctx.fail('undocumented error', f'{type(ex).__name__}: {ex}')
        return BAD


def judge(ctx, what, model, must, P=None, E=None, states=None, symbols=None):
    if model is BAD:
        return
    ctx.traces += 1
    if must is False:
        ctx.nontrivial += 1
        ctx.expect(model is None, 'accepted', lambda: f'{what} -> {model.p.tolist()} {model.states}')
        return
    if model is None:
        if must is True:
            ctx.fail('rejected', what)
        return
    faithful(ctx, what, model, P, E, states, symbols)


def faithful(ctx, what, model, P, E=None, states=None, symbols=None):
    p = np.array(P, dtype=float)
    ctx.expect(model.p.dtype == np.float64 and model.p.shape == p.shape and np.array_equal(model.p, p), 'stored matrix', lambda: f'{what} -> {model.p.tolist()}')
    n = p.shape[0]
    hidden = E is not None
    names = states if states is not None else [f'P{i + 1}' if hidden else f'{i + 1}' for i in range(n)]
    ctx.expect(model.states == names, 'stored states', lambda: f'{what} -> {model.states}')
    if hidden:
        e = np.array(E, dtype=float)
        ctx.expect(model.e.dtype == np.float64 and np.array_equal(model.e, e), 'stored emission matrix', lambda: f'{what} -> {model.e.tolist()}')
        ctx.expect(model.symbols == (symbols if symbols is not None else [f'E{i + 1}' for i in range(e.shape[1])]), 'stored symbols', lambda: f'{what} -> {model.symbols}')
        ctx.expect(tuple(model.size) == (n, e.shape[1]) and model.n == n and model.k == e.shape[1], 'size', lambda: what)
    else:
        ctx.expect(model.size == n and model.n == n, 'size', lambda: what)


def check(ctx, case):
    import pydtmc
    kind = case['kind']
    MC, HM = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel
    if kind == 'mc2':
        M = [[ENTRIES[i] for i in r] for r in case['v']]
        judge(ctx, repr(M), attempt(ctx, lambda: MC([list(r) for r in M])), verdict(M), M)
    elif kind in ('row3', 'row4'):
        alphabet = MORE if kind == 'row3' else SMALL
        pos, r = case['v']
        n = len(r)
        M = [[0.25, 0.75] + [0.0] * (n - 2) for _ in range(n)]
        M[pos] = [alphabet[i] for i in r]
        judge(ctx, repr(M), attempt(ctx, lambda: MC(M)), verdict(M), M)
    elif kind == 'mc3':
        M = case['v']
        judge(ctx, repr(M), attempt(ctx, lambda: MC(M)), verdict(M), M)
    elif kind in ('labels2', 'labels3', 'labels3b'):
        lab = [LABELS[i] for i in case['v']]
        n = {'labels2': 2, 'labels3': 3, 'labels3b': 4}[kind]
        for size in {n, 2}:
            M = np.eye(size)
            ok = len(lab) == size and all(isinstance(s, str) and s.strip() for s in lab) and len(set(lab)) == size
            judge(ctx, f'labels {lab} for {size} states', attempt(ctx, lambda: MC(M, list(lab))), ok, M, states=lab)
            E = [[0.5, 0.5]] * size
            sy = ['x', 'y']
            judge(ctx, f'labels {lab} for {size} hidden states', attempt(ctx, lambda: HM(M, E, list(lab), sy)), ok, M, E, lab, sy)
            if size == 2 and len(lab) != 2:
                continue
            e2 = np.eye(2)[[0] * (size - 1) + [1]] if size > 2 else np.eye(2)
            e2 = np.full((2, size), 1.0 / size)
            ok2 = ok
            judge(ctx, f'symbols {lab}', attempt(ctx, lambda: HM(np.eye(2), e2, ['x', 'y'], list(lab))), ok2, np.eye(2), e2, ['x', 'y'], lab)
    elif kind == 'emission':
        r = [SMALL[i] for i in case['v']]
        for E in ([r[:2], r[2:]], [r, [0.25] * 4]):
            P = [[0.5, 0.5], [0.25, 0.75]]
            judge(ctx, f'emission {E}', attempt(ctx, lambda: HM(P, E)), verdict(E, 2, False), P, E)
    elif kind == 'hmmlabels':
        st, sy = case['v']
        a = st if st is not None else ['P1', 'P2']
        b = sy if sy is not None else ['E1', 'E2']
        ok = all(len(set(x)) == 2 and all(s.strip() for s in x) for x in (a, b)) and not set(a) & set(b)
        P, E = [[0.5, 0.5], [0.25, 0.75]], [[0.125, 0.875], [1.0, 0.0]]
        judge(ctx, f'states {st} symbols {sy}', attempt(ctx, lambda: HM(P, E, st and list(st), sy and list(sy))), ok, P, E, st, sy)
    elif kind == 'shape':
        shapes(ctx)
    elif kind == 'other':
        others(ctx)
    elif kind == 'container':
        container(ctx, CONTAINERS[case['v']])
    else:
        function(ctx, case['v'])


def shapes(ctx):
    import pydtmc
    MC, HM = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel
    for r, c in itertools.product(range(6), repeat=2):
        M = np.full((r, c), 1.0 / max(c, 1))
        for arg in (M, M.tolist()):
            judge(ctx, f'shape {r}x{c}', attempt(ctx, lambda: MC(arg)), r == c and r >= 2, M)
            judge(ctx, f'emission shape {r}x{c}', attempt(ctx, lambda: HM(np.eye(3), arg)), r == 3 and c >= 2, np.eye(3), M)
        for n in (2, 3):
            judge(ctx, f'{n} labels for {r}x{c}', attempt(ctx, lambda: MC(M, [f'x{i}' for i in range(n)])), r == c == n, M, states=[f'x{i}' for i in range(n)])
            judge(ctx, f'{n} symbols for {r}x{c}', attempt(ctx, lambda: HM(np.eye(2), M, None, [f'x{i}' for i in range(n)])), r == 2 and c == n, np.eye(2), M, None, [f'x{i}' for i in range(n)])
    for bad in ([[0.5, 0.5], [1.0]], [[0.5, 0.5], [0.5, 0.5, 0.0]], [[1.0], [1.0]], [0.5, 0.5], [], [[]], [[], []], np.ones(4) / 4, np.full((2, 2, 2), 0.5), np.full((1, 2, 2), 0.5), np.array(1.0),
                [[[0.5, 0.5], [0.5, 0.5]]], [[[0.5], [0.5]], [[0.5], [0.5]]]):
        judge(ctx, repr(bad), attempt(ctx, lambda: MC(bad)), False)
        judge(ctx, f'emission {bad!r}', attempt(ctx, lambda: HM(np.eye(2), bad)), False)
    for n in (5, 8, 20):
        M = np.array([[(i * j + 1) % 7 + 1 for j in range(n)] for i in range(n)], dtype=float)
        M /= M.sum(axis=1, keepdims=True)
        judge(ctx, f'size {n}', attempt(ctx, lambda: MC(M)), True, M)
        for i, j in ((0, 0), (n - 1, n - 1), (n - 1, 0), (n // 2, n - 1)):
            for v in (NAN, -1e-9, 1.0 + 1e-9, INF, M[i, j] + 1e-3):
                B = M.copy()
                B[i, j] = v
                judge(ctx, f'size {n} with {v} at {i},{j}', attempt(ctx, lambda: MC(B)), False)
                judge(ctx, f'emission {n} with {v} at {i},{j}', attempt(ctx, lambda: HM(np.eye(n), B)), False)


def others(ctx):
    """Arguments that are no matrices and no lists of labels at all."""
    import pydtmc
    MC, HM = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel
    things = [None, 0, 1, 0.5, True, 'ab', '', b'ab', object(), {}, {0: [0.5, 0.5], 1: [0.5, 0.5]}, set(), {1, 2}, range(2), iter([1]), (x for x in []), int, len, lambda: 0, NAN,
              slice(2), Ellipsis, ((0.5, 0.5), (0.5, 0.5)), np.array(['a', 'b']), np.array([[None, None], [None, None]]), np.array([['1', '0'], ['0', '1']]),
              np.eye(2).astype('datetime64[s]'), np.array([[1 + 1j, 0], [0, 1]]), np.array([[0.5 + 0.5j, 0.5 - 0.5j], [0, 1]])]
    for t in things:
        judge(ctx, repr(t), attempt(ctx, lambda: MC(t)), False)
        judge(ctx, f'hidden {t!r}', attempt(ctx, lambda: HM(t, np.eye(2))), False)
        judge(ctx, f'emission {t!r}', attempt(ctx, lambda: HM(np.eye(2), t)), False)
        if t is not None:
            judge(ctx, f'labels {t!r}', attempt(ctx, lambda: MC(np.eye(2), t)), False)
            judge(ctx, f'hidden labels {t!r}', attempt(ctx, lambda: HM(np.eye(2), np.eye(2), t)), False)
            judge(ctx, f'symbols {t!r}', attempt(ctx, lambda: HM(np.eye(2), np.eye(2), None, t)), False)
    for lab in (('A', 'B'), np.array(['A', 'B']), {'A': 1, 'B': 2}, 'AB'):
        for m in (attempt(ctx, lambda: MC(np.eye(2), lab)), ):
            if m is not None and m is not BAD:
                faithful(ctx, repr(lab), m, np.eye(2), states=['A', 'B'])
    for M in (np.array([[True, False], [False, True]]), np.array([[1, 0], [0, 1]], dtype=object), [[True, False], [False, True]]):
        m = attempt(ctx, lambda: MC(M))
        if m is not None and m is not BAD:
            faithful(ctx, repr(M), m, np.array(M, dtype=float))


def _cont():
    import pandas as pd
    import scipy.sparse as sp
    mats = [('exact', [[0.5, 0.25, 0.25], [0.0, 1.0, 0.0], [0.125, 0.0, 0.875]]), ('thirds', [[1 / 3, 1 / 3, 1 / 3], [0.1, 0.2, 0.7], [0.3, 0.6, 0.1]]), ('integer', [[0, 1, 0], [0, 0, 1], [1, 0, 0]])]
    out = []
    for name, M in mats:
        for dt in ('float64', 'float32', 'float16', 'longdouble', '>f8', '<f4', '>f4'):
            out.append((name, dt, lambda M=M, dt=dt: np.array(M, dtype=dt)))
        if name == 'integer':
            for dt in ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', '>i4'):
                out.append((name, dt, lambda M=M, dt=dt: np.array(M, dtype=dt)))
                out.append((name, 'frame ' + dt, lambda M=M, dt=dt: pd.DataFrame(np.array(M, dtype=dt.replace('>', '<')))))
        out.append((name, 'list', lambda M=M: [list(r) for r in M]))
        out.append((name, 'list of arrays', lambda M=M: [np.array(r) for r in M]))
        out.append((name, 'list of tuples', lambda M=M: [tuple(r) for r in M]))
        out.append((name, 'list of numpy scalars', lambda M=M: [[np.float64(x) for x in r] for r in M]))
        out.append((name, 'fortran', lambda M=M: np.asfortranarray(np.array(M, dtype=float))))
        out.append((name, 'transposed view', lambda M=M: np.array(M, dtype=float).T.copy().T))
        out.append((name, 'strided view', lambda M=M: np.repeat(np.repeat(np.array(M, dtype=float), 2, 0), 3, 1)[::2, ::3]))
        out.append((name, 'reversed view', lambda M=M: np.array(M, dtype=float)[::-1, ::-1].copy()[::-1, ::-1]))
        out.append((name, 'matrix', lambda M=M: np.matrix(M)))
        out.append((name, 'frame', lambda M=M: pd.DataFrame(M)))
        out.append((name, 'labelled frame', lambda M=M: pd.DataFrame(M, index=['c', 'b', 'a'], columns=['z', 'x', 'y'])))
        out.append((name, 'mixed frame', lambda M=M, name=name: pd.DataFrame({i: np.array([r[i] for r in M], dtype='int8' if name == 'integer' and i else 'float32' if i == 1 else float) for i in range(3)})))

        def ro(M=M):
            a = np.array(M, dtype=float)
            a.setflags(write=False)
            return a
        out.append((name, 'read-only', ro))
        for f in ('csr', 'csc', 'coo', 'lil', 'dok', 'dia', 'bsr'):
            out.append((name, f, lambda M=M, f=f: getattr(sp, f'{f}_matrix')(np.array(M, dtype=float))))

        def dup(M=M):
            a = np.array(M, dtype=float)
            r, c = np.nonzero(a)
            return sp.coo_matrix((np.concatenate([a[r, c] / 2] * 2), (np.concatenate([r, r]), np.concatenate([c, c]))), shape=a.shape)
        out.append((name, 'coo duplicates', dup))
    return out


try:
    CONTAINERS = _cont()
except ImportError:      # the interpreter that only lists the module
    CONTAINERS = []


def container(ctx, c):
    import pydtmc
    import scipy.sparse as sp
    name, kind, make = c
    arg = make()
    if isinstance(arg, list):
        exp = np.array([[float(x) for x in r] for r in arg])
    else:
        exp = np.array((arg.toarray() if sp.issparse(arg) else arg.to_numpy() if hasattr(arg, 'to_numpy') else arg), dtype=float)
    must = True if abs(exp.sum(axis=1) - 1).max() < 1e-7 else None
    lab = ['x', 'y', 'z']
    m = attempt(ctx, lambda: pydtmc.MarkovChain(arg, lab))
    judge(ctx, f'{kind} {name}', m, must, exp, states=lab)
    h = attempt(ctx, lambda: pydtmc.HiddenMarkovModel(arg, make(), None, lab))
    judge(ctx, f'hidden {kind} {name}', h, must, exp, exp, None, lab)
    # the model is independent of what it was made of
    if m is not None and m is not BAD:
        lab[0] = 'q'
        try:
            if isinstance(arg, list):
                arg[0] = None
            elif hasattr(arg, 'iloc'):
                arg.iloc[0, 0] = 0
            elif isinstance(arg, np.ndarray):
                arg[...] = 0
            else:
                arg.data[...] = 0
        except (ValueError, TypeError, AttributeError):
            pass
        faithful(ctx, f'{kind} {name} after a change of the argument', m, exp, states=['x', 'y', 'z'])


def function_names():
    """The names of all functions of the library, and the forms of code that can perform a construction."""
    import pydtmc
    import sys
    names = set()
    for mod in [m for k, m in sys.modules.items() if k.startswith('pydtmc')]:
        for k, v in vars(mod).items():
            if isinstance(v, types.FunctionType):
                names |= {k, k.strip('_'), v.__name__}
    for cls in (pydtmc.MarkovChain, pydtmc.HiddenMarkovModel):
        names |= {k for k, v in vars(cls).items() if callable(v) or isinstance(v, (property, staticmethod))}
    names |= {'f', 'main', 'test', '__call__', '__new__', '__reduce__', '_private'}
    return sorted(n for n in names if n.isidentifier() and n not in ('__init__', '__reduce_ex__', '__class__', '__new__'))


FORMS = ['def {n}(P, E):\n    return build(P, E)\n\ndef build(P, E):\n    return MC(P) if E is None else HM(P, E)\n',
         'def {n}(P, E):\n    return MC(P) if E is None else HM(P, E)\n',
         'class K:\n    @staticmethod\n    def {n}(P, E):\n        return MC(P) if E is None else HM(P, E)\n{n} = K.{n}\n',
         'class K:\n    def {n}(self, P, E):\n        return [MC(P) if E is None else HM(P, E) for _ in range(1)][0]\nk = K()\n{n} = K.{n}.__get__(k)\n',
         'def {n}(P, E):\n    return (lambda: MC(P) if E is None else HM(P, E))()\n',
         'class MC2(MC):\n    def {n}_(self):\n        return None\nclass HM2(HM):\n    def {n}_(self):\n        return None\ndef {n}(P, E):\n    return MC2(P) if E is None else HM2(P, E)\n']


def function(ctx, name):
    import pydtmc
    import keyword
    if keyword.iskeyword(name):
        return
    good = [[0.5, 0.5], [0.25, 0.75]]
    bads = [[[0.5, 0.4], [0.25, 0.75]], [[1.5, -0.5], [0.25, 0.75]], [[NAN, 1.0], [0.25, 0.75]], [[0.5, 0.5], [0.25, 0.75], [0.0, 1.0]]]
    for form in FORMS:
        for modname in ('user', 'pydtmc.markov_chain')[form is FORMS[1]:]:
            env = {'MC': pydtmc.MarkovChain, 'HM': pydtmc.HiddenMarkovModel, '__name__': modname}
            exec(compile(form.format(n=name), f'{name}.py', 'exec'), env)
            f = env[name]
            judge(ctx, f'constructed by {name}', attempt(ctx, lambda: f(good, None)), True, good)
            judge(ctx, f'hidden constructed by {name}', attempt(ctx, lambda: f(good, good)), True, good, good)
            for b in bads if form is FORMS[1] else bads[:2]:
                judge(ctx, f'{b} constructed by {name}', attempt(ctx, lambda: f(b, None)), False)
                judge(ctx, f'hidden {b} constructed by {name}', attempt(ctx, lambda: f(b, good)), False)
                judge(ctx, f'emission {b} constructed by {name}', attempt(ctx, lambda: f(good, b)), False)
