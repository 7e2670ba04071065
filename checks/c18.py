import itertools
import math
from fractions import Fraction as F

from lib import families as fam

import numpy as np

PROPERTY = 'C18'
RULE = ('fitting of sequences: every sequence of states up to a length, plain, smoothed and with every prior of a family; fitting of functions: every quadrature rule, number of states up to a bound and interval, '
        'every table of values of a family at the nodes, every kind of illegal value at every pair of nodes; non-trivial: states never left, null rows, illegal values')
ASSUMPTIONS = ['additive smoothing adds 0.001 to every count', 'rules: Chebyshev nodes with interpolatory weights (exact to degree n-1), Gauss-Legendre (2n-1), midpoints (1), Simpson (3), trapezoid (1), '
               'Niederreiter: fractional parts of the multiples of the square root of 2 with equal weights', 'numbers are compared within 1e-9 relative']

RULES = ['gauss-chebyshev', 'gauss-legendre', 'niederreiter', 'newton-cotes', 'simpson-rule', 'trapezoid-rule']
INTERVALS = [None, (0.0, 2.0), (5, 10), (0.25, 0.375), (1e-3, 1e3), (0.0, 1e-12), (1e6, 1e6 + 1.0)]


def jobs(tier, seed):
    quick = tier == 'quick'
    out = []
    for n, f in [(2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (2, 7), (3, 2), (3, 3), (3, 4), (3, 5), (3, 6), (2, 9), (4, 3), (4, 4), (4, 5)] + ([] if quick else [(2, 10), (2, 12), (3, 7), (3, 8), (4, 5), (4, 6), (5, 4), (5, 5)]):
        m = max(1, n ** f // 100) if quick else max(1, n ** f // 200)
        out += [('seq', n, f, i, m) for i in range(m)]
    out += [('wide', i, 8) for i in range(8)]
    for rule in RULES:
        for n in range(2, 17 if quick else 41):
            if rule != 'simpson-rule' or n % 2:
                out.append(('rule', rule, n))
        out += [('table', rule, quick, i, 8) for i in range(8)]
        out.append(('illegal', rule))
    if not quick:
        out += [('rule', 'gauss-legendre', n) for n in (60, 80, 100)]
    return out


def cases(job):
    if job[0] == 'seq':
        for s in itertools.islice(itertools.product(range(job[1]), repeat=job[2]), job[3], None, job[4]):
            yield {'n': job[1], 's': list(s)}
    elif job[0] == 'wide':       # more states, longer sequences
        for n, f, c in list(itertools.product((2, 10, 11, 13, 30), (2, 12, 13, 40, 101, 300), range(4)))[job[1]::job[2]]:
            yield {'n': n, 's': [[(t * t + t // 5) % n, t * 7 % n, min(t, n - 1), (t // 2) % n][c] for t in range(f)]}
    elif job[0] == 'rule':
        for i, _ in enumerate(INTERVALS):
            yield {'rule': job[1], 'n': job[2], 'interval': i}
    elif job[0] == 'table':
        n = 3
        rows = [[a, b, c] for a in range(4) for b in range(4) for c in range(4)]
        out = [[rows[i], rows[(i * 7 + 5 * j) % 64], rows[(i + j * j) % 64]] for i in range(64) for j in range(3 if job[2] else 24)]
        for i, t in enumerate(out[job[3]::job[4]]):
            yield {'rule': job[1], 'T': t, 'scale': ['1', '1e-12', '1e300', '5e-324', '1e308'][i % 5] if i % 2 else '1'}
    else:
        for i in range(3):
            for j in range(3):
                yield {'rule': job[1], 'bad': [i, j]}


def check(ctx, case):
    {'s': check_sequence, 'T': check_table, 'bad': check_illegal, 'interval': check_rule}[[k for k in ('s', 'T', 'bad', 'interval') if k in case][0]](ctx, case)


def check_sequence(ctx, case):
    import pydtmc
    n, s = case['n'], case['s']
    lab = fam.labels(fam.MODES[sum(s) % 4], n)
    C = [[0] * n for _ in range(n)]
    for a, b in zip(s[:-1], s[1:]):
        C[a][b] += 1
    ctx.states += 1
    ctx.nontrivial += any(not any(r) for r in C)
    uni = [F(1, n)] * n
    mle = [[F(v, sum(r)) for v in r] if any(r) else uni for r in C]
    lap = [[(v + F(1, 1000)) / (sum(r) + F(n, 1000)) for v in r] for r in C]
    runs = [('mle', False, mle), ('mle', None, mle), ('mle', True, lap), ('map', None, mle)]
    h1 = [[1 + (i * n + j) % 3 for j in range(n)] for i in range(n)]
    h2 = [[1 if i == 0 else 1 + 40 * (j == i) for j in range(n)] for i in range(n)]
    h3 = [[1 + (j == 0) for j in range(n)] for i in range(n)]
    for h in (h1, h2, h3):
        R = [[C[i][j] + h[i][j] - 1 for j in range(n)] for i in range(n)]
        exp = [[F(v, sum(r)) for v in r] if any(r) else uni for r in R]
        runs += [('map', h, exp), ('map', np.array(h, dtype=float), exp)]
    for i, (kind, param, exp) in enumerate(runs):
        seq = list(s) if i % 2 else [lab[v] for v in s]
        mc = pydtmc.MarkovChain.fit_sequence(kind, lab, seq, param) if i else pydtmc.MarkovChain.fit_sequence(kind, lab, seq)
        ctx.transitions += 1
        ctx.close(f'{kind} {param if not isinstance(param, np.ndarray) else param.tolist()}', mc.p, [[float(v) for v in r] for r in exp], 1e-12, 1e-14)
        ctx.same('labels', mc.states, lab)


def rule_reference(rule, n, a, b):
    if rule == 'gauss-legendre':
        x, w = np.polynomial.legendre.leggauss(n)
        return (a + b) / 2 + (b - a) / 2 * x, w / 2
    if rule == 'gauss-chebyshev':
        t = [(2 * i + 1) * math.pi / (2 * n) for i in range(n)]
        x = np.array([-math.cos(v) for v in t])
        w = np.array([(1.0 - 2.0 * sum(math.cos(2 * j * v) / (4 * j * j - 1) for j in range(1, (n - 1) // 2 + 1))) / n for v in t])
        return (a + b) / 2 + (b - a) / 2 * x, w
    if rule == 'newton-cotes':
        return np.array([a + (b - a) * (2 * i + 1) / (2 * n) for i in range(n)]), np.full(n, 1 / n)
    if rule == 'niederreiter':
        return np.array([a + (b - a) * ((i * math.sqrt(2.0)) % 1.0) for i in range(1, n + 1)]), np.full(n, 1 / n)
    x = np.array([a + (b - a) * i / (n - 1) for i in range(n)])
    if rule == 'trapezoid-rule':
        w = np.array([1.0 if 0 < i < n - 1 else 0.5 for i in range(n)]) / (n - 1)
    else:
        w = np.array([1.0 if i in (0, n - 1) else (4.0 if i % 2 else 2.0) for i in range(n)]) / (3.0 * (n - 1))
    return x, w


def degree(rule, n):
    return {'gauss-legendre': 2 * n - 1, 'gauss-chebyshev': n - 1, 'newton-cotes': 1, 'simpson-rule': 3, 'trapezoid-rule': 1, 'niederreiter': 0}[rule]


def check_rule(ctx, case):
    import pydtmc
    rule, n = case['rule'], case['n']
    interval = INTERVALS[case['interval']]
    a, b = interval or (0.0, 1.0)
    seen = {}

    def f(x_index, x_value, y_index, y_value):
        seen[(x_index, y_index)] = (x_value, y_value)
        return 1.0

    names = [f's{i}' for i in range(n)]
    mc = pydtmc.MarkovChain.fit_function(rule, names, f, interval)
    ctx.states += 1
    ctx.transitions += n * n
    ctx.nontrivial += 1
    ctx.same('evaluated pairs', sorted(seen), [(i, j) for i in range(n) for j in range(n)])
    nodes = [seen[(i, 0)][0] for i in range(n)]
    ctx.expect(all(seen[(i, j)] == (nodes[i], nodes[j]) for i, j in seen), 'nodes of the evaluations', '')
    ctx.expect(all(a - 1e-12 * (b - a) - 1e-15 * b <= x <= b + 1e-12 * (b - a) + 1e-15 * b for x in nodes), 'nodes outside the interval', lambda: f'{nodes}')
    ctx.expect(len(set(nodes)) == n, 'nodes repeated', lambda: f'{nodes}')
    x, w = rule_reference(rule, n, a, b)
    ctx.close('nodes', [(v - a) / (b - a) for v in nodes] if b < 1e5 else nodes, [(v - a) / (b - a) for v in x] if b < 1e5 else x, 1e-9, 1e-9 if b < 1e5 else 1e-6)
    ctx.close('weights', mc.p, [w.tolist()] * n, 1e-8, 1e-12)
    # exactness of the rule on Chebyshev polynomials of the interval
    if b < 1e5:
        u = np.clip([(2 * v - a - b) / (b - a) for v in nodes], -1, 1)
        for d in range(degree(rule, n) + 1):
            got = sum(mc.p[0][j] * math.cos(d * math.acos(u[j])) for j in range(n))
            ctx.close(f'integral of degree {d}', got, 0.0 if d % 2 else 1.0 / (1 - d * d), 1e-8, 1e-8)
    # an asymmetric function of both nodes
    g = lambda i, x, j, y: ((x - a) / (b - a)) ** 2 + 0.5 * ((y - a) / (b - a)) + 0.25 * (i == 1) + 0.125 * j  # noqa: E731
    mc = pydtmc.MarkovChain.fit_function(rule, names, lambda x_index, x_value, y_index, y_value: g(x_index, x_value, y_index, y_value), interval)
    exp = [[g(i, nodes[i], j, nodes[j]) * w[j] for j in range(n)] for i in range(n)]
    ctx.close('fitted function', mc.p, [[v / sum(r) if sum(r) else 1.0 / n for v in r] for r in exp], 1e-8, 1e-12)
    ctx.same('labels', mc.states, names)


def check_table(ctx, case):
    import pydtmc
    T, scale = case['T'], float(case['scale'])
    n = len(T)
    T = [[min(v, 1) for v in r] for r in T] if scale in (1e308, 5e-324) else T
    _, w = rule_reference(case['rule'], n, 0.0, 1.0)
    kinds = [lambda i, x, j, y: T[i][j] * scale, lambda i, x, j, y: np.float64(T[i][j] * scale), lambda i, x, j, y: int(T[i][j]) if scale == 1 else T[i][j] * scale]
    for k in kinds:
        mc = pydtmc.MarkovChain.fit_function(case['rule'], ['c', 'a', 'b'], lambda x_index, x_value, y_index, y_value: k(x_index, x_value, y_index, y_value), (0.0, 3.0))
        ctx.transitions += n * n
        exp = [[T[i][j] * w[j] for j in range(n)] for i in range(n)]
        ctx.close('table', mc.p, [[v / sum(r) if any(r) else 1.0 / n for v in r] for r in exp], 1e-9, 1e-12)
    ctx.states += 1
    ctx.nontrivial += any(not any(r) for r in T)


def raising(*args):
    raise RuntimeError('no value')


BAD = {'negative': lambda *a: -1e-9, 'nan': lambda *a: float('nan'), 'infinite': lambda *a: float('inf'), '-infinite': lambda *a: -math.inf, 'none': lambda *a: None, 'complex': lambda *a: 1 + 1j, 'numpy complex': lambda *a: np.complex128(1 + 1j), 'array': lambda *a: np.array([1.0, 2.0]),
       'raising': raising, 'list': lambda *a: [1.0], 'text': lambda *a: 'x'}


def check_illegal(ctx, case):
    import pydtmc
    i0, j0 = case['bad']
    for name, bad in BAD.items():
        f = lambda x_index, x_value, y_index, y_value: bad() if (x_index, y_index) == (i0, j0) else 1.0  # noqa: E731
        ctx.states += 1
        ctx.transitions += 1
        ctx.traces += 1
        ctx.nontrivial += 1
        try:
            mc = pydtmc.MarkovChain.fit_function(case['rule'], ['c', 'a', 'b'], f)
        except (ValueError, pydtmc.ValidationError):
            continue
        ctx.fail('illegal value accepted', f'{name} at {(i0, j0)}: {mc.p.tolist()}')
    for args in (['a'], 'a'), (['a', 'b', 'c'], (1.0, 1.0)), (['a', 'b', 'c'], (2.0, 1.0)), (['a', 'b', 'c'], (-1.0, 1.0)):
        ctx.traces += 1
        try:
            pydtmc.MarkovChain.fit_function(case['rule'], args[0], lambda x_index, x_value, y_index, y_value: 1.0, args[1])
            ctx.fail('illegal arguments accepted', args)
        except pydtmc.ValidationError:
            pass
    try:
        pydtmc.MarkovChain.fit_function(case['rule'], ['a', 'b', 'c', 'd'], lambda x_index, x_value, y_index, y_value: 1.0)
        ctx.expect(case['rule'] != 'simpson-rule', 'even number of states accepted', '')
    except pydtmc.ValidationError:
        ctx.expect(case['rule'] == 'simpson-rule', 'even number of states rejected', case['rule'])
