import itertools
import json
import os
import pathlib
import subprocess
import sys

from lib import core
from lib import families as fam
from lib import hmms

import numpy as np

PROPERTY = 'C15'
RULE = ('every ordered list of labels over an alphabet of awkward labels, every matrix over a set of awkward doubles, every chain and hidden model of the bounded families, '
        'in the four formats, and every pair of writes to the same path; non-trivial: a label or a number that needs care in the format')
ASSUMPTIONS = ['labels are made of at most 100000 printable characters and ordinary spaces', 'the file system is reliable']

FORMATS = ['csv', 'json', 'txt', 'xml']
ALPHABET = ['A', 'B', '1', '0.5', 'P', 'E', 'P_', 'E_', '"', "'", ',', '<', '>', '&', '&amp;', '\\', '\\n', '#', '=', '-1', 'nan', 'null', 'true', '[', '{}', ';', '|', 'é', '日本', '😀', 'ß', 'e\u0301',
            ' A', 'A ', 'a b', 'a  b', 'a"b', '"a"', 'a,b', '""', ',,', ' ,', '<Item', '<Item/>', '" />', '?>', '<?xml?>', ']]>', '<!--', '%s', '{0}', 'MarkovChain', '<MarkovChain>', 'Item', 'state_from', "' />",
            '\\u0041', '&#65;', '*', 'x' * 300, '﹐', '＂', 'A,B', '"A","B"', 'P_A', 'E_A', "it's", '/', ':', '@', '$', '~', '`']
HARD = ['A', '"', ',', ' A', 'a b', '<', '&', 'é', "'", '\\', 'E_', 'P', '" />', '?>', '1', '😀', 'a"b', '#']
DOUBLES = [0.0, -0.0, 1.0, 0.5, 0.1, 1 / 3, 2 / 3, 5e-324, 2.2250738585072014e-308, 1e-300, 1e-17, 1e-5, 0.0001, 1e-16, 0.30000000000000004, float(np.nextafter(0.5, 0)), float(np.nextafter(0.5, 1)), float(np.nextafter(1, 0)),
           0.123456789012345678, 1e-4 / 3, 1.2345e-10]


def jobs(tier, seed):
    deep = tier != 'quick'
    out = [('labels2', i, 16) for i in range(16)] + [('labels3', i, 16) for i in range(16)] + [('hmmlabels', i, 32) for i in range(32)]
    out += [('doubles', i, 16) for i in range(16)] + [('rewrite', i, 8) for i in range(8)] + [('locale', f) for f in FORMATS] + [('paths',), ('tolerance',)]
    s = [(('sup', 2, 't'), 1), (('sup', 3, 't'), 4), (('can', 4, 't', [1]), 8), (('struct', 's', [0]), 2), (('wide', [11], 't', [0, 3]), 4), (('wide', [37, 128], 's', [1]), 4)]
    if deep:
        s += [(('sup', 3, 's'), 4), (('can', 4, 's', [0, 2]), 16), (('sup', 4, 't'), 64)]
        out += [('labels3x', i, 64) for i in range(64)] + [('hmmlabels2', i, 64) for i in range(64)]
    out += [('chains',) + j for j in fam.make_jobs(s, 1)]
    out += hmms.make_jobs([(('sup', 2, 't'), ('sup', 2, 2, 't'), 1), (('sup', 2, 's'), ('sup', 2, 3, 't'), 4), (('sup', 3, 't'), ('list', [[[1, 2], [0, 1], [1, 0]], [[1, 1, 1, 0], [0, 0, 0, 1], [1, 0, 3, 0]]]), 4), (('wide', [11], 't', [3]), ('wide', 11, 13), 8), (('wide', [13], 's', [3]), ('wide', 13, 2), 8)], 'hmms')
    return out


def disjoint(a, b):
    return not set(a) & set(b)


def cases(job):
    kind = job[0]
    if kind == 'chains':
        for c in fam.case_iter(job[1:]):
            yield {'k': 'mc', 'p': hmms.floats(c['N']), 's': fam.labels(c['L'], len(c['N']))}
        return
    if kind == 'hmms':
        for c in hmms.case_iter(job[1:]):
            st, sy = hmms.labels(c['L'], len(c['N']), len(c['E'][0]))
            yield {'k': 'hmm', 'p': hmms.floats(c['N']), 'e': hmms.floats(c['E']), 's': st, 'y': sy}
        return
    if kind == 'locale':
        yield {'k': 'locale', 'f': job[1]}
        return
    if kind == 'paths':
        yield {'k': 'paths'}
        return
    if kind == 'tolerance':
        for d in (1e-16, 1e-12, 1e-9, 1e-6, 5e-6):
            for s in (1, -1):
                yield {'k': 'mc', 'p': [[0.25, 0.75 + s * d], [0.5, 0.5 - s * d]], 's': ['A', 'B']}
                yield {'k': 'hmm', 'p': [[0.25, 0.75 + s * d], [0.5, 0.5]], 'e': [[0.25, 0.75 + s * d], [0.5, 0.5 - s * d]], 's': ['A', 'B'], 'y': ['C', 'D']}
        return
    g = {'labels2': labels2, 'labels3': labels3, 'labels3x': labels3x, 'hmmlabels': hmmlabels, 'hmmlabels2': hmmlabels2, 'doubles': doubles, 'rewrite': rewrite}[kind]
    yield from itertools.islice(g(), job[1], None, job[2])


P2 = [[0.1, 0.9], [1e-17, 1.0]]
P3 = [[0.1, 0.2, 0.7], [1.0, 0.0, 0.0], [1 / 3, 1 / 3, 1 / 3]]


def labels2():
    for s in itertools.permutations(ALPHABET, 2):
        yield {'k': 'mc', 'p': P2, 's': list(s)}


def labels3():
    for s in itertools.permutations(HARD, 3):
        yield {'k': 'mc', 'p': P3, 's': list(s)}


def labels3x():
    for s in itertools.combinations(ALPHABET, 3):
        yield {'k': 'mc', 'p': P3, 's': list(s)}


def hmmlabels():
    pairs = [('A', 'B'), ('1', '2')]
    for s in itertools.permutations(ALPHABET, 2):
        for i, q in list(enumerate(pairs))[len(s[0] + s[1]) % 2:][:1]:
            if disjoint(s, q):
                yield {'k': 'hmm', 'p': P2, 'e': P2[::-1], 's': list(s if i else q), 'y': list(q if i else s)}


def hmmlabels2():
    for s in itertools.permutations(HARD, 4):
        yield {'k': 'hmm', 'p': P2, 'e': P2[::-1], 's': list(s[:2]), 'y': list(s[2:])}


def doubles():
    rows = []
    for x in DOUBLES:
        for r in ([x, 1.0 - x], [1.0 - x, x], [x, x / 3, 1.0 - x - x / 3], [x / 2, 1.0 - x, x / 2]):
            if all(v >= 0.0 for v in r):
                rows.append(r)
    two, three = [r for r in rows if len(r) == 2], [r for r in rows if len(r) == 3]
    for a, b in itertools.product(two, repeat=2):
        yield {'k': 'mc', 'p': [a, b], 's': ['A', 'B']}
    for a, b in itertools.product(three, repeat=2):
        yield {'k': 'mc', 'p': [a, b, three[len(a) % 3]], 's': ['A', 'B', 'C']}
        yield {'k': 'hmm', 'p': [two[0], two[3]], 'e': [a, b], 's': ['A', 'B'], 'y': ['x', 'y', 'z']}


MODELS = [{'k': 'mc', 'p': P2, 's': ['A', 'B']}, {'k': 'mc', 'p': P3, 's': ['long label' * 9, 'B', 'é']}, {'k': 'mc', 'p': P3, 's': ['C', 'B', 'A']},
          {'k': 'mc', 'p': np.eye(9).tolist(), 's': [str(i) for i in range(9)]}, {'k': 'hmm', 'p': P2, 'e': P2, 's': ['A', 'B'], 'y': ['x', 'y']},
          {'k': 'hmm', 'p': P3, 'e': P3, 's': ['x', 'y', 'z'], 'y': ['A', 'B', 'C']}, {'k': 'hmm', 'p': P2, 'e': [[0.5, 0.25, 0.25, 0.0]] * 2, 's': ['A', 'B'], 'y': ['w', 'é', 'y', 'z']}]
JUNK = ['', 'junk', '[]', 'A B 1.0\n' * 500, '\x00\xff' * 4000]


def rewrite():
    before = [{'m': m} for m in MODELS] + [{'j': j} for j in range(len(JUNK))]
    for b in before:
        for m in MODELS:
            yield {'k': 'rewrite', 'b': b, 'm': m}
            if 'm' in b:
                yield {'k': 'rewrite', 'b': b, 'm': m, 'third': True}


def build(c):
    import pydtmc
    if c['k'] == 'mc':
        return pydtmc.MarkovChain(np.array(c['p']), list(c['s']))
    return pydtmc.HiddenMarkovModel(np.array(c['p']), np.array(c['e']), list(c['s']), list(c['y']))


def path_of(f):
    return os.path.join(core.SCRATCH, f'm{os.getpid()}.{f}')


def identical(a, b):
    ok = type(a) is type(b) and a == b and a.states == b.states and a.p.tobytes() == b.p.tobytes()
    if ok and hasattr(a, 'e'):
        ok = a.symbols == b.symbols and a.e.tobytes() == b.e.tobytes()
    return ok


def spaced(c):
    return any(ch.isspace() for s in c['s'] + c.get('y', []) for ch in s)


def split_at_spaces(c):
    """What a reader which splits the lines at the spaces makes of the model: matrices and labels, or None."""
    d, h = {}, c['k'] == 'hmm'
    for name, m, to in (('P', c['p'], c['s']), ('E', c.get('e', []), c.get('y'))):
        for a, row in zip(c['s'], m):
            for b, v in zip(to, row):
                t = (f'{name} ' * h + f'{a} {b} x').split()
                if len(t) != 3 + h or h and t[0] not in ('P', 'E'):
                    return None
                d[tuple(t[:-1])] = float(v)
    if not h:
        d = {('P',) + k: v for k, v in d.items()}
    states = [a for n, a, b in d if n == 'P' and a == b]
    symbols = [b for n, a, b in d if n == 'E' and a == states[0]] if states else []
    if len(states) < 2 or h and len(symbols) < 2:
        return None
    p, e = np.zeros((len(states),) * 2), np.zeros((len(states), len(symbols)))
    for (n, a, b), v in d.items():
        to = states if n == 'P' else symbols
        if a not in states or b not in to:
            return None
        (p if n == 'P' else e)[states.index(a), to.index(b)] = v
    if any(not np.allclose(x.sum(axis=1), 1.0) for x in (p, e)[:1 + h]) or set(states) & set(symbols):
        return None
    return (states, p.tolist()) + ((symbols, e.tolist()) if h else ())


def reload(ctx, c, m, f, path, text=None):
    ctx.transitions += 1
    ctx.traces += 1
    try:
        n = type(m).from_file(path)
    except Exception as ex:
        bad, got = f'{type(ex).__name__}: {ex}', None if type(ex).__name__ in ('ValueError', 'ValidationError') else ex
    else:
        got = (n.states, n.p.tolist()) + ((n.symbols, n.e.tolist()) if hasattr(n, 'e') else ())
        bad = None if identical(m, n) else f'read back as {n.states} {n.p.tolist()} {getattr(n, "symbols", "")} {n.e.tolist() if hasattr(n, "e") else ""}'
    if bad:
        if f == 'txt' and spaced(c) and got == split_at_spaces(c):
            ctx.known('txt-spaces-in-labels', f'{c["s"]} {c.get("y")} in {f}: {bad}')
        else:
            ctx.fail(f'reading {f}', f'{c} in {f}: {bad}')
        return None
    return n


def trip(ctx, c, formats=FORMATS, path=None):
    m = build(c)
    ctx.states += 1
    before = (m.p.copy(), list(m.states), str(m))
    for f in formats:
        p = path or path_of(f)
        ctx.transitions += 1
        try:
            r = m.to_file(p)
        except Exception as ex:
            ctx.fail(f'writing {f}', f'{c} to {f}: {ex!r}')
            continue
        ctx.expect(r is None, 'value of to_file', str(r))
        raw = pathlib.Path(p).read_bytes()
        n = reload(ctx, c, m, f, p)
        ctx.expect(pathlib.Path(p).read_bytes() == raw, f'file changed by reading {f}', str(c))
        if n is not None:
            n.to_file(p)
            ctx.expect(pathlib.Path(p).read_bytes() == raw, f'rewriting {f}', lambda: f'{c}: {raw!r} {pathlib.Path(p).read_bytes()!r}')
    ctx.expect(np.array_equal(before[0], m.p) and before[1:] == (m.states, str(m)), 'model changed by writing', str(c))
    ctx.nontrivial += spaced(c) or any(not s.isalnum() or not s.isascii() for s in c['s']) or any(x not in (0.0, 0.5, 1.0) for r in c['p'] for x in r)


LOCALE_SCRIPT = r'''
import json, os, sys
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
from lib import core
core.SCRATCH = sys.argv[3]
import checks.c15 as c15
sys.path.insert(0, core.REPO)
import pydtmc
ctx = core.Ctx('C15', {'txt-spaces-in-labels'})
n = 0
for a in c15.ALPHABET:
    for c in ({'k': 'mc', 'p': c15.P2, 's': [a, 'q']}, {'k': 'hmm', 'p': c15.P2, 'e': c15.P2, 's': ['q', a], 'y': ['r', 't']}, {'k': 'hmm', 'p': c15.P2, 'e': c15.P2, 's': ['q', 'z'], 'y': ['r', a]}):
        ctx.case = c
        c15.trip(ctx, c, [sys.argv[4]])
        n += 1
print(json.dumps([n, ctx.transitions, ctx.fails]))
'''


def check(ctx, case):
    k = case['k']
    if k in ('mc', 'hmm'):
        trip(ctx, case)
    elif k == 'rewrite':
        for f in FORMATS:
            path = path_of(f)
            b = case['b']
            if 'm' in b:
                build(b['m']).to_file(path)
                if case.get('third'):
                    # an interrupted write leaves part of the file behind
                    raw = pathlib.Path(path).read_bytes()
                    pathlib.Path(path).write_bytes(raw[:len(raw) // 2])
            else:
                pathlib.Path(path).write_text(JUNK[b['j']], encoding='latin-1')
            trip(ctx, case['m'], [f])
            fresh = pathlib.Path(path).read_bytes()
            os.remove(path)
            build(case['m']).to_file(path)
            ctx.expect(fresh == pathlib.Path(path).read_bytes(), f'content of {f} depends on what was in the file before', str(case))
            ctx.nontrivial += 1
            os.remove(path)
    elif k == 'locale':
        env = dict(os.environ, LC_ALL='POSIX', LANG='POSIX', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
        r = subprocess.run([sys.executable, '-B', '-c', LOCALE_SCRIPT, core.ROOT, core.REPO, core.SCRATCH, case['f']], env=env, capture_output=True, text=True, timeout=300)
        if r.returncode or not r.stdout.strip():
            raise RuntimeError(f'the run under another locale failed: {r.stderr[-800:]}')
        n, t, fails = json.loads(r.stdout.strip().splitlines()[-1])
        ctx.states += n
        ctx.transitions += t
        ctx.traces += t
        ctx.nontrivial += n
        for f in fails:
            ctx.fail(f'under the POSIX locale: {f["kind"]}', f['msg'])
    else:
        for f, m in itertools.product(FORMATS, MODELS):
            d = os.path.join(core.SCRATCH, f'dir with.dots é{os.getpid()}')
            os.makedirs(d, exist_ok=True)
            for name in (f'a.{f}', f'A B.{f.upper()}', f'é.{f.capitalize()}', f'{f}.{f}'):
                trip(ctx, m, [f], os.path.join(d, name))
                trip(ctx, m, [f], pathlib.Path(d) / name)
                cwd = os.getcwd()
                os.chdir(d)
                try:
                    trip(ctx, m, [f], name)
                    trip(ctx, m, [f], pathlib.Path(name))
                    trip(ctx, m, [f], os.path.join('.', name))
                finally:
                    os.chdir(cwd)
