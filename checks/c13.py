import itertools
from fractions import Fraction as F

from lib import families as fam
from lib import qp
from lib.ref import Ref

import numpy as np

PROPERTY = 'C13'
RULE = ('every chain of the enumerated families, every subset of states, the enumerated weights, orders, boundary conditions, pairs of chains and '
        'distributions; non-trivial: a chain with transient states, a subset that is not closed or an irreversible chain')
ASSUMPTIONS = ['closest_reversible uses an iterative solver whose accuracy is pinned by the fixtures of the repository: the squared distance may exceed the exact optimum by 1e-3',
               'closest_reversible may refuse with its documented ValueError when the exact optimum is not uniquely ergodic (several recurrent classes) or nearly so',
               'a subchain on a single closed state is refused (a chain has at least two states)']

LAZY = [0.0, 1.0, 0.5, 0.25, 0.9, 1e-9]
GAMMAS = [0.5, 0.25, 0.9, 1e-9]
BOUNDS = [0.0, 0.25, 0.5, 0.9, 1.0, 'absorbing', 'reflecting']
DISTS = {
    2: [None, [F(1, 4), F(3, 4)], [F(0), F(1)], [F(1), F(0)], [F(1, 1000), F(999, 1000)]],
    3: [None, [F(1, 2), F(1, 4), F(1, 4)], [F(1, 10), F(1, 5), F(7, 10)], [F(0), F(1, 2), F(1, 2)], [F(0), F(1, 4), F(3, 4)], [F(0), F(0), F(1)],
        [F(1, 2), F(1, 2), F(0)], [F(1, 4), F(0), F(3, 4)], [F(1), F(0), F(0)], [F(0), F(1), F(0)],
        [F(1, 1000), F(499, 1000), F(1, 2)]],
    4: [None, [F(1, 8), F(3, 8), F(3, 8), F(1, 8)], [F(1, 4), F(1, 4), F(1, 2), F(0)], [F(1, 2), F(0), F(1, 2), F(0)]],
}


def jobs(tier, seed):
    if tier == 'quick':
        s = [(('sup', 2, 'd'), 1), (('sup', 2, 't'), 1), (('sup', 3, 't'), 16), (('ring', [5], 't'), 4), (('wide', [11], 'd', [0, 3]), 10), (('grid', 2, 4), 1), (('sup', 3, 'd'), 16), (('can', 4, 'd', [1]), 24), (('fun', 4), 4), (('struct', 'd', [1]), 12)]
        q = [(('grid', 2, 4), 2), (('sup', 3, 'd'), 32)]
        m = [(('grid', 2, 2), 1), (('grid', 3, 1), 4)]
    else:
        s = [(('grid', 2, 6), 1), (('grid', 3, 3), 24), (('sup', 3, 's'), 8), (('can', 4, 'd', [0, 1, 2]), 64), (('sup', 4, 'd'), 200), (('fun', 5), 8), (('struct', 'd', [0, 1, 2]), 48)]
        q = [(('grid', 2, 6), 4), (('sup', 3, 'd'), 32), (('sup', 3, 'u'), 32), (('grid', 3, 3), 64), (('fun', 4), 64)]
        m = [(('grid', 2, 4), 4), (('grid', 3, 1), 4), (('sup', 3, 'd'), 64)]
    return [('t',) + j for j in fam.make_jobs(s, 1)] + [('q',) + j for j in fam.make_jobs(q, 1)] + [('m',) + j for j in fam.make_jobs(m, 1)]


def cases(job):
    if job[0] == 'm':
        spec, i, k = job[1:]
        every = list(fam.matrices(spec))
        for a in every[i::k]:
            for b in every:
                yield {'kind': 'm', 'N': a, 'M': b}
        return
    for c in fam.case_iter(job[1:]):
        yield {'kind': job[0], **c}


def chain_of(ctx, kind, mc, p, states, exact=False):
    if exact:
        ok = np.array_equal(mc.p, p)
        ctx.traces += 1
        ctx.expect(ok, kind, lambda: f'got {mc.p.tolist()}, expected {np.asarray(p).tolist()}')
    else:
        ctx.close(kind, mc.p, p, 1e-12, 1e-15)
    ctx.same(kind + ' states', mc.states, states)
    ctx.expect((mc.p >= 0).all() and np.allclose(mc.p.sum(axis=1), 1.0, rtol=0, atol=1e-12), kind + ' validity', lambda: mc.p.tolist())


def check(ctx, case):
    if case['kind'] == 'm':
        merge(ctx, case)
    elif case['kind'] == 'q':
        reversible(ctx, case)
    else:
        transform(ctx, case)


def merge(ctx, case):
    import pydtmc
    a, b = Ref(case['N']), Ref(case['M'])
    n = len(a.P)
    ma, mb = pydtmc.MarkovChain(a.Pf(), [f'z{i}' for i in range(n)]), pydtmc.MarkovChain(b.Pf())
    ctx.states += 1
    ctx.nontrivial += case['N'] != case['M']
    for g in GAMMAS:
        ctx.transitions += 1
        r = ma.merge_with(mb, g)
        chain_of(ctx, f'merge {g}', r, [[(1.0 - g) * float(x) + g * float(y) for x, y in zip(u, v)] for u, v in zip(a.P, b.P)], [f'M{i + 1}' for i in range(n)])


def transform(ctx, case):
    import pydtmc
    r = Ref(case['N'])
    n = len(r.P)
    st = fam.labels(case['L'], n)
    pf = r.Pf()
    mc = pydtmc.MarkovChain(pf, st)
    pf = mc.p
    ctx.states += 1
    ctx.nontrivial += bool(r.transient)

    order = list(r.transient) + list(r.recurrent) if r.transient else list(range(n))
    c = mc.to_canonical_form()
    ctx.transitions += 1
    chain_of(ctx, 'canonical form', c, pf[np.ix_(order, order)], [st[i] for i in order])

    sizes = range(1, n) if n <= 4 else (1, 2)
    for size in sizes:
        for sub in itertools.combinations(range(n), size):
            if size > 1 and sum(sub) % 2:
                sub = sub[::-1]
            closed = sorted({j for i in sub for j in range(n) if r.reach[i] >> j & 1} | set(sub))
            ctx.nontrivial += len(closed) > size
            ctx.transitions += 1
            arg = [st[i] for i in sub] if sum(sub) % 3 else list(sub)
            if len(closed) == 1:
                try:
                    s = mc.to_subchain(arg)
                except ValueError:
                    ctx.traces += 1
                else:
                    ctx.fail('subchain of a closed state', f'{s.p.tolist()}')
                continue
            s = mc.to_subchain(arg)
            chain_of(ctx, f'subchain {sub}', s, pf[np.ix_(closed, closed)], [st[i] for i in closed])

    eye = np.eye(n)
    weights = [(w, np.full(n, w)) for w in LAZY] + [(w, w) for w in ([(i + 1) / (n + 1) for i in range(n)], [float(i % 2) for i in range(n)], [1.0] + [0.0] * (n - 1))]
    for w, v in weights:
        v = np.array(v)
        ctx.transitions += 1
        chain_of(ctx, f'lazy chain {w}', mc.to_lazy_chain(w), np.array([[(1.0 - v[i]) * pf[i, j] + v[i] * eye[i, j] for j in range(n)] for i in range(n)]), st)
    chain_of(ctx, 'lazy chain by default', mc.to_lazy_chain(), (pf + eye) / 2.0, st)

    for k in (2, 3, 4, 5, 10):
        ctx.transitions += 1
        e = np.array([[float(v) for v in row] for row in r.power(k)])
        m = mc.to_nth_order(k)
        ctx.close(f'order {k}', m.p, e, 1e-10, 1e-14)
        ctx.same(f'order {k} states', m.states, st)
        ctx.expect(bool(((m.p > 0) == (e > 0)).all()) if float(min([v for row in r.P for v in row if v])) > 1e-3 else True, f'order {k} support', lambda: m.p.tolist())
    ctx.close('order by default', mc.to_nth_order().p, [[float(v) for v in row] for row in r.power(2)], 1e-10, 1e-14)

    for b in BOUNDS:
        ctx.transitions += 1
        e = pf.copy()
        e[0], e[-1] = 0.0, 0.0
        if b == 'absorbing':
            e[0, 0] = e[-1, -1] = 1.0
        elif b == 'reflecting':
            e[0, 1] = e[-1, -2] = 1.0
        else:
            e[0, 0], e[0, 1] = 1.0 - b, b
            e[-1, -1], e[-1, -2] = b, 1.0 - b
        chain_of(ctx, f'bounded chain {b}', mc.to_bounded_chain(b), e, st)
    ctx.expect(np.array_equal(mc.p, pf) and mc.states == st, 'original unchanged')


def is_reversible(r):
    rec = r.recurrent_classes
    if len(rec) != 1:
        return False
    pi = r.pi()[0]
    return all(pi[i] * r.P[i][j] == pi[j] * r.P[j][i] for i in range(len(r.P)) for j in range(i))


def reversible(ctx, case):
    import pydtmc
    r = Ref(case['N'])
    n = len(r.P)
    st = fam.labels(case['L'], n)
    mc = pydtmc.MarkovChain(r.Pf(), st)
    pf = mc.p
    ctx.states += 1
    rev = is_reversible(r)
    ctx.nontrivial += not rev
    for d in DISTS[n]:
        dd = d or [F(1, n)] * n
        for weighted in (False, True):
            if weighted and 0 in dd:
                continue
            arg = None if d is None else [float(x) for x in d]
            key = f'closest-reversible {case["N"]} {"uniform" if d is None else [str(x) for x in d]}{" weighted" if weighted else ""}'
            ctx.transitions += 1
            if rev:
                c = mc.closest_reversible(arg, weighted)
                chain_of(ctx, 'closest reversible of a reversible chain', c, pf, st)
                continue
            U, dist = qp.closest_reversible(r.P, dd, weighted)
            u = Ref(scale(U))
            try:
                c = mc.closest_reversible(arg, weighted)
            except ValueError as ex:
                ctx.traces += 1
                ctx.expect(type(ex) is ValueError and 'closest reversible' in str(ex), 'closest reversible error', lambda: repr(ex))
                if len(u.recurrent_classes) == 1 and min(v for row in U for v in row if v) > F(1, 500):
                    ctx.fail(key, f'{case["N"]} {arg} {weighted}: refused although {[[float(v) for v in row] for row in U]} is the optimum')
                continue
            p = c.p
            ctx.same('closest reversible states', c.states, st)
            ctx.expect((p >= 0).all() and np.allclose(p.sum(axis=1), 1.0, rtol=0, atol=1e-12), 'closest reversible validity', lambda: p.tolist())
            df = np.array([float(x) for x in dd])
            bal = df[:, None] * p
            ctx.close('closest reversible detailed balance', bal, bal.T, 0, 1e-10)
            ctx.expect(c.is_reversible, 'closest reversible is not reversible', lambda: p.tolist())
            w = df[:, None] / df[None, :] if weighted else np.ones((n, n))
            got = float((w * (p - pf)**2).sum())
            ctx.traces += 1
            if got > float(dist) + 1e-3:
                ctx.fail(key, f'{case["N"]} {arg} {weighted}: squared distance {got}, the optimum is {float(dist)}')
            ctx.expect(got > float(dist) - 1e-9, 'oracle is not optimal', lambda: (got, float(dist)))


def scale(U):
    den = 1
    for row in U:
        for v in row:
            den = den * v.denominator // __import__('math').gcd(den, v.denominator)
    return [[int(v * den) for v in row] for row in U]
