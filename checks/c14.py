import itertools

from lib import families as fam
from lib.ref import Ref

import numpy as np

PROPERTY = 'C14'
RULE = ('every chain of the enumerated families with every partition of its states into consecutive blocks, and every aggregation size and method; '
        'non-trivial: a chain lumpable over some partition, or an ergodic chain')
ASSUMPTIONS = ['partitions are sequences of blocks of consecutive states (the only ones that validation accepts)',
               'chains whose block probabilities differ by less than 1e-4 over a block without being equal are not judged',
               'the library compares block probabilities with tolerances 1e-5 and 1e-8; the listing of partitions uses exact floating-point equality']


def jobs(tier, seed):
    if tier == 'quick':
        lu = [(('grid', 3, 4), 16), (('sup', 3, 'd'), 2), (('grid', 4, 1), 2), (('can', 4, 'u', [0, 1]), 16), (('can', 4, 'y', [1]), 8), (('fun', 5), 8), (('two', 3, 'd'), 2)]
        ag = [(('grid', 3, 3), 8), (('sup', 3, 's'), 4), (('can', 4, 'u', [0]), 32), (('can', 4, 'd', [1]), 32), (('ring', [5], 'd'), 8), (('struct', 'd', [0]), 16)]
        bl = [2]
    else:
        lu = [(('grid', 3, 6), 64), (('sup', 3, 's'), 4), (('grid', 4, 2), 64), (('can', 4, 'u', [0, 1, 2, 3]), 32), (('can', 4, 'y', [0, 1, 2]), 32), (('can', 4, 'd', [1]), 16), (('two', 4, 'u'), 64),
              (('fun', 6), 64), (('struct', 'y', [0, 1]), 16)]
        ag = [(('grid', 3, 5), 64), (('sup', 3, 's'), 8), (('sup', 3, 't'), 8), (('can', 4, 'u', [0, 1, 2]), 64), (('can', 4, 'd', [0, 1, 2]), 64), (('can', 4, 's', [0, 1]), 64), (('ring', [5, 6, 7], 'd'), 64),
              (('struct', 'd', [0, 1]), 64), (('struct', 'u', [0, 1]), 64), (('grid', 4, 2), 128)]
        bl = [2, 3, 4]
    return [('lump',) + j for j in fam.make_jobs(lu, 1)] + [('agg',) + j for j in fam.make_jobs(ag, 1)] + [('blocks', d, i, 16) for d in bl for i in range(16)] + [('large', n) for n in (29, 30, 31)]


SHAPES = [(1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (1, 1, 2), (1, 2, 1), (2, 1, 1), (2, 3), (1, 2, 2), (3, 2)]


def lumpable_chains(d):
    """Chains made lumpable over a shape: a quotient with denominator d whose rows are spread over the blocks in every way with that denominator."""
    for shape in SHAPES:
        k, n = len(shape), sum(shape)
        quot = fam.grid(k, d) if k == 2 else fam.grid(k, 1)
        for qi, Q in enumerate(quot):
            for code in range(4):
                N = []
                for b in range(k):
                    for s in range(shape[b]):
                        row = []
                        for c in range(k):
                            m = Q[b][c] * 4
                            # spread m over shape[c] entries
                            first = (m * ((code + s + c) % 4)) // 4 if shape[c] > 1 else m
                            rest = m - first
                            ent = [first] + [0] * (shape[c] - 1)
                            if shape[c] > 1:
                                ent[1 + (s + qi) % (shape[c] - 1)] += rest
                            if code % 2:
                                ent = ent[::-1]
                            row += ent
                        N.append(row)
                yield N


def cases(job):
    if job[0] == 'blocks':
        for i, N in enumerate(itertools.islice(lumpable_chains(job[1]), job[2], None, job[3])):
            yield {'kind': 'lump', 'N': N, 'L': fam.MODES[i % 4]}
    elif job[0] == 'large':
        n = job[1]
        for m, k in fam.big([n]):
            yield {'kind': 'large', 'N': fam.weigh(m, 'd', k)}
    else:
        for c in fam.case_iter(job[1:]):
            if len(c['N']) > 2 or job[0] == 'lump':
                yield {'kind': job[0], **c}


def sequences(n):
    for cuts in itertools.product((0, 1), repeat=n - 1):
        part = [[0]]
        for i, c in enumerate(cuts):
            if c:
                part.append([i + 1])
            else:
                part[-1].append(i + 1)
        if 2 <= len(part) < n:
            yield part


def check(ctx, case):
    {'lump': lump, 'agg': aggregate, 'large': large}[case['kind']](ctx, case)


def lumped_labels(st, part):
    """Labels joined by a comma, the default ones if they are not distinct."""
    names = [','.join(st[i] for i in b) for b in part]
    return names if len(set(names)) == len(part) else [str(i + 1) for i in range(len(part))]


def colliding(part):
    """Distinct labels containing commas: the joined labels of the first two blocks of the same size above one collide, or nearly do."""
    n = sum(len(b) for b in part)
    big = [b for b in part if len(b) > 1]
    out = []
    if len(big) > 1:
        for last in ('c', 'd'):
            st = [f's{i}' for i in range(n)]
            a, b = big[:2]
            st[a[0]], st[a[1]] = 'a', 'b,c'
            st[b[0]], st[b[1]] = 'a,b', last
            out.append(st)
    elif big and len(part) > 1:
        b = big[0]
        st = [f's{i}' for i in range(n)]
        for i, v in zip(b, 'ab'):
            st[i] = v
        other = next(c for c in part if c is not b)
        st[other[0]] = ','.join(st[i] for i in b)
        out.append(st)
    return out


def lump(ctx, case):
    import pydtmc
    r = Ref(case['N'])
    n = len(r.P)
    st = fam.labels(case['L'], n)
    mc = pydtmc.MarkovChain(r.Pf(), st)
    pf = mc.p
    ctx.states += 1
    dyadic = all(v.denominator & (v.denominator - 1) == 0 for row in r.P for v in row)
    expected, near = [], []
    if n == 2:
        ctx.same('lumping partitions', mc.lumping_partitions, [])
        return
    for k, part in enumerate(sequences(n)):
        ctx.transitions += 1
        q = [[[sum(r.P[i][j] for j in c) for c in part] for i in b] for b in part]
        gap = max(abs(float(x - y)) for b in q for row in b for x, y in zip(row, b[0]))
        arg = [[st[i] for i in b] for b in part] if k % 2 else part
        exact = all(row == b[0] for b in q for row in b)
        if exact:
            ctx.nontrivial += 1
            expected.append(part)
            m = mc.lump(arg)
            ctx.close(f'lump {part}', m.p, [[float(x) for x in b[0]] for b in q], 1e-12, 1e-14)
            ctx.same(f'lump {part} states', m.states, lumped_labels(st, part))
            if k == 0 or len(part) == n - 1:
                for st2 in colliding(part):
                    ctx.same(f'lump {part} colliding states', pydtmc.MarkovChain(r.Pf(), st2).lump(arg if arg is part else [[st2[i] for i in b] for b in part]).states,
                             lumped_labels(st2, part))
        elif gap < 1e-4:
            near.append(part)
        else:
            try:
                m = mc.lump(arg)
            except ValueError as ex:
                ctx.traces += 1
                ctx.expect(type(ex) is ValueError and 'not lumpable' in str(ex), 'lump error', lambda: repr(ex))
            else:
                ctx.fail(f'lump {part}', f'{case["N"]} is not lumpable (gap {gap}) but the result is {m.p.tolist()}')
    got = mc.lumping_partitions
    ctx.traces += 1
    ok = isinstance(got, list) and all(isinstance(p, list) and all(isinstance(b, list) and all(type(v) is int for v in b) for b in p) for p in got)
    ctx.expect(ok, 'lumping partitions type', lambda: got)
    got = [[[int(v) for v in b] for b in p] for p in got]
    ctx.expect(all(got.count(p) == 1 for p in got), 'duplicate lumping partitions', lambda: got)
    extra = [p for p in got if p not in expected and p not in near]
    miss = [p for p in expected if p not in got]
    ctx.expect(not extra, 'spurious lumping partitions', lambda: f'{case["N"]}: {extra}')
    if miss:
        exact = [p for p in miss if dyadic and all(len(b) in (1, 2, 4) for b in p)]
        if exact:
            ctx.fail('missing lumping partitions', f'{case["N"]}: {exact}')
        else:
            ctx.known('lumping-partitions-rounding', f'{case["N"]}: {miss} are missing')
    ctx.expect(np.array_equal(mc.p, pf), 'chain modified')


_phis = {}


def partitions(n, s):
    if (n, s) not in _phis:
        out = []

        def rec(i, m, cur):
            if i == n:
                if m == s:
                    phi = np.zeros((n, s))
                    phi[range(n), cur] = 1.0
                    out.append(phi)
                return
            for b in range(min(m + 1, s)):
                rec(i + 1, max(m, b + 1), cur + [b])
        rec(0, 0, [])
        _phis[n, s] = out
    return _phis[n, s]


def induced(p, pi, phi):
    q = (phi.T * pi) @ p @ phi
    return q / (phi.T @ pi)[:, None]


def aggregate(ctx, case):
    import pydtmc
    r = Ref(case['N'])
    n = len(r.P)
    if n > 7:
        return
    mc = pydtmc.MarkovChain(r.Pf(), fam.labels(case['L'], n))
    pf = mc.p
    ctx.states += 1
    ergodic = len(r.classes) == 1 and all(v > 0 for row in r.power((n - 1)**2 + 1) for v in row) if n <= 5 else mc.is_ergodic
    if not ergodic:
        ctx.transitions += 1
        try:
            mc.aggregate(2)
        except ValueError as ex:
            ctx.traces += 1
            ctx.expect(type(ex) is ValueError, 'aggregate error', lambda: repr(ex))
        else:
            ctx.fail('aggregate', f'{case["N"]} is not ergodic')
        return
    ctx.nontrivial += 1
    pi = np.array([float(v) for v in r.pi()[0]])
    for s in range(2, n):
        cand = [(phi.T @ pi, induced(pf, pi, phi)) for phi in partitions(n, s)]
        for method in ('spectral-bottom-up', 'spectral-top-down', None):
            ctx.transitions += 1
            ctx.traces += 1
            c = mc.aggregate(s) if method is None else mc.aggregate(s, method)
            if not ctx.expect(c.size == s and len(set(c.states)) == s, f'aggregate {s} {method} size', lambda: c.p.tolist()):
                continue
            g = c.p
            if not ctx.expect(np.isfinite(g).all(), f'aggregate {s} {method}', lambda: f'{case["N"]}: {g.tolist()}'):
                continue
            dg = np.sort(np.diag(g))
            ok = False
            for w, q in cand:
                if abs(np.sort(np.diag(q)) - dg).max() > 1e-8:
                    continue
                for perm in itertools.permutations(range(s)):
                    if abs(q[np.ix_(perm, perm)] - g).max() < 1e-8:
                        ok = True
                        break
                if ok:
                    break
            ctx.expect(ok, f'aggregate {s} {method}', lambda: f'{case["N"]}: {g.tolist()} is induced by no partition')
    ctx.expect(np.array_equal(mc.p, pf), 'chain modified')


def large(ctx, case):
    """The automatic choice of the method around its thresholds."""
    import pydtmc
    mc = pydtmc.MarkovChain(Ref(case['N']).Pf())
    ctx.states += 1
    if not mc.is_ergodic:
        return
    ctx.nontrivial += 1
    pi = mc.pi[0]
    n = mc.size
    for s in (2, 9, n - 1):
        ctx.transitions += 3
        out = [mc.aggregate(s, m).p for m in ('adaptive', 'spectral-bottom-up', 'spectral-top-down')]
        for g in out:
            ctx.traces += 1
            ctx.expect(g.shape == (s, s) and np.isfinite(g).all() and (g >= 0).all() and np.allclose(g.sum(axis=1), 1.0), f'aggregate {s}', lambda: g.tolist())
            w = pydtmc.MarkovChain(g).pi
            if len(w) == 1 and s == n - 1 and n <= 30:
                # one pair of states is merged: the remaining stationary probabilities are unchanged
                v = sorted(w[0])
                ok = False
                for i in range(n):
                    for j in range(i):
                        u = sorted([pi[i] + pi[j]] + [pi[k] for k in range(n) if k not in (i, j)])
                        ok = ok or np.allclose(u, v, rtol=0, atol=1e-9)
                ctx.expect(ok, f'aggregate {s} stationary distribution', lambda: (v, pi.tolist()))
        ctx.expect(any(np.array_equal(out[0], g) for g in out[1:]), 'adaptive aggregation')
