import itertools
import math

from lib import families as fam
from lib import hmms

import numpy as np

PROPERTY = 'C20'
RULE = ('estimation: every pair of sequences of states and symbols up to a length; fitting: every initial guess of the enumerated families with every sequence (or set of sequences) of symbols '
        'up to a length, all fitting types and several initial statuses; non-trivial: states never observed, failures to fit, sequences impossible under the guess')
ASSUMPTIONS = ['the maximum a posteriori and maximum likelihood fittings average the relative frequencies estimated from each sequence (hidden paths predicted with the current guess)',
               'convergence is documented by the code only: relative change of the log-likelihood and largest row changes per column below 1e-6, at most 500 iterations',
               'fits whose result depends on a perturbation of the guess by 1e-13 (ties, saddle points) or on a convergence test within 1e-9 of its threshold are only checked for validity and likelihood',
               'the known deviation of the maximum likelihood prediction (first emission counted twice) is accepted here too']

STATES = ['b', 'a', 'c 1'] + [f'{i}' for i in range(30, 3, -1)]
SYMBOLS = ['y2', 'y1', 'y 0'] + [f'Z{i}' for i in range(30, 3, -1)]


def jobs(tier, seed):
    quick = tier == 'quick'
    out = []
    for n, k, f in [(2, 2, 2), (2, 2, 3), (2, 2, 4), (2, 3, 3), (3, 2, 3), (3, 3, 2)] + ([] if quick else [(2, 2, 5), (2, 2, 6), (3, 2, 4), (3, 3, 3), (2, 3, 4), (3, 3, 4)]):
        m = 2 if quick else 16
        out += [('estimate', n, k, f, i, m) for i in range(m)]
    out += [('wide', i, 8) for i in range(8)]
    three = [N for N in fam.matrices(('sup', 3, 'd'))]
    e32 = [E for E in hmms.emissions(('sup', 3, 2, 'd'))]
    if quick:
        s = [(('sup', 2, 'd'), ('sup', 2, 2, 'd'), 24, 'short'), (('grid', 2, 3), ('grid', 2, 2, 4), 48, 'one'), (('sup', 2, 'd'), ('sup', 2, 3, 's'), 24, 'three'),
             (('list', three[5::29]), ('list', e32[3::3]), 32, 'one'), (('sup', 2, 'd'), ('sup', 2, 2, 's'), 24, 'many'), (('wide', [7], 'd', [3]), ('wide', 7, 11), 20, 'wide')]
    else:
        s = [(('sup', 2, 'd'), ('sup', 2, 2, 'd'), 96, 'long'), (('grid', 2, 4), ('grid', 2, 2, 5), 240, 'short'), (('sup', 2, 'd'), ('sup', 2, 3, 's'), 160, 'short'),
             (('list', three[5::7]), ('list', e32), 400, 'one'), (('sup', 2, 's'), ('sup', 2, 2, 'd'), 96, 'many'), (('list', three[5::29]), ('list', e32[3::3]), 160, 'many')] + [(('wide', [n], 'd', [0, 3]), ('wide', n, k), 40, 'wide') for n, k in ((7, 3), (7, 11), (11, 12), (12, 2))]
    for a, b, m, f in s:
        out += [('fit', a, b, i, m, f) for i in range(m)]
    return out


def cases(job):
    if job[0] == 'wide':         # longer sequences over more states and symbols
        every = [(n, k, f, c) for n in (2, 7, 11, 13) for k in (2, 9, 12) for f in (2, 11, 30, 101) for c in range(4)]
        for n, k, f, c in every[job[1]::job[2]]:
            yield {'n': n, 'k': k, 'a': [(t * t + c * t // 2) % n if c < 3 else t * 5 % n for t in range(f)], 'b': [(t * (c + 1) + t // 3) % k for t in range(f)]}
        return
    if job[0] == 'estimate':
        _, n, k, f, i, m = job
        for a in itertools.islice(itertools.product(range(n), repeat=f), i, None, m):
            for b in itertools.product(range(k), repeat=f):
                yield {'n': n, 'k': k, 'a': list(a), 'b': list(b)}
        return
    for c in hmms.case_iter(job[1:5]):
        c['F'] = job[5]
        yield c


def data(kind, k, idx):
    if kind == 'one':
        fs = [5]
        seqs = [list(s) for f in fs for s in itertools.product(range(k), repeat=f)]
        return [[s] for s in seqs[idx % 4::4]]
    if kind == 'three':
        return [[list(s)] for s in itertools.product(range(k), repeat=3)][idx % 2::2]
    if kind == 'short':
        return [[list(s)] for f in (2, 3, 4) for s in itertools.product(range(k), repeat=f)]
    if kind == 'long':
        return [[list(s)] for f in (2, 3, 4, 5, 6) for s in itertools.product(range(k), repeat=f)]
    if kind == 'wide':
        seqs = [[(t * t + t // 3 + idx) % k for t in range(12)], [t % k for t in range(30)], [(t * 3 + idx) % k for t in range(5)]]
        return [[seqs[idx % 2]], seqs]
    base = [[0, 1], [1, 0, 0], [1, 1, 0, 1], [0, 0, 0, 1, 1, 0], [1, 1], [0, 0]]
    out = [[a, b] for a in base for b in base]
    return out[idx % 3::3] + [[base[0], base[2], base[3]], [base[4], base[5], base[1], base[0]]]


def check(ctx, case):
    if 'a' in case:
        return check_estimate(ctx, case)
    import pydtmc
    N, E = case['N'], case['E']
    n, k = len(N), len(E[0])
    p, e = np.array(hmms.floats(N)), np.array(hmms.floats(E))
    ctx.states += 1
    idx = sum((i + 1) * v for i, row in enumerate(N + E) for v in row)
    w = [j + 1.0 for j in range(n)]
    statuses = [None, n - 1, STATES[0], [v / sum(w) for v in w]]
    for m, seqs in enumerate(data(case['F'], k, idx)):
        status = statuses[(m + idx) % 4]
        pi = np.full(n, 1.0 / n)
        if status is not None:
            pi = np.array([v / sum(w) for v in w]) if isinstance(status, list) else np.eye(n)[status if isinstance(status, int) else 0]
        arg = [list(s) for s in seqs] if m % 2 else [[SYMBOLS[v] for v in s] for s in seqs]
        if len(arg) == 1:
            arg = arg[0]
        for kind in ('baum-welch', 'map', 'viterbi'):
            verify(ctx, kind, n, k, p, e, arg, status, pi, seqs)


def fit(kind, n, k, p, e, arg, status):
    import pydtmc
    try:
        h = pydtmc.HiddenMarkovModel.fit(kind, STATES[:n], SYMBOLS[:k], p, e, arg, status)
    except ValueError as ex:
        return str(ex)
    return h


def verify(ctx, kind, n, k, p, e, arg, status, pi, seqs):
    name = f'{kind} {arg} {status}'
    got = fit(kind, n, k, p, e, arg, status)
    ctx.transitions += 1
    ok = not isinstance(got, str)
    if ok:
        ctx.expect(got.states == STATES[:n] and got.symbols == SYMBOLS[:k], 'labels of the fitted model', name)
        for m in (got.p, got.e):
            ctx.expect(bool((m >= 0).all() and (m <= 1 + 1e-12).all() and np.allclose(m.sum(axis=1), 1.0, 0, 1e-9)), 'fitted model invalid', lambda: f'{name}: {m}')
        if kind == 'baum-welch':
            a = sum(loglik(p, e, pi, s) for s in seqs)
            b = sum(loglik(got.p, got.e, pi, s) for s in seqs if loglik(p, e, pi, s) > -math.inf)
            a = sum(x for x in (loglik(p, e, pi, s) for s in seqs) if x > -math.inf)
            ctx.traces += 1
            ctx.expect(b >= a - 1e-8, 'likelihood decreased', lambda: f'{name}: {a} -> {b}')
    outcomes = []
    for bad in ((False,) if kind != 'viterbi' else (False, True)):
        ref = reference(kind, p, e, pi, seqs, bad)
        if ref is None:
            ctx.count('undecided')
            ctx.nontrivial += 1
            return
        outcomes.append(ref)
    ctx.nontrivial += isinstance(outcomes[0], str)
    ctx.traces += 1
    for j, ref in enumerate(outcomes):
        if isinstance(ref, str) or not ok:
            good = isinstance(ref, str) and not ok and ref in got
        else:
            good = np.allclose(got.p, ref[0], 0, 1e-8) and np.allclose(got.e, ref[1], 0, 1e-8)
        if good:
            if j:
                ctx.known('viterbi-first-emission', f'{name}: {p.tolist()} {e.tolist()}')
            return
    ctx.fail('fitted model', f'{name}: got {got if not ok else (got.p.tolist(), got.e.tolist())}, expected {[o if isinstance(o, str) else (o[0].tolist(), o[1].tolist()) for o in outcomes]}')


def loglik(p, e, pi, ys):
    v, out = pi, 0.0
    for y in ys:
        v = (v @ p) * e[:, y]
        s = v.sum()
        if s <= 0:
            return -math.inf
        out += math.log(s)
        v = v / s
    return out


# reference iterations -------------------------------------------------------

class Tie(Exception):
    pass


def reference(kind, p, e, pi, seqs, bad):
    """(p, e), an error message, or None when the outcome hinges on rounding."""
    try:
        a = iterate(kind, p, e, pi, seqs, bad)
        if kind == 'baum-welch':
            rng = np.array([[((i * 7 + j * 3) % 5 - 2) * 1e-13 for j in range(30)] for i in range(30)])
            q, f = p + rng[:len(p), :p.shape[1]] * (p > 0), e + rng[:len(e), :e.shape[1]] * (e > 0)
            b = iterate(kind, q / q.sum(axis=1, keepdims=True), f / f.sum(axis=1, keepdims=True), pi, seqs, bad)
            if isinstance(a, str) != isinstance(b, str):
                return None
            if not isinstance(a, str) and not (np.allclose(a[0], b[0], 0, 1e-9) and np.allclose(a[1], b[1], 0, 1e-9)):
                return None
        return a
    except Tie:
        return None


def expectation(p, e, pi, ys):
    n, f = len(p), len(ys)
    alpha = [pi]
    c = []
    for y in ys:
        v = (alpha[-1] @ p) * e[:, y]
        s = v.sum()
        if s < 1e-300:
            return None
        c.append(s)
        alpha.append(v / s)
    beta = [np.ones(n)]
    for t in reversed(range(f)):
        beta.insert(0, (p @ (e[:, ys[t]] * beta[0])) / c[t])
    P, E = np.zeros_like(p), np.zeros_like(e)
    for t, y in enumerate(ys):
        P += np.outer(alpha[t], beta[t + 1] * e[:, y]) * p / c[t]
        E[:, y] += alpha[t + 1] * beta[t + 1]
    return sum(math.log(x) for x in c), P, E, [alpha[t + 1] * beta[t + 1] for t in range(f)]


def relative(states, ys, n, k):
    P, E = np.zeros((n, n)), np.zeros((n, k))
    for a, b in zip(states[:-1], states[1:]):
        P[a, b] += 1
    for a, b in zip(states, ys):
        E[a, b] += 1
    return tuple(np.array([row / row.sum() if row.sum() else row for row in m]) for m in (P, E))


def viterbi(p, e, pi, ys, bad):
    with np.errstate(divide='ignore'):
        lp, le = np.log(p), np.log(e)
        cur = np.log(pi * e[:, ys[0]]) if bad else np.log(pi)
    if np.all(np.isneginf(cur)):
        return None
    back = []
    n = len(p)
    for t, y in enumerate(ys):
        cand = cur[:, None] + lp
        prev = []
        new = np.zeros(n)
        for j in range(n):
            i = first_max(cand[:, j])
            prev.append(i)
            new[j] = cand[i, j] + le[j, y]
        back.append(prev)
        cur = new
        if np.all(np.isneginf(cur)):
            return None
    s = first_max(cur, True)
    path = [s]
    for t in reversed(range(1, len(ys))):
        path.insert(0, back[t][path[0]])
    return cur[s], path


def first_max(v, last=False):
    m = v.max()
    if m == -math.inf:
        return 0
    near = [i for i in range(len(v)) if v[i] >= m - 1e-9]
    if len(near) > 1:
        # equal scores go to the first state; scores that differ less than the rounding are undecided
        if last or any(v[i] < m - 1e-12 for i in near) or len({round(v[i], 12) for i in near}) > 1:
            raise Tie
    return near[0]


def iterate(kind, p, e, pi, seqs, bad):
    n, k = e.shape
    ll = 1.0
    for _ in range(500):
        ll0, p0, e0 = ll, p, e
        ll = 0.0
        P, E = np.zeros((n, n)), np.zeros((n, k))
        for ys in seqs:
            if kind == 'viterbi':
                r = viterbi(p, e, pi, ys, bad)
                if r is None:
                    continue
                lp, a, b = r[0], *relative(r[1], ys, n, k)
            else:
                r = expectation(p, e, pi, ys)
                if r is None:
                    continue
                lp, a, b = r[0], r[1], r[2]
                if kind == 'map':
                    path = []
                    for q in r[3]:
                        near = [i for i in range(n) if q[i] >= q.max() - 1e-9]
                        if len(near) > 1:
                            raise Tie
                        path.append(near[0])
                    a, b = relative(path, ys, n, k)
            ll += lp
            P, E = P + a, E + b
        for m, what in ((P, 'transition'), (E, 'emission')):
            s = m.sum(axis=1)
            if (s == 0.0).any():
                return f'null {what} probabilities'
            if (s < 1e-280).any():
                raise Tie
        p, e = P / P.sum(axis=1, keepdims=True), E / E.sum(axis=1, keepdims=True)
        d = [abs(ll - ll0) / (1.0 + abs(ll0)), np.abs(p - p0).sum(axis=1).max() / n, np.abs(e - e0).sum(axis=1).max() / k]
        if max(d) < 1e-6 + 1e-10 and max(d) > 1e-6 - 1e-10:
            raise Tie
        if max(d) < 1e-6:
            return p, e
    return 'failed to converge'


def check_estimate(ctx, case):
    import pydtmc
    n, k, a, b = case['n'], case['k'], case['a'], case['b']
    st, sy = STATES[:n], SYMBOLS[:k]
    h = pydtmc.HiddenMarkovModel.estimate(st, sy, a if sum(a) % 2 else [st[i] for i in a], b if sum(b) % 2 else [sy[i] for i in b])
    ctx.states += 1
    ctx.transitions += 1
    P, E = [[0] * n for _ in range(n)], [[0] * k for _ in range(n)]
    for t in range(len(a)):
        E[a[t]][b[t]] += 1
        if t:
            P[a[t - 1]][a[t]] += 1
    ctx.nontrivial += any(not any(r) for r in P + E)
    P, E = ([[v / sum(r) if any(r) else 1.0 / len(r) for v in r] for r in m] for m in (P, E))
    ctx.close('estimated transitions', h.p, P, 1e-12, 1e-14)
    ctx.close('estimated emissions', h.e, E, 1e-12, 1e-14)
    ctx.same('labels of the estimated model', [h.states, h.symbols], [st, sy])
    for x, y in ((a + [0], b), (a, b + [0])):
        ctx.traces += 1
        try:
            pydtmc.HiddenMarkovModel.estimate(st, sy, x, y)
            ctx.fail('sequences of different lengths', f'{x} {y}')
        except ValueError:
            pass
