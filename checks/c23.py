import itertools
import math
from fractions import Fraction as F

import numpy as np

PROPERTY = 'C23'
RULE = ('every sequence up to a length over 2 to 4 states (every pair or triple of short sequences for homogeneity), every number of blocks up to beyond the length, several significances, labels whose concatenations coincide, '
        'and sequences given as labels or as indices; non-trivial: the statistic is defined and has degrees of freedom')
ASSUMPTIONS = ['statistics: order test by contingency of past and future given the present with continuity correction for 2 states, Markov property by triples against pairs times transitions over the length truncated to a multiple of 3, '
               'likelihood ratio for homogeneity and compatibility, contingency of the transition frequencies per block for stationarity', 'without degrees of freedom the p-value is null', 'statistics compared within 1e-9, p-values within 1e-9']

LABELS = {2: [['A', 'B'], ['1', '11']], 3: [['A', 'B', 'C'], ['A', 'AA', 'AAA'], ['2', '1', '12']], 4: [['A', 'B', 'C', 'D']]}
SIGS = [0.05, 0.01, 0.2, 1e-6]


def jobs(tier, seed):
    quick = tier == 'quick'
    out = []
    for n, top in ((2, 9), (3, 6), (4, 5)) if quick else ((2, 13), (3, 8), (4, 7)):
        for f in range(2, top + 1):
            m = max(1, n ** f // (200 if quick else 400))
            out += [('seq', n, f, i, m) for i in range(m)]
    out += [('blocks', n, k, i, 8) for n, k in (((2, 12), (2, 15), (3, 11), (2, 28)) if quick else ((2, 12), (2, 15), (2, 21), (2, 28), (2, 29), (2, 30), (3, 11), (3, 23), (2, 49), (2, 50))) for i in range(8)]
    out += [('hom', n, f, k, i, 24) for n, f, k in (((2, 4, 2), (3, 3, 2), (2, 3, 3), (4, 2, 2), (4, 2, 3)) if quick else ((2, 5, 2), (3, 4, 2), (2, 3, 3), (2, 2, 4), (3, 2, 3), (4, 3, 2), (4, 2, 3))) for i in range(24)]
    out += [('compat', n, f, i, 24) for n, f in (((2, 7), (3, 5)) if quick else ((2, 10), (3, 7), (4, 5))) for i in range(24)]
    return out


def cases(job):
    if job[0] == 'seq':
        for s in itertools.islice(itertools.product(range(job[1]), repeat=job[2]), job[3], None, job[4]):
            yield {'k': 'seq', 'n': job[1], 's': list(s)}
    elif job[0] == 'blocks':
        # long sequences at the borders of the blocks: a single transition of another kind at every position
        n, k = job[1:3]
        every = [{'k': 'blocks', 'n': n, 's': [(i * i + (i > t)) % n for i in range(k)], 'b': b} for t in range(k) for b in range(1, k + 3)]
        every += [{'k': 'blocks', 'n': n, 's': [int(i == t) for i in range(k)], 'b': b} for t in range(k) for b in range(1, k + 3)]
        yield from itertools.islice(every, job[3], None, job[4])
    elif job[0] == 'hom':
        n, f, k = job[1:4]
        singles = [list(s) for g in range(2, f + 1) for s in itertools.product(range(n), repeat=g)]
        it = itertools.product(singles, repeat=k) if k < 3 else itertools.combinations_with_replacement(singles, k)
        for s in itertools.islice(it, job[4], None, job[5]):
            yield {'k': 'hom', 'n': n, 's': [list(x) for x in s]}
    else:
        n, f = job[1:3]
        models = MODELS[n]
        it = ((m, s) for m in range(len(models)) for s in itertools.product(range(n), repeat=f))
        it = itertools.chain(it, ((m, s) for m in range(len(models)) for g in range(2, min(f, 5)) for s in itertools.product(range(n), repeat=g)))
        for m, s in itertools.islice(it, job[3], None, job[4]):
            yield {'k': 'compat', 'n': n, 'm': m, 's': list(s)}


MODELS = {
    2: [[[0.5, 0.5], [0.25, 0.75]], [[0.0, 1.0], [0.125, 0.875]], [[1.0, 0.0], [0.5, 0.5]], [[1e-9, 1 - 1e-9], [0.75, 0.25]], [[0.3, 0.7], [0.1, 0.9]], [[0.0, 1.0], [1.0, 0.0]]],
    3: [[[0.5, 0.25, 0.25], [0.125, 0.5, 0.375], [0.25, 0.375, 0.375]], [[0.0, 1.0, 0.0], [0.5, 0.0, 0.5], [0.25, 0.25, 0.5]], [[0.2, 0.3, 0.5], [0.0, 0.0, 1.0], [0.6, 0.4, 0.0]], [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]]],
    4: [[[0.25, 0.25, 0.25, 0.25], [0.5, 0.0, 0.25, 0.25], [0.125, 0.375, 0.0, 0.5], [0.0, 0.5, 0.5, 0.0]]],
}


def upper_tail(x, dof):
    """P(X > x), X chi-square with an integer number of degrees of freedom."""
    if x <= 0:
        return 1.0
    if x == math.inf:
        return 0.0
    h = x / 2.0
    if dof % 2 == 0:
        return math.fsum(math.exp(-h + k * math.log(h) - math.lgamma(k + 1)) for k in range(dof // 2))
    return math.erfc(math.sqrt(h)) + math.fsum(math.exp(-h + (k + 0.5) * math.log(h) - math.lgamma(k + 1.5)) for k in range((dof - 1) // 2))


def contingency(t):
    """Exact chi-square statistic of a table of fractions, None when a margin is null."""
    rows, cols = [sum(r) for r in t], [sum(r[j] for r in t) for j in range(len(t[0]))]
    total = sum(rows)
    if not total or not all(rows) or not all(cols):
        return None
    dof = (len(rows) - 1) * (len(cols) - 1)
    if dof == 0:
        return F(0)
    chi = F(0)
    for i, r in enumerate(t):
        for j, o in enumerate(r):
            e = rows[i] * cols[j] / total
            d = abs(e - o)
            if dof == 1:
                d -= min(F(1, 2), d)
            chi += d * d / e
    return chi


def first_order(n, s):
    chi = F(0)
    for j in range(n):
        t = [[F(0)] * n for _ in range(n)]
        for a, b, c in zip(s, s[1:], s[2:]):
            if b == j:
                t[a][c] += 1
        x = contingency(t)
        if x is None:
            return None
        chi += x
    return chi, n * (n - 1) ** 2


def markov(n, s):
    f = [[F(0)] * n for _ in range(n)]
    for a, b in zip(s, s[1:]):
        f[a][b] += 1
    sample = s[:len(s) - len(s) % 3]
    triples, pairs = {}, {}
    for a, b, c in zip(sample, sample[1:], sample[2:]):
        triples[a, b, c] = triples.get((a, b, c), 0) + 1
        pairs[a, b] = pairs.get((a, b), 0) + 1
    chi = F(0)
    for (a, b, c), k in triples.items():
        e = pairs[a, b] * f[b][c] / sum(f[b])
        chi += (k - e) ** 2 / e
    dof = len(set(zip(s, s[1:], s[2:]))) - len(set(zip(s, s[1:]))) + len(set(s)) - 1
    return None if dof < 0 else (chi, dof)


def stationarity(n, s, blocks):
    k = len(s)
    chi = F(0)
    for i in range(n):
        t = [[F(0)] * n for _ in range(blocks)]
        for x in range(1, k):
            if s[x - 1] == i:
                t[-(-x * blocks // k) - 1][s[x]] += 1
        t = [[v / sum(r) for v in r] if sum(r) else [F(1, n)] * n for r in t]
        if blocks == 1:
            c = sum((v - F(1, n)) ** 2 * n for v in t[0])
        else:
            c = contingency(t)
            if c is None:
                return None
        chi += c
    return chi, n * (n - 1) * (blocks - 1)


def homogeneity(n, seqs):
    if not any(set(a) & set(b) for a, b in itertools.combinations(seqs, 2)):
        return None
    fs = [{} for _ in seqs]
    pooled = {}
    for f, s in zip(fs, seqs):
        for t in zip(s, s[1:]):
            f[t] = f.get(t, 0) + 1
            pooled[t] = pooled.get(t, 0) + 1
    total = sum(pooled.values())
    chi = math.fsum(v * math.log(F(total * v, sum(f.values()) * pooled[t])) for f in fs for t, v in f.items())
    return 2.0 * chi, n * (n - 1) * (len(seqs) - 1)


def compatibility(p, s, columns=False):
    """The statistic, or 'incompatible'."""
    n = len(p)
    f = [[0] * n for _ in range(n)]
    for a, b in zip(s, s[1:]):
        f[a][b] += 1
    if any(f[i][j] and p[i][j] == 0.0 for i in range(n) for j in range(n)):
        return 'incompatible'
    chi = 0.0
    for i in range(n):
        tot = sum(f[k][i] for k in range(n)) if columns else sum(f[i])
        for j in range(n):
            if f[i][j]:
                chi += f[i][j] * math.log(f[i][j] / (tot * p[i][j])) if tot else math.inf
    dof = sum(v > 0.0 for r in p for v in r) - n
    return (2.0 * chi, dof) if dof else None


def judge(res, exp, sig):
    """None, or what is wrong."""
    if not (isinstance(res, tuple) and len(res) == 3 and isinstance(res[2], dict) and sorted(res[2]) == ['chi2', 'dof']):
        return f'shape of the result {res!r}'
    rej, p, st = res
    if exp is None:
        return None if rej is None and p != p and st['chi2'] != st['chi2'] and st['dof'] != st['dof'] else f'{res!r} although not computable'
    if exp == 'incompatible':
        return None if rej is True and p == 0.0 and st['chi2'] != st['chi2'] and st['dof'] != st['dof'] else f'{res!r} although incompatible'
    chi, dof = float(exp[0]), exp[1]
    ep = upper_tail(chi, dof) if dof > 0 else 0.0
    if rej is None:
        return f'not computed instead of {chi}, {dof}'
    if not (st['chi2'] == chi or abs(st['chi2'] - chi) <= 1e-9 * max(1.0, abs(chi))):
        return f'statistic {st["chi2"]!r} instead of {chi!r}'
    if st['dof'] != dof:
        return f'degrees of freedom {st["dof"]!r} instead of {dof!r}'
    if not abs(p - ep) <= 1e-9:
        return f'p-value {p!r} instead of {ep!r}'
    if abs(ep - sig) > 1e-8 and bool(rej) != (ep < sig) or not isinstance(rej, (bool, np.bool_)):
        return f'rejection {rej!r} with p-value {p!r} and significance {sig}'
    return None


def call(ctx, what, f, exp, sig):
    ctx.transitions += 1
    ctx.traces += 1
    try:
        res = f()
    except Exception as ex:
        ctx.fail(f'{what}: error', f'{type(ex).__name__}: {ex}')
        return None
    w = judge(res, exp, sig)
    if w:
        ctx.fail(what, w)
    elif exp not in (None, 'incompatible') and exp[1] > 0:
        ctx.nontrivial += 1
    return res


def check(ctx, case):
    import pydtmc as d
    k, n, s = case['k'], case['n'], case['s']
    ctx.states += 1
    all_labels = LABELS[n]
    lab = all_labels[sum(s) % len(all_labels)] if k != 'hom' else all_labels[sum(map(sum, s)) % len(all_labels)]
    names = [lab[x] for x in s] if k != 'hom' else [[lab[x] for x in t] for t in s]
    h = sum((i + 1) * x for i, x in enumerate(s)) if k != 'hom' else len(s[0]) + sum(s[-1])
    sig = SIGS[h % len(SIGS)]
    if k == 'seq':
        e = first_order(n, s)
        call(ctx, 'first order', lambda: d.assess_first_order(list(lab), list(s), sig), e, sig)
        call(ctx, 'first order, labels', lambda: d.assess_first_order(list(lab), list(names)), e, 0.05)
        e = markov(n, s)
        for lb in all_labels:
            call(ctx, 'Markov property', lambda: d.assess_markov_property(list(lb), list(s), sig), e, sig)
        call(ctx, 'Markov property, labels', lambda: d.assess_markov_property(list(lab), list(names)), e, 0.05)
        for b in (1, 2, 3, len(s), len(s) + 1):
            call(ctx, f'stationarity over {b} blocks', lambda: d.assess_stationarity(list(lab), list(s), b, sig), stationarity(n, s, b), sig)
        e = stationarity(n, s, 1)
        call(ctx, 'stationarity, labels', lambda: d.assess_stationarity(list(lab), list(names)), e, 0.05)
    elif k == 'blocks':
        e = stationarity(n, s, case['b'])
        call(ctx, f'stationarity over {case["b"]} blocks', lambda: d.assess_stationarity(list(lab), list(s), case['b'], sig), e, sig)
    elif k == 'hom':
        e = homogeneity(n, s)
        call(ctx, 'homogeneity', lambda: d.assess_homogeneity(list(lab), [list(t) for t in s], sig), e, sig)
        mixed = [list(t) if i % 2 else list(u) for i, (t, u) in enumerate(zip(s, names))]
        call(ctx, 'homogeneity, labels', lambda: d.assess_homogeneity(list(lab), mixed), e, 0.05)
    else:
        p = MODELS[n][case['m']]
        mc = d.MarkovChain(np.array(p), list(lab))
        e, wrong = compatibility(p, s), compatibility(p, s, True)
        for arg, sg in ((s, sig), (names, 0.05)):
            ctx.transitions += 1
            ctx.traces += 1
            try:
                res = d.assess_theoretical_compatibility(mc, list(arg), sg)
            except Exception as ex:
                ctx.fail('compatibility: error', f'{type(ex).__name__}: {ex}')
                continue
            w = judge(res, e, sg)
            if w is None:
                ctx.nontrivial += e != 'incompatible'
            elif judge(res, wrong, sg) is None:
                ctx.known('compatibility-column-sums', f'chain {p}, sequence {s}: {w}')
            else:
                ctx.fail('compatibility', w)
