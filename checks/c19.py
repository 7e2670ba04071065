import itertools
import math

from lib import families as fam
from lib import hmms

import numpy as np

PROPERTY = 'C19'
RULE = ('every hidden Markov model of the enumerated families, every sequence of symbols up to a length and several initial statuses (also long sequences of several models); '
        'the reference enumerates every hidden path with integer weights; non-trivial: impossible sequences, null probabilities, ties of the posterior')
ASSUMPTIONS = ['the initial status is the distribution of the state before the first step, each symbol is emitted by the state reached with a step (convention of decode and of its tests)',
               'probabilities are compared within 1e-9 relative; states whose posterior or score is within 1e-9 of the best are accepted as maximisers']

KNOWN = 'viterbi-first-emission'


def jobs(tier, seed):
    three = [N for N in fam.matrices(('sup', 3, 'd'))]
    e32 = [E for E in hmms.emissions(('sup', 3, 2, 'd'))]
    e33 = [E for E in hmms.emissions(('sup', 3, 3, 's'))]
    if tier == 'quick':
        s = [(('sup', 2, 'd'), ('sup', 2, 2, 'd'), 8, [2, 3, 4]), (('sup', 2, 'u'), ('sup', 2, 3, 's'), 16, [2, 3]), (('grid', 2, 3), ('grid', 2, 2, 4), 16, [3]),
             (('list', three[::9]), ('list', e32), 48, [3]), (('list', three[4::23]), ('list', e33[::5]), 48, [2]), (('sup', 2, 'd'), ('sup', 2, 2, 's'), 8, 'long'), (('wide', [11], 'd', [3]), ('wide', 11, 7), 20, 'wide'), (('wide', [7], 'd', [3]), ('wide', 7, 12), 20, 'wide')]
    else:
        s = [(('sup', 2, 'd'), ('sup', 2, 2, 'd'), 16, [2, 3, 4, 5, 6]), (('sup', 2, 'u'), ('sup', 2, 3, 's'), 64, [2, 3, 4]), (('grid', 2, 4), ('grid', 2, 2, 6), 96, [2, 3, 4]),
             (('list', three), ('list', e32), 400, [3]), (('list', three[::7]), ('list', e33), 400, [3]), (('list', three[::11]), ('list', e32), 96, [4]),
             (('list', [N for N in fam.matrices(('fun', 4))][::3]), ('list', [E for E in hmms.emissions(('sup', 4, 2, 'd'))][::5]), 96, [3]),
             (('sup', 2, 'd'), ('sup', 2, 2, 's'), 16, 'long'), (('list', three[::17]), ('list', e33[::23]), 64, 'long')] + [(('wide', [n], 'd', [0, 3]), ('wide', n, k), 40, 'wide') for n in (7, 10, 11, 13) for k in (2, 7, 12)]
    return [(a, b, i, k, f) for a, b, k, f in s for i in range(k)]


def cases(job):
    for c in hmms.case_iter(job[:4]):
        c['F'] = job[4]
        yield c


def common(M):
    d = math.lcm(*[sum(r) for r in M])
    return [[v * (d // sum(r)) for v in r] for r in M], d


def enumerate_paths(W, V, pi, ys):
    """All sums over hidden paths s_0..s_f: forward and backward weights, posterior weights."""
    n, f = len(W), len(ys)
    fwd = [[0] * (f + 1) for _ in range(n)]
    bwd = [[None] * (f + 1) for _ in range(n)]
    post = [[0] * (f + 1) for _ in range(n)]

    def visit(t, s, w):
        fwd[s][t] += w
        if t == f:
            bwd[s][t] = 1
            post[s][t] += w
            return 1, w
        sub, tot = 0, 0
        for j in range(n):
            c = W[s][j] * V[j][ys[t]]
            if c == 0:
                continue
            b, x = visit(t + 1, j, w * c)
            sub += c * b
            tot += x
        bwd[s][t] = sub
        post[s][t] += tot
        return sub, tot

    for s in range(n):
        visit(0, s, pi[s])
    # states that no path of positive weight reaches: their suffix sums
    for t in reversed(range(f + 1)):
        for s in range(n):
            if bwd[s][t] is None:
                bwd[s][t] = 1 if t == f else sum(W[s][j] * V[j][ys[t]] * bwd[j][t + 1] for j in range(n))
    return fwd, bwd, post


def recursion(W, V, pi, ys):
    """Same sums by recursion, for long sequences."""
    n, f = len(W), len(ys)
    fwd = [[0] * (f + 1) for _ in range(n)]
    bwd = [[1] * (f + 1) for _ in range(n)]
    for s in range(n):
        fwd[s][0] = pi[s]
    for t in range(1, f + 1):
        for j in range(n):
            fwd[j][t] = sum(fwd[s][t - 1] * W[s][j] for s in range(n)) * V[j][ys[t - 1]]
    for t in reversed(range(f)):
        for s in range(n):
            bwd[s][t] = sum(W[s][j] * V[j][ys[t]] * bwd[j][t + 1] for j in range(n))
    post = [[fwd[s][t] * bwd[s][t] for t in range(f + 1)] for s in range(n)]
    return fwd, bwd, post


def best(W, V, pi, ys):
    """Highest weight of a path s_0..s_f and the function weighing a path s_1..s_f (best s_0)."""
    n = len(W)
    cur = list(pi)
    for y in ys:
        cur = [max(cur[s] * W[s][j] for s in range(n)) * V[j][y] for j in range(n)]

    def weigh(path):
        w = max(pi[s] * W[s][path[0]] for s in range(n)) * V[path[0]][ys[0]]
        for a, b, y in zip(path[:-1], path[1:], ys[1:]):
            w *= W[a][b] * V[b][y]
        return w

    return max(cur), weigh


def logint(a):
    if a == 0:
        return -math.inf
    s = max(a.bit_length() - 200, 0)
    return math.log(a >> s) + s * math.log(2.0)


def ratio(a, b):
    """a / b as a float for integers of any size."""
    if a == 0:
        return 0.0
    try:
        return a / b
    except OverflowError:
        return math.exp(logint(a) - logint(b))


def check(ctx, case):
    import pydtmc
    N, E = case['N'], case['E']
    n, k = len(N), len(E[0])
    st, sy = hmms.labels(case['L'], n, k)
    hmm = pydtmc.HiddenMarkovModel(np.array(hmms.floats(N)), np.array(hmms.floats(E)), st, sy)
    ctx.states += 1
    W, dw = common(N)
    V, dv = common(E)
    statuses = [(None, [1] * n, n)]
    for i in range(n):
        statuses.append((st[i] if i % 2 else i, [int(j == i) for j in range(n)], 1))
    w = [j + 1 for j in range(n)]
    w[0] = 0
    statuses.append(([v / sum(w) for v in w], w, sum(w)))
    w = [2 * n - j for j in range(n)]
    statuses.append((np.array([v / sum(w) for v in w]), w, sum(w)))
    if case['F'] in ('long', 'wide'):
        m = 0
        for f in (40, 65, 130) if case['F'] == 'long' else (2, 5, 12, 33):
            for kind in range(4):
                ys = [[(i * i + i // 3) % k, i % k, 0, (i // 7) % k][kind] for i in range(f)]
                verify(ctx, hmm, st, sy, W, V, dw, dv, statuses[m % len(statuses)], ys, True, m)
                m += 1
        return
    m = 0
    for f in case['F']:
        for ys in itertools.product(range(k), repeat=f):
            sel = statuses if f <= 2 or n == 2 and f <= 3 else [statuses[0], statuses[1 + m % (len(statuses) - 1)]]
            for s in sel:
                verify(ctx, hmm, st, sy, W, V, dw, dv, s, list(ys), False, m)
                m += 1


def verify(ctx, hmm, st, sy, W, V, dw, dv, status, ys, long, m):
    n, f = len(W), len(ys)
    init, pi, dpi = status
    d = dw * dv
    fwd, bwd, post = (recursion if long else enumerate_paths)(W, V, pi, ys)
    cols = [sum(fwd[s][t] for s in range(n)) for t in range(f + 1)]
    total = cols[f]
    arg = [sy[y] for y in ys] if m % 2 else list(ys)
    copy = list(arg)
    icopy = None if init is None else (init.copy() if isinstance(init, np.ndarray) else init)
    names = (f'{arg if f < 10 else len(arg)}, {init}')
    scaled = hmm.decode(arg, init)
    raw = hmm.decode(arg, init, False)
    pm = hmm.predict('map', arg, init, True)
    pv = hmm.predict('viterbi', arg, init, True)
    labelled = hmm.predict('map', arg, init), hmm.predict('mle', arg, init)
    ctx.transitions += 6
    ctx.expect(arg == copy and (init is None or np.array_equal(init, icopy)), 'arguments modified', names)
    for a, b in ((pm, labelled[0]), (pv, labelled[1])):
        ctx.same('labels of the prediction', b if b is None else [b[0], b[1]], a if a is None else [a[0], [st[i] for i in a[1]]])
    if total == 0:
        ctx.nontrivial += 1
        ctx.same('impossible sequence', [scaled, raw, pm, pv], [None] * 4)
        return
    if scaled is None or raw is None or pm is None:
        ctx.fail('possible sequence', f'{names}: {scaled is None} {raw is None} {pm is None}')
        return
    lp = logint(total) - f * math.log(d) - math.log(dpi)
    ctx.close(f'log probability', [scaled[0], raw[0], pm[0]], [lp] * 3, 1e-9, 1e-9)
    ctx.nontrivial += any(not any(p) for p in post)
    po = [[ratio(post[s][t], total) for t in range(1, f + 1)] for s in range(n)]
    ctx.close('posterior', scaled[1], po, 1e-9, 1e-12)
    ctx.close('posterior without scaling', raw[1], po, 1e-9, 1e-12)
    ctx.close('forward', scaled[3], [[ratio(fwd[s][t], cols[t]) for t in range(f + 1)] for s in range(n)], 1e-9, 1e-12)
    # P(y_{t+1..f} | s_t) divided by P(y_{t+1..f} | y_{1..t})
    ctx.close('backward', scaled[2], [[ratio(bwd[s][t] * cols[t], total) for t in range(f + 1)] for s in range(n)], 1e-9, 1e-12)
    ctx.close('scaling factors', scaled[4], [1.0] + [ratio(cols[t], cols[t - 1] * d) for t in range(1, f + 1)], 1e-9, 1e-12)
    ctx.expect(raw[4] is None, 'scaling factors without scaling', names)
    logd, logpi = math.log(d), math.log(dpi)
    ef = [[safe(logint(fwd[s][t]) - t * logd - logpi) for t in range(f + 1)] for s in range(n)]
    eb = [[safe(logint(bwd[s][t]) - (f - t) * logd) for t in range(f + 1)] for s in range(n)]
    ctx.close('forward without scaling', raw[3], ef, 1e-9, 1e-290)
    ctx.close('backward without scaling', raw[2], eb, 1e-9, 1e-290)
    ctx.expect(len(pm[1]) == f and all(po[s][t] >= max(po[i][t] for i in range(n)) - 1e-9 for t, s in enumerate(pm[1])), 'map prediction', lambda: f'{names}: {pm[1]}, posterior {po}')
    # maximum likelihood prediction
    top, weigh = best(W, V, pi, ys)
    if right(pv, top, weigh, f * logd + logpi, f):
        return
    start = [pi[s] * V[s][ys[0]] for s in range(n)]
    top2, weigh2 = best(W, V, start, ys)
    if right(pv, top2, weigh2, f * logd + logpi + math.log(dv), f):
        ctx.known(KNOWN, f'{W}, {V}, {names}: {pv}')
        return
    ctx.fail('viterbi prediction', f'{names}: got {pv}, best score {logint(top) - f * logd - logpi}')


def safe(x):
    return math.exp(x) if x > -740 else 0.0


def right(pv, top, weigh, scale, f):
    if top == 0:
        return pv is None
    if pv is None or len(pv[1]) != f:
        return False
    return abs(pv[0] - (logint(top) - scale)) <= 1e-9 * (1 + abs(pv[0])) and abs(logint(weigh([int(s) for s in pv[1]])) - logint(top)) < 1e-9
