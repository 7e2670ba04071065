import itertools

from lib import families as fam
from lib import hmms

import numpy as np

PROPERTY = 'C24'
RULE = ('every ordered pair of models (and triples for transitivity through the reference relation) of groups of near-equal models: equal copies, other containers, permuted or changed labels, one probability changed by the '
        'smallest amount, signs of zero, the other kind of model; every documented alternative name on every chain of a family with legal and illegal arguments; non-trivial: pairs of different models')
ASSUMPTIONS = ['two models are the same when numbers are numerically equal (0 and -0 too) and labels are equal in order']

ALIASES = [
    ('is_stochastically_monotone', ['is_monotone']), ('pi', ['stationary_distributions', 'steady_states']),
    ('committor_probabilities', ['crp']), ('conditional_probabilities', ['conditional_distribution', 'cd', 'cp']), ('expected_rewards', ['er']), ('expected_transitions', ['et']),
    ('first_passage_probabilities', ['fpp']), ('first_passage_reward', ['fpr']), ('hitting_probabilities', ['hp']), ('hitting_times', ['ht']), ('mean_absorption_times', ['mat']),
    ('mean_first_passage_times_between', ['mfpt_between', 'mfptb']), ('mean_first_passage_times_to', ['mfpt_to', 'mfptt']), ('mean_number_visits', ['mnv']), ('mean_recurrence_times', ['mrt']),
    ('mixing_time', ['mt']), ('time_correlations', ['tc']), ('time_relaxations', ['tr']), ('to_bounded_chain', ['to_bounded']), ('to_canonical_form', ['to_canonical']),
    ('to_lazy_chain', ['to_lazy']), ('to_nth_order', ['to_nth']), ('to_subchain', ['to_sub']),
]


def arguments(name, st):
    """Legal and illegal argument lists (positional, keyword) of a method."""
    n = len(st)
    d = [(i + 1.0) * 2 / (n * (n + 1)) for i in range(n)]
    r = [float(i * i - 1) for i in range(n)]
    return {
        'committor_probabilities': [(('forward', [0], [st[-1]]), {}), ((), {'committor_type': 'backward', 'states1': st[-1], 'states2': 0}), (('forward', [0], [0]), {}), (('x', 0, 1), {})],
        'conditional_probabilities': [((0,), {}), ((), {'state': st[1]}), (('none',), {}), ((), {})],
        'expected_rewards': [((3, r), {}), ((), {'rewards': r, 'steps': 2}), ((0, r), {}), ((1, r + [1]), {})],
        'expected_transitions': [((2,), {}), ((3, d), {}), ((), {'steps': 1, 'initial_distribution': np.array(d)}), ((2, [2.0] * n), {})],
        'first_passage_probabilities': [((3, 0), {}), ((3, st[0], [st[1]]), {}), ((), {'initial_state': 1, 'steps': 2, 'first_passage_states': 0}), ((3, n), {})],
        'first_passage_reward': [((3, 0, [1], r), {}), ((), {'steps': 2, 'initial_state': st[1], 'first_passage_states': st[0], 'rewards': r}), ((3, 0, [1], []), {})],
        'hitting_probabilities': [((), {}), (([0],), {}), ((), {'targets': [st[1]]}), (([-1],), {})],
        'hitting_times': [((), {}), (([0],), {}), ((), {'targets': [st[1]]}), (('none',), {})],
        'mean_absorption_times': [((), {})], 'mean_number_visits': [((), {})], 'mean_recurrence_times': [((), {})], 'to_canonical_form': [((), {})],
        'mean_first_passage_times_between': [(([0], [1]), {}), ((), {'origins': st[1], 'targets': st[0]}), (([0], [0]), {})],
        'mean_first_passage_times_to': [((), {}), ((0,), {}), ((), {'targets': [st[1]]}), ((n + 1,), {})],
        'mixing_time': [((), {}), ((d, 2, 'natural'), {}), ((), {'cutoff_type': 'traditional'}), ((), {'jump': 0})],
        'time_correlations': [(([0, 1],), {}), (([st[1], st[0]], [0, 1], 3), {}), ((), {'sequence1': [1, 1, 0], 'time_points': [0, 2]}), (([0],), {})],
        'time_relaxations': [(([0, 1],), {}), (([st[1], st[0]], d, 3), {}), ((), {'sequence': [1, 1, 0], 'time_points': [0, 2]}), (([0],), {})],
        'to_bounded_chain': [((0.25,), {}), (('absorbing',), {}), ((), {'boundary_condition': 'reflecting'}), (('x',), {})],
        'to_lazy_chain': [((), {}), ((0.25,), {}), ((), {'inertial_weights': d}), ((2.0,), {})],
        'to_nth_order': [((), {}), ((3,), {}), ((), {'order': 5}), ((1,), {})],
        'to_subchain': [(([0, 1],), {}), ((), {'states': [st[1], st[0]]}), ((n,), {})],
    }[name]


def jobs(tier, seed):
    out = []
    if tier == 'quick':
        specs = [(('sup', 2, 'd'), 2), (('list', list(fam.matrices(('sup', 3, 'd')))[::8]), 16), (('list', list(fam.matrices(('fun', 4)))[::21]), 4)]
        groups = [(('grid', 2, 2), 4), (('sup', 2, 'd'), 4), (('list', list(fam.matrices(('sup', 3, 'd')))[::29]), 8)]
        grid = [(2, 5, 1, 8), (2, 3, 4, 8)]
    else:
        specs = [(('sup', 2, 's'), 4), (('sup', 3, 'd'), 64), (('fun', 4), 32), (('list', list(fam.matrices(('sup', 4, 'd')))[::503]), 32)]
        groups = [(('grid', 2, 4), 16), (('sup', 2, 's'), 4), (('sup', 3, 'd'), 48)]
        grid = [(2, 10, 1, 16), (2, 4, 4, 32), (3, 2, 1, 64)]
    wide = list(fam.matrices(('wide', [11], 'd', [3])))
    specs.append((('list', wide), 10))
    groups.append((('list', [wide[0], wide[6], wide[8]] if tier == 'quick' else wide), 10))
    for s, k in specs:
        out += [('alias', s, i, k) for i in range(k)]
    for s, k in groups:
        out += [('group', s, i, k) for i in range(k)]
    out += [('grid',) + g[:3] + (i, g[3]) for g in grid for i in range(g[3])]
    return out


def cases(job):
    if job[0] in ('alias', 'group'):
        for idx, N in enumerate(itertools.islice(fam.matrices(job[1]), job[2], None, job[3])):
            yield {'kind': job[0], 'N': N, 'L': fam.MODES[idx % 4]}
    else:
        _, n, d, m, i, parts = job
        ms = list(fam.matrices(('grid', n, d)))
        for N in ms[i::parts]:
            yield {'kind': 'grid', 'N': N, 'd': d, 'm': m}


def key(spec):
    kind, p, e, st, sy = spec
    return kind, tuple(map(tuple, p)), None if e is None else tuple(map(tuple, e)), tuple(st), None if sy is None else tuple(sy)


def build(spec, container=np.array):
    import pydtmc
    kind, p, e, st, sy = spec
    if kind == 'mc':
        return pydtmc.MarkovChain(container(p), list(st))
    return pydtmc.HiddenMarkovModel(container(p), container(e), list(st), list(sy))


def pairs(ctx, specs, models):
    keys = [key(s) for s in specs]
    hashes = [hash(m) for m in models]
    for i, a in enumerate(models):
        for j, b in enumerate(models):
            exp = keys[i] == keys[j]
            ctx.nontrivial += not exp
            ok = (a == b) is exp and (a != b) is (not exp)
            ctx.traces += 1
            if not ok:
                ctx.fail('equality', f'{specs[i]} == {specs[j]} is {a == b}')
            if exp and hashes[i] != hashes[j]:
                ctx.fail('hashes of equal models', f'{specs[i]} {specs[j]}')
    ctx.transitions += len(models) ** 2
    ctx.same('set of models', len(set(models)), len(set(keys)))
    d = {}
    for m, k in zip(models, keys):
        d[m] = k
    ctx.same('models as keys', [d[m] for m in models], keys)
    return hashes


def neighbours(N, mode):
    """Specifications of models near the chain with weights N."""
    n = len(N)
    p = [[v / sum(r) for v in r] for r in N]
    st = fam.labels(mode, n)
    sy = ['y' + s for s in st]
    out = [('mc', p, None, st, None)] * 2
    out.append(('mc', [[-0.0 if v == 0 else v for v in r] for r in p], None, st, None))
    out.append(('mc', p, None, st[::-1], None))
    out.append(('mc', p, None, st[1:] + st[:1], None))
    for i in range(n):
        out.append(('mc', p, None, st[:i] + [st[i] + ' '] * 0 + [st[i] + 'x'] + st[i + 1:], None))
        out.append(('mc', p, None, st[:i] + [st[i].swapcase() + '_'] + st[i + 1:], None))
        for j in range(n):
            if 0.0 < p[i][j] < 1.0:
                q = [list(r) for r in p]
                q[i][j] = float(np.nextafter(q[i][j], 0.0))
                out.append(('mc', q, None, st, None))
    out.append(('mc', fam_permute(p), None, st, None))
    out.append(('mc', fam_permute(p), None, st[::-1], None))
    out.append(('mc', [list(c) for c in zip(*p)] if all(abs(sum(c) - 1) < 1e-12 for c in zip(*p)) else p, None, st, None))
    for e in (p, p[::-1], [[1.0 / n] * n] * n):
        out.append(('hmm', p, e, st, sy))
        out.append(('hmm', p, e, st, sy[::-1]))
        out.append(('hmm', p, e, st[::-1], sy))
    out.append(('hmm', p, [[-0.0 if v == 0 else v for v in r] for r in p], st, sy))
    out.append(('hmm', p, p, sy, st))
    return out


def fam_permute(p):
    return [list(r[::-1]) for r in p[::-1]]


CONTAINERS = [np.array, lambda m: [list(r) for r in m], lambda m: np.asfortranarray(np.array(m)), lambda m: np.array(m)[:, :].copy(order='F').T.copy().T]


def check(ctx, case):
    import pydtmc
    N = case['N']
    n = len(N)
    if case['kind'] == 'grid':
        d, m = case['d'], case['m']
        p = [[v / d for v in r] for r in N]
        st = ['a', 'b', 'c'][:n]
        sy = ['y', 'z', 'w'][:n]
        others = [[[v / d for v in r] for r in M] for M in fam.matrices(('grid', n, d))]
        specs = [('mc', q, None, st, None) for q in others] + [('mc', p, None, st, None), ('mc', p, None, st[::-1], None)]
        specs += [('hmm', p, q, st, sy) for q in others[::m]] + [('hmm', q, p, st, sy) for q in others[::m]]
        first = build(specs[len(others)])
        models = [build(s, CONTAINERS[i % 4]) for i, s in enumerate(specs)]
        k0 = key(specs[len(others)])
        for s, b in zip(specs, models):
            exp = key(s) == k0
            ctx.traces += 1
            ctx.nontrivial += not exp
            if (first == b) is not exp or (b == first) is not exp or (first != b) is exp or exp and hash(first) != hash(b):
                ctx.fail('equality', f'{specs[len(others)]} and {s}: {first == b} {b == first}')
        hs = [m for m in models if type(m).__name__ == 'HiddenMarkovModel']
        ks = [key(s) for s in specs if s[0] == 'hmm']
        for i, j in itertools.product(range(0, len(hs), 3), range(len(hs))):
            ctx.traces += 1
            if (hs[i] == hs[j]) is not (ks[i] == ks[j]):
                ctx.fail('equality', f'{ks[i]} and {ks[j]}')
        ctx.states += 1
        ctx.transitions += len(models)
        return
    if case['kind'] == 'group':
        specs = neighbours(N, case['L'])
        models = [build(s, CONTAINERS[i % 4]) for i, s in enumerate(specs)]
        ctx.states += len(models)
        h1 = pairs(ctx, specs, models)
        for m in models:
            for other in (None, 0, 'MarkovChain', m.p, m.states, (m.p, m.states), m.to_dictionary(), object()):
                ctx.traces += 1
                if isinstance(other, np.ndarray):
                    continue
                if (m == other) is not False or (m != other) is not True or (other == m) is not False:
                    ctx.fail('equal to something else', repr(other))
            ctx.expect((m == m) is True and not (m != m), 'reflexivity', '')
        # a history of queries changes neither
        for m in models:
            use(m)
        h2 = pairs(ctx, specs, models)
        ctx.same('hashes after queries', h2, h1)
        ctx.same('hashes of new models', [hash(build(s)) for s in specs], h1)
        return
    st = fam.labels(case['L'], n)
    p = np.array([[v / sum(r) for v in r] for r in N])
    mc = pydtmc.MarkovChain(p, st)
    ctx.states += 1
    for name, others in ALIASES:
        member = getattr(type(mc), name)
        if not callable(member):
            for o in others:
                fresh = pydtmc.MarkovChain(p, st)
                ctx.transitions += 1
                if not same(getattr(fresh, o), getattr(mc, name)) or not same(getattr(fresh, name), getattr(mc, o)):
                    ctx.fail('alternative name', f'{o}: {getattr(fresh, o)} instead of {getattr(mc, name)}')
                ctx.traces += 1
            continue
        for args, kw in arguments(name, st):
            exp = outcome(mc, name, args, kw)
            ctx.nontrivial += exp[0] == 'raised'
            for o in others:
                got = outcome(mc, o, args, kw)
                ctx.transitions += 1
                ctx.traces += 1
                if not same(got, exp):
                    ctx.fail('alternative name', f'{o}{args}{kw}: {got} instead of {exp}')


def outcome(mc, name, args, kw):
    try:
        return 'value', getattr(mc, name)(*args, **kw)
    except Exception as ex:
        return 'raised', type(ex).__name__, str(ex)[:300] if type(ex) is not TypeError else ''


def same(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


def use(m):
    for name in ('is_ergodic', 'is_regular', 'pi', 'rank', 'recurrent_classes', 'is_reversible', 'entropy_rate'):
        if hasattr(type(m), name):
            getattr(m, name)
    m.p[0, 0] = 5.0
    m.states.append('new')
    str(m)
    if hasattr(m, 'e'):
        m.e[0, 0] = 5.0
        m.symbols.reverse()
        m.decode([0, 1])
    else:
        m.hitting_probabilities()
        m.simulate(3, seed=1)
        m.to_lazy_chain()
