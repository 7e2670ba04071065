import itertools

import numpy as np

from lib import families as fam
from lib import hmms

PROPERTY = 'C25'
RULE = ('every chain and hidden Markov model of the families with every permutation of its states (and symbols) and another set of labels, all deterministic queries, answers brought back to the original order; '
        'every non-empty list of states in every order denoted by labels or by indices; non-trivial: permuted models')
ASSUMPTIONS = ['queries about the listing order itself are left out: is_canonical, is_stochastically_monotone, to_bounded_chain, lumping partitions that are contiguous in one order only',
               'left out as their methods are iterative or break ties by the order: closest_reversible, aggregate', 'numbers compared up to rounding; traditional mixing cutoff left out as it can be met with equality',
               'among equally probable paths any may be answered']

SETS = [lambda n: None, lambda n: [f'S{n - i:02d}' for i in range(n)], lambda n: fam.labels('mix', n), lambda n: fam.labels('shift', n), lambda n: [chr(0x3b1 + (i * 5) % 11) for i in range(n)]]


class View:
    """A listing of the states: position k holds the original state perm[k]."""

    def __init__(self, n, perm, labels, parity):
        self.n, self.perm = n, list(perm)
        self.names = labels if labels is not None else [str(i + 1) for i in range(n)]
        self.labels = labels
        self.pos = [self.perm.index(i) for i in range(n)]
        self.parity = parity
        self.back = {s: self.perm[k] for k, s in enumerate(self.names)}

    def one(self, i):
        """The original state i, by index or by label."""
        return self.names[self.pos[i]] if (self.parity + i) % 2 else self.pos[i]

    def many(self, ids, order=0):
        ids = list(ids)
        if (self.parity + order) % 2:
            ids.reverse()
        return [self.names[self.pos[i]] if (self.parity + order) % 3 else self.pos[i] for i in ids]

    def sequence(self, ids):
        return [self.names[self.pos[i]] if self.parity % 2 else self.pos[i] for i in ids]

    def put(self, v):
        """A vector by original states -> by positions."""
        return [v[i] for i in self.perm]


# canonical forms ---------------------------------------------------------


def c_value(v, a):
    return a


def c_vector(v, a):
    return None if a is None else np.asarray(a)[v.pos]


def c_square(v, a):
    return None if a is None else np.asarray(a)[np.ix_(v.pos, v.pos)]


def c_columns(v, a):
    return None if a is None else np.asarray(a)[:, v.pos]


def c_vectors(v, a):
    return None if a is None else [np.asarray(x)[v.pos] for x in a]


def c_states(v, a):
    return None if a is None else tuple(sorted(v.back[s] for s in a))


def c_classes(v, a):
    return tuple(sorted(tuple(sorted(v.back[s] for s in x)) for x in a))


def c_distributions(v, a):
    return sorted((np.asarray(x)[v.pos] for x in a), key=lambda x: tuple((x < 1e-12).tolist()))


def c_path(v, a):
    return None if a is None else [v.back[s] for s in a]


def c_timescales(v, a):
    with np.errstate(divide='ignore'):
        return None if a is None else np.sort(np.exp(-1.0 / np.asarray(a)))


def c_incidence(v, a):
    a = np.asarray(a)[v.pos, :]
    return a[:, np.lexsort(a[::-1])]


def c_model(v, m):
    idx = [v.back[s] for s in m.states]
    order = np.argsort(idx)
    return sorted(idx), m.p[np.ix_(order, order)]


def c_dictionary(v, d):
    keys = sorted((v.back[a], v.back[b], float(p)) for (a, b), p in d.items())
    return [k[:2] for k in keys], np.array([k[2] for k in keys])


def c_graph(v, g):
    edges = sorted((v.back[a], v.back[b], float(d.get('weight', 0.0))) for a, b, d in g.edges(data=True))
    return sorted(v.back[x] for x in g.nodes), [e[:2] for e in edges], np.array([e[2] for e in edges])


def transient(m):
    t = set(m.transient_states)
    return [s for s in m.states if s in t]


def absorbing(m):
    t = set(m.absorbing_states)
    return [s for s in m.states if s in t]


def by_labels(v, rows, cols, a):
    if a is None:
        return None
    r, c = np.argsort([v.back[s] for s in rows]), np.argsort([v.back[s] for s in cols])
    return np.asarray(a)[np.ix_(r, c)]


def f_fundamental(m, v):
    t = transient(m)
    return by_labels(v, t, t, m.fundamental_matrix)


def f_absorption(m, v):
    a = m.absorption_probabilities()
    return None if a is None else by_labels(v, absorbing(m), transient(m), a)


def f_times(m, v):
    a = m.mean_absorption_times()
    return None if a is None else np.asarray(a)[np.argsort([v.back[s] for s in transient(m)])]


def f_periods(m, v):
    return tuple(sorted((tuple(sorted(v.back[s] for s in c)), p) for c, p in zip(m.communicating_classes, m.periods)))


def f_redistribute(m, v):
    n = m.n
    out = [c_vectors(v, m.redistribute(3, None, False)), c_vector(v, m.redistribute(2, v.put(weights(n)), True))]
    return out + [c_vectors(v, m.redistribute(2, v.one(i), False)) for i in range(n)]


def weights(n):
    return [2.0 * (i + 1) / (n * (n + 1)) for i in range(n)]


def rewards(n):
    return [float(i * i) - 1.5 for i in range(n)]


def subsets(n, full=False):
    if n > 6:
        return [(i,) for i in range(n)] + [tuple(range(i, n, d)) for i in range(0, n, 3) for d in (1, 2, 3) if full or i + d > 1] + [(n - 2, 3)]
    return [s for k in range(1, n + (1 if full else 0)) for s in itertools.combinations(range(n), k)]


def pairs_of_sets(n):
    out = [((i,), (j,)) for i in range(n) for j in range(n) if i != j and (n <= 6 or (i * 5 + j) % 4 == 0)]
    return out + [((0, 1), (2,)), ((1,), (0, 2)), ((2, 0), (1,))] if n > 2 else out


def each(f, n):
    return lambda m, v: [f(m, v, i) for i in range(n)]


def f_to_nth(m, v):
    return [c_model(v, m.to_nth_order(k)) for k in (2, 3)]


def f_sub(m, v):
    out = []
    for s in subsets(m.n):
        if len(s) > 1 or True:
            try:
                out.append(c_model(v, m.to_subchain(v.many(s, len(s)))))
            except Exception as ex:
                out.append(('error', type(ex).__name__))
    return out


def f_lump(m, v, other):
    """The lumped chains of the partitions that are contiguous in both orders."""
    out = []
    for cut in itertools.product((0, 1), repeat=m.n - 1):
        part, cur = [], [0]
        for i, c in enumerate(cut):
            if c:
                part.append(cur)
                cur = []
            cur.append(i + 1)
        part.append(cur)
        if not 2 <= len(part) < m.n:
            continue
        ps = [sorted(v.pos[i] for i in x) for x in part]
        if any(x[-1] - x[0] != len(x) - 1 for x in ps):
            out.append(None)
            continue
        order = sorted(range(len(ps)), key=lambda i: ps[i][0])
        try:
            lm = m.lump([[v.names[k] if v.parity % 2 else k for k in ps[i]] for i in order])
            back = np.argsort(order)
            out.append(lm.p[np.ix_(back, back)])
        except Exception as ex:
            out.append(('error', type(ex).__name__))
    return out


QUERIES = {}


def q(name, canon=None, f=None):
    if f is None:
        def f(m, v, name=name, canon=canon):
            r = getattr(m, name)
            return canon(v, r() if callable(r) else r)
    QUERIES[name] = f


for _k in ('determinant', 'density', 'entropy_rate', 'entropy_rate_normalized', 'is_absorbing', 'is_aperiodic', 'is_doubly_stochastic', 'is_ergodic', 'is_irreducible', 'is_regular', 'is_reversible', 'is_symmetric', 'kemeny_constant',
           'mixing_rate', 'n', 'period', 'rank', 'relaxation_rate', 'size', 'spectral_gap', 'topological_entropy'):
    q(_k, c_value)
for _k in ('absorbing_states', 'cyclic_states', 'recurrent_states', 'transient_states'):
    q(_k, c_states)
for _k in ('communicating_classes', 'cyclic_classes', 'recurrent_classes', 'transient_classes'):
    q(_k, c_classes)
for _k in ('accessibility_matrix', 'adjacency_matrix', 'communication_matrix', 'p', 'hitting_matrix', 'mean_number_visits', 'to_matrix', 'mean_first_passage_times_to', 'expected_transitions'):
    if _k == 'expected_transitions':
        q(_k, f=lambda m, v: [c_square(v, m.expected_transitions(2)), c_square(v, m.expected_transitions(min(3, m.n), v.put(weights(m.n))))])
    elif _k != 'hitting_matrix':
        q(_k, c_square)
q('implied_timescales', c_timescales)
q('incidence_matrix', c_incidence)
q('pi', c_distributions)
q('periods', f=f_periods)
q('fundamental_matrix', f=f_fundamental)
q('absorption_probabilities', f=f_absorption)
q('mean_absorption_times', f=f_times)
q('mean_recurrence_times', c_vector)
q('are_communicating', f=lambda m, v: [m.are_communicating(v.one(i), v.one(j)) for i in range(m.n) for j in range(m.n)])
q('is_accessible', f=lambda m, v: [m.is_accessible(v.one(i), v.one(j)) for i in range(m.n) for j in range(m.n)])
for _k in ('is_absorbing_state', 'is_cyclic_state', 'is_recurrent_state', 'is_transient_state'):
    q(_k, f=lambda m, v, k=_k: [getattr(m, k)(v.one(i)) for i in range(m.n)])
q('transition_probability', f=lambda m, v: [m.transition_probability(v.one(i), v.one(j)) for i in range(m.n) for j in range(m.n)])
q('conditional_probabilities', f=lambda m, v: [c_vector(v, m.conditional_probabilities(v.one(i))) for i in range(m.n)])
q('committor_probabilities', f=lambda m, v: [c_vector(v, m.committor_probabilities(t, v.many(a, 0), v.many(b, 0))) for t in ('forward', 'backward') for a, b in pairs_of_sets(m.n)])
q('expected_rewards', f=lambda m, v: c_vector(v, m.expected_rewards(3, v.put(rewards(m.n)))))
q('first_passage_probabilities', f=lambda m, v: [c_columns(v, m.first_passage_probabilities(3, v.one(i))) for i in range(m.n)] + [m.first_passage_probabilities(3, v.one(i), v.many(s, i)) for i in range(m.n) for s in subsets(m.n)])
q('first_passage_reward', f=lambda m, v: [m.first_passage_reward(3, v.one(i), v.many(s, i), v.put(rewards(m.n))) for s in subsets(m.n) for i in range(m.n) if i not in s])
q('hitting_probabilities', f=lambda m, v: [c_vector(v, m.hitting_probabilities(v.many(s, len(s)))) for s in subsets(m.n, True)] + [c_vector(v, m.hitting_probabilities())])
q('hitting_times', f=lambda m, v: [c_vector(v, m.hitting_times(v.many(s, len(s)))) for s in subsets(m.n, True)] + [c_vector(v, m.hitting_times())])
q('mean_first_passage_times_between', f=lambda m, v: [m.mean_first_passage_times_between(v.many(a, 0), v.many(b, 0)) for a, b in pairs_of_sets(m.n)])
q('mean_first_passage_times_to targets', f=lambda m, v: [c_vector(v, m.mean_first_passage_times_to(v.many(s, 1))) for s in subsets(m.n)])
q('merge_with', f=lambda m, v: c_model(v, m.merge_with(type(m)(np.array([[(1.0 + (i * 2 + j) % 3) for j in v.perm] for i in v.perm]) / np.sum([[(1.0 + (i * 2 + j) % 3) for j in v.perm] for i in v.perm], axis=1, keepdims=True), v.labels), 0.25)))
q('mixing_time', f=lambda m, v: [m.mixing_time(), m.mixing_time(v.put(weights(m.n)), 2)])
q('predict', f=lambda m, v: [c_path(v, m.predict(3, v.one(i))) for i in range(m.n)] + [None if m.predict(3, v.one(i), True) is None else [v.perm[k] for k in m.predict(3, v.one(i), True)] for i in range(m.n)])
q('redistribute', f=f_redistribute)
q('sensitivity', f=lambda m, v: [c_square(v, m.sensitivity(v.one(i))) for i in range(m.n)])
q('sequence_probability', f=lambda m, v: [m.sequence_probability(v.sequence(s)) for s in itertools.product(range(m.n), repeat=3 if m.n <= 6 else 2)])
q('time_correlations', f=lambda m, v: [m.time_correlations(v.sequence([0, 1, 1])), m.time_correlations(v.sequence([0, m.n - 1]), v.sequence([1, 1, 0]), [0, 1, 2])])
q('time_relaxations', f=lambda m, v: [m.time_relaxations(v.sequence([0, 1, 1])), m.time_relaxations(v.sequence([0, m.n - 1, 1]), v.put(weights(m.n)), [0, 1, 2])])
q('to_canonical_form', c_model)
q('to_dictionary', c_dictionary)
q('to_graph', c_graph)
q('to_lazy_chain', f=lambda m, v: [c_model(v, m.to_lazy_chain(0.25)), c_model(v, m.to_lazy_chain(v.put(weights(m.n))))])
q('to_nth_order', f=f_to_nth)
q('to_subchain', f=f_sub)
q('from_dictionary', f=lambda m, v: c_model(v, type(m).from_dictionary(m.to_dictionary())))
q('from_graph', f=lambda m, v: c_model(v, type(m).from_graph(m.to_graph())))
q('from_matrix', f=lambda m, v: c_model(v, type(m).from_matrix(m.to_matrix(), m.states)))

# with the same order of the states and other names, nothing but the names changes: not even the order of the answers
IN_ORDER = {}
for _k in ('communicating_classes', 'cyclic_classes', 'recurrent_classes', 'transient_classes'):
    IN_ORDER[_k] = lambda m, v, k=_k: [[v.back[s] for s in c] for c in getattr(m, k)]
for _k in ('absorbing_states', 'cyclic_states', 'recurrent_states', 'transient_states', 'states'):
    IN_ORDER[_k] = lambda m, v, k=_k: [v.back[s] for s in getattr(m, k)]
for _k in ('pi', 'periods', 'is_canonical', 'is_stochastically_monotone', 'fundamental_matrix', 'implied_timescales', 'incidence_matrix', 'accessibility_matrix'):
    IN_ORDER[_k] = lambda m, v, k=_k: getattr(m, k)
for _k in ('absorption_probabilities', 'mean_absorption_times', 'mean_recurrence_times', 'mean_number_visits', 'hitting_times', 'mixing_time'):
    IN_ORDER[_k] = lambda m, v, k=_k: getattr(m, k)()
IN_ORDER['canonical form'] = lambda m, v: ([v.back[s] for s in m.to_canonical_form().states], m.to_canonical_form().p)
IN_ORDER['lumping partitions'] = lambda m, v: [[list(b) for b in x] for x in m.lumping_partitions]
IN_ORDER['bounded'] = lambda m, v: [m.to_bounded_chain(c).p for c in ('absorbing', 'reflecting', 0.25)]
IN_ORDER['closest reversible'] = lambda m, v: m.closest_reversible(None, False).p
IN_ORDER['aggregate'] = lambda m, v: [(x.p, x.states) for x in (m.aggregate(k, t) for k in range(2, m.n) for t in ('spectral-bottom-up', 'spectral-top-down'))]
IN_ORDER['dictionary'] = lambda m, v: [(v.back[a], v.back[b], x) for (a, b), x in m.to_dictionary().items()]
IN_ORDER['graph'] = lambda m, v: ([v.back[x] for x in m.to_graph().nodes], [(v.back[a], v.back[b], x) for a, b, x in m.to_graph().edges(data='weight')])
IN_ORDER['seeded walks'] = lambda m, v: [m.simulate(6, output_indices=True, seed=3), [v.back[s] for s in m.simulate(6, seed=3)], m.next(0, True, 5), v.back[m.next(0, False, 5)]]
IN_ORDER['summary'] = lambda m, v: str(m)

SPECTRAL = {'implied_timescales', 'mixing_rate', 'relaxation_rate', 'spectral_gap', 'topological_entropy', 'rank', 'determinant'}


def ask(f, m, v):
    try:
        return f(m, v)
    except Exception as ex:
        return ('error', type(ex).__name__)


def like(a, b, tol=1e-7):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(like(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    return a == b


def permuted(M, perm, cols=None):
    cols = perm if cols is None else cols
    return np.array([[M[i][j] for j in cols] for i in perm])


def chain(P, v):
    import pydtmc
    return pydtmc.MarkovChain(permuted(P, v.perm), v.labels)


def orders(n):
    """For many states: the order itself, its reverse, rotations, an interleaving, a swap of the last two."""
    return [tuple(range(n)), tuple(reversed(range(n))), tuple((i + 3) % n for i in range(n)), tuple(sorted(range(n), key=lambda i: (i % 2, -i))), tuple(range(n - 2)) + (n - 1, n - 2), (n - 1,) + tuple(range(n - 1))]


def check_chain(ctx, case):
    N = case['N']
    n = len(N)
    P = hmms.floats(N)
    base = View(n, range(n), SETS[case['L'] % len(SETS)](n), 0)
    mb = chain(P, base)
    expected = {k: ask(f, mb, base) for k, f in QUERIES.items()}
    lump = ask(lambda m, v: f_lump(m, v, None), mb, base) if n <= 4 else []
    ctx.states += 1
    ordered = {k: ask(f, mb, base) for k, f in IN_ORDER.items()}
    for t in range(1, len(SETS)):
        v = View(n, range(n), SETS[(case['L'] + t) % len(SETS)](n), t)
        m = chain(P, v)
        ctx.states += 1
        ctx.nontrivial += 1
        for k, f in IN_ORDER.items():
            got = ask(f, m, v)
            ctx.transitions += 1
            ctx.traces += 1
            if not like(got, ordered[k], 1e-12):
                ctx.fail('order: ' + k, f'states {base.names} renamed {v.names}: got {short(got)} instead of {short(ordered[k])}')
    for t, perm in enumerate(itertools.permutations(range(n)) if n <= 6 else orders(n)):
        if t == 0 and case['L'] % 2:
            continue
        v = View(n, perm, SETS[(case['L'] + 1 + t) % len(SETS)](n), 1 + t)
        m = chain(P, v)
        ctx.states += 1
        ctx.nontrivial += t > 0
        for k, f in QUERIES.items():
            got = ask(f, m, v)
            ctx.transitions += 1
            ctx.traces += 1
            if not like(got, expected[k]):
                if k in SPECTRAL and unstable(P):
                    ctx.count('not compared: defective spectrum')
                    continue
                if k in ('period', 'is_aperiodic') and recorded_period(m, got, k) and recorded_period(mb, expected[k], k):
                    ctx.known('period-of-reducible-chains', f'{k} of {P}: {expected[k]}, with the states in the order {list(perm)}: {got}')
                    continue
                ctx.fail(k, f'states {base.names} order {perm} named {v.names}: got {short(got)}, in the first order {short(expected[k])}')
        if n <= 4:
            for a, b in zip(ask(lambda m, v: f_lump(m, v, None), m, v), lump):
                if a is not None and not like(a, b):
                    ctx.fail('lump', f'order {perm}: got {short(a)}, in the first order {short(b)}')


def recorded_period(m, got, k):
    """The recorded answer on reducible chains with a periodic class: networkx' test of the whole graph, which depends on its first node."""
    import math

    import networkx as nx
    g = nx.DiGraph([(i, int(j)) for i in range(m.n) for j in np.flatnonzero(m.p[i])])
    if nx.is_strongly_connected(g):
        return False
    periods = [p for c, p in zip(m.communicating_classes, m.periods) if c in m.recurrent_classes]
    h = nx.DiGraph()
    h.add_nodes_from(range(m.n))
    h.add_edges_from(g.edges)
    a = nx.is_aperiodic(h)
    return math.lcm(*periods) > 1 and got == (a if k == 'is_aperiodic' else 1 if a else math.lcm(*periods))


def unstable(P):
    """Eigenvalues that double precision does not determine to 1e-7 (defective ones)."""
    w, vec = np.linalg.eig(np.array(P))
    return np.linalg.cond(vec) > 1e6


def short(x):
    s = repr(x)
    return s if len(s) < 500 else s[:500] + '...'


# hidden Markov models ----------------------------------------------------


def path_score(P, E, d, path, sy, recorded):
    """The logarithm of the joint probability (or the recorded score: a transition and two emissions of the first symbol, see C20)."""
    with np.errstate(divide='ignore'):
        lp, le = np.log(P), np.log(E)
        x = np.max(np.log(d * E[:, sy[0]]) + lp[:, path[0]]) if recorded else np.log(d[path[0]])
        x = x + le[path[0], sy[0]]
        for i in range(1, len(path)):
            x = x + lp[path[i - 1], path[i]] + le[path[i], sy[i]]
    return x


def check_hmm(ctx, case):
    import pydtmc
    N, E = case['N'], case['E']
    n, k = len(N), len(E[0])
    P, Q = hmms.floats(N), hmms.floats(E)
    seqs = [s for r in case['r'] for s in itertools.product(range(k), repeat=r)]
    d = weights(n)
    expected = None
    for t, (ps, py) in enumerate(itertools.product(itertools.permutations(range(n)), itertools.permutations(range(k)))):
        sl, yl = SETS[(case['L'] + t) % 5](n), SETS[(case['L'] + 2 * t + 1) % 5](k)
        if sl is None:
            sl = [f'P{i + 1}' for i in range(n)]
        yl = ['e' + x for x in (yl or [str(i + 1) for i in range(k)])]
        v, y = View(n, ps, sl, t), View(k, py, yl, t // 2)
        m = pydtmc.HiddenMarkovModel(permuted(P, ps), permuted(Q, ps, py), sl, yl)
        ctx.states += 1
        ctx.nontrivial += t > 0
        out = {}
        for init in (None, 'd', 0):
            st = None if init is None else v.put(d) if init == 'd' else v.one(0)
            for s in seqs:
                for sc in (True, False):
                    a = ask(lambda m, v: m.decode(y.sequence(s), st, sc), m, v)
                    if a is not None and not isinstance(a[0], str):
                        a = (a[0], np.asarray(a[1])[v.pos], np.asarray(a[2])[v.pos], np.asarray(a[3])[v.pos]) + tuple(a[4:])
                    out['decode', str(init), s, sc] = a
                for kind in ('map', 'viterbi'):
                    for oi in (False, True):
                        a = ask(lambda m, v: m.predict(kind, y.sequence(s), st, oi), m, v)
                        if a is not None and not isinstance(a[0], str):
                            a = (a[0], [v.perm[x] if oi else v.back[x] for x in a[1]])
                        out['predict ' + kind, str(init), s, oi] = a
        out['mle'] = [ask(lambda m, v: m.transition_probability(v.one(i), v.one(j)), m, v) for i in range(n) for j in range(n)] + [ask(lambda m, v: m.emission_probability(y.one(j), v.one(i)), m, v) for i in range(n) for j in range(k)]
        out['p'], out['e'] = np.asarray(m.p)[np.ix_(v.pos, v.pos)], np.asarray(m.e)[np.ix_(v.pos, y.pos)]
        out['ergodic'] = [m.is_ergodic, m.is_regular]
        back = {s: ('s', i) for s, i in v.back.items()} | {s: ('y', i) for s, i in y.back.items()}
        dic = sorted((tuple(back.get(x, x) for x in key), float(val)) for key, val in m.to_dictionary().items())
        out['dictionary'] = [x[0] for x in dic], np.array([x[1] for x in dic])
        g = m.to_graph()
        ed = sorted((back[a], back[b], float(w['weight'])) for a, b, w in g.edges(data=True))
        out['graph'] = [x[:2] for x in ed], np.array([x[2] for x in ed]), sorted((back[x], str(w)) for x, w in g.nodes(data=True))
        mats = m.to_matrices()
        out['matrices'] = np.asarray(mats[0])[np.ix_(v.pos, v.pos)], np.asarray(mats[1])[np.ix_(v.pos, y.pos)]
        for a in [None] + [s for s in subsets(n, True) if len(s) > 1]:
            for b in [None] + [s for s in subsets(k, True) if len(s) > 1]:
                r = ask(lambda m, v: m.restrict(None if a is None else v.many(a, 1), None if b is None else y.many(b, 0)), m, v)
                if not isinstance(r, tuple):
                    o1, o2 = np.argsort([v.back[x] for x in r.states]), np.argsort([y.back[x] for x in r.symbols])
                    r = (sorted(v.back[x] for x in r.states), sorted(y.back[x] for x in r.symbols), np.asarray(r.p)[np.ix_(o1, o1)], np.asarray(r.e)[np.ix_(o1, o2)])
                out['restrict', a, b] = r
        for name, mm in (('from_dictionary', lambda: type(m).from_dictionary(m.to_dictionary())), ('from_graph', lambda: type(m).from_graph(m.to_graph()))):
            r = ask(lambda m, v: mm(), m, v)
            if not isinstance(r, tuple):
                o1, o2 = [r.states.index(x) for x in v.names], [r.symbols.index(x) for x in y.names]
                r = (np.asarray(r.p)[np.ix_(o1, o1)][np.ix_(v.pos, v.pos)], np.asarray(r.e)[np.ix_(o1, o2)][np.ix_(v.pos, y.pos)])
            out[name] = r
        ctx.transitions += len(out)
        ctx.traces += len(out)
        if expected is None:
            expected = out
            continue
        for key, a in out.items():
            b = expected[key]
            if like(a, b):
                continue
            kind = key[0] if isinstance(key, tuple) else key
            if kind.startswith('predict') and a is not None and b is not None and like(a[0], b[0]):
                init = np.full(n, 1.0 / n) if key[1] == 'None' else np.array(d) if key[1] == 'd' else np.eye(n)[0]
                if tied(np.array(P), np.array(Q), init, a[1], b[1], key, expected):
                    ctx.count('ties')
                    continue
            ctx.fail(kind, f'{key}: states {v.names} ({ps}), symbols {y.names} ({py}): got {short(a)}, in the first order {short(b)}')


def tied(P, Q, init, a, b, key, expected):
    sy = list(key[2])
    if key[0].endswith('map'):
        post = expected['decode', key[1], key[2], True][1]
        return all(abs(post[x, i] - post[z, i]) < 1e-9 for i, (x, z) in enumerate(zip(a, b)))
    return any(bool(abs(path_score(P, Q, init, a, sy, r) - path_score(P, Q, init, b, sy, r)) < 1e-9) for r in (False, True))


# fitting and assessments -------------------------------------------------


def check_fit(ctx, case):
    import pydtmc
    n, seq = case['n'], case['s']
    A, E = pydtmc.MarkovChain, pydtmc
    expected = None
    for t, perm in enumerate(itertools.permutations(range(n))):
        v = View(n, perm, SETS[(t + case['L']) % 5](n) or [str(i + 1) for i in range(n)], t)
        s = v.sequence(seq)
        hyper = [[1 + (3 * i + j) % 4 for j in v.perm] for i in v.perm]
        out = {}
        for name, args in (('map', None), ('map-h', hyper), ('mle', None), ('mle-l', True)):
            r = ask(lambda m, v: A.fit_sequence(name[:3], v.names, s, args), None, v)
            out['fit ' + name] = r if isinstance(r, tuple) else c_model(v, r)
        for name, f in (('first order', lambda: E.assess_first_order(v.names, s)), ('markov', lambda: E.assess_markov_property(v.names, s)), ('stationarity', lambda: E.assess_stationarity(v.names, s, 2)),
                        ('homogeneity', lambda: E.assess_homogeneity(v.names, [s, v.sequence(seq[::-1]), v.sequence([0, 1, n - 1, 0])]))):
            out['assess ' + name] = ask(lambda m, v: signature(f()), None, v)
        m = chain([[(1.0 + (2 * i + j) % 3) / sum(1.0 + (2 * i + h) % 3 for h in range(n)) for j in range(n)] for i in range(n)], v)
        out['assess compatibility'] = ask(lambda m, v: signature(pydtmc.assess_theoretical_compatibility(m, s)), m, v)
        if case.get('h'):
            sy = case['h']
            k = max(2, max(sy) + 1)
            for u, py in enumerate(itertools.permutations(range(k))):
                y = View(k, py, ['e' + x for x in (SETS[(t + u) % 5](k) or [str(i + 1) for i in range(k)])], t + u)
                r = ask(lambda m, v: E.HiddenMarkovModel.estimate(v.names, y.names, s, y.sequence(sy)), None, v)
                if not isinstance(r, tuple):
                    r = (np.asarray(r.p)[np.ix_(v.pos, v.pos)], np.asarray(r.e)[np.ix_(v.pos, y.pos)], [v.back[x] for x in r.states] == list(v.perm), [y.back[x] for x in r.symbols] == list(y.perm))
                out['estimate', py] = r
                if case.get('em'):
                    pg = permuted([[(1.0 + (2 * i + j) % 3) / sum(1.0 + (2 * i + h) % 3 for h in range(n)) for j in range(n)] for i in range(n)], v.perm)
                    eg = permuted([[(1.0 + (i + 2 * j) % 4) / sum(1.0 + (i + 2 * h) % 4 for h in range(k)) for j in range(k)] for i in range(n)], v.perm, y.perm)
                    r = ask(lambda m, v: E.HiddenMarkovModel.fit('baum-welch', v.names, y.names, pg, eg, y.sequence(sy), v.put(weights(n))), None, v)
                    if not isinstance(r, tuple):
                        r = (np.round(np.asarray(r.p)[np.ix_(v.pos, v.pos)], 5), np.round(np.asarray(r.e)[np.ix_(v.pos, y.pos)], 5))
                    out['baum-welch', py] = r
        ctx.states += 1
        ctx.nontrivial += t > 0
        ctx.transitions += len(out)
        ctx.traces += len(out)
        if expected is None:
            expected = out
            first = {k: out[k] for k in out}
        for key, a in out.items():
            b = expected[key]
            if isinstance(key, tuple):
                b = first[key[0], tuple(range(len(key[1])))]
            if not like(a, b, 1e-4 if key[0] == 'baum-welch' else 1e-7):
                ctx.fail(key if isinstance(key, str) else key[0], f'sequence {seq} (symbols {case.get("h")}), states {v.names} ({perm}), {key}: got {short(a)}, in the first order {short(b)}')


def signature(r):
    rej, p, d = r
    return (None if rej is None else bool(rej), p, {k: x for k, x in d.items() if isinstance(x, (int, float, np.number)) and not isinstance(x, bool)} and [float(d[k]) for k in sorted(d) if isinstance(d[k], (int, float, np.number))])


# denotations --------------------------------------------------------------


def denotations(ids, names):
    """All the ways of denoting a set of states."""
    out = []
    for order in itertools.permutations(ids):
        out += [list(order), [names[i] for i in order], [np.int64(i) for i in order]]
    if len(ids) == 1:
        out += [ids[0], names[ids[0]], np.int32(ids[0])]
    return out


def one_of(i, names):
    return [i, names[i], np.int64(i)]


def check_denote(ctx, case):
    import pydtmc
    N = case['N']
    n = len(N)
    names = fam.labels(case['L'], n)
    m = pydtmc.MarkovChain(np.array(hmms.floats(N)), names)
    ctx.states += 1
    sets = subsets(n, True)
    jobs = []   # (name, list of calls which must agree)
    for i in range(n):
        for k in ('is_absorbing_state', 'is_cyclic_state', 'is_recurrent_state', 'is_transient_state', 'conditional_probabilities', 'sensitivity'):
            jobs.append((k, [lambda k=k, a=a: getattr(m, k)(a) for a in one_of(i, names)]))
        jobs.append(('predict', [lambda a=a: m.predict(2, a) for a in one_of(i, names)]))
        jobs.append(('predict indices', [lambda a=a: named(m.predict(2, a, True), names) for a in one_of(i, names)] + [lambda i=i: m.predict(2, i)]))
        jobs.append(('next', [lambda a=a: m.next(a, seed=3) for a in one_of(i, names)] + [lambda a=a: named([m.next(a, True, seed=3)], names)[0] for a in one_of(i, names)]))
        jobs.append(('simulate', [lambda a=a: m.simulate(4, a, seed=3) for a in one_of(i, names)] + [lambda a=a: named(m.simulate(4, a, None, True, seed=3), names) for a in one_of(i, names)]))
        jobs.append(('simulate final', [lambda a=a: m.simulate(4, 0, a, seed=3) for a in one_of(i, names)] + [lambda a=a: named(m.simulate(4, names[0], a, True, 3), names) for a in one_of(i, names)]))
        jobs.append(('redistribute', [lambda a=a: m.redistribute(2, a, False) for a in one_of(i, names) + [np.eye(n)[i], np.eye(n)[i].tolist()]]))
        for j in range(n):
            for k in ('are_communicating', 'is_accessible', 'transition_probability'):
                jobs.append((k, [lambda k=k, a=a, b=b: getattr(m, k)(a, b) for a in one_of(i, names) for b in one_of(j, names)]))
        for s in sets:
            jobs.append(('first_passage_probabilities', [lambda a=a, b=b: m.first_passage_probabilities(2, a, b) for a in one_of(i, names) for b in denotations(s, names)]))
            if i not in s and len(s) < n:
                jobs.append(('first_passage_reward', [lambda a=a, b=b: m.first_passage_reward(2, a, b, rewards(n)) for a in one_of(i, names) for b in denotations(s, names)]))
    for s in sets:
        for k in ('hitting_probabilities', 'hitting_times', 'mean_first_passage_times_to', 'to_subchain'):
            jobs.append((k, [lambda k=k, a=a: plain(getattr(m, k)(a)) for a in denotations(s, names)]))
        rest = [i for i in range(n) if i not in s]
        for t in [tuple(rest), tuple(rest[:1])]:
            if t:
                jobs.append(('mean_first_passage_times_between', [lambda a=a, b=b: m.mean_first_passage_times_between(a, b) for a in denotations(s, names) for b in denotations(t, names)]))
                for c in ('forward', 'backward'):
                    jobs.append(('committor_probabilities', [lambda a=a, b=b, c=c: m.committor_probabilities(c, a, b) for a in denotations(s, names) for b in denotations(t, names)]))
    for s in itertools.product(range(n), repeat=3):
        forms = [list(s), [names[i] for i in s]]
        jobs.append(('sequence_probability', [lambda a=a: m.sequence_probability(a) for a in forms]))
        jobs.append(('time_correlations', [lambda a=a, b=b: m.time_correlations(a, b, [1, 2]) for a in forms for b in ([0, 1], [names[0], names[1]])]))
        jobs.append(('time_relaxations', [lambda a=a: m.time_relaxations(a) for a in forms]))
        jobs.append(('compatibility', [lambda a=a: plain(pydtmc.assess_theoretical_compatibility(m, a)) for a in forms]))
        for f in ('assess_first_order', 'assess_markov_property', 'assess_stationarity'):
            jobs.append((f, [lambda a=a, f=f: plain(getattr(pydtmc, f)(names, a)) for a in forms]))
        jobs.append(('homogeneity', [lambda a=a, b=b: plain(pydtmc.assess_homogeneity(names, [a, b])) for a in forms for b in ([0, 1, 0], [names[0], names[1], names[0]])]))
        for f in ('map', 'mle'):
            jobs.append(('fit', [lambda a=a, f=f: plain(pydtmc.MarkovChain.fit_sequence(f, names, a)) for a in forms]))
    for cut in range(1, n - 1):
        jobs.append(('lump', [lambda a=a: plain(m.lump(a)) for a in ([list(range(cut)), list(range(cut, n))], [names[:cut], names[cut:]])]))
    run_denotations(ctx, jobs)


def check_denote_hmm(ctx, case):
    import pydtmc
    N, E = case['N'], case['E']
    n, k = len(N), len(E[0])
    st, sy = hmms.labels(case['L'], n, k)
    m = pydtmc.HiddenMarkovModel(np.array(hmms.floats(N)), np.array(hmms.floats(E)), st, sy)
    ctx.states += 1
    jobs = []
    for i in range(n):
        for j in range(n):
            jobs.append(('transition_probability', [lambda a=a, b=b: m.transition_probability(a, b) for a in one_of(i, st) for b in one_of(j, st)]))
        for j in range(k):
            jobs.append(('emission_probability', [lambda a=a, b=b: m.emission_probability(a, b) for a in one_of(j, sy) for b in one_of(i, st)]))
            jobs.append(('simulate final', [lambda a=a, b=b: m.simulate(4, 0, None, a, seed=5) for a in one_of(j, sy) for b in one_of(i, st)]))
        jobs.append(('next', [lambda a=a: m.next(a, 'both', False, 3) for a in one_of(i, st)] + [lambda a=a: (st[m.next(a, 'both', True, 3)[0]], sy[m.next(a, 'both', True, 3)[1]]) for a in one_of(i, st)]))
        jobs.append(('next state', [lambda a=a: m.next(a, 'state', False, 3) for a in one_of(i, st)] + [lambda a=a: st[m.next(a, 'state', True, 3)] for a in one_of(i, st)]))
        jobs.append(('next symbol', [lambda a=a: m.next(a, 'symbol', False, 3) for a in one_of(i, st)] + [lambda a=a: sy[m.next(a, 'symbol', True, 3)] for a in one_of(i, st)]))
        jobs.append(('simulate', [lambda a=a: m.simulate(4, a, seed=5) for a in one_of(i, st)] + [lambda a=a: (named(m.simulate(4, a, None, None, True, 5)[0], st), named(m.simulate(4, a, None, None, True, 5)[1], sy)) for a in one_of(i, st)]))
        jobs.append(('simulate final state', [lambda a=a: m.simulate(5, 0, a, None, False, 5) for a in one_of(i, st)]))
    for s in itertools.product(range(k), repeat=3):
        forms = [list(s), [sy[i] for i in s]]
        for i in [None] + list(range(n)):
            inits = [None] if i is None else one_of(i, st) + [np.eye(n)[i]]
            jobs.append(('decode', [lambda a=a, b=b: m.decode(a, b) for a in forms for b in inits]))
            for p in ('map', 'viterbi'):
                jobs.append(('predict ' + p, [lambda a=a, b=b, p=p: m.predict(p, a, b) for a in forms for b in inits] + [lambda a=a, b=b, p=p: indexed(m.predict(p, a, b, True), st) for a in forms for b in inits]))
    for a in subsets(n, True):
        for b in subsets(k, True):
            jobs.append(('restrict', [lambda x=x, y=y: plain(m.restrict(x, y)) for x in denotations(a, st)[:12] for y in denotations(b, sy)[:6]]))
    walks = [([0, 1, n - 1, 0], s) for s in itertools.product(range(k), repeat=4)][:16]
    for a, b in walks:
        jobs.append(('estimate', [lambda x=x, y=y: plain(pydtmc.HiddenMarkovModel.estimate(st, sy, x, y)) for x in (list(a), [st[i] for i in a]) for y in (list(b), [sy[i] for i in b])]))
    run_denotations(ctx, jobs)


def named(a, names):
    return None if a is None else [names[i] for i in a]


def indexed(a, names):
    return None if a is None else (a[0], named(a[1], names))


def plain(x):
    if hasattr(x, 'p') and hasattr(x, 'states'):
        return (x.p, list(x.states)) + ((x.e, list(x.symbols)) if hasattr(x, 'symbols') else ())
    if isinstance(x, tuple) and len(x) == 3 and isinstance(x[2], dict):
        return signature(x)
    return x


def run_denotations(ctx, jobs):
    for name, calls in jobs:
        first = None
        for t, f in enumerate(calls):
            try:
                a = f()
            except Exception as ex:
                a = ('error', type(ex).__name__)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.nontrivial += t > 0
            if t == 0:
                first = a
            elif not like(a, first, 0.0):
                ctx.fail('denotation', f'{name}, way {t}: got {short(a)}, by index {short(first)}')
                break


def check(ctx, case):
    {'chain': check_chain, 'hmm': check_hmm, 'fit': check_fit, 'denote': check_denote, 'denote-hmm': check_denote_hmm}[case['k']](ctx, case)


# enumeration ---------------------------------------------------------------


def representatives(spec):
    """One matrix per class of matrices equal up to a permutation."""
    if spec[0] == 'orbits':
        n, d = spec[1], spec[2]
        for N in fam.grid(n, d):
            t = tuple(map(tuple, N))
            if all(t <= tuple(tuple(N[i][j] for j in p) for i in p) for p in itertools.permutations(range(n))):
                yield N
    else:
        yield from fam.matrices(spec)


def jobs(tier, seed):
    out = []
    if tier == 'quick':
        chains = [(('orbits', 2, 4), 2), (('orbits', 3, 2), 4), (('can', 3, 'd', [0]), 8), (('list', list(fam.matrices(('can', 4, 'd', [0])))[::23]), 24), (('fun', 3), 2), (('wide', [11], 'd', [3]), 10)]
        hs = [(('list', list(fam.matrices(('grid', 2, 4)))[::3]), ('list', list(hmms.emissions(('grid', 2, 2, 4)))[::4]), [2, 3], 8), (('list', list(fam.matrices(('can', 3, 'd', [0])))[::17]), ('list', list(hmms.emissions(('sup', 3, 2, 'd')))[::9]), [2], 8)]
        fits = [(2, 5, 2), (3, 4, 6)]
        den = [(('can', 3, 'd', [0]), 8, 4), (('can', 2, 'd', [0]), 1, 1)]
        dh = [(('list', list(fam.matrices(('can', 3, 'd', [0])))[::29]), ('list', list(hmms.emissions(('sup', 3, 2, 'd')))[::13]), 4)]
    else:
        chains = [(('orbits', 2, 8), 4), (('orbits', 3, 3), 16), (('can', 3, 's', [0]), 8), (('can', 3, 'd', [0, 1]), 8), (('can', 4, 'd', [0]), 128), (('fun', 4), 16), (('list', [N for N in fam.matrices(('struct', 'd', [0])) if len(N) == 5]), 24), (('wide', [10, 11], 'd', [0, 3]), 40)]
        hs = [(('grid', 2, 4), ('grid', 2, 2, 4), [2, 3, 4], 24), (('can', 3, 'd', [0]), ('list', list(hmms.emissions(('sup', 3, 2, 'd')))[::3]), [2, 3], 32), (('list', list(fam.matrices(('can', 3, 'd', [0])))[::7]), ('list', list(hmms.emissions(('sup', 3, 3, 'd')))[::17]), [2], 16)]
        fits = [(2, 7, 8), (3, 5, 16), (4, 4, 16)]
        den = [(('can', 3, 'd', [0]), 8, 1), (('can', 2, 's', [0]), 1, 1), (('list', list(fam.matrices(('can', 4, 'd', [0])))[::97]), 8, 1)]
        dh = [(('list', list(fam.matrices(('can', 3, 'd', [0])))[::11]), ('list', list(hmms.emissions(('sup', 3, 3, 'd')))[::31]), 16)]
    for s, k in chains:
        out += [('chain', s, i, k) for i in range(k)]
    for a, b, r, k in hs:
        out += [('hmm', a, b, r, i, k) for i in range(k)]
    for n, r, k in fits:
        out += [('fit', n, r, i, k) for i in range(k)]
    for s, k, step in den:
        out += [('denote', s, i, k, step) for i in range(k)]
    for a, b, k in dh:
        out += [('denote-hmm', a, b, i, k) for i in range(k)]
    return out


def cases(job):
    if job[0] == 'chain':
        for idx, N in enumerate(itertools.islice(representatives(job[1]), job[2], None, job[3])):
            yield {'k': 'chain', 'N': N, 'L': idx + job[2]}
    elif job[0] == 'hmm':
        for idx, (N, E) in enumerate(itertools.islice(hmms.models(job[1], job[2]), job[4], None, job[5])):
            yield {'k': 'hmm', 'N': N, 'E': E, 'r': job[3], 'L': idx}
    elif job[0] == 'fit':
        _, n, r, i, k = job
        for idx, s in enumerate(itertools.islice((s for L in range(2, r + 1) for s in itertools.product(range(n), repeat=L)), i, None, k)):
            yield {'k': 'fit', 'n': n, 's': list(s), 'h': [(x * 2 + t * t) % 3 % 2 for t, x in enumerate(s)] if idx % 2 else [(t // 2 + x) % 2 for t, x in enumerate(s)], 'em': idx % 4 == 0, 'L': idx}
    elif job[0] == 'denote':
        for idx, N in enumerate(itertools.islice(fam.matrices(job[1]), job[2] * job[4], None, job[3] * job[4])):
            yield {'k': 'denote', 'N': N, 'L': fam.MODES[(idx + job[2]) % 4]}
    else:
        for idx, (N, E) in enumerate(itertools.islice(hmms.models(job[1], job[2]), job[3], None, job[4])):
            yield {'k': 'denote-hmm', 'N': N, 'E': E, 'L': fam.MODES[(idx + job[3]) % 4]}
