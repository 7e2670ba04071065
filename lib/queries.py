"""The catalogue of queries on models, and the comparison, snapshot and alteration of arbitrary results."""

import types

import numpy as np

TYPES = {
    'ergodic': ([[0.5, 0.25, 0.25], [0.125, 0.5, 0.375], [0.25, 0.375, 0.375]], ['b', 'a', 'c']),
    'reversible': ([[0.5, 0.5, 0.0], [0.25, 0.5, 0.25], [0.0, 0.5, 0.5]], ['x', 'y', 'z']),
    'periodic': ([[0.0, 0.5, 0.0, 0.5], [0.25, 0.0, 0.75, 0.0], [0.0, 1.0, 0.0, 0.0], [0.5, 0.0, 0.5, 0.0]], ['10', '9', '2', '1']),
    'absorbing': ([[1.0, 0.0, 0.0, 0.0], [0.25, 0.25, 0.5, 0.0], [0.0, 0.5, 0.0, 0.5], [0.0, 0.0, 0.0, 1.0]], ['A', 'B', 'C', 'D']),
    'canonical': ([[0.5, 0.25, 0.25], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], ['t', 'u', 'v']),
    'reducible': ([[0.5, 0.5, 0.0, 0.0, 0.0], [0.25, 0.75, 0.0, 0.0, 0.0], [0.25, 0.0, 0.25, 0.5, 0.0], [0.0, 0.0, 0.0, 0.0, 1.0], [0.0, 0.0, 0.0, 1.0, 0.0]], ['1', '2', '3', '4', '5']),
    'identity': ([[1.0, 0.0], [0.0, 1.0]], ['I', 'J']),
    'lumpable': ([[0.25, 0.25, 0.5, 0.0], [0.5, 0.0, 0.25, 0.25], [0.25, 0.25, 0.25, 0.25], [0.25, 0.25, 0.5, 0.0]], ['q', 'r', 's', 't']),
    'unichain': ([[0.5, 0.5, 0.0], [0.0, 0.0, 1.0], [0.0, 1.0, 0.0]], ['T', 'R', 'S']),
}
HIDDEN = {
    'hmm': (TYPES['ergodic'][0], [[0.5, 0.5], [0.25, 0.75], [1.0, 0.0]], ['b', 'a', 'c'], ['x', 'w']),
    'hmm-reducible': (TYPES['canonical'][0], [[0.5, 0.25, 0.25], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0]], ['t', 'u', 'v'], ['m', 'l', 'k']),
}


def build(kind):
    import pydtmc
    if kind in TYPES:
        p, s = TYPES[kind]
        return pydtmc.MarkovChain(np.array(p), list(s))
    p, e, s, y = HIDDEN[kind]
    return pydtmc.HiddenMarkovModel(np.array(p), np.array(e), list(s), list(y))


def properties(cls):
    """(primary names, {alias: primary}) of the public properties, found by inspection."""
    props = {k: v for k, v in vars(cls).items() if isinstance(v, property) and not k.startswith('_')}
    alias = {}
    for k, v in props.items():
        if v.fget.__name__ != k:
            alias[k] = v.fget.__name__
    return [k for k in props if k not in alias], alias


def mc_calls(st):
    """(name of the method, function of nothing that makes fresh arguments)."""
    n = len(st)

    def dist():
        return [2.0 * (i + 1) / (n * (n + 1)) for i in range(n)]

    def seq():
        return [st[i % n] for i in range(4)]
    out = [
        ('absorption_probabilities', lambda: ()), ('mean_absorption_times', lambda: ()), ('mean_number_visits', lambda: ()), ('mean_recurrence_times', lambda: ()),
        ('are_communicating', lambda: (st[0], 1)), ('is_accessible', lambda: (0, st[-1])), ('is_absorbing_state', lambda: (0,)), ('is_cyclic_state', lambda: (st[-1],)), ('is_recurrent_state', lambda: (st[0],)), ('is_transient_state', lambda: (0,)),
        ('closest_reversible', lambda: (np.array(dist()), True)), ('committor_probabilities', lambda: ('forward', [0], [st.index(st[1])])), ('committor_probabilities', lambda: ('backward', [st[1]], [st[0]])),
        ('conditional_probabilities', lambda: (0,)), ('expected_rewards', lambda: (3, np.arange(n) * 0.5)), ('expected_rewards', lambda: (2, [1.0] * n)), ('expected_transitions', lambda: (2, np.array(dist()))), ('expected_transitions', lambda: (50,)),
        ('first_passage_probabilities', lambda: (4, 0)), ('first_passage_probabilities', lambda: (3, st[0], [st[1]])), ('first_passage_reward', lambda: (4, 0, [st[1]], [1.5] * n)), ('hitting_probabilities', lambda: ()), ('hitting_probabilities', lambda: ([0],)),
        ('hitting_probabilities', lambda: ([st[1], st[0]],)), ('hitting_times', lambda: ()), ('hitting_times', lambda: ([1],)), ('lump', lambda: ([[0, 1], list(range(2, n))] if n > 2 else [[0], [1]],)), ('mean_first_passage_times_between', lambda: ([0], [1])),
        ('mean_first_passage_times_to', lambda: ()), ('mean_first_passage_times_to', lambda: ([st[0]],)), ('mixing_time', lambda: ()), ('mixing_time', lambda: (dist(), 2, 'traditional')), ('predict', lambda: (3, 0)), ('predict', lambda: (2, st[1], True)),
        ('redistribute', lambda: (3, None, False)), ('redistribute', lambda: (2, np.array(dist()))), ('redistribute', lambda: (3, st[0], False)), ('sensitivity', lambda: (0,)), ('sequence_probability', lambda: (seq(),)), ('sequence_probability', lambda: ([0, 0],)),
        ('simulate', lambda: (5, 0, None, False, 3)), ('next', lambda: (0, False, 5)), ('time_correlations', lambda: (seq(),)), ('time_correlations', lambda: (seq(), [st[0], st[1]], [0, 1, 3])), ('time_relaxations', lambda: (seq(),)),
        ('time_relaxations', lambda: (seq(), dist(), [1, 2])), ('to_bounded_chain', lambda: ('absorbing',)), ('to_bounded_chain', lambda: (0.25,)), ('to_canonical_form', lambda: ()), ('to_dictionary', lambda: ()), ('to_graph', lambda: ()),
        ('to_lazy_chain', lambda: ([0.5] * n,)), ('to_lazy_chain', lambda: ()), ('to_matrix', lambda: ()), ('to_nth_order', lambda: (2,)), ('to_subchain', lambda: ([st[-1]],)), ('transition_probability', lambda: (st[0], 1)),
        ('__str__', lambda: ()), ('__repr__', lambda: ()), ('__hash__', lambda: ()),
        # refused calls
        ('hitting_times', lambda: ([n],)), ('expected_rewards', lambda: (3, [1.0])), ('to_lazy_chain', lambda: (2.0,)), ('aggregate', lambda: (n, 'none')),
    ]
    if n > 3:
        out += [('aggregate', lambda: (2, 'spectral-top-down')), ('aggregate', lambda: (3, 'spectral-bottom-up'))]
    return out


def hmm_calls(st, sy):
    n = len(st)

    def dist():
        return [2.0 * (i + 1) / (n * (n + 1)) for i in range(n)]

    def seq():
        return [sy[i % len(sy)] for i in range(4)]
    return [
        ('decode', lambda: (seq(),)), ('decode', lambda: (seq(), np.array(dist()))), ('decode', lambda: ([0, 1], st[0], False)), ('decode', lambda: (seq(), None, False)), ('emission_probability', lambda: (sy[0], st[1])), ('transition_probability', lambda: (0, st[-1])),
        ('next', lambda: (0, 'both', False, 3)), ('next', lambda: (st[1], 'symbol', True, 3)), ('predict', lambda: ('map', seq())), ('predict', lambda: ('viterbi', seq(), dist(), True)), ('predict', lambda: ('mle', [1, 0])), ('predict', lambda: ('mle', seq(), st[0])),
        ('restrict', lambda: ([st[0], st[1]],)), ('restrict', lambda: (None, [0, 1])), ('simulate', lambda: (5, 0, None, None, False, 4)), ('simulate', lambda: (4, st[0], None, sy[0], True, 4)), ('to_dictionary', lambda: ()), ('to_graph', lambda: ()), ('to_matrices', lambda: ()),
        ('__str__', lambda: ()), ('__repr__', lambda: ()), ('__hash__', lambda: ()), ('decode', lambda: ([],)), ('predict', lambda: ('map', ['none'])),
    ]


class Query:

    def __init__(self, name, args=None):
        self.name = name
        self.args = args

    def run(self, model):
        """(answer, result, arguments): the answer is a snapshot."""
        args = self.args() if self.args is not None else ()
        try:
            r = getattr(model, self.name) if self.args is None else getattr(model, self.name)(*args)
        except Exception as ex:
            return ('raises', type(ex).__name__, str(ex)), None, args
        return ('value', freeze(r)), r, args

    def __repr__(self):
        return self.name if self.args is None else f'{self.name}{self.args()}'


def catalogue(kind):
    import pydtmc
    m = build(kind)
    names, alias = properties(type(m))
    calls = mc_calls(list(m.states)) if kind in TYPES else hmm_calls(list(m.states), list(m.symbols))
    return [Query(k) for k in names] + [Query(k, a) for k, a in calls], alias


def method_aliases(cls):
    out = {}
    for k, v in vars(cls).items():
        f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v
        if isinstance(f, types.FunctionType) and not k.startswith('_') and f.__name__ != k:
            out[k] = f.__name__
    return out


def freeze(x):
    """A snapshot which shares nothing with x."""
    import networkx as nx
    if isinstance(x, np.ndarray):
        return ('nd', x.dtype.kind, x.shape, x.copy())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, dict):
        return ('dict', tuple((freeze(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, nx.Graph):
        return ('graph', type(x).__name__, freeze(dict(x.graph)), tuple((k, freeze(d)) for k, d in x.nodes(data=True)), tuple((a, b, freeze(d)) for a, b, d in x.edges(data=True)))
    if hasattr(x, 'p') and hasattr(x, 'states'):
        return ('model', type(x).__name__, freeze(x.p), tuple(x.states)) + ((freeze(x.e), tuple(x.symbols)) if hasattr(x, 'symbols') else ())
    return (type(x).__name__, x)


def agree(a, b, tol=1e-9):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and (bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)) if a.dtype.kind in 'fcib' and b.dtype.kind in 'fcib' else a.tolist() == b.tolist() or repr(a.tolist()) == repr(b.tolist()))
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return len(a) == len(b) and all(agree(x, y, tol) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, (float, np.floating)):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def alter(x, depth=0):
    """Changes in place everything that can be reached from x and can be changed; returns the number of changes."""
    import networkx as nx
    n = 0
    if depth > 6 or x is None or isinstance(x, (str, bytes, bool, int, float, complex, np.generic)):
        return 0
    if isinstance(x, np.ndarray):
        if not x.flags.writeable:
            try:
                x.flags.writeable = True
            except ValueError:
                return 0
        x[...] = True if x.dtype.kind == 'b' else 7
        return 1
    if isinstance(x, list):
        n = sum(alter(v, depth + 1) for v in x)
        x.reverse()
        x.append('altered')
        x[0:1] = ['altered']
        return n + 1
    if isinstance(x, tuple):
        return sum(alter(v, depth + 1) for v in x)
    if isinstance(x, dict):
        n = sum(alter(v, depth + 1) for v in x.values())
        x.clear()
        x['altered'] = 1
        return n + 1
    if isinstance(x, nx.Graph):
        for d in list(x.nodes(data=True)):
            d[1]['type'] = 'altered'
        for d in list(x.edges(data=True)):
            d[2]['weight'] = 7.0
            d[2]['type'] = 'altered'
        x.add_node('altered')
        x.remove_nodes_from(list(x)[:1])
        return 1
    if hasattr(x, 'p') and hasattr(x, 'states'):
        for name in ('p', 'states', 'e', 'symbols'):
            if hasattr(x, name):
                n += alter(getattr(x, name), depth + 1)
        n += alter(x.to_graph(), depth + 1)
        return n
    return 0
