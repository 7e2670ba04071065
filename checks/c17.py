import itertools
import math
import random

from lib import families as fam
from lib import hmms

import networkx as nx
import numpy as np

PROPERTY = 'C17'
RULE = ('every model of the enumerated families: to and from dictionaries (all orders of entries for two states, rotations and reversals for more, every single entry dropped, renamed or made illegal), graphs '
        '(all orders of nodes, orders of edges, weights multiplied by constants of very different magnitude, rows without edges, multigraphs, ill-typed nodes, edges and weights) and matrices (several containers); '
        'non-trivial: null rows or probabilities, illegal inputs')
ASSUMPTIONS = ['the order of the states is that of the diagonal entries of a dictionary and of the nodes of a graph', 'normalised numbers are compared within 1e-12, numbers stored as they are exactly',
               'edges of null weight are neither required nor rejected', 'documented errors are ValidationError and, for dictionaries, ValueError']

SCALES = [1.0, 3.0, 2.0 ** -40, 1e-9, 1e-300, 1e300, 1e303]


def scales(M):
    """The scales, without overflow of the sums of rows."""
    return [min(s, 1e305 / max(map(max, M)) / (len(M[0]) + 1) / (len(M) + 1)) for s in SCALES]


def jobs(tier, seed):
    if tier == 'quick':
        mc = [(('sup', 2, 't'), 1), (('list', list(fam.matrices(('sup', 3, 't')))[::9]), 12), (('sup', 2, 'd'), 1), (('grid', 2, 4), 4), (('list', list(fam.matrices(('sup', 3, 'd')))[::6]), 24), (('list', list(fam.matrices(('fun', 4)))[::37]), 4), (('ring', [5, 12], 's'), 16)]
        hm = [(('sup', 2, 't'), ('list', list(hmms.emissions(('sup', 2, 3, 't')))[::2]), 8), (('sup', 2, 'd'), ('sup', 2, 2, 'd'), 8), (('sup', 2, 'u'), ('list', list(hmms.emissions(('sup', 2, 3, 's')))[::3]), 8), (('list', list(fam.matrices(('sup', 3, 'd')))[5::41]), ('list', list(hmms.emissions(('sup', 3, 2, 'd')))[::5]), 8)]
    else:
        mc = [(('sup', 2, 't'), 1), (('sup', 3, 't'), 48), (('sup', 2, 's'), 2), (('grid', 2, 9), 16), (('sup', 3, 'd'), 96), (('fun', 4), 32), (('ring', [5, 12, 20], 's'), 16), (('list', list(fam.matrices(('sup', 4, 'd')))[::211]), 96)]
        hm = [(('sup', 2, 't'), ('sup', 2, 3, 't'), 16), (('sup', 2, 'd'), ('sup', 2, 2, 'd'), 16), (('sup', 2, 'u'), ('sup', 2, 3, 's'), 48), (('list', list(fam.matrices(('sup', 3, 'd')))[5::11]), ('list', list(hmms.emissions(('sup', 3, 2, 'd')))), 96),
              (('list', list(fam.matrices(('sup', 3, 'd')))[5::41]), ('list', list(hmms.emissions(('sup', 3, 3, 'd')))[::5]), 96)]
    mc.append((('list', list(fam.matrices(('wide', [11], 't', [0, 3])))), 10))
    hm.append((('list', list(fam.matrices(('wide', [11], 'd', [3])))[::2]), ('wide', 11, 13), 10))
    hm.append((('list', list(fam.matrices(('wide', [13], 'd', [3])))[::3]), ('wide', 13, 2), 10))
    return [('mc', s, i, k) for s, k in mc for i in range(k)] + [('hmm', a, b, i, k) for a, b, k in hm for i in range(k)]


def cases(job):
    if job[0] == 'mc':
        for idx, N in enumerate(itertools.islice(fam.matrices(job[1]), job[2], None, job[3])):
            yield {'N': N, 'L': fam.MODES[(idx + job[2]) % 4], 'x': idx}
    else:
        for idx, c in enumerate(hmms.case_iter(job[1:])):
            c['x'] = idx
            yield c


def rejected(ctx, kind, f, msg):
    import pydtmc
    ctx.traces += 1
    ctx.nontrivial += 1
    try:
        v = f()
    except (pydtmc.ValidationError, ValueError) as ex:
        if kind.startswith('graph') and not isinstance(ex, pydtmc.ValidationError):
            ctx.fail(kind + ' error', f'{msg}: {type(ex).__name__} {ex}')
        return
    except Exception as ex:
        ctx.fail(kind + ' error', f'{msg}: {type(ex).__name__} {ex}')
        return
    ctx.fail(kind + ' accepted', f'{msg}: {v.p.tolist()} {v.states}')


def orders(keys, x):
    keys = list(keys)
    if len(keys) <= 4:
        return [list(o) for o in itertools.permutations(keys)]
    out = [keys, keys[::-1], keys[1:] + keys[:1], keys[::2] + keys[1::2], sorted(keys), sorted(keys, key=lambda k: k[::-1])]
    for i in range(2):
        o = list(keys)
        random.Random(x * 7 + i).shuffle(o)
        out.append(o)
    return out


def check(ctx, case):
    import pydtmc
    if 'E' in case:
        return check_hmm(ctx, case)
    N = case['N']
    n = len(N)
    st = fam.labels(case['L'], n)
    p = np.array([[v / sum(r) for v in r] for r in N])
    mc = pydtmc.MarkovChain(p, st)
    ctx.states += 1
    ctx.nontrivial += 0 in sum(N, [])
    MC = pydtmc.MarkovChain
    # dictionary
    d = mc.to_dictionary()
    ctx.same('dictionary', list(d.items()), [((st[i], st[j]), p[i, j]) for i in range(n) for j in range(n)])
    back = MC.from_dictionary(d)
    ctx.expect(back == mc and back.states == st and np.array_equal(back.p, p), 'dictionary round trip', lambda: f'{back.p} {back.states}')
    ctx.traces += 1
    for o in orders(d, case['x']):
        m = MC.from_dictionary({k: d[k] for k in o})
        ctx.transitions += 1
        exp = [k[0] for k in o if k[0] == k[1]]
        ctx.same('dictionary order', m.states, exp)
        ix = [st.index(s) for s in exp]
        ctx.same('dictionary values', m.p, p[np.ix_(ix, ix)])
    for k in list(d)[:: 1 if n < 4 else 3]:
        e = {q: v for q, v in d.items() if q != k}
        rejected(ctx, 'dictionary', lambda: MC.from_dictionary(e), f'without {k}')
        for v in (float('nan'), -0.25, 1.5, math.inf, None, '0.5', d[k] + 0.25 if d[k] < 0.75 else d[k] - 0.25, d[k] + 1e-4 if d[k] < 0.5 else d[k] - 1e-4):
            bad = dict(d)
            bad[k] = v
            rejected(ctx, 'dictionary', lambda: MC.from_dictionary(bad), f'{k}: {v}')
        bad = {(q if q != k else (q[0] + 'z', q[1])): v for q, v in d.items()}
        rejected(ctx, 'dictionary', lambda: MC.from_dictionary(bad), f'{k} renamed')
        for q in ((k[0],), k + ('a',), (k[0], 1), (k[0], ' '), 'ab', None):
            bad = dict(d)
            bad[q] = 0.0
            rejected(ctx, 'dictionary', lambda: MC.from_dictionary(bad), f'key {q}')
    rejected(ctx, 'dictionary', lambda: MC.from_dictionary({}), 'empty')
    rejected(ctx, 'dictionary', lambda: MC.from_dictionary({('a', 'a'): 1.0}), 'one state')
    ints = {(st[i], st[j]): int(i == (j + 1) % n) for i in range(n) for j in range(n)}
    ctx.same('dictionary of integers', MC.from_dictionary(ints).p, np.array([[float(i == (j + 1) % n) for j in range(n)] for i in range(n)]))
    # graph
    g = mc.to_graph()
    ctx.same('graph nodes', [list(g.nodes), type(g) is nx.DiGraph], [st, True])
    ctx.same('graph edges', sorted(g.edges(data='weight')), sorted((st[i], st[j], p[i, j]) for i in range(n) for j in range(n) if p[i, j] > 0))
    back = MC.from_graph(g)
    ctx.same('graph round trip', back.states, st)
    ctx.close('graph round trip', back.p, p, 1e-12, 1e-15)
    g.remove_node(st[0])
    ctx.same('graph is a copy', len(mc.to_graph()), n)
    perms = list(itertools.permutations(range(n))) if n <= 3 else [tuple(range(n))[::-1], tuple(range(1, n)) + (0,)]
    edges = [(i, j) for i in range(n) for j in range(n) if N[i][j]]
    for idx, o in enumerate(perms):
        for m, es in enumerate(orders(edges, case['x'])[:6]):
            scale = scales(N)[(idx + m) % len(SCALES)]
            G = (nx.MultiDiGraph if (idx + m) % 3 == 2 else nx.DiGraph)()
            G.add_nodes_from([st[i] for i in o])
            for i, j in es:
                w = N[i][j] * scale * (i + 1)
                G.add_edge(st[i], st[j], weight=np.float64(w) if j % 2 else (int(w) if w == int(w) and w < 1e15 else w))
            mm = MC.from_graph(G)
            ctx.transitions += 1
            ctx.same('graph order', mm.states, [st[i] for i in o])
            ctx.close('graph values', mm.p, p[np.ix_(o, o)], 1e-12, 1e-15)
    for i in range(n):  # no edges from one state
        G = nx.DiGraph()
        G.add_nodes_from(st)
        G.add_weighted_edges_from((st[a], st[b], N[a][b]) for a, b in edges if a != i)
        q = p.copy()
        q[i] = 1.0 / n
        ctx.close('graph with an empty row', MC.from_graph(G).p, q, 1e-12, 1e-15)
    a, b = edges[case['x'] % len(edges)]
    for w in (-1.0, 'x', None, math.nan, -math.inf, math.inf, 1j, '1'):
        G = nx.DiGraph()
        G.add_nodes_from(st)
        G.add_weighted_edges_from((st[i], st[j], N[i][j]) for i, j in edges)
        G[st[a]][st[b]]['weight'] = w
        rejected(ctx, 'graph', lambda: MC.from_graph(G), f'weight {w}')
    G = nx.DiGraph()
    G.add_weighted_edges_from((i, j, N[i][j]) for i, j in edges)
    rejected(ctx, 'graph', lambda: MC.from_graph(G), 'numbers as nodes')
    rejected(ctx, 'graph', lambda: MC.from_graph(nx.Graph(mc.to_graph())), 'undirected')
    rejected(ctx, 'graph', lambda: MC.from_graph(p), 'matrix')
    G = nx.DiGraph()
    G.add_edge('a', 'a', weight=1)
    rejected(ctx, 'graph', lambda: MC.from_graph(G), 'one node')
    G = nx.DiGraph()
    G.add_nodes_from(st)
    G.add_edges_from((st[i], st[j]) for i, j in edges)
    rejected(ctx, 'graph', lambda: MC.from_graph(G), 'no weights')
    # matrix
    m = mc.to_matrix()
    ctx.same('matrix', m, p)
    m[0, 0] = 7.0
    ctx.same('matrix is a copy', mc.p, p)
    matrices(ctx, N, lambda M, idx: MC.from_matrix(M) if idx % 2 else MC.from_matrix(M, st), lambda h: h.p, lambda h: h.states, st, [str(i + 1) for i in range(n)])
    for bad in ([[1.0]], [[1, 2], [3]], N[:-1], [r[:-1] for r in N], [[-1.0] + r[1:] for r in N], [[math.nan] + r[1:] for r in N], [[math.inf] + r[1:] for r in N], [['x'] + r[1:] for r in N], N[0], None):
        rejected(ctx, 'matrix', lambda: MC.from_matrix(bad), f'{bad}')
    for bad in (st[:-1], st + ['x'], st[:-1] + [st[0]], st[:-1] + [' '], 'ab', [1] * n):
        rejected(ctx, 'matrix labels', lambda: MC.from_matrix(N, bad), f'{bad}')


def matrices(ctx, N, make, get, labels, st, default):
    import pandas as pd
    import scipy.sparse as sp
    n = len(N)
    p = [[v / sum(r) for v in r] for r in N]
    M = [[v * (i + 2) for v in r] for i, r in enumerate(N)]
    forms = [M, np.array(M), np.array(M, dtype=float), np.array(M, dtype=np.float32 if max(map(max, M)) < 2**20 else np.longdouble), np.array(M, dtype=np.int16 if max(map(max, M)) < 2**15 else np.uint64), pd.DataFrame(M), sp.csr_matrix(M), sp.coo_matrix(np.array(M, dtype=float)), np.asfortranarray(M), [tuple(r) for r in M] and [list(r) for r in M]]
    sc = scales(M)
    forms += [np.array(M) * s for s in sc[1:]] + [np.array([[float(v) * sc[i % len(sc)] for v in r] for i, r in enumerate(M)])]
    for idx, f in enumerate(forms):
        keep = f.copy() if hasattr(f, 'copy') and not isinstance(f, list) else [list(r) for r in f]
        h = make(f, idx)
        ctx.transitions += 1
        ctx.close(f'matrix {type(f).__name__}', get(h), p, 1e-12, 1e-15)
        ctx.same('matrix labels', labels(h), default if idx % 2 else st)
        ok = (f != keep).nnz == 0 if hasattr(f, 'nnz') else bool(np.array_equal(np.asarray(f), np.asarray(keep)))
        ctx.expect(ok, 'matrix modified', type(f).__name__)
    for i in range(n):
        Z = [list(r) if a != i else [0] * len(r) for a, r in enumerate(M)]
        exp = [list(r) if a != i else [1.0 / len(r)] * len(r) for a, r in enumerate(p)]
        ctx.close('matrix with an empty row', get(make(Z, 0)), exp, 1e-12, 1e-15)
        ctx.nontrivial += 1


def check_hmm(ctx, case):
    import pydtmc
    H = pydtmc.HiddenMarkovModel
    N, E = case['N'], case['E']
    n, k = len(N), len(E[0])
    st, sy = hmms.labels(case['L'], n, k)
    p, e = np.array(hmms.floats(N)), np.array(hmms.floats(E))
    h = H(p, e, st, sy)
    ctx.states += 1
    d = h.to_dictionary()
    exp = {('P', st[i], st[j]): p[i, j] for i in range(n) for j in range(n)}
    exp.update({('E', st[i], sy[j]): e[i, j] for i in range(n) for j in range(k)})
    ctx.expect(d == exp, 'dictionary', lambda: f'{d}')
    ctx.expect([q[1] for q in d if q[0] == 'P' and q[1] == q[2]] == st and [q[2] for q in d if q[:2] == ('E', st[0])] == sy, 'dictionary order', lambda: f'{list(d)}')
    ctx.expect(H.from_dictionary(d) == h, 'dictionary round trip', '')
    ctx.traces += 3
    for o in orders(d, case['x']):
        m = H.from_dictionary({q: d[q] for q in o})
        ctx.transitions += 1
        s1 = [q[1] for q in o if q[0] == 'P' and q[1] == q[2]]
        ctx.expect(m.states == s1 and sorted(m.symbols) == sorted(sy), 'dictionary order', lambda: f'{o}: {m.states} {m.symbols}')
        ix, jx = [st.index(s) for s in m.states], [sy.index(s) for s in m.symbols]
        ctx.same('dictionary values', [m.p, m.e], [p[np.ix_(ix, ix)], e[np.ix_(ix, jx)]])
    for q in list(d)[:: 1 if n + k < 5 else 2]:
        rejected(ctx, 'dictionary', lambda: H.from_dictionary({a: v for a, v in d.items() if a != q}), f'without {q}')
        for v in (math.nan, -0.25, 1.5, None, '1', d[q] + 0.25 if d[q] < 0.75 else d[q] - 0.25, d[q] + 1e-4 if d[q] < 0.5 else d[q] - 1e-4):
            rejected(ctx, 'dictionary', lambda: H.from_dictionary({a: (v if a == q else w) for a, w in d.items()}), f'{q}: {v}')
        for b in (('X',) + q[1:], q[:2] + (' ',), q[1:], q[:2] + (q[2] + 'z',), (q[0], q[1] + 'z', q[2])):
            rejected(ctx, 'dictionary', lambda: H.from_dictionary({(b if a == q else a): w for a, w in d.items()}), f'{q} renamed {b}')
    rejected(ctx, 'dictionary', lambda: H.from_dictionary({a: v for a, v in d.items() if a[0] == 'P'}), 'no emissions')
    rejected(ctx, 'dictionary', lambda: H.from_dictionary({(a[0], a[1], st[sy.index(a[2]) % n] if a[0] == 'E' else a[2]): v for a, v in d.items()}), 'same names') if k <= n else None
    # graph
    g = h.to_graph()
    ctx.same('graph nodes', list(g.nodes(data='layer')), [(s, 1) for s in st] + [(s, 0) for s in sy])
    edges = [('P', st[i], st[j], p[i, j], N[i][j]) for i in range(n) for j in range(n) if N[i][j]] + [('E', st[i], sy[j], e[i, j], E[i][j]) for i in range(n) for j in range(k) if E[i][j]]
    ctx.same('graph edges', sorted((v['type'], a, b, v['weight']) for a, b, v in g.edges(data=True)), sorted(x[:4] for x in edges))
    back = H.from_graph(g)
    ctx.same('graph round trip', [back.states, back.symbols], [st, sy])
    ctx.close('graph round trip', back.p, p, 1e-12, 1e-15)
    ctx.close('graph round trip', back.e, e, 1e-12, 1e-15)
    nodes = [(s, 1) for s in st] + [(s, 0) for s in sy]

    def graph(nodes, edges, scale=1.0, cls=nx.DiGraph):
        G = cls()
        for s, l in nodes:
            G.add_node(s, layer=l)
        for t, a, b, _, w in edges:
            G.add_edge(a, b, type=t, weight=w * scale)
        return G

    for idx, o in enumerate(orders(nodes, case['x'])[:8]):
        es = orders(edges, case['x'] + idx)[idx % 6] if len(edges) > 4 else edges[::-1]
        m = H.from_graph(graph(o, es, min(SCALES[idx % len(SCALES)], 1e290), nx.MultiDiGraph if idx % 3 == 1 else nx.DiGraph))
        ctx.transitions += 1
        ctx.same('graph order', [m.states, m.symbols], [[s for s, l in o if l], [s for s, l in o if not l]])
        ix, jx = [st.index(s) for s in m.states], [sy.index(s) for s in m.symbols]
        ctx.close('graph values', m.p, p[np.ix_(ix, ix)], 1e-12, 1e-15)
        ctx.close('graph values', m.e, e[np.ix_(ix, jx)], 1e-12, 1e-15)
    for t in 'PE':
        for i in range(n):
            m = H.from_graph(graph(nodes, [x for x in edges if (x[0], x[1]) != (t, st[i])]))
            a, b = p.copy(), e.copy()
            (a if t == 'P' else b)[i] = 1.0 / (n if t == 'P' else k)
            ctx.close('graph with an empty row', m.p, a, 1e-12, 1e-15)
            ctx.close('graph with an empty row', m.e, b, 1e-12, 1e-15)
    x = edges[case['x'] % len(edges)]
    rest = [y for y in edges if y is not x]
    for w in (-1.0, math.nan, math.inf, -math.inf):
        rejected(ctx, 'graph', lambda: H.from_graph(graph(nodes, rest + [x[:4] + (w,)])), f'weight {w}')
    for bad in (('E', sy[0], st[0], 0, 1), ('P', sy[0], sy[1], 0, 1), ('E', sy[0], sy[1], 0, 1), ('P', st[0], sy[0], 0, 1), ('E', st[0], st[1], 0, 1), ('Q', st[0], st[1], 0, 1), (None, st[0], st[1], 0, 1)):
        rejected(ctx, 'graph', lambda: H.from_graph(graph(nodes, [y for y in edges if y[1:3] != bad[1:3]] + [bad])), f'edge {bad[:3]}')
    rejected(ctx, 'graph', lambda: H.from_graph(graph([(s, 0) for s in st] + nodes[n:], edges)), 'layers')
    rejected(ctx, 'graph', lambda: H.from_graph(graph([(s, 2) for s in st[:1]] + nodes[1:], edges)), 'layers')
    rejected(ctx, 'graph', lambda: H.from_graph(graph([(s, None) for s in st[:1]] + nodes[1:], edges)), 'layers')
    rejected(ctx, 'graph', lambda: H.from_graph(nx.Graph(g)), 'undirected')
    # matrices
    m = h.to_matrices()
    ctx.same('matrices', list(m), [p, e])
    m[0][0, 0] = m[1][0, 0] = 9.0
    ctx.same('matrices are copies', [h.p, h.e], [p, e])
    matrices(ctx, N, lambda M, idx: H.from_matrices(M, E) if idx % 2 else H.from_matrices(M, E, st, sy), lambda v: v.p, lambda v: v.states, st, [f'P{i + 1}' for i in range(n)])
    matrices(ctx, E, lambda M, idx: H.from_matrices(N, M) if idx % 2 else H.from_matrices(N, M, st, sy), lambda v: v.e, lambda v: v.symbols, sy, [f'E{i + 1}' for i in range(k)])
    for a, b in ((N, E[:-1]), (N[:-1], E), (N, [[-1.0] + r[1:] for r in E]), (N, [[math.inf] + r[1:] for r in E]), (N, [r[:1] for r in E])):
        rejected(ctx, 'matrices', lambda: H.from_matrices(a, b), f'{a} {b}')
    rejected(ctx, 'matrices labels', lambda: H.from_matrices(N, E, st, st[:1] + sy[1:]), 'same names')
