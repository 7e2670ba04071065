import itertools
import json
import os
import struct
import subprocess
import zlib

import numpy as np

from lib import families as fam
from lib import hmms
from lib import queries as q

PROPERTY = 'C29'
RULE = ('every plot with all the combinations of its options on models of every structural type (and families of chains and hidden models), with labels of special characters; '
        'the drawn figures are read back (axes, lines, images, patches, texts; the input of Graphviz and its layout) and compared with the data of the model; non-trivial: all')
ASSUMPTIONS = ['probabilities on edges are compared with the number of decimals at which they are printed', 'images rendered by Graphviz are not read: its laid out input is', 'labels with mathematical text ($) are not used',
               'the walk of a plot is the one simulated with the same seed (C12)', 'the path of a trellis is the answer of predict (C20)']

STRANGE = [['a b', 'A:B', '"q"', 'n->m', 'x;y'], ['node', 'graph', 'é', '<b>', '<b>x</b>'], ['1.5', '-3', 'a\\', '\\N', 'x\\l'], ['{r}', '[k]', '%d', '&amp;', 'a&b'], ['#1', "it's", 'a,b', 'x=1', '//c']]
_shots = []


def png(w, h):
    def chunk(t, d):
        return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))
    raw = b''.join(b'\0' + bytes((7 * (x + y) % 256 for x in range(w) for _ in range(3))) for y in range(h))
    return b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, 8, 2, 0, 0, 0)) + chunk(b'IDAT', zlib.compress(raw)) + chunk(b'IEND', b'')


def arm():
    """Graphviz is asked for the layout of what it is given instead of for an image."""
    import pydot
    if getattr(pydot.Dot.create, 'armed', False):
        return
    picture = png(40, 30)

    def create(self, *args, **kw):
        r = subprocess.run(['dot', '-Tjson'], input=self.to_string().encode(), capture_output=True)
        if r.returncode:
            raise RuntimeError(f'Graphviz: {r.stderr.decode()[:300]}')
        _shots.append(json.loads(r.stdout))
        return picture
    create.armed = True
    pydot.Dot.create = create


def drawn_text(o):
    return '\n'.join(x['text'] for x in o.get('_ldraw_', []) if x['op'] == 'T')


# models ------------------------------------------------------------------


def model(case):
    import pydtmc
    m = case['m']
    if isinstance(m, str):
        return q.build(m)
    if 'E' in m:
        st, sy = hmms.labels(m['L'], len(m['N']), len(m['E'][0])) if 'S' not in m else (STRANGE[m['S']][:len(m['N'])], STRANGE[(m['S'] + 1) % 5][:len(m['E'][0])])
        return pydtmc.HiddenMarkovModel(np.array(hmms.floats(m['N'])), np.array(hmms.floats(m['E'])), list(st), list(sy))
    st = fam.labels(m['L'], len(m['N'])) if 'S' not in m else STRANGE[m['S']][:len(m['N'])]
    return pydtmc.MarkovChain(np.array(hmms.floats(m['N'])), list(st))


def closed_classes(p):
    """(class of every state, whether it is recurrent) by reachability."""
    n = len(p)
    r = [[i == j or p[i][j] > 0 for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            for j in range(n):
                r[i][j] = r[i][j] or (r[i][k] and r[k][j])
    cls = [min(j for j in range(n) if r[i][j] and r[j][i]) for i in range(n)]
    rec = [all(r[j][i] for j in range(n) if r[i][j]) for i in range(n)]
    return cls, rec


def distributions(p, d, steps):
    out = [np.array(d)]
    for _ in range(steps):
        out.append(out[-1] @ p)
    return np.array(out)


def status(m, i):
    """The initial statuses: omitted, a label, an index, a distribution."""
    n = len(m.states)
    w = [2.0 * (k + 1) / (n * (n + 1)) for k in range(n)]
    return [(None, np.full(n, 1.0 / n)), (m.states[-1], np.eye(n)[n - 1]), (0, np.eye(n)[0]), (w, np.array(w)), (np.array([1.0 / n] * n), np.full(n, 1.0 / n))][i]


def tick_labels(axis):
    return [t.get_text() for t in axis.get_ticklabels()], [float(v) for v in axis.get_ticklocs()]


# reading of the figures ----------------------------------------------------


def plain_handles(ctx, r, count, dpi):
    """(figure, list of the data axes)."""
    import matplotlib.figure
    ctx.traces += 1
    if not isinstance(r, tuple) or len(r) != 2 or not isinstance(r[0], matplotlib.figure.Figure):
        ctx.fail('handles', f'{r!r}')
        return None, []
    f, a = r
    if count is None:
        ok = not isinstance(a, (list, tuple))
        axes = [a]
    else:
        ok = isinstance(a, list)
        axes = list(a) if ok else [a]
    ctx.expect(ok and all(x.figure is f for x in axes), 'handles', lambda: f'axes {a!r}')
    ctx.expect(f.dpi == dpi, 'dpi', lambda: f'{f.dpi}')
    return f, axes


def image(ax):
    im = ax.get_images()
    return np.asarray(im[0].get_array(), dtype=float) if len(im) == 1 else None


def matrix_of(ctx, ax, expected, what):
    got = image(ax)
    ctx.traces += 1
    if got is None or got.shape != expected.shape or not np.allclose(got, expected, rtol=0, atol=1e-9):
        ctx.fail('image', f'{what}: got {got!r}, expected {expected!r}')
        return
    im = ax.get_images()[0]
    ctx.expect(tuple(im.get_clim()) == (0.0, 1.0), 'scale', lambda: f'{what}: {im.get_clim()}')


def names_on(ctx, axis, names, what):
    labels, at = tick_labels(axis)
    ctx.traces += 1
    ctx.expect(labels == list(names) and np.allclose(at, range(len(names))), 'tick labels', lambda: f'{what}: {labels} at {at}, expected {list(names)}')


def steps_on(ctx, ax, last, what):
    """Steps 0..last are visible and every number is printed at its own place."""
    labels, at = tick_labels(ax.xaxis)
    lo, hi = ax.get_xlim()
    ctx.traces += 1
    ctx.expect(lo < 0 and hi > last, 'step out of sight', lambda: f'{what}: limits {lo} and {hi}, last step {last}')
    bad = [(s, x) for s, x in zip(labels, at) if s != str(int(round(x)))]
    ctx.expect(not bad and len(labels) == len(at), 'tick labels', lambda: f'{what}: {list(zip(labels, at))}')


# checks of the plots ---------------------------------------------------------


def check_comparison(ctx, case):
    import pydtmc
    ms = [model({'m': m}) for m in case['m']]
    names = case['names']
    em = case['um'] == 'emission'
    kw = {} if names is None else {'names': [f'n {i}' for i in range(len(ms))] if names else None}
    r = pydtmc.plot_comparison(ms, case['um'], dpi=case['dpi'], **kw)
    f, axes = plain_handles(ctx, r, len(ms), case['dpi'])
    used = [a for a in axes if a.get_images()]
    hidden = all(hasattr(m, 'e') for m in ms)
    word = 'HMM' if hidden else 'MODEL' if any(hasattr(m, 'e') for m in ms) else 'MC'
    if ctx.expect(len(used) == len(ms), 'number of axes', lambda: f'{len(used)}'):
        for i, (a, m) in enumerate(zip(used, ms)):
            matrix_of(ctx, a, np.asarray(m.e if em else m.p), f'matrix {i}')
            t = a.get_title()
            ctx.expect(t == f'n {i}' if names else (word in t and str(i + 1) in t), 'title', lambda: f'{i}: {t}')


def check_eigenvalues(ctx, case):
    import pydtmc
    m = model(case)
    r = pydtmc.plot_eigenvalues(m, dpi=case['dpi'])
    f, (a,) = plain_handles(ctx, r, None, case['dpi'])
    true = list(np.linalg.eigvals(np.asarray(m.p)).astype(complex)) + [1.0 + 0j]
    lines = a.get_lines()
    dots = [v for v in lines if v.get_linestyle() in ('None', 'none', '', ' ')]
    rings = [v for v in lines if v not in dots]
    ctx.traces += 1
    pts = [complex(x, y) for v in dots for x, y in zip(v.get_xdata(), v.get_ydata())]
    ctx.expect(all(min(abs(p - t) for t in true) < 1e-6 for p in pts) and all(pts and min(abs(p - t) for p in pts) < 1e-6 for t in true), 'eigenvalues', lambda: f'got {pts}, expected {true}')
    radii = sorted(float(np.mean(np.hypot(v.get_xdata(), v.get_ydata()))) for v in rings)
    cls, rec = closed_classes(m.p)
    absolute = sorted(abs(z) for z in true[:-1])
    ergodic = len(set(cls)) == 1 and absolute[-2] < 1.0 - 1e-6
    expected = [1.0]
    if ergodic and absolute[-2] > 1e-3:
        expected = [absolute[-2], 1.0]
    if not ergodic or absolute[-2] > 1e-3 or absolute[-2] < 1e-9:
        ctx.expect(len(radii) == len(expected) and np.allclose(radii, expected, atol=1e-6), 'circles', lambda: f'got {radii}, expected {expected}')
        texts = sorted(t.get_text() for t in a.get_legend().get_texts())
        ctx.expect(texts == (['Eigenvalues', 'Spectral Gap'] if len(expected) == 2 else ['Eigenvalues']), 'legend', lambda: f'{texts}')
    ctx.expect(all(a.get_xlim()[0] < p.real < a.get_xlim()[1] and a.get_ylim()[0] < p.imag < a.get_ylim()[1] for p in pts), 'out of sight', lambda: f'{pts}')


def vertices(patch):
    return np.asarray(patch.get_xy(), dtype=float)


def check_flow(ctx, case):
    import pydtmc
    m = model(case)
    n, steps, interval = len(m.states), case['steps'], case['interval']
    given, d0 = status(m, case['init'])
    kw = {} if case['palette'] is None else {'palette': case['palette']}
    r = pydtmc.plot_flow(m, steps, interval, given, dpi=case['dpi'], **kw)
    f, (a,) = plain_handles(ctx, r, None, case['dpi'])
    p = np.asarray(m.p)
    D = distributions(p, d0, steps * interval)[::interval]
    legend = a.get_legend()
    ctx.same('legend', [t.get_text() for t in legend.get_texts()], list(m.states))
    colors = [tuple(np.round(h.get_facecolor()[:3], 6)) for h in legend.get_patches()]
    bars = [(v, tuple(np.round(v.get_facecolor()[:3], 6)), vertices(v)) for v in a.patches]
    # bars: rectangles around an integer step; flows: everything else
    rect = [(c, x) for _, c, x in bars if len(np.unique(x[:, 0].round(9))) == 2 and abs(x[:, 0].mean() - round(x[:, 0].mean())) < 0.45 and np.isclose(np.mean([x[:, 0].min(), x[:, 0].max()]), round(np.mean([x[:, 0].min(), x[:, 0].max()])))]
    flows = [(c, x) for _, c, x in bars if len(np.unique(x[:, 0].round(9))) > 2]
    ctx.traces += 1
    gap = 0.1 / (n - 1)
    low = np.array([[0.9 * D[t, :i].sum() + gap * i for t in range(steps + 1)] for i in range(n)])
    expected = sorted((t, round(low[i, t], 7), round(0.9 * D[t, i], 7)) for i in range(n) for t in range(steps + 1))
    got = sorted((int(round(np.mean([x[:, 0].min(), x[:, 0].max()]))), x[:, 1].min(), x[:, 1].max() - x[:, 1].min()) for _, x in rect)
    ctx.expect(len(got) == len(expected) and np.allclose(got, expected, atol=1e-6), 'bars', lambda: f'got {got}, expected {expected}')
    distinct = len(set(colors)) == n
    if distinct and len(got) == len(expected):
        for c, x in rect:
            t, y = int(round(np.mean([x[:, 0].min(), x[:, 0].max()]))), x[:, 1].min()
            i = colors.index(c) if c in colors else None
            ctx.expect(i is not None and abs(low[i, t] - y) < 1e-6, 'colour of a bar', lambda: f'{c} at step {t}, {y}')
    Q = np.linalg.matrix_power(p, interval)
    expected, got = [], []
    for t in range(steps):
        for i in range(n):
            for z in range(n):
                h = 0.9 * D[t, i] * Q[i, z]
                left = low[i, t] + 0.9 * D[t, i] * Q[i, :z].sum()
                right = low[z, t + 1] + 0.9 * (D[t, :i] @ Q[:i, z])
                expected.append((t, round(left, 6), round(left + h, 6), round(right, 6), round(right + h, 6)))
    for _, x in flows:
        l, r_ = x[:, 0].min(), x[:, 0].max()
        yl, yr = x[np.isclose(x[:, 0], l), 1], x[np.isclose(x[:, 0], r_), 1]
        got.append((int(round((l + r_) / 2 - 0.5)), yl.min(), yl.max(), yr.min(), yr.max()))
    ctx.traces += 1
    if ctx.expect(len(got) == len(expected), 'flows', lambda: f'{len(got)} flows instead of {len(expected)}'):
        A, B = np.array(sorted(expected)), np.array(got)
        # every flow is matched with an expected one
        left = list(range(len(A)))
        for g in B:
            k = min(left, key=lambda i: np.abs(A[i] - g).max())
            if np.abs(A[k] - g).max() > 1e-5:
                ctx.fail('flows', f'flow {g} not among {A.tolist()}')
                break
            left.remove(k)
        if distinct:
            for (c, x), g in zip(flows, got):
                ks = [k for k in range(len(expected)) if np.abs(np.array(expected[k]) - g).max() < 1e-5]
                if g[2] - g[1] > 1e-6:
                    ctx.expect(c in colors and any((k // n) % n == colors.index(c) for k in ks), 'colour of a flow', lambda: f'{c} of flow {g}')
    texts = sorted((int(round(t.get_position()[0])), round(t.get_position()[1], 5), t.get_text()) for t in a.texts)
    shown = sorted((t, round(low[i, t] + 0.45 * D[t, i], 5), f'{D[t, i]:.3f}') for i in range(n) for t in range(steps + 1) if D[t, i] > 0.05 + 1e-9)
    border = any(abs(D[t, i] - 0.05) < 1e-9 for i in range(n) for t in range(steps + 1))
    ctx.traces += 1
    if not border:
        ctx.expect(len(texts) == len(shown) and all(x[0] == y[0] and abs(x[1] - y[1]) < 1e-4 and abs(float(x[2]) - float(y[2])) < 0.0011 for x, y in zip(texts, shown)), 'numbers', lambda: f'got {texts}, expected {shown}')
    steps_on(ctx, a, steps, 'flow')


def decimals(s):
    s = s.strip()
    return len(s.split('.')[1]) if '.' in s else 0


def prints(s, v):
    """s is v with the decimals that s has (1 to 4)."""
    try:
        k = decimals(s)
        return 1 <= k <= 4 and abs(float(s) - v) <= 0.5 * 10.0 ** -k + 1e-9
    except ValueError:
        return False


def shape_of(path):
    return 'round' if any(c in (3, 4) for c in (path.codes if path.codes is not None else [])) else f'{len(np.unique(np.asarray(path.vertices).round(6), axis=0))} corners'


def check_graph(ctx, case):
    import pydtmc
    m = model(case)
    hidden = hasattr(m, 'e')
    color, shape, edges, std = case['o']
    del _shots[:]
    r = pydtmc.plot_graph(m, color, shape, edges, std, dpi=case['dpi'])
    f, (a,) = plain_handles(ctx, r, None, case['dpi'])
    cls, rec = closed_classes(m.p)
    names = list(m.states) + (list(m.symbols) if hidden else [])
    expected = {(x, y): m.p[i, j] for i, x in enumerate(m.states) for j, y in enumerate(m.states) if m.p[i, j] > 0}
    if hidden:
        expected.update({(x, y): m.e[i, j] for i, x in enumerate(m.states) for j, y in enumerate(m.symbols) if m.e[i, j] > 0})
    if std:
        ctx.expect(not _shots, 'standard mode', 'Graphviz was used')
        f.canvas.draw()
        nodes, links = read_standard(ctx, a, names, expected, edges)
    else:
        ctx.expect(len(_shots) == 1, 'extended mode', lambda: f'{len(_shots)} graphs')
        ctx.expect(len(f.images) + len(a.get_images()) == 1, 'extended mode', 'no image')
        nodes, links = read_extended(ctx, _shots[0], edges)
    ctx.traces += 1
    if not ctx.expect(sorted(nodes) == sorted(names), 'nodes', lambda: f'got {sorted(nodes)}, expected {sorted(names)}'):
        return
    got = sorted((x, y) for x, y, *_ in links)
    if not ctx.expect(got == sorted(expected), 'edges', lambda: f'got {got}, expected {sorted(expected)}'):
        return
    if edges and not std:
        for x, y, text, *_ in links:
            ctx.expect(prints(text, expected[x, y]), 'probability of an edge', lambda: f'{x} -> {y}: {text!r}, probability {expected[x, y]}')
    if hidden:
        st, sy = set(m.states), set(m.symbols)
        for x, y, _, style, col in links:
            ctx.expect((style == 'dashed') == (y in sy), 'style of an edge', lambda: f'{x} -> {y}: {style}')
            if color and y in sy:
                ctx.expect(col == nodes[x][0], 'colour of an emission', lambda: f'{x} -> {y}: {col}, state {nodes[x][0]}')
        groups = {s: ('s', i % 9) for i, s in enumerate(m.states)} | {s: ('y',) for s in m.symbols}
        shapes = {s: s in st for s in names}
    else:
        order = sorted(set(cls), key=lambda c: (-cls.count(c), c))
        groups = {s: order.index(cls[i]) % 9 for i, s in enumerate(m.states)}
        shapes = {s: rec[i] for i, s in enumerate(m.states)}
    for k, (x, y) in enumerate(itertools.combinations(names, 2)):
        same = groups[x] == groups[y] if color else True
        ctx.expect((nodes[x][0] == nodes[y][0]) == same, 'colours of the nodes', lambda: f'{x}: {nodes[x][0]}, {y}: {nodes[y][0]}, {"same" if same else "different"} expected')
        same = shapes[x] == shapes[y] if shape else True
        ctx.expect((nodes[x][1] == nodes[y][1]) == same, 'shapes of the nodes', lambda: f'{x}: {nodes[x][1]}, {y}: {nodes[y][1]}, {"same" if same else "different"} expected')
    if shape:
        for s in names:
            ctx.expect(('round' in nodes[s][1] or nodes[s][1] == 'ellipse') == shapes[s], 'shapes of the nodes', lambda: f'{s}: {nodes[s][1]}')


def read_extended(ctx, shot, edges):
    objs = [o for o in shot['objects'] if 'nodes' not in o and '_ldraw_' in o]
    nodes, ids = {}, {}
    for o in objs:
        ids[o['_gvid']] = drawn_text(o)
        if ids[o['_gvid']] in nodes:
            ctx.fail('nodes', f'{ids[o["_gvid"]]} twice')
        nodes[ids[o['_gvid']]] = (o.get('fillcolor', 'none'), o.get('shape', 'ellipse'))
    links = []
    for e in shot.get('edges', []):
        t = drawn_text(e)
        if not edges:
            ctx.expect(t == '', 'label of an edge', lambda: t)
        links.append((ids[e['tail']], ids[e['head']], t, e.get('style'), e.get('color')))
    return nodes, links


def distance(v, xy):
    """Distance of a point from a broken line."""
    v = np.asarray(v, dtype=float)
    a, d = v[:-1], np.diff(v, axis=0)
    s = np.clip(((xy - a) * d).sum(axis=1) / np.maximum((d * d).sum(axis=1), 1e-12), 0.0, 1.0)
    return float(np.min(np.hypot(*(a + d * s[:, None] - xy).T)))


def read_standard(ctx, a, names, expected, edges):
    """Nodes by the position of their labels; edges by the ends of the arrows; probabilities by their distance from the arrows."""
    import matplotlib.patches as mp
    import networkx as nx
    place = {}
    texts = []
    spots = [(tuple(np.round(o, 6)), tuple(np.round(c.get_facecolor()[k if len(c.get_facecolor()) > k else 0], 4)), shape_of(c.get_paths()[0])) for c in a.collections for k, o in enumerate(np.asarray(c.get_offsets()))]
    at = {s[0]: s for s in spots}
    nodes = {}
    for t in a.texts:
        pos = tuple(np.round(t.get_position(), 6))
        if t.get_text() in names and pos in at and t.get_text() not in nodes:
            nodes[t.get_text()] = at[pos][1:]
            place[pos] = t.get_text()
        else:
            texts.append(t)
    ctx.expect(len(spots) == len(names), 'nodes', lambda: f'{len(spots)} nodes')
    links, arrows = [], []
    for v in a.patches:
        if isinstance(v, mp.FancyArrowPatch):
            x, y = (place.get(tuple(np.round(z, 6))) for z in v._posA_posB)
            links.append((x, y, None, 'dashed' if v.get_linestyle() not in ('solid', '-') else 'solid', tuple(np.round(v.get_edgecolor(), 4))))
            arrows.append((x, y, v))
    if not edges:
        ctx.expect(not texts, 'label of an edge', lambda: f'{[t.get_text() for t in texts]}')
        return nodes, links
    if not ctx.expect(len(texts) == len(expected), 'probability of an edge', lambda: f'{len(texts)} numbers, {len(expected)} edges'):
        return nodes, links
    if any((x, y) not in expected for x, y, _ in arrows):
        return nodes, links
    g = nx.Graph()
    for i, t in enumerate(texts):
        xy = np.asarray(t.get_transform().transform(t.get_position()), dtype=float)
        for j, (x, y, v) in enumerate(arrows):
            if not prints(t.get_text(), expected[x, y]):
                continue
            path = v._get_path_in_displaycoord()[0]
            path = path[0] if isinstance(path, list) else path
            poly = path.to_polygons(closed_only=False)
            near = distance(poly[0], xy)
            if x == y or (y, x) not in expected:
                near = min(near, distance(np.vstack([a.transData.transform(z) for z in v._posA_posB]), xy))
            if near < 1.5:
                g.add_edge(('t', i), ('e', j))
    match = nx.bipartite.maximum_matching(g, [x for x in g if x[0] == 't']) if len(g) else {}
    ctx.traces += 1
    ctx.expect(len(match) == 2 * len(texts), 'probability of an edge', lambda: f'numbers {[t.get_text() for t in texts]} not on edges with these probabilities: {expected}')
    return nodes, links


def check_redistributions(ctx, case):
    import pydtmc
    m = model(case)
    n, steps = len(m.states), case['steps']
    given, d0 = status(m, case['init'])
    kw = {} if case['type'] is None else {'plot_type': case['type']}
    r = pydtmc.plot_redistributions(m, steps, given, dpi=case['dpi'], **kw)
    f, (a,) = plain_handles(ctx, r, None, case['dpi'])
    D = distributions(np.asarray(m.p), d0, steps)
    steps_on(ctx, a, steps, 'redistributions')
    if case['type'] == 'heatmap':
        matrix_of(ctx, a, D.T, 'redistributions')
        names_on(ctx, a.yaxis, m.states, 'redistributions')
        return
    lines = {v.get_label(): v for v in a.get_lines()}
    uniform = np.allclose(d0, 1.0 / n)
    ctx.same('legend', [t.get_text() for t in a.get_legend().get_texts()], list(m.states) + (['Start'] if uniform else []))
    ctx.expect(len(a.get_lines()) == n + uniform, 'lines', lambda: f'{sorted(lines)}')
    for i, s in enumerate(m.states):
        v = lines.get(s)
        ctx.traces += 1
        ctx.expect(v is not None and np.allclose(v.get_xdata(), range(steps + 1)) and np.allclose(np.asarray(v.get_ydata(), dtype=float), D[:, i], atol=1e-9), 'line', lambda: f'{s}: {v and v.get_xydata()}, expected {D[:, i]}')
    if uniform and 'Start' in lines:
        ctx.expect(np.allclose(lines['Start'].get_xydata(), [[0.0, 1.0 / n]]), 'start', lambda: f'{lines["Start"].get_xydata()}')
    lo, hi = a.get_ylim()
    ctx.expect(lo < 0 and hi > 1, 'out of sight', lambda: f'{lo}, {hi}')


def check_sequence(ctx, case):
    import pydtmc
    m = model(case)
    hidden = hasattr(m, 'e')
    steps, seed = case['steps'], case['seed']
    init = None if case['init'] is None else m.states[case['init']] if case['init'] % 2 else case['init']
    kw = {} if case['type'] is None else {'plot_type': case['type']}
    r = pydtmc.plot_sequence(m, steps, init, seed=seed, dpi=case['dpi'], **kw)
    f, axes = plain_handles(ctx, r, 2 if hidden else 1, case['dpi'])
    walk = m.simulate(steps, init, output_indices=True, seed=seed)
    walks = [('States', list(m.states), walk[0]), ('Symbols', list(m.symbols), walk[1])] if hidden else [('States', list(m.states), walk)]
    if not ctx.expect(len(axes) == len(walks), 'number of axes', lambda: f'{len(axes)}'):
        return
    for a, (name, labels, w) in zip(axes, walks):
        k = len(labels)
        if case['type'] == 'heatmap':
            x = np.zeros((k, k))
            for i, j in zip(w[:-1], w[1:]):
                x[i, j] += 1.0 / (len(w) - 1)
            matrix_of(ctx, a, x, name)
            names_on(ctx, a.xaxis, labels, name)
            names_on(ctx, a.yaxis, labels, name)
            ctx.expect(a.get_xlabel() == a.get_ylabel() == name, 'title of the axis', lambda: a.get_xlabel())
        elif case['type'] == 'matrix':
            x = np.zeros((k, len(w)))
            for t, i in enumerate(w):
                x[i, t] = 1.0
            matrix_of(ctx, a, x, name)
            names_on(ctx, a.yaxis, labels, name)
            steps_on(ctx, a, len(w) - 1, name)
            ctx.expect(a.get_ylabel() == name, 'title of the axis', lambda: a.get_ylabel())
        else:
            h = sorted((v.get_x() + v.get_width() / 2, v.get_height()) for v in a.patches)
            exp = [(i, w.count(i) / len(w)) for i in range(k)]
            ctx.traces += 1
            ctx.expect(len(h) == k and np.allclose(h, exp, atol=1e-9), 'bars', lambda: f'{name}: got {h}, expected {exp}')
            names_on(ctx, a.xaxis, labels, name)
            ctx.expect(a.get_xlabel() == name and a.get_ylim()[1] >= 1.0, 'title of the axis', lambda: a.get_xlabel())


def forward_backward(P, E, d, sy):
    """Scaled forward and backward probabilities, the first column being the initial distribution."""
    n, T = len(P), len(sy)
    F, c = np.zeros((n, T + 1)), [1.0]
    F[:, 0] = d
    for t in range(T):
        v = (F[:, t] @ P) * E[:, sy[t]]
        c.append(v.sum())
        F[:, t + 1] = v / c[-1]
    B = np.ones((n, T + 1))
    for t in range(T - 1, -1, -1):
        B[:, t] = P @ (B[:, t + 1] * E[:, sy[t]]) / c[t + 1]
    return F, B


def check_trellis(ctx, case):
    import pydtmc
    m = model(case)
    P, E, n = np.asarray(m.p), np.asarray(m.e), len(m.states)
    steps, seed = case['steps'], case['seed']
    init = None if case['init'] is None else m.states[case['init']] if case['init'] % 2 else case['init']
    d = np.full(n, 1.0 / n) if init is None else np.eye(n)[case['init']]
    _, sy = m.simulate(steps, init, output_indices=True, seed=seed)
    prediction = m.predict('viterbi', sy, d, True)
    del _shots[:]
    try:
        r = pydtmc.plot_trellis(m, steps, init, seed, case['std'], dpi=case['dpi'])
    except ValueError as ex:
        # documented; the decoding of a simulated walk exists, the path can fail as recorded (see C20)
        ctx.expect(prediction is None, 'refused trellis', lambda: f'{type(ex).__name__}: {ex}: symbols {sy}')
        if prediction is None:
            ctx.known('trellis-first-emission', f'no trellis of the walk of symbols {sy}')
        return
    if not ctx.expect(prediction is not None, 'trellis of an impossible path', ''):
        return
    f, axes = plain_handles(ctx, r, 2, case['dpi'])
    path = prediction[1]
    F, B = forward_backward(P, E, d, sy[1:])
    heads = [None] + [m.symbols[k] for k in sy[1:]]
    T = len(heads)
    arcs = {(i, t, j) for i in range(n) for j in range(n) for t in range(T - 1) if P[i, j] > 0 and (t > 0 or d[i] > 0)}
    if not case['std']:
        ctx.expect(len(_shots) == 2 and all(len(a.get_images()) == 1 for a in axes), 'extended mode', lambda: f'{len(_shots)} graphs')
    for k, (word, matrix) in enumerate((('Backward', B), ('Forward', F))):
        if k >= len(axes):
            continue
        ctx.expect(word in axes[k].get_title(), 'title', lambda: axes[k].get_title())
        if case['std']:
            got = trellis_standard(ctx, axes[k], list(m.states), T)
        else:
            got = trellis_extended(ctx, _shots[k], list(m.states), T)
        if got is None:
            continue
        header, cells, links = got
        ctx.traces += 3
        ctx.expect([h for h in header[1:]] == heads[1:] and 'T' in header[0], 'symbols of a trellis', lambda: f'got {header}, expected {heads}')
        bad = [(c, cells.get(c, (None,))[0], matrix[c]) for c in itertools.product(range(n), range(T)) if c not in cells or abs(float(cells[c][0]) - matrix[c]) > 0.00501]
        ctx.expect(not bad, 'numbers of a trellis', lambda: f'{word}: (cell, got, expected) {bad}')
        hot = {(path[t], t) for t in range(T)}
        if n > 1 and len(cells) == n * T:
            on, off = {cells[c][1] for c in hot}, {cells[c][1] for c in cells if c not in hot}
            ctx.expect(len(on) == 1 and len(off) == 1 and not on & off, 'path of a trellis', lambda: f'{word}: colours {on} on the path, {off} elsewhere; path {path}')
        want = {((i, t), (j, t + 1)) if word == 'Forward' else ((j, t + 1), (i, t)) for i, t, j in arcs}
        have = {(x, y) for x, y, _ in links}
        if ctx.expect(have == want and len(links) == len(want), 'edges of a trellis', lambda: f'{word}: missing {sorted(want - have)}, unexpected {sorted(have - want)} (initial {d})'):
            def on_path(x, y):
                x, y = sorted((x, y), key=lambda c: c[1])
                return path[x[1]] == x[0] and path[y[1]] == y[0]
            on, off = {c for x, y, c in links if on_path(x, y)}, {c for x, y, c in links if not on_path(x, y)}
            ctx.expect(len(on) <= 1 and len(off) <= 1 and not on & off, 'path of a trellis', lambda: f'{word}: colours of the edges {on} on the path, {off} elsewhere; path {path}')


def trellis_standard(ctx, a, states, T):
    import matplotlib.patches as mp
    where = [(tuple(np.round(t.get_position(), 6)), t.get_text()) for t in a.texts]
    rows = {}
    left = min(x for (x, _), _ in where)
    top = max(y for (_, y), _ in where)
    for (x, y), s in where:
        if x == left:
            rows[y] = s
    cols = sorted(x for (x, y), s in where if y == top)
    header = [s for x in cols for (u, y), s in where if u == x and y == top]
    if not ctx.expect(sorted(rows.values()) == sorted(states) and len(cols) == T, 'rows and columns of a trellis', lambda: f'{rows}, {header}'):
        return None
    spots = {tuple(np.round(o, 6)): tuple(np.round(c.get_facecolor()[k if len(c.get_facecolor()) > k else 0], 4)) for c in a.collections for k, o in enumerate(np.asarray(c.get_offsets()))}
    cells, cell = {}, {}
    for (x, y), s in where:
        if x != left and y != top and y in rows and x in cols:
            cell[x, y] = (states.index(rows[y]), cols.index(x))
            cells[cell[x, y]] = (s, spots.get((x, y)))
    links = []
    for v in a.patches:
        if isinstance(v, mp.FancyArrowPatch):
            x, y = (cell.get(tuple(np.round(z, 6))) for z in v._posA_posB)
            links.append((x, y, tuple(np.round(v.get_edgecolor(), 4))))
    return header, cells, links


def trellis_extended(ctx, shot, states, T):
    clusters = [o for o in shot['objects'] if 'nodes' in o]
    nodes = {o['_gvid']: o for o in shot['objects'] if 'nodes' not in o}

    def spot(k):
        return tuple(float(v) for v in nodes[k]['pos'].split(','))
    ordered = sorted(clusters, key=lambda o: np.mean([spot(k)[0] for k in o['nodes']]))
    # the columns can be laid out in any direction: the one of the states is recognised by its texts
    first = [o for o in ordered if {drawn_text(nodes[k]) for k in o['nodes']} == set(states)]
    if not ctx.expect(len(first) == 1 and len(ordered) == T + 1, 'rows and columns of a trellis', lambda: f'{[[drawn_text(nodes[k]) for k in o["nodes"]] for o in ordered]}'):
        return None
    rows = [states.index(drawn_text(nodes[k])) for k in sorted(first[0]['nodes'], key=lambda k: -spot(k)[1])]
    others = sorted((o for o in ordered if o is not first[0]), key=lambda o: int(o['name'].split('_')[-1]))
    header = [drawn_text(o) for o in others]
    cells, cell = {}, {}
    for t, o in enumerate(others):
        for r, k in zip(rows, sorted(o['nodes'], key=lambda k: -spot(k)[1])):
            cell[k] = (r, t)
            cells[r, t] = (drawn_text(nodes[k]), nodes[k].get('fillcolor'))
    links = [(cell.get(e['tail']), cell.get(e['head']), e.get('color')) for e in shot.get('edges', []) if e.get('style') != 'invis']
    return header, cells, links


def check_interactive(ctx, case):
    """In interactive mode the plots are displayed and nothing is returned."""
    import matplotlib.pyplot as plt
    import pydtmc
    a, h = q.build('ergodic'), q.build('hmm')
    calls = [lambda: pydtmc.plot_comparison([a, h]), lambda: pydtmc.plot_eigenvalues(a), lambda: pydtmc.plot_flow(a, 2, 1), lambda: pydtmc.plot_graph(a), lambda: pydtmc.plot_graph(h, force_standard=True), lambda: pydtmc.plot_redistributions(a, 2),
             lambda: pydtmc.plot_sequence(a, 3, seed=1), lambda: pydtmc.plot_sequence(h, 3, seed=1, plot_type='matrix'), lambda: pydtmc.plot_sequence(h, 3, seed=1, plot_type='heatmap'), lambda: pydtmc.plot_trellis(h, 3, seed=1, force_standard=True), lambda: pydtmc.plot_trellis(h, 3, seed=1)]
    try:
        for on in (True, False):
            for i, c in enumerate(calls):
                plt.interactive(on)
                r = c()
                ctx.traces += 1
                ctx.expect((r is None) == on and plt.isinteractive() == on, 'interactive mode', lambda: f'call {i}, interactive {on}: {r!r}, then {plt.isinteractive()}')
                plt.close('all')
    finally:
        plt.interactive(False)


CHECKS = {'comparison': check_comparison, 'eigenvalues': check_eigenvalues, 'flow': check_flow, 'graph': check_graph, 'redistributions': check_redistributions, 'sequence': check_sequence, 'trellis': check_trellis, 'interactive': check_interactive}


def check(ctx, case):
    import matplotlib.pyplot as plt
    arm()
    plt.ioff()
    plt.rcParams['figure.max_open_warning'] = 0
    np.random.seed(11)
    ctx.states += 1
    ctx.transitions += 1
    ctx.nontrivial += 1
    try:
        CHECKS[case['p']](ctx, case)
    finally:
        plt.close('all')


# enumeration -------------------------------------------------------------------

ALL = list(q.TYPES) + list(q.HIDDEN)
DPIS = [75, 100, 150, 200, 250, 300, 600]


def strange():
    out = []
    for s in range(5):
        out.append({'N': [[1, 2, 0, 0, 1], [0, 1, 1, 0, 0], [0, 3, 1, 0, 0], [1, 0, 0, 0, 1], [0, 0, 0, 1, 1]], 'S': s})
        out.append({'N': [[1, 2, 1], [0, 1, 3], [1, 0, 1]], 'E': [[1, 0, 1, 1, 0], [1, 3, 0, 0, 0], [0, 1, 1, 0, 2]], 'S': s})
    return out


def chains(spec, step, off=0):
    return [{'N': N, 'L': fam.MODES[i % 4]} for i, N in enumerate(itertools.islice(fam.matrices(spec), off, None, step))]


def hidden(a, b, step):
    return [{'N': N, 'E': E, 'L': fam.MODES[i % 4]} for i, (N, E) in enumerate(itertools.islice(hmms.models(a, b), 0, None, step))]


def all_cases(tier):
    deep = tier != 'quick'
    out = [{'p': 'interactive'}]
    # comparison
    pool = ['ergodic', 'hmm', 'reducible', 'hmm-reducible', 'identity', 'periodic']
    hid = ['hmm', 'hmm-reducible', 'hmm']
    for k in range(2, 8 if deep else 6):
        for names in (None, 0, 1):
            out += [{'p': 'comparison', 'm': [pool[(i + s) % 6] for i in range(k)], 'um': 'transition', 'names': names, 'dpi': 100} for s in range(6 if deep else 2)]
            out += [{'p': 'comparison', 'm': [hid[i % 3] for i in range(k)], 'um': um, 'names': names, 'dpi': 100} for um in ('emission', 'transition')]
            out += [{'p': 'comparison', 'm': [['ergodic', 'lumpable', 'absorbing'][i % 3] for i in range(k)], 'um': 'transition', 'names': names, 'dpi': 100}]
    out += [{'p': 'comparison', 'm': pool[:2], 'um': 'transition', 'names': None, 'dpi': d} for d in DPIS]
    # eigenvalues
    ms = ALL + chains(('can', 3, 'd', [0]), 1 if deep else 3) + chains(('ring', [4, 5, 6], 'd'), 3 if deep else 17) + (chains(('can', 4, 'd', [0]), 29) if deep else [])
    out += [{'p': 'eigenvalues', 'm': m, 'dpi': 100} for m in ms] + [{'p': 'eigenvalues', 'm': 'ergodic', 'dpi': d} for d in DPIS]
    # flow
    for m in ALL + strange()[:2] + (chains(('can', 3, 'd', [0]), 5) if deep else []):
        for steps in (1, 2, 3, 11, 12) if deep else (1, 3):
            for interval in (1, 2, 5) if deep else (1, 2):
                for init in range(5 if deep else 4):
                    out.append({'p': 'flow', 'm': m, 'steps': steps, 'interval': interval, 'init': init, 'palette': None if init else 'plasma', 'dpi': 100})
    out += [{'p': 'flow', 'm': 'ergodic', 'steps': 2, 'interval': 1, 'init': 0, 'palette': x, 'dpi': 100} for x in palettes()[::1 if deep else 4]] + [{'p': 'flow', 'm': 'hmm', 'steps': 2, 'interval': 3, 'init': 1, 'palette': None, 'dpi': d} for d in DPIS]
    out += [{'p': 'flow', 'm': 'reversible', 'steps': s, 'interval': 1, 'init': 3, 'palette': None, 'dpi': 100} for s in (10, 11, 12, 13, 17)]
    # graph
    for m in ALL + strange():
        out += [{'p': 'graph', 'm': m, 'o': list(o), 'dpi': 100} for o in itertools.product((True, False), repeat=4)]
    out += [{'p': 'graph', 'm': m, 'o': o, 'dpi': 100} for m in chains(('can', 3, 'd', [0]), 1 if deep else 4) + chains(('can', 4, 'd', [0]), 23 if deep else 211) + hidden(('can', 2, 'd', [0]), ('sup', 2, 3, 'd'), 3 if deep else 23) for o in ([True, True, True, True], [True, True, True, False])]
    out += [{'p': 'graph', 'm': {'N': [[1 if j in (i, (i + 1) % 11) and (i < 10) or i == j else 0 for j in range(11)] for i in range(11)], 'L': 'num'}, 'o': [True, True, True, s], 'dpi': 100} for s in (True, False)]
    out += [{'p': 'graph', 'm': {'N': [[1000 - 999 * (i == j) for j in range(3)] for i in range(3)], 'L': 'rev'}, 'o': [True, True, True, s], 'dpi': 100} for s in (True, False)]
    out += [{'p': 'graph', 'm': m, 'o': [True, True, True, s], 'dpi': d} for d in DPIS for s in (True, False) for m in ('absorbing', 'hmm')]
    # redistributions
    for m in ALL + strange()[:2] + (chains(('can', 3, 'd', [0]), 3) if deep else []):
        for steps in (1, 2, 3, 10, 11, 12, 25) if deep else (1, 2, 11):
            for init in range(5):
                for t in (None, 'heatmap', 'projection'):
                    out.append({'p': 'redistributions', 'm': m, 'steps': steps, 'init': init, 'type': t, 'dpi': 100})
    # sequence
    for m in ALL + strange()[:2]:
        for steps in (2, 3, 9, 10, 11, 12, 30) if deep else (2, 5, 12):
            for init in (None, 0, 1):
                for t in (None, 'heatmap', 'histogram', 'matrix'):
                    for seed in (1, 2, 3) if deep else (1,):
                        out.append({'p': 'sequence', 'm': m, 'steps': steps, 'init': init, 'type': t, 'seed': seed, 'dpi': 100})
    # trellis
    ms = list(q.HIDDEN) + [x for x in strange() if 'E' in x] + hidden(('can', 2, 'd', [0]), ('list', list(hmms.emissions(('sup', 2, 3, 'd')))[::5]), 1 if deep else 7) + hidden(('can', 3, 'd', [0]), ('list', list(hmms.emissions(('sup', 3, 2, 'd')))[::7]), 11 if deep else 97)
    for m in ms:
        n = len(m['N']) if isinstance(m, dict) else 3
        for steps in (2, 3, 5) if deep else (2, 4):
            for init in [None] + list(range(n)):
                for std in (True, False):
                    for seed in (1, 2) if deep else (1,):
                        out.append({'p': 'trellis', 'm': m, 'steps': steps, 'init': init, 'std': std, 'seed': seed, 'dpi': 100})
    out += [{'p': 'trellis', 'm': 'hmm', 'steps': 2, 'init': 0, 'std': s, 'seed': 1, 'dpi': d} for d in DPIS for s in (True, False)]
    return out


def palettes():
    import matplotlib.pyplot as plt
    return sorted(plt.colormaps)


def jobs(tier, seed):
    n = 64 if tier == 'quick' else 256
    return [(tier, i, n) for i in range(n)]


def cases(job):
    yield from itertools.islice(all_cases(job[0]), job[1], None, job[2])
