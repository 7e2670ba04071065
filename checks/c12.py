import hashlib
import itertools
import os
import random
import subprocess
import sys

import numpy as np

PROPERTY = 'C12'
RULE = ('every history of randomised operations up to a length, each with a seed or without, from several states of the global generator; '
        'non-trivial: a history mixing seeded and unseeded operations')
ASSUMPTIONS = ['the results of an operation are observed as plain values (matrices, labels, walks, plotted data)',
               'isolation from other sources is judged by replacing them with stand-ins that fail']

SEEDS = [0, 1, 2 ** 32 - 1, 7]
P3 = [[0.5, 0.25, 0.25], [0.125, 0.5, 0.375], [0.25, 0.375, 0.375]]
E3 = [[0.5, 0.5], [0.25, 0.75], [0.125, 0.875]]
NAN = float('nan')

OPS = ['mc.simulate', 'mc.simulate.from', 'mc.next', 'hmm.simulate', 'hmm.simulate.from', 'hmm.next', 'hmm.next.symbol', 'MC.random', 'MC.random.zeros', 'MC.random.mask', 'HMM.random', 'HMM.random.zeros',
       'MC.distribution', 'MC.distribution.callable', 'MC.dirichlet', 'MC.dirichlet.bias']
PLOTS = ['plot.sequence.mc.h', 'plot.sequence.mc.m', 'plot.sequence.hmm.h', 'plot.sequence.hmm.m', 'plot.sequence.mc.init', 'plot.trellis']
_models = {}


def models():
    import pydtmc
    if not _models:
        _models['mc'] = pydtmc.MarkovChain(P3, ['a', 'b', 'c'])
        _models['hmm'] = pydtmc.HiddenMarkovModel(P3, E3, ['a', 'b', 'c'], ['x', 'y'])
        pydtmc.MarkovChain.random_distribution(2, 'uniform', seed=1)
    return pydtmc, _models['mc'], _models['hmm']


def matrices(m):
    return (m.p.tolist(), m.states) if not hasattr(m, 'e') else (m.p.tolist(), m.e.tolist(), m.states, m.symbols)


def figure(res):
    import matplotlib.pyplot as plt
    fig, axes = res
    out = []
    for ax in (axes if isinstance(axes, list) else [axes]):
        out += [('line', np.asarray(v.get_xdata(), dtype=float).tolist(), np.asarray(v.get_ydata(), dtype=float).tolist()) for v in ax.get_lines()]
        out += [('image', np.asarray(v.get_array(), dtype=float).tolist()) for v in ax.get_images()]
        out += [('bar', round(v.get_x(), 9), round(v.get_height(), 9)) for v in ax.patches if hasattr(v, 'get_height') and hasattr(v, 'get_x')]
        out += [('arrow', repr(v.get_path().vertices.round(6).tolist())) for v in ax.patches if not hasattr(v, 'get_x')]
        out += [('mesh', np.asarray(v.get_array(), dtype=float).ravel().tolist()) for v in ax.collections if v.get_array() is not None]
        out += [('dots', np.asarray(v.get_offsets(), dtype=float).tolist(), np.asarray(v.get_facecolor()).round(6).tolist(), v.get_offsets().shape) for v in ax.collections if v.get_array() is None]
        out += [('text', v.get_text()) for v in ax.texts]
    plt.close(fig)
    return out


def run_op(op, seed):
    pydtmc, mc, hmm = models()
    MC, HMM = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel
    kw = {} if seed is None else {'seed': seed}
    if op == 'mc.simulate':
        return mc.simulate(12, **kw)
    if op == 'mc.simulate.from':
        return mc.simulate(9, 'b', output_indices=True, **kw)
    if op == 'mc.next':
        return [mc.next(s, **kw) for s in ('a', 'b', 'c')]
    if op == 'hmm.simulate':
        return hmm.simulate(10, **kw)
    if op == 'hmm.simulate.from':
        return hmm.simulate(8, 2, output_indices=True, **kw)
    if op == 'hmm.next':
        return [hmm.next(s, **kw) for s in ('a', 'b', 'c')]
    if op == 'hmm.next.symbol':
        return [hmm.next(0, 'symbol', **kw), hmm.next(1, 'state', True, **kw)]
    if op == 'MC.random':
        return matrices(MC.random(3, **kw))
    if op == 'MC.random.zeros':
        return matrices(MC.random(4, zeros=5, **kw))
    if op == 'MC.random.mask':
        return matrices(MC.random(3, zeros=1, mask=[[0.5, NAN, NAN], [NAN, NAN, NAN], [NAN, 0.25, NAN]], **kw))
    if op == 'HMM.random':
        return matrices(HMM.random(3, 2, **kw))
    if op == 'HMM.random.zeros':
        return matrices(HMM.random(3, 4, p_zeros=3, e_zeros=4, **kw))
    if op == 'MC.distribution':
        return matrices(MC.random_distribution(3, 'gamma', shape=2.0, **kw))
    if op == 'MC.distribution.callable':
        return matrices(MC.random_distribution(3, np.random.uniform, **kw))
    if op == 'MC.dirichlet':
        return matrices(MC.dirichlet_process(4, 2, **kw))
    if op == 'MC.dirichlet.bias':
        return matrices(MC.dirichlet_process(3, 3, diagonal_bias_factor=2.0, shift_concentration=True, **kw))
    import matplotlib.pyplot as plt
    plt.ioff()
    if op == 'plot.sequence.mc.h':
        return figure(pydtmc.plot_sequence(mc, 15, **kw))
    if op == 'plot.sequence.mc.m':
        return figure(pydtmc.plot_sequence(mc, 6, plot_type='matrix', **kw))
    if op == 'plot.sequence.mc.init':
        return figure(pydtmc.plot_sequence(mc, 9, 'b', 'heatmap', **kw))
    if op == 'plot.sequence.hmm.h':
        return figure(pydtmc.plot_sequence(hmm, 12, **kw))
    if op == 'plot.sequence.hmm.m':
        return figure(pydtmc.plot_sequence(hmm, 6, plot_type='matrix', **kw))
    if op == 'plot.trellis':
        return figure(pydtmc.plot_trellis(hmm, 4, force_standard=True, **kw))
    raise ValueError(op)


def state():
    s = np.random.get_state()
    return hashlib.sha1(s[1].tobytes() + repr((s[0],) + s[2:]).encode()).hexdigest()


def jobs(tier, seed):
    deep = tier != 'quick'
    out = [('hash', i) for i in range(1, 4)]
    out += [('plots', i, len(PLOTS)) for i in range(len(PLOTS))]
    out += [('solo', i, len(OPS)) for i in range(len(OPS))]
    out += [('history', 4 if deep else 3, i, 400 if deep else 64) for i in range(400 if deep else 64)]
    out += [('seeds', i, 16, 400 if deep else 40) for i in range(16)]
    return out


# the alphabet of histories: (operation, seed)
ALPHA = [('mc.simulate', 0), ('mc.simulate', None), ('mc.next', 0), ('mc.next', None), ('hmm.simulate', 7), ('hmm.simulate', None), ('hmm.next', None), ('MC.random.zeros', 0), ('MC.random.zeros', None),
         ('HMM.random.zeros', 7), ('HMM.random.zeros', None), ('MC.distribution', 0), ('MC.distribution', None), ('MC.distribution.callable', None), ('MC.dirichlet.bias', 0), ('MC.dirichlet.bias', None)]


def cases(job):
    if job[0] == 'hash':
        yield {'kind': 'hash', 'hashseed': job[1]}
    elif job[0] == 'plots':
        yield {'kind': 'solo', 'op': PLOTS[job[1]]}
    elif job[0] == 'solo':
        yield {'kind': 'solo', 'op': OPS[job[1]]}
        yield {'kind': 'sources', 'op': OPS[job[1]]}
    elif job[0] == 'history':
        depth = job[1]
        for h in itertools.islice(itertools.chain(*(itertools.product(range(len(ALPHA)), repeat=d) for d in range(2, depth + 1))), job[2], None, job[3]):
            yield {'kind': 'history', 'h': list(h)}
    else:
        for s in range(job[1], job[3], job[2]):
            yield {'kind': 'seeds', 'seed': s}


_base = {}


def baseline(op, seed):
    if (op, seed) not in _base:
        np.random.seed(12345)
        _base[(op, seed)] = run_op(op, seed)
    return _base[(op, seed)]


class Forbidden:

    def __init__(self, name):
        self.__dict__['name'] = name

    def __getattr__(self, item):
        raise RuntimeError(f'{self.name} must not be used (asked for {item})')

    def __call__(self, *a, **k):
        raise RuntimeError(f'{self.name} must not be used')


def digest():
    h = hashlib.sha1()
    for op in OPS:
        for s in SEEDS:
            h.update(repr(run_op(op, s)).encode())
    return h.hexdigest()


def check(ctx, case):
    kind = case['kind']
    ctx.states += 1
    models()
    if kind == 'hash':
        ctx.nontrivial += 1
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str(case['hashseed'] * 1009)
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        code = ('import sys; sys.path.insert(0, %r); import lib.core as c; c.make_scratch(); c.import_pydtmc(); import checks.c12 as m; print("D", m.digest()); '
                'import shutil; shutil.rmtree(c.SCRATCH, ignore_errors=True)') % root
        r = subprocess.run([sys.executable, '-B', '-c', code], env=env, capture_output=True, text=True, timeout=200)
        got = [v for v in r.stdout.splitlines() if v.startswith('D ')]
        ctx.transitions += len(OPS) * len(SEEDS)
        ctx.same('another process', got, ['D ' + digest()])
    elif kind == 'solo':
        op = case['op']
        small = op.startswith('plot')
        for s in SEEDS[:2] if small else SEEDS:
            first = None
            for g in (3, 99) if small else (3, 99, 12345):
                np.random.seed(g)
                random.seed(g)
                before, rb = state(), random.getstate()
                for typed in (s, np.int64(s)):
                    got = run_op(op, typed)
                    ctx.transitions += 1
                    first = got if first is None else first
                    ctx.same(f'seeded {op} {s}', got, first)
                ctx.same('global generator untouched', state(), before)
                ctx.expect(random.getstate() == rb, 'standard generator untouched', op)
        seeds = [0, 1, 2, 3, 4, 5]
        ctx.expect(len({repr(run_op(op, s)) for s in seeds}) > 1, 'the seed has an effect', op)
        for g in (3, 99):
            runs = []
            for _ in range(2):
                np.random.seed(g)
                a = run_op(op, None)
                b = run_op(op, None)
                runs.append((a, b, state()))
            ctx.transitions += 4
            ctx.same(f'unseeded {op}', runs[0], runs[1])
            np.random.seed(g)
            ctx.expect(runs[0][2] != state(), 'global generator used', op)
    elif kind == 'sources':
        import numpy.random as npr
        import numpy.random.mtrand as mtrand
        op = case['op']
        for s in (None, 0, 5):
            saved = (mtrand._rand, npr.RandomState, npr.default_rng, random.random, os.urandom)
            np.random.seed(4)
            try:
                npr.default_rng = Forbidden('numpy.random.default_rng')
                random.random = Forbidden('random.random')
                os.urandom = Forbidden('os.urandom')
                if s is None:
                    npr.RandomState = Forbidden('numpy.random.RandomState')
                elif op != 'MC.distribution.callable':
                    mtrand._rand = Forbidden('the global generator')
                got = run_op(op, s)
            except RuntimeError as ex:
                ctx.fail('source of randomness', f'{op} seed={s}: {ex}')
                continue
            finally:
                mtrand._rand, npr.RandomState, npr.default_rng, random.random, os.urandom = saved
            np.random.seed(4)
            ctx.transitions += 2
            ctx.same('source of randomness', got, run_op(op, s))
    elif kind == 'seeds':
        s = case['seed']
        for op in ('mc.simulate', 'hmm.simulate', 'MC.random.zeros', 'HMM.random.zeros', 'MC.distribution', 'MC.dirichlet.bias', 'mc.next', 'hmm.next'):
            np.random.seed(1)
            a = run_op(op, s)
            np.random.seed(2)
            run_op('mc.next', None)
            ctx.same(f'seed {s} {op}', run_op(op, s), a)
            ctx.transitions += 3
    else:
        h = [ALPHA[i] for i in case['h']]
        unseeded = [op for op, s in h if s is None]
        ctx.nontrivial += 0 < len(unseeded) < len(h)
        for g in (5,):
            np.random.seed(g)
            outs = [run_op(op, s) for op, s in h]
            end = state()
            np.random.seed(g)
            alone = [run_op(op, None) for op in unseeded]
            ctx.transitions += len(h) + len(unseeded)
            ctx.same('global generator after the history', end, state())
            ctx.same('unseeded operations', [o for o, (_, s) in zip(outs, h) if s is None], alone)
            for o, (op, s) in zip(outs, h):
                if s is not None:
                    ctx.same('seeded operation', o, baseline(op, s))
