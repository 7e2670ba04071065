import itertools
import os

from lib import core
from lib import families as fam
from lib import queries as q
from lib import sched

import numpy as np

PROPERTY = 'C04'
RULE = ('every schedule of two or three threads with at most a given number of preemptions, at every line (or instruction) of the library and at every operation on its locks, for pairs of '
        'queries on shared models and pairs of creations; non-trivial: the threads were switched in the middle')
ASSUMPTIONS = ['preemptions inside numpy, networkx and the standard library are not explored', 'at most 2 preemptions (1 for long queries)']

ROOT = os.path.join(core.REPO, 'pydtmc') + os.sep
KINDS = ['ergodic', 'absorbing', 'reducible', 'periodic', 'hmm']
SHORT = 110
CORE = ['pi', 'communicating_classes', 'recurrent_classes', 'cyclic_classes', 'is_absorbing', 'is_ergodic', 'is_regular', 'period', 'fundamental_matrix', 'transient_states', 'mixing_rate', 'is_reversible', 'absorption_probabilities', 'mean_recurrence_times',
        'mean_number_visits', 'mean_absorption_times']


def jobs(tier, seed):
    deep = tier != 'quick'
    out = []
    for k in KINDS if deep else KINDS[:3] + KINDS[-1:]:
        out += [('same', k, i, 40, deep) for i in range(40)]
        out += [('pair', k, i, 40, deep) for i in range(40)]
        if deep or k != 'hmm':
            out += [('three', k, i, 8, deep) for i in range(8)]
        out += [('models', k, i, 16, deep) for i in range(16)]
    out += [('create', i, 48, deep) for i in range(48)]
    out += [('opcode', k, i, 8, deep) for k in (KINDS if deep else KINDS[:1]) for i in range(8)]
    out += [('order',) + j for j in fam.make_jobs([(('sup', 2, 's'), 1), (('sup', 3, 't'), 16)] + ([(('can', 4, 's', [1]), 64), (('struct', 's', [0]), 8)] if deep else []), 1)]
    return out


def names(kind):
    import pydtmc
    return q.properties(pydtmc.MarkovChain if kind in q.TYPES else pydtmc.HiddenMarkovModel)[0]


SKIP = {'aggregate', 'closest_reversible', 'time_relaxations', 'time_correlations'}


def cases(job):
    sched.import_controlled()
    kind = job[0]
    if kind == 'order':
        for c in fam.case_iter(job[1:]):
            yield {'k': 'order', 'N': c['N']}
        return
    if kind == 'create':
        few, slow = {'chain', 'hidden', 'distribution'}, {'distribution', 'other distribution', 'bad distribution'}
        every = []
        for a, b in itertools.combinations_with_replacement(sorted(creators()), 2):
            if (job[3] and not ({a, b} & slow and not {a, b} & few)) or a == b or 'chain' in (a, b) or a in few and b in few:
                parts = 8 if a in slow or b in slow else 1
                every += [{'k': 'create', 'a': a, 'b': b, 'deep': job[3], 'part': i, 'parts': parts} for i in range(parts)]
        yield from itertools.islice(every, job[1], None, job[2])
        return
    model, part, parts, deep = job[1:]
    cat = q.catalogue(model)[0]
    n = len(cat)
    if kind == 'same':
        every = [{'k': 'same', 'm': model, 'i': i, 'deep': deep} for i in range(n) if cat[i].name not in (SKIP if not deep else ('closest_reversible',))]
    elif kind == 'pair':
        every = [{'k': 'pair', 'm': model, 'i': i, 'j': j, 'deep': deep} for i, j in itertools.combinations(range(n), 2)
                 if cat[i].name not in SKIP and cat[j].name not in SKIP and (deep and (i * 5 + j) % 12 == KINDS.index(model) or cat[i].name in CORE and cat[j].name in CORE and (deep or model == 'ergodic' or (i + j) % 4 == KINDS.index(model) % 4) or (i * 7 + j) % 97 == 0)]
    elif kind == 'three':
        every = [{'k': 'three', 'm': model, 'i': i} for i in range(n) if cat[i].name in (CORE[:8] if deep else CORE[:4])]
    elif kind == 'models':
        every = [{'k': 'models', 'm': model, 'i': i, 'o': o} for i in range(n) for o in KINDS if o != model and (cat[i].name in (CORE if deep else CORE[:7])) and (o in q.TYPES) == (model in q.TYPES)]
    else:
        every = [{'k': 'opcode', 'm': model, 'i': i} for i in range(n) if cat[i].name in (['is_symmetric', 'rank', 'pi'] if not deep else ['is_symmetric', 'rank', 'pi', 'mean_recurrence_times', 'absorption_probabilities', 'is_ergodic', 'is_regular', 'e', 'p', 'states'])]
    yield from itertools.islice(every, part, None, parts)


_class_state = None


def lazy_state():
    """The state of the classes and modules of the library, so that every execution starts from that of the first use."""
    import sys
    global _class_state
    if _class_state is None:
        d = sched.import_controlled()
        spaces = [d.MarkovChain, d.HiddenMarkovModel] + [m for k, m in sys.modules.items() if k.startswith('pydtmc.')]
        _class_state = [(s, {k: v for k, v in vars(s).items() if not k.startswith('__')}, {k: (v, v.copy()) for k, v in vars(s).items() if isinstance(v, (list, dict, set)) and not k.startswith('__')}) for s in spaces]
    return _class_state


def reset():
    for s, attrs, containers in lazy_state():
        now = vars(s)
        for k in [k for k in now if not k.startswith('__') and k not in attrs]:
            delattr(s, k)
        for k, v in attrs.items():
            if now.get(k) is not v:
                setattr(s, k, v)
        for k, (v, c) in containers.items():
            if v != c:
                v.clear()
                (v.update if isinstance(v, (dict, set)) else v.extend)(c)


_expected = {}


def expected(kind, i):
    if (kind, i) not in _expected:
        cat = q.catalogue(kind)[0]
        _expected[kind, i] = cat[i].run(q.build(kind))[0]
    return _expected[kind, i]


def body(query, model):
    def run():
        got, res, args = query.run(model)
        q.alter(res)
        q.alter(args)
        return got
    return run


def drive(ctx, what, make, exps, bound, opcodes=False, once=None, limit=None, lazy=False, skip=(), part=0, parts=1):
    """Explores all the schedules; every thread must get what it expects."""
    held = {}

    def prepare():
        if lazy:
            reset()
        bodies, model = make()
        held['model'], held['n'] = model, 0
        return bodies

    def watch(frame):
        c = frame.f_code
        if c.co_name == once and c.co_argcount == 1 and frame.f_locals.get('self') is held['model']:
            held['n'] += 1
    n = 0
    for ex in sched.explore(prepare, bound, ROOT, opcodes, watch if once else None, skip, part, parts):
        n += 1
        ctx.states += 1
        ctx.traces += 1
        ctx.transitions += ex.step
        ctx.nontrivial += ex.preemptions > 0
        if ex.aborted:
            ctx.fail(ex.aborted, f'{what}: schedule {ex.forced}')
            return
        for t, e in zip(ex.threads, exps):
            if not q.agree(t.result, e):
                ctx.fail('answer under a schedule', f'{what}: thread {t.index}: {repr(t.result)[:300]} instead of {repr(e)[:300]}; schedule {ex.forced}')
                return
        if once and held['n'] > 1:
            ctx.fail('computed more than once', f'{what}: {held["n"]} times; schedule {ex.forced}')
            return
        if limit and n >= limit:
            ctx.count('programs cut off')
            break
    ctx.count('programs')


def length(make):
    ex = sched.Execution(make()[0], {}, ROOT).run()
    return ex.step


def check(ctx, case):
    sched.import_controlled()
    k = case['k']
    if k == 'create':
        return create(ctx, case)
    if k == 'order':
        return order(ctx, case)
    kind, i = case['m'], case['i']
    cat = q.catalogue(kind)[0]
    a = cat[i]
    if k in ('same', 'three', 'opcode'):
        def make():
            m = q.build(kind)
            return [body(a, m) for _ in range(3 if k == 'three' else 2)], m
        n = length(make)
        exp = [expected(kind, i)] * 3
        once = a.name if a.args is None and memoised(a.name) else None
        if k == 'same':
            bound = 2 if n <= (SHORT if case['deep'] else 30) else 1
            drive(ctx, f'{kind}: twice {a}', make, exp, bound, once=once)
        elif k == 'three':
            drive(ctx, f'{kind}: three times {a}', make, exp, 1, once=once)
        else:
            drive(ctx, f'{kind}: twice {a}, by instruction', make, exp, 1, True, once=once)
    elif k == 'pair':
        b = cat[case['j']]

        def make():
            m = q.build(kind)
            return [body(a, m), body(b, m)], m
        drive(ctx, f'{kind}: {a} and {b}', make, [expected(kind, i), expected(kind, case['j'])], 1 if not case['deep'] or length(make) > 60 else 2)
    else:
        other = q.catalogue(case['o'])[0]
        j = [n for n, c in enumerate(other) if c.name == a.name]
        if not j:
            return
        j = j[0]

        def make():
            m, o = q.build(kind), q.build(case['o'])
            return [body(a, m), body(other[j], o)], m
        drive(ctx, f'{a} of {kind} and of {case["o"]}', make, [expected(kind, i), expected(case['o'], j)], 1)


def memoised(name):
    """Whether asking twice a fresh model computes once (when nothing runs at the same time)."""
    if name not in _memo:
        kind = 'ergodic' if name in names('ergodic') else 'hmm'
        m = q.build(kind)
        calls = []

        def watch(frame):
            if frame.f_code.co_name == name and frame.f_code.co_argcount == 1 and frame.f_locals.get('self') is m:
                calls.append(1)

        def twice():
            getattr(m, name)
            getattr(m, name)
        sched.Execution([twice], {}, ROOT, watch=watch).run()
        _memo[name] = len(calls) == 1
    return _memo[name]


_memo = {}
P2 = [[0.25, 0.75], [0.5, 0.5]]


def creators():
    import pydtmc as d
    MC, HM = d.MarkovChain, d.HiddenMarkovModel
    return {
        'chain': lambda: MC([[0.5, 0.5], [0.25, 0.75]], ['a', 'b']), 'default labels': lambda: MC([[0.0, 1.0], [1.0, 0.0]]), 'bad chain': lambda: MC([[0.5, 0.25], [0.25, 0.75]]), 'hidden': lambda: HM(P2, P2[::-1]), 'bad hidden': lambda: HM(P2, P2, ['a', 'b'], ['a', 'c']),
        'from_matrix': lambda: MC.from_matrix([[1.0, 3.0], [2.0, 0.0]]), 'identity': lambda: MC.identity(2), 'random': lambda: MC.random(2, seed=3), 'distribution': lambda: MC.random_distribution(2, 'uniform', seed=3), 'other distribution': lambda: MC.random_distribution(2, 'normal', seed=4, loc=1.0),
        'bad distribution': lambda: MC.random_distribution(2, 'none'), 'from_matrices': lambda: HM.from_matrices(P2, P2), 'hidden random': lambda: HM.random(2, 2, seed=4), 'fit': lambda: MC.fit_sequence('mle', ['a', 'b'], ['a', 'b', 'a', 'a']), 'dirichlet': lambda: MC.dirichlet_process(2, 2, seed=1),
        'simulate': lambda: MC(P2).simulate(4, seed=2), 'lazy': lambda: MC(P2).to_lazy_chain(), 'decode': lambda: HM(P2, P2).decode(['E1', 'E2']), 'dictionary': lambda: MC.from_dictionary({('x', 'x'): 0.5, ('x', 'y'): 0.5, ('y', 'x'): 1.0, ('y', 'y'): 0.0}),
    }


def create(ctx, case):
    c = creators()
    a, b = case['a'], case['b']
    e = []
    for x in (a, b):
        reset()
        e.append(made(c[x])())
    n = length(lambda: (reset(), ([made(c[a]), made(c[b])], None))[1])
    # the names of the distributions are found by a long scan of the documentation of numpy, with local data only
    skip = ('utilities.py',) if not case['deep'] and case['parts'] > 1 else ()
    drive(ctx, f'creation of {a} and {b}', lambda: ([made(c[a]), made(c[b])], None), e, 2 if n <= (64 if case['deep'] else 50) else 1, lazy=True, skip=skip, part=case['part'], parts=case['parts'])
    reset()


def made(f):
    def run():
        try:
            return ('value', q.freeze(f()))
        except Exception as ex:
            return ('raises', type(ex).__name__, str(ex))
    return run


def order(ctx, case):
    """The locks are always taken in the same order, whatever the chain; otherwise the queries concerned are run together."""
    d = sched.import_controlled()
    N = case['N']
    p = np.array([[v / sum(r) for v in r] for r in N])
    ctx.states += 1
    here = {}
    for name in names('ergodic'):
        m = d.MarkovChain(p)
        ex = sched.Execution([lambda: q.Query(name).run(m)[0]], {}, ROOT).run()
        ctx.transitions += 1
        ctx.traces += 1
        ctx.nontrivial += bool(ex.order)
        for o in ex.order:
            here.setdefault(o, []).append(name)
            _seen.setdefault(o, (p, name))
    for (x, y), nm in here.items():
        back = path(y, x)
        if back is None:
            continue
        # an inversion: explored for real
        ctx.count('inversions')
        parties = [(p, nm[0])] + [_seen[o] for o in back]

        def make():
            return [body(q.Query(n), d.MarkovChain(z)) for z, n in parties], None
        exps = [q.Query(n).run(d.MarkovChain(z))[0] for z, n in parties]
        drive(ctx, f'locks in opposite orders: {[n for _, n in parties]}', make, exps, len(parties) - 1, limit=20000)


_seen = {}


def path(a, b):
    """Pairs of locks leading from a to b among those seen so far."""
    todo, back = [a], {a: None}
    while todo:
        x = todo.pop()
        if x == b:
            out = []
            while back[x] is not None:
                out.append((back[x], x))
                x = back[x]
            return out[::-1] if len(out) < 4 else None
        for u, v in _seen:
            if u == x and v not in back:
                back[v] = x
                todo.append(v)
    return None
