"""Enumerated families of hidden Markov models (integer weights for transitions and emissions)."""

import itertools

from lib import families as fam


def rows(n, d):
    return [list(c) for c in fam.compositions(d, n)]


def masks_rows(n, kind):
    return [fam.weigh([m], kind, n)[0] for m in range(1, 1 << n)]


def emissions(spec):
    """('grid', n, k, d): all emission matrices on a grid; ('sup', n, k, kind): all supports; ('list', [...])."""
    if spec[0] == 'grid':
        for m in itertools.product(rows(spec[2], spec[3]), repeat=spec[1]):
            yield [list(r) for r in m]
    elif spec[0] == 'sup':
        for m in itertools.product(range(1, 1 << spec[2]), repeat=spec[1]):
            yield fam.weigh(m, spec[3], spec[2])
    elif spec[0] == 'wide':      # a few shapes for more states and symbols
        n, k = spec[1:]
        yield fam.weigh([(1 << k) - 1] * n, 'd', k)
        yield fam.weigh([1 << (i % k) | 1 << ((i * 3 + 1) % k) for i in range(n)], 'd', k)
        yield fam.weigh([1 << (i * 5 % k) for i in range(n)], 'u', k)
        yield fam.weigh([(1 << (i % k + 1)) - 1 for i in range(n)], 's', k)
    else:
        for m in spec[1]:
            yield [list(r) for r in m]


def models(pspec, espec):
    es = list(emissions(espec))
    for N in fam.matrices(pspec):
        for E in es:
            yield N, E


def make_jobs(specs, tag=None):
    out = []
    for pspec, espec, parts in specs:
        for i in range(parts):
            out.append((pspec, espec, i, parts) if tag is None else (tag, pspec, espec, i, parts))
    return out


def case_iter(job):
    pspec, espec, i, parts = job
    for idx, (N, E) in enumerate(itertools.islice(models(pspec, espec), i, None, parts)):
        yield {'N': N, 'E': E, 'L': fam.MODES[(idx + i) % 4]}


def labels(mode, n, k):
    st = fam.labels(mode, n)
    sy = ['y' + s for s in reversed(fam.labels('num' if mode in ('num', 'rev') else 'mix', k))]
    return st, sy


def floats(N):
    return [[v / sum(r) for v in r] for r in N]
