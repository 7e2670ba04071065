"""Exhaustively enumerated families of chains (matrices of integer weights)."""

import itertools
from math import gcd


def compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for k in range(total + 1):
        for rest in compositions(total - k, parts - 1):
            yield (k,) + rest


def grid(n, denom):
    """All stochastic matrices of size n with entries k / denom."""
    rows = list(compositions(denom, n))
    for m in itertools.product(rows, repeat=n):
        yield [list(r) for r in m]


def grid_count(n, denom):
    return len(list(compositions(denom, n))) ** n


def supports(n):
    """All support patterns of size n, as tuples of row masks."""
    return itertools.product(range(1, 1 << n), repeat=n)


_canon_cache = {}


def canonical_supports(n):
    """One support pattern per class of patterns equal up to a permutation of the states."""
    if n in _canon_cache:
        return _canon_cache[n]
    perms = list(itertools.permutations(range(n)))
    tabs = []
    for p in perms:
        # image of each mask when state p[k] becomes state k
        tabs.append([sum(1 << k for k in range(n) if m >> p[k] & 1) for m in range(1 << n)])
    seen = set()
    reps = []
    for s in supports(n):
        if s in seen:
            continue
        orbit = {tuple(t[s[p[k]]] for k in range(n)) for p, t in zip(perms, tabs)}
        seen |= orbit
        reps.append(s)
    _canon_cache[n] = reps
    return reps


W1 = [1, 3, 2, 5, 4, 7, 6, 11, 9, 13, 10, 17]


def weigh(masks, kind, n):
    """Integer weights for a support pattern. Kinds: u (equal), d (distinct), s (strongly unequal)."""
    out = []
    for i, m in enumerate(masks):
        row = []
        c = 0
        for j in range(n):
            if m >> j & 1:
                if kind == 'u':
                    w = 1
                elif kind == 'd':
                    w = W1[(i * 2 + c * 3 + j) % len(W1)]
                elif kind == 's':
                    w = 1 if (i + c) % 2 else 997
                elif kind == 't':    # extremely unequal
                    w = (1, 10**10, 10**5)[(i * 2 + c + j) % 3]
                elif kind == 'e':    # nearly equal, without ties
                    w = 10**6 + (c * 2 + i + j) % 3 + 3 * c
                elif kind == 'y':    # dyadic: the sum is a power of two
                    w = None
                else:
                    raise ValueError(kind)
                c += 1
            else:
                w = 0
            row.append(w)
        if kind == 'y':
            k = sum(1 for w in row if w is None)
            # 1/2, 1/4, ..., the last two equal
            vals = [1 << (k - 2 - t) if t < k - 1 else 1 for t in range(k)] if k > 1 else [1]
            vals = vals[i % k:] + vals[:i % k]
            it = iter(vals)
            row = [next(it) if w is None else w for w in row]
        out.append(row)
    return out


def shuffled(masks, n, code):
    """A relabelling of a pattern which depends on `code` only."""
    perm = list(range(n))
    k = code
    for i in range(n - 1, 0, -1):
        k, r = divmod(k * 7 + 5 + i, i + 1)
        perm[i], perm[r] = perm[r], perm[i]
        k += code
    return tuple(sum(1 << a for a in range(n) if masks[perm[b]] >> perm[a] & 1) for b in range(n))


def masks_of(N):
    return tuple(sum(1 << j for j, v in enumerate(r) if v) for r in N)


def from_edges(n, edges):
    m = [0] * n
    for a, b in edges:
        m[a] |= 1 << b
    return tuple(m)


def rings_with_chords(n):
    """Directed ring of length n with at most one additional chord: every period is met."""
    ring = [(i, (i + 1) % n) for i in range(n)]
    yield from_edges(n, ring)
    for a in range(n):
        for b in range(n):
            if b != (a + 1) % n:
                yield from_edges(n, ring + [(a, b)])


def functional(n):
    """All deterministic maps."""
    for f in itertools.product(range(n), repeat=n):
        yield tuple(1 << v for v in f)


def two_out(n):
    """All patterns with one or two targets per state."""
    rows = [m for m in range(1, 1 << n) if bin(m).count('1') <= 2]
    return itertools.product(rows, repeat=n)


def structured():
    """A list of (name, masks, n) of larger chains covering unions of cycles, transient chains, bottlenecks."""
    out = []
    # transient chain of length a into a cycle of length b, with an optional self-loop in the transient part
    for a in range(0, 5):
        for b in range(1, 7):
            n = a + b
            if n < 2:
                continue
            e = [(i, i + 1) for i in range(a)] + [(a + i, a + (i + 1) % b) for i in range(b)]
            out.append((f'tail{a}cycle{b}', from_edges(n, e), n))
            if a:
                out.append((f'tail{a}cycle{b}loop', from_edges(n, e + [(0, 0)]), n))
                out.append((f'tail{a}cycle{b}back', from_edges(n, e + [(a - 1, 0)]), n))
    # one transient state feeding two cycles
    for b in range(1, 6):
        for c in range(1, 6):
            n = 1 + b + c
            e = [(0, 1), (0, 1 + b)] + [(1 + i, 1 + (i + 1) % b) for i in range(b)] + [(1 + b + i, 1 + b + (i + 1) % c) for i in range(c)]
            out.append((f'fork{b}_{c}', from_edges(n, e), n))
            out.append((f'fork{b}_{c}loop', from_edges(n, e + [(0, 0)]), n))
    # two cycles sharing a state
    for b in range(2, 7):
        for c in range(b, 7):
            n = b + c - 1
            e = [(i, (i + 1) % b) for i in range(b)]
            prev = 0
            for i in range(c - 1):
                e.append((prev, b + i))
                prev = b + i
            e.append((prev, 0))
            out.append((f'eight{b}_{c}', from_edges(n, e), n))
    # disjoint cycles
    for b in range(1, 6):
        for c in range(b, 6):
            n = b + c
            if n < 2:
                continue
            e = [(i, (i + 1) % b) for i in range(b)] + [(b + i, b + (i + 1) % c) for i in range(c)]
            out.append((f'two{b}_{c}', from_edges(n, e), n))
    # complete bipartite and complete without diagonal
    for b in range(1, 5):
        for c in range(1, 5):
            n = b + c
            e = [(i, b + j) for i in range(b) for j in range(c)] + [(b + j, i) for i in range(b) for j in range(c)]
            out.append((f'bip{b}_{c}', from_edges(n, e), n))
    for n in range(5, 9):
        out.append((f'full{n}', tuple((1 << n) - 1 for _ in range(n)), n))
        out.append((f'nodiag{n}', tuple(((1 << n) - 1) & ~(1 << i) for i in range(n)), n))
        out.append((f'line{n}', from_edges(n, [(i, min(i + 1, n - 1)) for i in range(n)] + [(i, max(i - 1, 0)) for i in range(n)]), n))
    return out


def content(masks, n):
    return {'m': list(masks), 'n': n}


def simplify(N):
    g = 0
    for r in N:
        for v in r:
            g = gcd(g, v)
    return N if g <= 1 else [[v // g for v in r] for r in N]


def chunks(seq, size):
    seq = list(seq)
    return [seq[i:i + size] for i in range(0, len(seq), size)]


# ---------------------------------------------------------------------------
# specifications -> jobs -> matrices


def matrices(spec):
    """Enumerates the integer matrices of a family specification (JSON-able tuple)."""
    kind = spec[0]
    if kind == 'grid':
        yield from grid(spec[1], spec[2])
    elif kind == 'sup':
        for m in supports(spec[1]):
            yield weigh(m, spec[2], spec[1])
    elif kind == 'can':
        n = spec[1]
        for idx, m in enumerate(canonical_supports(n)):
            for code in spec[3]:
                s = m if code == 0 else shuffled(m, n, code + idx)
                yield weigh(s, spec[2], n)
    elif kind == 'two':
        for m in two_out(spec[1]):
            yield weigh(m, spec[2], spec[1])
    elif kind == 'fun':
        for m in functional(spec[1]):
            yield weigh(m, 'u', spec[1])
    elif kind == 'ring':
        for n in spec[1]:
            for m in rings_with_chords(n):
                yield weigh(m, spec[2], n)
    elif kind == 'struct':
        for i, (_, m, n) in enumerate(structured()):
            for code in spec[2]:
                s = m if code == 0 else shuffled(m, n, code + i)
                yield weigh(s, spec[1], n)
    elif kind == 'big':
        for m, n in big(spec[1]):
            yield weigh(m, spec[2], n)
    elif kind == 'wide':
        for n in spec[1]:
            for i, m in enumerate(wide(n)):
                for code in spec[3]:
                    yield weigh(m if code == 0 else shuffled(m, n, code + i), spec[2], n)
    elif kind == 'pair':
        for a, b in itertools.product(compositions(spec[2], spec[1]), repeat=2):
            yield [list(a)] + [list(b) for _ in range(spec[1] - 1)]
    elif kind == 'list':
        for N in spec[1]:
            yield [list(r) for r in N]
    else:
        raise ValueError(spec)


def big(sizes):
    """Large sparse chains: paths with self-loops (long accessibility chains), rings with one chord."""
    for n in sizes:
        yield from_edges(n, [(i, i) for i in range(n)] + [(i, i + 1) for i in range(n - 1)]), n
        yield from_edges(n, [(i, i) for i in range(n)] + [(i, i - 1) for i in range(1, n)]), n
        yield from_edges(n, [(i, (i + 1) % n) for i in range(n)]), n
        yield from_edges(n, [(i, (i + 1) % n) for i in range(n)] + [(0, 2)]), n
        yield from_edges(n, [(i, (i + 1) % n) for i in range(n)] + [(0, 3)]), n
        yield from_edges(n, [(i, min(i + 1, n - 1)) for i in range(n)] + [(i, max(i - 1, 0)) for i in range(n)]), n
        yield from_edges(n, [(i, i + 1) for i in range(n - 1)] + [(n - 1, n - 1)]), n
        yield from_edges(n, [(i, i + 1) for i in range(n - 1)] + [(n - 1, n - 2)]), n


def wide(n):
    """Chains with more states than the exhaustive families: one of each shape."""
    k = n // 3
    yield from_edges(n, [(i, min(i + 1, n - 1)) for i in range(n)] + [(i, max(i - 1, 0)) for i in range(n)])
    yield from_edges(n, [(i, (i + 1) % n) for i in range(n)] + [(i, i) for i in range(n)])
    yield from_edges(n, [(i, (i + 1) % n) for i in range(n)] + [(0, 2)])
    yield tuple((1 << n) - 1 for _ in range(n))
    yield from_edges(n, [(0, 0), (n - 1, n - 1)] + [(i, i + d) for i in range(1, n - 1) for d in (-1, 1)])
    yield from_edges(n, [(i, min(i + 1, n - 1)) for i in range(n)] + [(i, i) for i in range(0, n, 2)])
    yield from_edges(n, [(i, (i + 1) % k) for i in range(k)] + [(i, i) for i in range(k)] + [(k + i, k + (i + 1) % k) for i in range(k)]
                     + [(i, (i * 5) % n) for i in range(2 * k, n)] + [(i, i - k) for i in range(2 * k, n)] + [(i, 0) for i in range(2 * k, n)] + [(i, max(i - 1, 2 * k)) for i in range(2 * k, n)])
    yield from_edges(n, [(i, (i + 1) % n) for i in range(n)])
    yield from_edges(n, [(i, (i + 1) % n) for i in range(n)] + [(i, (2 * i) % n) for i in range(n)] + [(i, (i + 5) % n) for i in range(0, n, 3)])
    yield from_edges(n, [(0, i) for i in range(1, n)] + [(i, 0) for i in range(1, n)] + [(1, 1)])


def make_jobs(specs, parts):
    """specs: list of (spec, parts or None)."""
    out = []
    for s in specs:
        spec, k = s if isinstance(s, tuple) and len(s) == 2 and isinstance(s[0], (tuple, list)) else (s, None)
        k = k or parts
        for i in range(k):
            out.append((spec, i, k))
    return out


def job_matrices(job):
    spec, i, k = job
    return itertools.islice(matrices(spec), i, None, k)


LABELS = {
    'num': lambda n: None,
    'rev': lambda n: [f'S{n - i:02d}' for i in range(n)],
    'mix': lambda n: [('b' if i % 2 else 'A') + str((i * 7) % n if n % 7 else (i * 5) % n) + ('' if i % 3 else ' x') + f'.{i}' for i in range(n)],
    'shift': lambda n: [str((i + 1) % n + 1) for i in range(n)],
}


def labels(mode, n):
    v = LABELS[mode](n)
    return [str(i + 1) for i in range(n)] if v is None else v


MODES = ['num', 'rev', 'mix', 'shift']


def case_iter(job):
    for idx, N in enumerate(job_matrices(job)):
        yield {'N': N, 'L': MODES[(idx + job[1]) % 4]}
