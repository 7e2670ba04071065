"""The known defect of the long-horizon spectral shortcut, re-implemented to recognise exactly it.

The library takes the real parts of the eigenvectors and of the eigenvalues separately, which is wrong for complex spectra.
"""
import numpy as np
import numpy.linalg as npl


def analyse(pf):
    """'none' (no decomposition), 'real' or 'complex', and the real parts used by the library."""
    ev, vec = npl.eig(pf)
    idx = np.argsort(np.abs(ev))[::-1]
    ev, vec = ev[idx], vec[:, idx]
    c = npl.cond(vec)
    if c > 1e6:
        kind = 'none'
    elif np.max(np.abs(np.imag(ev))) > 1e-9:
        kind = 'complex'
    else:
        kind = 'real'
    if 1e5 < c < 1e7 or kind == 'real' and np.max(np.abs(np.imag(vec))) > 1e-9:   # complex eigenvectors of eigenvalues that are real up to rounding
        kind = 'unclear'
    if kind == 'none':
        return kind, None
    r = np.copy(vec)
    left = npl.solve(np.transpose(r), np.eye(pf.shape[0]))
    k = np.sum(left[:, 0])
    if not np.isclose(k, 0.0):
        r[:, 0] *= k
        left[:, 0] /= k
    return kind, (np.real(r), np.real(np.diag(ev)), np.transpose(np.real(left)))


def expected_transitions(pf, rdl, steps, init):
    r, d, left = rdl
    q = np.array(np.diag(d))
    one = q == 1.0
    gs = np.zeros(len(q))
    gs[one] = steps
    gs[~one] = (1.0 - q[~one]**steps) / (1.0 - q[~one])
    ts = np.dot(np.dot(r, np.diag(gs)), left)
    return np.dot(init, ts)[:, None] * pf


def power(rdl, t):
    r, d, left = rdl
    return np.dot(np.dot(r, np.diag(np.diag(d)**t)), left)
