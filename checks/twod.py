"""Independent two-dimensional oscillator: quantum numbers, orbitals, integrals (spectral quadrature)."""
from functools import lru_cache
from math import lgamma

import numpy as np
from scipy.special import jv


def table(l):
    """(n, m) of the first l orbitals: shells of increasing energy, angular momentum ascending."""
    out, k = [], 0
    while len(out) < l:
        out += [((k - abs(m)) // 2, m) for m in range(-k, k + 1, 2)]
        k += 1
    return out[:l]


def laguerre(n, a, x):
    """Associated Laguerre polynomial by recurrence."""
    x = np.asarray(x, dtype=float)
    if n == 0:
        return np.ones_like(x)
    p, q = np.ones_like(x), 1.0 + a - x
    for k in range(1, n):
        p, q = q, ((2 * k + 1 + a - x) * q - (k + a) * p) / (k + 1)
    return q


def radial(n, m, r, mw=1.0):
    """Radial part, normalised to int r R^2 dr = 1, oscillator length 1/sqrt(mw)."""
    a = abs(m)
    y = mw * np.asarray(r, dtype=float) ** 2
    norm = np.exp(0.5 * (np.log(2.0 * mw) + lgamma(n + 1) - lgamma(n + a + 1)))
    return norm * np.sqrt(y) ** a * laguerre(n, a, y) * np.exp(-0.5 * y)


@lru_cache(maxsize=None)
def legendre(n, lo, hi):
    x, w = np.polynomial.legendre.leggauss(n)
    return 0.5 * (hi - lo) * (x + 1) + lo, 0.5 * (hi - lo) * w


def grids(states):
    top = max(2 * n + abs(m) for n, m in states)
    R = np.sqrt(2.0 * top + 2) + 7.5
    K = 2 * np.sqrt(2.0 * top + 2) + 12
    return legendre(60 + 6 * top, 0.0, float(R)), legendre(90 + 8 * top, 0.0, float(K))


def pair_transform(a, b, g):
    """int r dr R_a R_b J_|dm|(k r) on the k grid."""
    (r, wr), (k, _) = g
    f = r * wr * radial(*a, r) * radial(*b, r)
    return jv(abs(a[1] - b[1]), np.outer(k, r)) @ f


def element(p, q, r, s):
    """<pq|1/r12|rs> at unit frequency and mass for (n, m) pairs."""
    if p[1] + q[1] != r[1] + s[1]:
        return 0.0
    g = grids([p, q, r, s])
    return float(np.sum(g[1][1] * pair_transform(p, r, g) * pair_transform(q, s, g)))


def coulomb(states):
    """All elements, physicists' order, at unit frequency and mass."""
    l = len(states)
    g = grids(states)
    (r, wr), (k, wk) = g
    Rs = np.array([radial(n, m, r) for n, m in states])
    ms = np.array([m for _, m in states])
    J = {}
    G = np.zeros((l, l, len(k)))
    for a in range(l):
        for b in range(a + 1):
            dm = abs(ms[a] - ms[b])
            if dm not in J:
                J[dm] = jv(dm, np.outer(k, r))
            G[a, b] = G[b, a] = J[dm] @ (r * wr * Rs[a] * Rs[b])
    u = np.einsum("prk,qsk->pqrs", G * wk, G, optimize=True)
    tot = ms[:, None] + ms[None, :]
    return np.where(tot[:, :, None, None] == tot[None, None, :, :], u, 0.0)


def orbital(n, m, r, theta, mw=1.0):
    return radial(n, m, r, mw) * np.exp(1j * m * theta) / np.sqrt(2 * np.pi)


def radial_moment(a, b, power, mw=1.0):
    """int r dr R_a r^power R_b."""
    top = max(2 * a[0] + abs(a[1]), 2 * b[0] + abs(b[1]))
    R = (np.sqrt(2.0 * top + 2) + 7.5) / np.sqrt(mw)
    r, w = legendre(80 + 6 * top, 0.0, 1.0)
    r, w = r * R, w * R
    return float(np.sum(w * r * radial(*a, r, mw) * radial(*b, r, mw) * r**power))


def dipole(states, mw=1.0):
    l = len(states)
    d = np.zeros((2, l, l), dtype=complex)
    for p, (n1, m1) in enumerate(states):
        for q, (n2, m2) in enumerate(states):
            dm = m2 - m1  # angular integrals of cos and sin against exp(i dm theta)
            if abs(dm) != 1:
                continue
            x = radial_moment((n1, m1), (n2, m2), 1, mw)
            d[0, p, q] = 0.5 * x
            d[1, p, q] = 0.5j * x if dm == 1 else -0.5j * x
    return d
