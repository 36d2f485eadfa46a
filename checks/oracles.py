"""Reference models. Deliberately naive, sharing no code with the package under test."""
from functools import lru_cache

import numpy as np


def t1(a, C, Ct):
    return np.einsum("pa,ab,bq->pq", Ct, a, C, optimize=True)


def t2(u, C, Ct):
    return np.einsum("pa,qb,abcd,cr,ds->pqrs", Ct, Ct, u, C, C, optimize=True)


def tket(f, C):
    return np.einsum("ap,a...->p...", C, f)


def tbra(f, Ct):
    return np.einsum("pa,a...->p...", Ct, f)


def spin1(a):
    """Index-by-index spin doubling of a matrix (up/down interleaved)."""
    l = a.shape[0]
    out = np.zeros((2 * l, 2 * l), dtype=complex)
    for P in range(2 * l):
        for Q in range(2 * l):
            if P % 2 == Q % 2:
                out[P, Q] = a[P // 2, Q // 2]
    return out


def spin2(u):
    l = u.shape[0]
    out = np.zeros((2 * l,) * 4, dtype=complex)
    for s in (0, 1):
        for t in (0, 1):
            # particle 1 carries spin s, particle 2 spin t
            out[s::2, t::2, s::2, t::2] = u
    return out


def spinf(f):
    return np.stack([f[P // 2] for P in range(2 * f.shape[0])]) if len(f) else f


def asym(u):
    return u - np.swapaxes(u, 2, 3)


PAULI = [
    np.array([[0, 1], [1, 0]], dtype=complex),
    np.array([[0, -1j], [1j, 0]], dtype=complex),
    np.array([[1, 0], [0, -1]], dtype=complex),
]


def spin_basis(p):
    """Orthonormal spinor pair from four angles [theta, phi1, phi2, phi3]."""
    th, f1, f2, f3 = p
    a = np.array([np.cos(th) * np.exp(1j * f1), np.sin(th) * np.exp(1j * f2)])
    b = np.array([-np.sin(th) * np.exp(-1j * f2), np.cos(th) * np.exp(-1j * f1)]) * np.exp(1j * f3)
    return a, b


def paulis(a, b):
    """<i|sigma|j> for i, j in (a, b)."""
    U = np.stack([a, b], axis=1)
    return [U.conj().T @ s @ U for s in PAULI]


# ----------------------------------------------------------------- Fock space


@lru_cache(maxsize=None)
def annihilators(n):
    """Jordan-Wigner annihilation operators on n modes; vacuum is basis state 0."""
    Z, A, I = np.diag([1.0, -1.0]), np.array([[0.0, 1.0], [0.0, 0.0]]), np.eye(2)
    ops = []
    for k in range(n):
        m = np.eye(1)
        for j in range(n):
            m = np.kron(m, Z if j < k else A if j == k else I)
        ops.append(m)
    return ops


def fock_one(h):
    n = h.shape[0]
    a = np.array(annihilators(n))
    if n == 0:
        return np.zeros((1, 1))
    return np.einsum("pq,pji,qjk->ik", h, a, a, optimize=True)


@lru_cache(maxsize=None)
def pair_ops(n):
    a = annihilators(n)
    return np.array([[a[q] @ a[p] for q in range(n)] for p in range(n)])


def fock_two(u):
    """sum_pqrs u_pqrs p^ q^ s r"""
    n = u.shape[0]
    if n == 0:
        return np.zeros((1, 1))
    A = pair_ops(n)  # A[p, q] = a_q a_p
    d = A.shape[-1]
    Af = A.reshape(n * n, d, d)
    M = np.einsum("xy,yjk->xjk", u.reshape(n * n, n * n), Af, optimize=True)
    return np.einsum("xji,xjk->ik", Af, M, optimize=True)


def determinant(n_modes, occupied):
    a = annihilators(n_modes)
    v = np.zeros(2**n_modes)
    v[0] = 1.0
    for p in reversed(list(occupied)):
        v = a[p].T @ v
    return v
