"""Numerical reference derivatives (Richardson-extrapolated central differences)."""
import numpy as np


def jac(f, x, h=1e-3, levels=3):
    """d f(x)_.. / d x_j in the last axis; error O(h^(2*levels))."""
    x = np.asarray(x, dtype=float)
    cols = []
    for j in range(x.size):
        T = []
        for l in range(levels):
            hj = (h if np.ndim(h) == 0 else h[j]) / 2 ** l
            xp, xm = x.copy(), x.copy()
            xp[j] += hj
            xm[j] -= hj
            T.append((np.asarray(f(xp), dtype=float) - np.asarray(f(xm), dtype=float)) / (xp[j] - xm[j]))
        for k in range(1, levels):
            T = [(4 ** k * T[i + 1] - T[i]) / (4 ** k - 1) for i in range(len(T) - 1)]
        cols.append(T[0])
    return np.stack(cols, axis=-1) if cols else np.zeros(np.shape(f(x)) + (0,))


def grad(f, x, h=1e-3, levels=3):
    return jac(lambda z: np.asarray(f(z), dtype=float), x, h, levels)


def deriv(f, x, h=1e-3, levels=3):
    """Elementwise derivative of a vectorised scalar function at array x (h scalar or array)."""
    x = np.asarray(x, dtype=float)
    T = []
    for l in range(levels):
        hl = h / 2 ** l
        xp, xm = x + hl, x - hl
        T.append((np.asarray(f(xp), dtype=float) - np.asarray(f(xm), dtype=float)) / (xp - xm))
    for k in range(1, levels):
        T = [(4 ** k * T[i + 1] - T[i]) / (4 ** k - 1) for i in range(len(T) - 1)]
    return T[0]


def hess(f, x, h=1e-2, levels=3):
    """Second derivatives of a scalar function by nested central differences."""
    return jac(lambda z: jac(f, z, h, levels), x, h, levels)


def spd(rng, n, ridge=0.3):
    A = rng.standard_normal((n, n + 2))
    return A @ A.T / (n + 2) + ridge * np.eye(n)


def corr(rng, n, ridge=0.3):
    S = spd(rng, n, ridge)
    s = np.sqrt(np.diag(S))
    return S / np.outer(s, s)


def dense(A):
    return A.toarray() if hasattr(A, "toarray") else np.asarray(A)
