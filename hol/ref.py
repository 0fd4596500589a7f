"""Float64 reference models of what the layers promise, each with a bound on
what float32 rounding may do.  Nothing here reads the library under test.

A result is a pair (value, tol): any float32 evaluation of the same formula,
in any order of operations, lands within tol of value."""
import math

import numpy as np

EPS = 2.0**-23
SLACK = 2.0
HUGE = 1e30
FLOOR = 1e-30


def nodes(n):
    """Chebyshev-Lobatto points on [-1, 1]; a single node sits at the centre."""
    if n == 1:
        return np.zeros(1)
    k = np.arange(n)
    x = -np.cos(math.pi * k / (n - 1))
    x = 0.5 * (x - x[::-1])  # exactly symmetric
    x[0], x[-1] = -1.0, 1.0
    return x


def lagrange(n, u, du):
    """Values of the n cardinal polynomials at u (any shape) and their error
    bound when u is known to within du."""
    X = nodes(n)
    u = np.asarray(u, float)
    du = np.broadcast_to(np.asarray(du, float), u.shape)
    if n == 1:
        return np.ones(u.shape + (1,)), np.zeros(u.shape + (1,)) + EPS
    dX = 8 * EPS
    a = u[..., None] - X
    da = du[..., None] + dX + 2 * EPS * np.abs(a)
    L = np.empty(u.shape + (n,))
    E = np.empty(u.shape + (n,))
    for j in range(n):
        m = np.arange(n) != j
        D = X[j] - X[m]
        ratio = a[..., m] / D
        L[..., j] = np.prod(ratio, axis=-1)
        up = np.prod((np.abs(a[..., m]) + da[..., m]) / np.abs(D), axis=-1)
        rel = np.prod(1 + 2 * dX / np.abs(D)) * (1 + 4 * n * EPS)
        E[..., j] = up * rel - np.abs(L[..., j]) + FLOOR
    return L, np.maximum(E, 0)


def dlagrange(n, u, du):
    """Derivatives of the cardinal polynomials with respect to u, with bound."""
    X = nodes(n)
    u = np.asarray(u, float)
    du = np.broadcast_to(np.asarray(du, float), u.shape)
    L = np.zeros(u.shape + (n,))
    E = np.zeros(u.shape + (n,)) + FLOOR
    if n == 1:
        return L, E
    dX = 8 * EPS
    a = u[..., None] - X
    da = du[..., None] + dX + 2 * EPS * np.abs(a)
    for j in range(n):
        others = [m for m in range(n) if m != j]
        Dall = np.abs(X[j] - X[others])
        rel = np.prod(1 + 2 * dX / Dall) * (1 + 8 * n * EPS)
        up = np.zeros(u.shape)
        absum = np.zeros(u.shape)
        val = np.zeros(u.shape)
        for l in others:
            mm = [m for m in others if m != l]
            p = np.ones(u.shape)
            q = np.ones(u.shape)
            for m in mm:
                D = X[j] - X[m]
                p = p * (a[..., m] / D)
                q = q * ((np.abs(a[..., m]) + da[..., m]) / abs(D))
            Dl = X[j] - X[l]
            val = val + p / Dl
            absum = absum + np.abs(p / Dl)
            up = up + q / abs(Dl)
        L[..., j] = val
        E[..., j] = up * rel - absum + 4 * n * EPS * up + FLOOR
    return L, np.maximum(E, 0)


def ispow2(v):
    if v <= 0:
        return False
    m, _ = math.frexp(v)
    return m == 0.5


def mirror(x, p):
    """Triangle wave: identity on [-p/2, p/2], reflected at its ends.
    Returns folded value, its error bound and the sign of the slope."""
    x = np.asarray(x, float)
    xp = np.mod(x + 0.5 * p, 2 * p)
    flip = xp > p
    y = np.where(flip, 2 * p - xp, xp) - 0.5 * p
    dx = 4 * EPS * (np.abs(x) + 2 * p)
    return y, dx, np.where(flip, -1.0, 1.0)


def locate(x, S, length, dx):
    """Segment of x, and the neighbour that rounding may legitimately select."""
    half = 0.5 * length
    t = (x + half) / length * S
    k = np.clip(np.floor(t), 0, S - 1).astype(int)
    r = np.round(t)
    tolt = 8 * EPS * (S * (np.abs(x) + half) / length + np.abs(t) + 1) + dx * S / length
    near = (np.abs(t - r) <= tolt) & (r >= 1) & (r <= S - 1)
    if ispow2(S) and ispow2(length):
        near = near & ~((t == r) & (dx == 0))
    alt = np.where(near, np.where(k == r, r - 1, r), k).astype(int)
    alt = np.clip(alt, 0, S - 1)
    return k, alt


def local(x, k, S, length, dx):
    half = 0.5 * length
    width = length / S
    xmin = -half + k * width
    u = 2 * (x - xmin) / width - 1
    # the last term: the width of a segment is a difference of two rounded edges
    du = 8 * EPS * ((2.0 * S / length) * (np.abs(x) + half) + np.abs(u) + 1) + dx * 2 * S / length + 4 * EPS * S * np.abs(u)
    return u, du


def _scatter(L, k, n, stride, K):
    out = np.zeros(L.shape[:-1] + (K,))
    idx = k[..., None] * stride + np.arange(n)
    np.put_along_axis(out, idx, L, axis=-1)
    return out


def piecewise_basis(x, n, S, length=2.0, continuous=True, dx=0.0, deriv=False):
    """Dense basis [..., K] and bound for the (dis)continuous piecewise case;
    deriv gives d/dx instead."""
    x = np.asarray(x, float)
    dx = np.broadcast_to(np.asarray(dx, float), x.shape)
    stride = n - 1 if continuous else n
    K = (n - 1) * S + 1 if continuous else n * S
    f = dlagrange if deriv else lagrange
    scale = 2.0 * S / length if deriv else 1.0

    def one(k):
        u, du = local(x, k, S, length, dx)
        L, E = f(n, u, du)
        L, E = L * scale, E * scale + (4 * EPS * (1 + S) * np.abs(L) * scale if deriv else 0)
        return _scatter(L, k, n, stride, K), _scatter(E, k, n, stride, K)

    k, alt = locate(x, S, length, dx)
    B, E = one(k)
    if np.any(alt != k):
        B2, E2 = one(alt)
        E = np.maximum(E, E2) + np.abs(B - B2)
    return B, E


def flat_basis(x, n, length=2.0, dx=0.0, deriv=False):
    x = np.asarray(x, float)
    u = x * 2.0 / length
    du = 8 * EPS * (np.abs(u) + 1) + np.asarray(dx) * 2.0 / length
    if deriv:
        L, E = dlagrange(n, u, du)
        s = 2.0 / length
        return L * s, E * s + 4 * EPS * np.abs(L) * s
    return lagrange(n, u, du)


def fourier_basis(x, n, length=2.0, dx=0.0, deriv=False):
    x = np.asarray(x, float)
    cols, errs = [], []
    for j in range(n):
        i = (j + 1) // 2
        w = 2 * math.pi * i / length
        ang = w * x
        dang = 8 * EPS * np.abs(ang) + w * np.asarray(dx) + 2 * EPS
        if j == 0:
            v = np.zeros_like(x) if deriv else np.full_like(x, 0.5)
            e = np.zeros_like(x) + (0 if deriv else EPS * EPS)
        elif j % 2 == 0:
            v = -w * np.sin(ang) if deriv else np.cos(ang)
            e = dang * (w if deriv else 1) + 8 * EPS * np.abs(v)
        else:
            v = w * np.cos(ang) if deriv else np.sin(ang)
            e = dang * (w if deriv else 1) + 8 * EPS * np.abs(v)
        cols.append(v)
        errs.append(e)
    return np.stack(cols, -1), np.stack(errs, -1)


def basis(kind, x, n, S=None, length=2.0, periodicity=None, deriv=False):
    """kind: continuous | discontinuous | polynomial | fourier."""
    dx = 0.0
    sgn = None
    if periodicity is not None:
        x, dx, sgn = mirror(x, periodicity)
    if kind == "continuous":
        r = piecewise_basis(x, n, S, length, True, dx, deriv)
    elif kind == "discontinuous":
        r = piecewise_basis(x, n, S, length, False, dx, deriv)
    elif kind == "polynomial":
        r = flat_basis(x, n, length, dx, deriv)
    elif kind == "fourier":
        r = fourier_basis(x, n, length, dx, deriv)
    else:
        raise KeyError(kind)
    if deriv and sgn is not None:
        # at a fold either one-sided slope is right
        fold = np.abs(np.abs(x) - 0.5 * periodicity) <= 4 * dx
        r = (r[0] * sgn[..., None], r[1] + np.where(fold, 2.0, 0.0)[..., None] * np.abs(r[0]))
    return r


def links(B, E, w):
    """Value of every link function [batch, out, in] and its bound."""
    F = np.einsum("bik,oik->boi", B, w)
    A = np.einsum("bik,oik->boi", np.abs(B), np.abs(w))
    T = np.einsum("bik,oik->boi", E, np.abs(w))
    return F, T, A


def continuous_links(x, w, n, S, length=2.0, periodicity=None, dx=0.0):
    """Link values of the continuous piecewise case.  Next to a segment edge
    either neighbour may be used: their values agree there, so the bound stays
    tight, unlike one that compares basis functions.  Returns B, F, T, A."""
    if periodicity is not None:
        x, dx, _ = mirror(x, periodicity)
    x = np.asarray(x, float)
    dx = np.broadcast_to(np.asarray(dx, float), x.shape)
    K = (n - 1) * S + 1
    k, alt = locate(x, S, length, dx)

    def one(q):
        u, du = local(x, q, S, length, dx)
        L, E = lagrange(n, u, du)
        B, E = _scatter(L, q, n, n - 1, K), _scatter(E, q, n, n - 1, K)
        F, T, A = links(B, E, w)
        return B, F, T, A

    B, F, T, A = one(k)
    if np.any(alt != k):
        B2, F2, T2, A2 = one(alt)
        T, A = np.maximum(T, T2) + np.abs(F - F2), np.maximum(A, A2)
        B = np.where(np.abs(B2) > np.abs(B), B2, B)  # only its size is used
    return B, F, T, A


def sum_links(B, F, T, A):
    nt = B.shape[1] * min(B.shape[2], 64) + 8
    return F.sum(-1), overflow(B, SLACK * (T.sum(-1) + nt * EPS * A.sum(-1)) + FLOOR)


def prod_links(B, F, T, A, alpha=1.0):
    nt = min(B.shape[2], 64) + 8
    v, tol = prod_of_links(F, T + nt * EPS * A, alpha)
    part = np.prod(np.maximum(1, np.abs(1 + F) * (1 + 1e-5) + T), -1)
    return v, overflow(B, np.where(part < HUGE, tol + 1e-38 * part, np.inf))


def sum_layer(B, E, w):
    F, T, A = links(B, E, w)
    nt = B.shape[1] * min(B.shape[2], 64) + 8
    tol = T.sum(-1) + nt * EPS * A.sum(-1)
    return F.sum(-1), overflow(B, SLACK * tol + FLOOR)


def overflow(B, tol):
    """No claim about rows whose basis leaves the float32 range on the way."""
    bad = (~(np.abs(B) < 1e25)).any(axis=(1, 2))
    if bad.any():
        tol = tol.copy()
        tol[bad] = np.inf
    return tol


def prod_of_links(F, T, alpha=1.0, sub_sum=True):
    """prod(1+f)-1, with the linear part removed by (1-alpha)."""
    I = F.shape[-1]
    P = np.prod(1 + F, -1)
    up = np.prod(np.abs(1 + F) + T + EPS * (1 + np.abs(F)), -1)
    val = P - 1 - (1 - alpha) * F.sum(-1)
    tol = (
        up
        - np.abs(P)
        + (I + 8) * EPS * up
        + abs(1 - alpha) * (T.sum(-1) + (I + 8) * EPS * np.abs(F).sum(-1))
        + 8 * EPS * (1 + np.abs(val) + np.abs(P) + abs(1 - alpha) * np.abs(F).sum(-1))
    )
    return val, SLACK * tol + FLOOR


def prod_layer(B, E, w, alpha=1.0):
    F, T, A = links(B, E, w)
    nt = min(B.shape[2], 64) + 8
    v, tol = prod_of_links(F, T + nt * EPS * A, alpha)
    part = np.prod(np.maximum(1, np.abs(1 + F) * (1 + 1e-5) + T), -1)  # partial products must not overflow either
    return v, overflow(B, np.where(part < HUGE, tol + 1e-38 * part, np.inf))


def tensor_basis(x, ns, length=2.0, Ss=None, dx=0.0):
    """x [batch, in, dim]: tensor product basis, last dimension fastest.
    With Ss: every (cell) has its own nodes; result is over all cells."""
    d = len(ns)
    b, i, _ = x.shape
    if Ss is None:
        V = np.ones((b, i, 1))
        U = np.ones((b, i, 1))
        for q in range(d):
            L, E = flat_basis(x[..., q], ns[q], length, dx if np.isscalar(dx) else dx[..., q])
            V, U = (
                (V[..., :, None] * L[..., None, :]).reshape(b, i, -1),
                (U[..., :, None] * (np.abs(L) + E)[..., None, :]).reshape(b, i, -1),
            )
        return V, U - np.abs(V) + (8 * d * EPS) * U
    # piecewise: [cell index (row major), node index (row major)]
    V = np.ones((b, i, 1))
    U = np.ones((b, i, 1))
    flat = np.zeros((b, i), int)
    near = np.zeros((b, i), bool)
    for q in range(d):
        xq = x[..., q]
        k, alt = locate(xq, Ss[q], length, np.zeros_like(xq))
        near |= alt != k
        u, du = local(xq, k, Ss[q], length, 0.0)
        L, E = lagrange(ns[q], u, du)
        flat = flat * Ss[q] + k
        V, U = (
            (V[..., :, None] * L[..., None, :]).reshape(b, i, -1),
            (U[..., :, None] * (np.abs(L) + E)[..., None, :]).reshape(b, i, -1),
        )
    Err = U - np.abs(V) + (8 * d * EPS) * U
    return V, Err, flat, near


def close(a, v, tol):
    """Index of the first disagreement or None; only where the bound is
    meaningful for float32."""
    a = np.asarray(a, float)
    ok = np.isfinite(v) & np.isfinite(tol) & (np.abs(v) + tol < HUGE)
    with np.errstate(invalid="ignore"):
        bad = ok & ~(np.abs(a - v) <= tol)
    if bad.any():
        return tuple(int(q) for q in np.argwhere(bad)[0]), int(bad.sum()), int(ok.sum())
    return None, 0, int(ok.sum())
