"""Interpolation nodes, basis functions and input expansions."""
import numpy as np
import torch

from hol import api, gen, monitor
from hol import ref as R


def nodes(ctx):
    n = ctx.index % 40 + 1
    with ctx.cut(f"chebyshevLobatto({n})"):
        X = api.ns.lagrange.chebyshevLobatto(n)
    ctx.expect(tuple(X.shape) == (n,), f"chebyshevLobatto({n}) has shape {tuple(X.shape)}")
    x = monitor.n64(X)
    ctx.expect(bool((np.abs(x - R.nodes(n)) <= 4 * R.EPS).all()), f"chebyshevLobatto({n}) = {x.tolist()}")
    ctx.expect(bool((np.diff(x) > 0).all()), f"chebyshevLobatto({n}) is not increasing")
    ctx.expect(bool((np.abs(x + x[::-1]) <= 8 * R.EPS).all()), f"chebyshevLobatto({n}) is not symmetric")
    if n > 1:
        ctx.expect(x[0] == -1 and x[-1] == 1, f"chebyshevLobatto({n}) misses an end")
    ctx.see("node_sets")
    ctx.describe(n=n)
    ctx.sig("nodes", n)


def make_basis(ctx, n, L):
    how = ctx.choice(["get", "get", "class"])
    G = api.ns.lagrange
    with ctx.cut(f"Lagrange basis n={n} length={L}"):
        if how == "get":
            return G.get_lagrange_basis(n, L) if ctx.chance(0.5) else G.get_lagrange_basis(n=n, **gen.usual(ctx, L))
        return G.LagrangeBasis(n, **gen.usual(ctx, L)) if n > 1 or ctx.chance(0.4) else G.LagrangeBasis1(**gen.usual(ctx, L))


def basis(ctx):
    n, L = gen.n_nodes(ctx), gen.length(ctx)
    b = make_basis(ctx, n, L)
    nd = ctx.int(1, 6)
    shape = tuple(ctx.choice([1, 2, 3, 6] if nd < 5 else [1, 2, 3]) for _ in range(nd))
    x = gen.xs(ctx, shape, n, 1, L)
    how, xl = gen.layout(ctx, x)
    if ctx.chance(0.15):
        xl = xl.double()
    keep = xl.clone()
    with ctx.cut(f"Lagrange basis n={n}"):
        V = torch.stack([b(xl, j) for j in range(n)], -1)
    ctx.expect(torch.equal(xl, keep), "evaluating the basis changed its input")
    ref = R.flat_basis(monitor.n64(xl), n, L)
    monitor.compare(ctx, f"Lagrange basis n={n} length={L}", V, (ref[0], R.SLACK * ref[1] + R.FLOOR))
    # cardinality, partition of unity, reproduction, each on its own
    X = gen.t32(R.nodes(n) * L / 2)
    with ctx.cut("basis at the nodes"):
        M = torch.stack([b(X, j) for j in range(n)], -1)
    d = np.abs(monitor.n64(M) - np.eye(n)).max()
    lim = 32 * R.EPS * n * n * (4 if n > 8 else 1)
    ctx.expect(d <= lim, f"Lagrange basis n={n} length={L}: off by {d} from one at its own node and zero at the others")
    inside = gen.t32(ctx.np.uniform(-L / 2, L / 2, size=37))
    with ctx.cut("basis inside the range"):
        P = monitor.n64(torch.stack([b(inside, j) for j in range(n)], -1))
    leb = np.abs(P).sum(-1)
    ctx.expect(bool((np.abs(P.sum(-1) - 1) <= 64 * R.EPS * n * leb * (1 + n)).all()), f"Lagrange basis n={n}: values sum to {P.sum(-1).flat[np.abs(P.sum(-1)-1).argmax()]}")
    u, un = monitor.n64(inside) * 2 / L, R.nodes(n)
    for k in range(n):
        r = P @ un**k
        ctx.expect(bool((np.abs(r - u**k) <= 64 * R.EPS * n * leb * (1 + n)).all()), f"Lagrange basis n={n}: x^{k} is not reproduced")
    ctx.see("polynomials_reproduced", n)
    ctx.describe(n=n, length=L, shape=list(shape), layout=how)
    ctx.sig("basis", n, L, shape, how)


def fourier(ctx):
    n, L = ctx.choice([1, 2, 3, 4, 5, 8, 11, 20]), gen.length(ctx)
    shape = tuple(ctx.choice([1, 2, 3, 6]) for _ in range(ctx.int(1, 4)))
    x = gen.t32(ctx.np.uniform(-3, 3, size=shape) * L)
    how, xl = gen.layout(ctx, x)
    expand = ctx.chance(0.5)
    with ctx.cut("Fourier basis"):
        if expand:
            V = api.ns.lagrange.FourierExpand(n, L)(xl)
        else:
            b = api.ns.lagrange.FourierBasis(length=L)
            V = torch.stack([b(xl, j) for j in range(n)])
    v, e = R.fourier_basis(monitor.n64(xl), n, L)
    monitor.compare(ctx, f"Fourier basis n={n} length={L}", V, (np.moveaxis(v, -1, 0), np.moveaxis(R.SLACK * e + 1e-30, -1, 0)))
    ctx.see("fourier_values", V.numel())
    ctx.describe(n=n, length=L, shape=list(shape), expand=expand)
    ctx.sig("fourier", n, L, shape, expand)


EXPANDS = {
    "PiecewisePolynomialExpand": (4, True),
    "PiecewisePolynomialExpand1d": (3, True),
    "PiecewiseDiscontinuousPolynomialExpand": (4, False),
    "PiecewiseDiscontinuousPolynomialExpand1d": (3, False),
}
RAW = {"PiecewisePolynomialExpand": "PiecewiseExpand", "PiecewisePolynomialExpand1d": "PiecewiseExpand1d", "PiecewiseDiscontinuousPolynomialExpand": "PiecewiseDiscontinuousExpand", "PiecewiseDiscontinuousPolynomialExpand1d": "PiecewiseDiscontinuousExpand1d"}


def expand(ctx):
    name = list(EXPANDS)[ctx.index % 4]
    nd, cont = EXPANDS[name]
    for _ in range(40):
        n, S, L = gen.n_nodes(ctx), gen.n_segments(ctx), gen.length(ctx)
        shape = tuple(ctx.choice([1, 1, 2, 3, 5, 7]) for _ in range(nd))
        if ctx.chance(0.15):  # one dimension far beyond the others
            k = ctx.int(0, nd - 1)
            shape = shape[:k] + (ctx.choice([16, 33, 65]),) + shape[k + 1 :]
        if n * S * np.prod(shape) < 60000:
            break
    else:
        n, S, shape = 3, 4, (2,) * nd
    if ctx.chance(0.04):
        n, S, shape = ctx.int(1, 4), ctx.choice([1500, 2100, 4100]), (1,) * (nd - 2) + (ctx.int(1, 3), ctx.int(2, 4))
        ctx.see("many_segments")
    if ctx.chance(0.03):
        n, S, shape = ctx.choice([(2, 1, 70000), (3, 2, 20000), (2, 5, 9000), (4, 1, 5000), (1, 2, 140000)])
        shape = (ctx.choice([1, 2, 3]), ctx.choice([2, 5])) + ((1,) * (nd - 3)) + (shape // 4,)
        ctx.see("large_expansions")
    x = gen.xs(ctx, shape, n, S, L)
    if n <= 3 and ctx.chance(0.1):
        far = ctx.np.choice([-1.0, 1.0], size=shape) * 10.0 ** ctx.np.uniform(1, {1: 37.0, 2: 27.0, 3: 12.0}[n], size=shape)
        x = torch.where(torch.tensor(ctx.np.random(size=shape) < 0.5), gen.t32(far), x)
        ctx.see("far_inputs")
    how, xl = gen.layout(ctx, x)
    dt = ctx.choice([torch.float32, torch.float32, torch.float32, torch.float64])
    if dt != torch.float32:
        xl = xl.to(dt)
    G = api.ns.lagrange
    with ctx.cut(f"{name}(n={n}, segments={S}, length={L})"):
        m = getattr(G, name)(n=n, segments=S, length=L) if L != 2.0 or ctx.chance(0.5) else getattr(G, name)(n, S)
    keep = xl.clone()
    y = monitor.read(ctx, f"{name} n={n} segments={S} length={L} on {tuple(shape)}", m, xl)
    ctx.expect(torch.equal(keep, xl), f"{name} changed its input")
    ctx.expect(y.dtype == dt, f"{name} of {dt} returns {y.dtype}")
    xx = monitor.n64(xl)
    B, E = R.piecewise_basis(xx, n, S, L, cont)
    ref = (np.moveaxis(B, -1, 0), np.moveaxis(R.SLACK * E + R.FLOOR, -1, 0))
    # n = 1 continuous has a single variable that every segment shares
    monitor.compare(ctx, f"{name} n={n} segments={S} length={L}", y, ref)
    k, alt = R.locate(xx, S, L, np.zeros_like(xx))
    idx = np.arange(B.shape[-1])
    st = n - 1 if cont else n
    own = ((idx >= k[..., None] * st) & (idx < k[..., None] * st + n)) | ((idx >= alt[..., None] * st) & (idx < alt[..., None] * st + n))
    off = np.moveaxis(~own, -1, 0)
    yy = monitor.n64(y)
    ctx.expect(not yy[off].any(), f"{name} n={n} segments={S}: a value outside the segment that contains the input is not exactly zero")
    ctx.see("exact_zeros", int(off.sum()))
    # within one segment only
    nz = (yy != 0).sum(0)
    ctx.expect(bool((nz <= n).all()), f"{name} n={n} segments={S}: more than {n} non-zero values for one element")
    ctx.describe(name=name, n=n, segments=S, length=L, shape=list(shape), layout=how)
    ctx.sig(name, n, S, L, shape, how, str(dt))


def own_basis(ctx):
    """A recording basis sees exactly the local coordinates."""
    name = list(EXPANDS)[ctx.index % 4]
    nd, cont = EXPANDS[name]
    n, S, L = ctx.int(1, 5), ctx.choice([1, 2, 4, 8, 3, 5]), ctx.choice([2.0, 2.0, 1.0, 4.0, 3.0])
    shape = tuple(ctx.choice([1, 2, 3]) for _ in range(nd))
    g = ctx.np
    k = g.integers(0, S, size=shape)
    f = g.uniform(0.02, 0.98, size=shape)
    x = gen.t32(-L / 2 + (k + f) * L / S)
    calls = []

    def rec(z, j):
        calls.append((z.detach().clone(), j))
        return z**j + 10.0 * (j + 1)

    with ctx.cut(f"{RAW[name]} with its own basis"):
        m = getattr(api.ns.Basis, RAW[name])(basis=rec, n=n, segments=S, **gen.usual(ctx, L))
        y = m(x)
    ctx.expect(set(int(j) for _, j in calls) == set(range(n)), f"{RAW[name]} n={n} evaluated basis functions {[j for _, j in calls]}")
    u = (2 * ((monitor.n64(x) + L / 2) * S / L - k) - 1) * L / 2
    for z, j in calls:
        ctx.expect(bool(z.numel() == u.size and (np.abs(np.sort(monitor.n64(z).ravel()) - np.sort(u.ravel())) <= 1e-5 * (S + 1) * L).all()), f"{RAW[name]} segments={S} length={L}: hands its basis coordinates other than those local to the segment")
    st = n - 1 if cont else n
    K = (n - 1) * S + 1 if cont else n * S
    want = np.zeros(shape + (K,))
    for j in range(n):
        np.put_along_axis(want, (k * st + j)[..., None], (u**j + 10.0 * (j + 1))[..., None], -1)
    got = np.moveaxis(monitor.n64(y), 0, -1)
    ctx.expect(got.shape == want.shape, f"{RAW[name]}: shape {got.shape} where {want.shape} is expected (basis dimension first)")
    ctx.expect(bool((np.abs(got - want) <= 1e-4 * (1 + np.abs(want)) * (1 + L) ** n).all()), f"{RAW[name]} n={n} segments={S}: places the basis values wrongly")
    with ctx.cut("BasisExpand with its own basis"):
        z = api.ns.Basis.BasisExpand(rec, n)(x)
    w = np.stack([monitor.n64(x) ** j + 10.0 * (j + 1) for j in range(n)])
    ctx.expect(tuple(z.shape) == w.shape and bool((np.abs(monitor.n64(z) - w) <= 1e-4 * (1 + np.abs(w))).all()), "BasisExpand does not stack the basis values along its first dimension")
    ctx.see("recorded_basis_calls", len(calls))
    ctx.describe(name=RAW[name], n=n, segments=S, length=L)
    ctx.sig(name, n, S, L, shape)


def slopes(ctx):
    """The expansion's derivative is that of the basis, at interior points."""
    name = list(EXPANDS)[ctx.index % 4]
    nd, cont = EXPANDS[name]
    n, S, L = ctx.choice([2, 3, 4, 5, 8]), ctx.choice([1, 2, 3, 4, 7]), gen.length(ctx)
    shape = tuple(ctx.choice([1, 2, 3]) for _ in range(nd))
    g = ctx.np
    k = g.integers(0, S, size=shape)
    x = gen.t32(-L / 2 + (k + g.uniform(0.03, 0.97, size=shape)) * L / S).requires_grad_(True)
    with ctx.cut(f"{name} backward"):
        y = getattr(api.ns.lagrange, name)(n=n, segments=S, length=L)(x)
        c = gen.t32(g.normal(size=tuple(y.shape)))
        y.backward(c)
    D, E = R.piecewise_basis(monitor.n64(x), n, S, L, cont, deriv=True)
    cc = np.moveaxis(monitor.n64(c), 0, -1)
    v = (D * cc).sum(-1)
    tol = 8 * R.SLACK * ((E + 64 * R.EPS * np.abs(D)) * np.abs(cc)).sum(-1) + 1e-5 * (1 + np.abs(v)) * S / L
    monitor.compare(ctx, f"derivative of {name}", x.grad, (v, tol), n=n, segments=S, length=L)
    ctx.see("slopes_checked", x.numel())
    ctx.describe(name=name, n=n, segments=S, length=L)
    ctx.sig("slope", name, n, S, L, shape)


def plain_expand(ctx):
    n, L = gen.n_nodes(ctx), gen.length(ctx)
    shape = tuple(ctx.choice([1, 2, 3, 5]) for _ in range(ctx.int(1, 5)))
    if ctx.chance(0.1):
        shape = (ctx.choice([40, 100]),) + shape[1:3]
    x = gen.xs(ctx, shape, n, 1, L)
    with ctx.cut(f"LagrangeExpand({n}, {L})"):
        y = api.ns.lagrange.LagrangeExpand(n, **gen.usual(ctx, L))(x)
    v, e = R.flat_basis(monitor.n64(x), n, L)
    monitor.compare(ctx, f"LagrangeExpand n={n} length={L}", y, (np.moveaxis(v, -1, 0), np.moveaxis(R.SLACK * e + R.FLOOR, -1, 0)))
    ctx.see("plain_expansions")
    ctx.describe(n=n, length=L, shape=list(shape))
    ctx.sig("plain", n, L, shape)


def tensor(ctx):
    """N-dimensional basis: tensor product, last dimension fastest."""
    d = ctx.choice([1, 2, 2, 3, 4])
    ns = [ctx.choice([1, 2, 3, 4, 5]) for _ in range(d)]
    if ctx.chance(0.3):
        ns = [ns[0]] * d
    L = gen.length(ctx)
    I, B = ctx.choice([1, 2, 3]), ctx.choice([1, 4, 9])
    x = torch.stack([gen.xs(ctx, (B, I), n, 1, L) for n in ns], -1)
    kind = ctx.choice(["one", "batched"])
    G = api.ns.lagrange
    with ctx.cut(f"N-dimensional basis {ns}"):
        if kind == "one":
            b = G.LagrangeBasisND(ns, **gen.usual(ctx, L)) if len(set(ns)) > 1 or ctx.chance(0.5) else G.LagrangeBasisND(ns[0], **gen.usual(ctx, L), **({} if d == 2 and ctx.chance(0.5) else dict(dimensions=d)))
        else:
            b = G.LagrangeBasisPiecewiseND(ns, **gen.usual(ctx, L))
    P = int(np.prod(ns))
    ctx.expect(b.num_basis == P, f"N-dimensional basis {ns}: num_basis {b.num_basis} where {P} is expected")
    V, E = R.tensor_basis(monitor.n64(x), ns, L)
    # unit weights read out the basis values one by one
    if kind == "one":
        w = torch.zeros(I * P, I, P)
        for i in range(I):
            w[i * P : (i + 1) * P, i] = torch.eye(P)
    else:
        w = torch.zeros(B, I, I * P, P)
        for i in range(I):
            w[:, i, i * P : (i + 1) * P] = torch.eye(P)
    y = monitor.read(ctx, "N-dimensional basis", b.interpolate, x, w)
    monitor.compare(ctx, f"N-dimensional basis {ns} length={L}", y, (V.reshape(B, -1), R.SLACK * E.reshape(B, -1) + 8 * R.EPS * np.abs(V.reshape(B, -1)) + R.FLOOR))
    ctx.see("tensor_values", V.size)
    ctx.describe(n=ns, length=L, kind=kind)
    ctx.sig("tensor", tuple(ns), L, kind, I, B)


def interpolators(ctx):
    """The interpolation helpers contract weights with the basis."""
    n, L = ctx.choice([1, 2, 3, 4, 6, 9]), gen.length(ctx)
    B, I, O = ctx.choice([1, 3, 8]), ctx.choice([1, 2, 4]), ctx.choice([1, 2, 5])
    name = ctx.choice(["LagrangePolyFlat", "LagrangePoly", "LagrangePolyFlatProd", "LagrangePolyProd", "FourierSeriesFlat"])
    x = gen.xs(ctx, (B, I), n, 1, L) if not name.startswith("Fourier") else gen.t32(ctx.np.uniform(-2, 2, size=(B, I)) * L)
    prod = name.endswith("Prod")
    alpha = ctx.choice([1.0, 0.0, 0.5]) if prod else 1.0
    batched = name in ("LagrangePoly", "LagrangePolyProd")
    with ctx.cut(f"{name}(n={n}, length={L})"):
        m = getattr(api.ns.lagrange, name)(n, **(dict(length=L) if name.startswith('Fourier') else gen.usual(ctx, L)), **({} if not prod or alpha == 1.0 and ctx.chance(0.5) else dict(alpha=alpha)))
        w = gen.t32(ctx.np.normal(size=(B, I, O, n) if batched else (O, I, n)))
        y = m.interpolate(x, w)
    V, E = (R.fourier_basis if name.startswith("Fourier") else R.flat_basis)(monitor.n64(x), n, L)
    W = monitor.n64(w)
    if not batched:
        ref = R.prod_layer(V, E, W, alpha) if prod else R.sum_layer(V, E, W)
    else:
        vs, ts = [], []
        for b in range(B):
            Wb = W[b].transpose(1, 0, 2)
            a, t = (R.prod_layer(V[b : b + 1], E[b : b + 1], Wb, alpha) if prod else R.sum_layer(V[b : b + 1], E[b : b + 1], Wb))
            vs.append(a)
            ts.append(t)
        ref = (np.concatenate(vs), np.concatenate(ts))
    monitor.compare(ctx, f"{name} n={n} length={L} alpha={alpha}", y, ref)
    ctx.see("interpolations")
    ctx.describe(name=name, n=n, length=L, alpha=alpha)
    ctx.sig("interp", name, n, L, B, I, O, alpha)


SCENARIOS = {
    "nodes": (nodes, 40, 40),
    "basis": (basis, 300, 5000),
    "fourier": (fourier, 150, 2500),
    "expand": (expand, 800, 14000),
    "own_basis": (own_basis, 160, 2500),
    "slopes": (slopes, 160, 2500),
    "plain_expand": (plain_expand, 100, 1500),
    "tensor": (tensor, 160, 2500),
    "interpolators": (interpolators, 240, 4000),
}
MUST_SEE = ["many_segments", "values_compared", "node_sets", "polynomials_reproduced", "fourier_values", "exact_zeros", "recorded_basis_calls", "slopes_checked", "plain_expansions", "tensor_values", "interpolations"]
RULE = "one case = node count, segments, length, input shape, dtype and memory layout of one basis or expansion, with hostile input values"
ASSUMPTIONS = ["within rounding of a segment edge either neighbouring segment is accepted unless the arithmetic is exact"]
