"""C03: single-segment polynomial layers, 1 to 5 dimensions."""
import itertools

import numpy as np
import torch

from hol import api, fc, gen, monitor, zoo
from hol import ref as R

K = "polynomial"
ND = {2: "polynomial_2d", 3: "polynomial_3d", 4: "polynomial_4d", 5: "polynomial_5d"}
NDC = {2: "Polynomial2D", 3: "Polynomial3D", 4: "Polynomial4D", 5: "Polynomial5D"}


def nd_cfg(ctx):
    d = ctx.choice([1, 2, 2, 2, 3, 3, 4, 5])
    cap = {1: 12, 2: 9, 3: 6, 4: 4, 5: 3}[d]
    if ctx.chance(0.3):
        n = [ctx.int(1, cap)] * d
        as_int = ctx.chance(0.6)
    else:
        n = [ctx.int(1, cap) for _ in range(d)]
        as_int = False
    I, O, B = ctx.choice([ctx.int(1, 4)] * 4 + [ctx.int(3, 9)]), ctx.choice([ctx.int(1, 4)] * 4 + [ctx.int(3, 9)]), ctx.choice([1, 2, 3, 7, 20, ctx.int(2, 40)])
    kw = gen.grow(ctx, dict(I=I, O=O, B=B), dict(I=[9, 17, 33, 70], O=[9, 17, 33, 70], B=[65, 130, 300, 1100]), 0.1)
    I, O, B = kw["I"], kw["O"], kw["B"]
    L = gen.length(ctx)
    p = ctx.choice([None, None, None, L, 2.0])
    return d, n, as_int, I, O, B, L, p


def nd_build(ctx, d, n, as_int, I, O, L, p=None):
    arg = n[0] if as_int else list(n)
    kw = dict(n=arg, in_features=I, out_features=O)
    if L != 2.0 or ctx.chance(0.5):
        kw["length"] = L
    if p is not None:
        kw["periodicity"] = p
    via = ctx.choice(["factory", "class", "generic"]) if d >= 2 else "generic"
    with ctx.cut(f"building {d}-dimensional polynomial layer n={arg} length={L} via {via}"):
        if via == "factory":
            layer = api.fc(ND[d], **kw)
        elif via == "class":
            layer = getattr(api.ns.poly, NDC[d])(**kw)
        else:
            layer = api.ns.poly.PolynomialND(**({} if d == 2 and ctx.chance(0.5) else dict(dimensions=d)), **kw)
    ctx.see("layers_built")
    zoo.decoy(ctx, f"polynomial_{max(d, 2)}d", 0.15)
    w = gen.main_weight(ctx, layer)
    want = (O, I, int(np.prod(n)))
    ctx.expect(tuple(w.shape) == want, f"{d}-D polynomial layer n={arg}: weights {tuple(w.shape)}, expected {want}")
    return layer, w, via


def nd_x(ctx, B, I, n, L):
    cols = [gen.xs(ctx, (B, I), nn, 1, L) for nn in n]
    x = torch.stack(cols, -1)
    if ctx.chance(0.3):
        # exact tensor nodes
        for q, nn in enumerate(n):
            x[..., q] = gen.t32(ctx.np.choice(R.nodes(nn) * 0.5 * L, size=(B, I)))
    return x


def nd_random(ctx):
    d, n, as_int, I, O, B, L, p = nd_cfg(ctx)
    layer, w, via = nd_build(ctx, d, n, as_int, I, O, L, p)
    style = gen.fill(ctx, w)
    x = nd_x(ctx, B, I, n, L)
    how, xl = gen.layout(ctx, x)
    y = monitor.read(ctx, "N-D polynomial forward", layer, xl)
    xx, dx = monitor.n64(xl), 0.0
    if p is not None:
        xx, dx, _ = R.mirror(xx, p)
    V, E = R.tensor_basis(xx, n, L, dx=dx)
    monitor.compare(ctx, f"{d}-D polynomial layer n={n}", y, R.sum_layer(V, E, monitor.n64(w)), n=n, L=L, p=p, via=via)
    ctx.describe(d=d, n=n, I=I, O=O, L=L, p=p, weights=style, layout=how, via=via)
    ctx.see("nd_layers_checked")
    ctx.sig("nd", tuple(n), I, O, L, p, B, style)


def nd_reproduce(ctx):
    """A polynomial sampled at the nodes is reproduced everywhere."""
    d = ctx.choice([1, 2, 3, 4])
    cap = {1: 8, 2: 6, 3: 4, 4: 3}[d]
    n = [ctx.int(1, cap) for _ in range(d)]
    L = gen.length(ctx)
    I, O = ctx.int(1, 3), ctx.int(1, 2)
    layer, w, via = nd_build(ctx, d, n, False, I, O, L)
    coef = ctx.np.normal(size=(O, I) + tuple(n))
    pts = list(itertools.product(*[R.nodes(k) for k in n]))
    W = np.zeros((O, I, len(pts)))

    def ev(o, i, u):
        v = coef[o, i]
        for q in range(d):
            v = np.tensordot(u[q] ** np.arange(n[q]), v, axes=(0, 0))
        return float(v)

    for o in range(O):
        for i in range(I):
            for k, u in enumerate(pts):
                W[o, i, k] = ev(o, i, u)
    with torch.no_grad():
        w.copy_(gen.t32(W))
    B = 6
    u = ctx.np.uniform(-1.1, 1.1, size=(B, I, d))
    x = gen.t32(u * 0.5 * L)
    y = monitor.n64(monitor.read(ctx, "N-D polynomial forward", layer, x))
    uu = monitor.n64(x) * 2 / L
    scale = np.abs(coef).sum() * 1.3 ** sum(n)
    for b in range(B):
        for o in range(O):
            want = sum(ev(o, i, uu[b, i]) for i in range(I))
            ctx.see("polynomial_values_reproduced")
            if not abs(y[b, o] - want) <= 2e-5 * scale * max(n) ** 2:
                ctx.fail(f"{d}-D layer n={n}: polynomial of degree below n not reproduced: {y[b,o]} instead of {want}", L=L, via=via)
    ctx.describe(d=d, n=n, L=L, I=I, O=O)
    ctx.sig("reproduce", tuple(n), L, I, O)


def nd_double(ctx):
    d, n, as_int, I, O, B, L, _ = nd_cfg(ctx)
    layer, w, via = nd_build(ctx, d, n, as_int, I, O, L)
    gen.fill(ctx, w, "normal")
    with ctx.cut("double()"):
        layer = layer.double()
    w = gen.main_weight(ctx, layer)
    x = nd_x(ctx, B, I, n, L).double()
    y = monitor.read(ctx, "N-D polynomial forward in float64", layer, x)
    V, E = R.tensor_basis(monitor.n64(x), n, L)
    monitor.compare(ctx, f"{d}-D polynomial layer n={n} float64", y, R.sum_layer(V, E, monitor.n64(w)), n=n, L=L, via=via)
    ctx.sig("nd64", tuple(n), I, O, L)


SCENARIOS = {
    "random": (fc.scenario_random(K), 600, 12000),
    "grid": (fc.scenario_grid(K, 0), 40, 400),
    "nodes": (fc.scenario_nodes(K), 150, 1500),
    "history": (fc.scenario_history(K), 150, 2000),
    "large": (fc.scenario_large(K), 28, 150),
    "double": (fc.scenario_double(K), 80, 800),
    "degenerate": (fc.scenario_empty(K), 60, 500),
    "far": (fc.scenario_far(K), 60, 600),
    "nd_random": (nd_random, 900, 12000),
    "nd_reproduce": (nd_reproduce, 250, 3000),
    "nd_double": (nd_double, 100, 1000),
}
MUST_SEE = ["decoys", "far_inputs", "large_settings", "values_compared", "nd_layers_checked", "polynomial_values_reproduced", "node_values_compared"]
RULE = "one case = node count per dimension, widths, length, period, weights and a batch with exact nodes, ends and outside points; distinct by configuration signature"
ASSUMPTIONS = ["float32 rounding bound from the reference"]
