"""C13: mirror periodicity."""
import copy

import numpy as np
import torch

from hol import api, conv, fc, gen, monitor
from hol import ref as R
from hol.checks import c05, c08

FC = ["continuous", "discontinuous", "polynomial", "continuous_prod", "discontinuous_prod", "polynomial_prod"]
CONV = ["continuous1d", "continuous2d", "discontinuous1d", "discontinuous2d", "polynomial1d", "polynomial2d"]


def folding(ctx):
    """The fold itself, on shapes, layouts and sizes of every kind."""
    p = ctx.choice([2.0, 1.0, 0.5, 3.0, 7.3, 0.1, 100.0, 2.5, 1.3, 0.013, 157.0, 1000.0, round(ctx.uniform(0.01, 600), 4)])
    shape = ctx.choice([(), (1,), (50,), (7, 9), (2, 3, 4)])
    dt = ctx.choice([torch.float32, torch.float32, torch.float64])
    N = int(np.prod(shape)) if shape else 1
    mode = ctx.np.integers(0, 5, size=N)
    v = ctx.np.uniform(-0.5, 0.5, size=N) * p
    v = np.where(mode == 1, ctx.np.uniform(-20, 20, size=N) * p, v)
    v = np.where(mode == 2, ctx.np.integers(-12, 13, size=N) * 0.5 * p, v)
    v = np.where(mode == 3, ctx.np.uniform(-1e4, 1e4, size=N) * p, v)
    v = np.where(mode == 4, ctx.np.integers(-6, 7, size=N) * p + 1e-6 * p, v)
    x = torch.tensor(v.reshape(shape), dtype=dt)
    how, xl = gen.layout(ctx, x) if x.dim() else ("plain", x)
    x = xl.clone()
    with ctx.choice([torch.enable_grad, torch.no_grad, torch.inference_mode])():
        y = monitor.read(ctx, f"make_periodic p={p}", api.ns.utils.make_periodic, xl, p)
    ctx.expect(torch.equal(x, xl), "make_periodic changed its input")
    ctx.expect(tuple(y.shape) == tuple(x.shape) and y.dtype == x.dtype, f"make_periodic: {tuple(x.shape)} {x.dtype} became {tuple(y.shape)} {y.dtype}")
    eps = R.EPS if dt == torch.float32 else 2.0**-51
    a, xx = monitor.n64(y), monitor.n64(x)
    ctx.expect(bool((np.abs(a) <= 0.5 * p * (1 + 4 * eps)).all()), f"folding with period {p} leaves the range: {np.abs(a).max()}")
    r, _, _ = R.mirror(xx, p)
    tol = 8 * eps * (np.abs(xx) + 2 * p)
    ctx.see("folded_values", a.size)
    bad = ~(np.abs(a - r) <= tol)
    if bad.any():
        i = tuple(int(q) for q in np.argwhere(bad)[0])
        ctx.fail(f"folding {xx[i]} with period {p} gives {a[i]}, expected {r[i]}")
    # slope is +-1 away from the folds
    z = x.detach().clone().requires_grad_(True)
    with ctx.cut("make_periodic backward"):
        api.ns.utils.make_periodic(z, p).sum().backward()
    far = np.abs(np.abs(r) - 0.5 * p) > 4 * tol
    _, _, s = R.mirror(xx, p)
    g = monitor.n64(z.grad)
    ctx.expect(bool((g[far] == s[far]).all()), f"slope of the folding is not the reflection's sign (period {p})")
    ctx.sig("fold", p, shape, str(dt), how)
    ctx.describe(p=p, shape=list(shape), dtype=str(dt))


def period(ctx, L):
    if ctx.chance(0.08):
        return ctx.choice([11 * L, 0.07 * L, 150.0, 3.14159, 40.0])
    return ctx.choice([L, L, 2.0, 1.0, 0.5 * L, 3.0, 0.75 * L, 2 * L, 1.3, 0.3 * L])


def layers(ctx):
    kind = FC[ctx.index % len(FC)]
    c, B = fc.cfg(ctx, kind, cap=60_000)
    L = c["L"]
    p = c["p"] = period(ctx, L)
    layer, w = fc.build(ctx, kind, **c)
    plain, w0 = fc.build(ctx, kind, **{**c, "p": None})
    gen.fill(ctx, w, "normal")
    with torch.no_grad():
        if kind.endswith("_prod"):
            w.mul_(1.0 / c["I"])
        w0.copy_(w)
    B = min(B, 300 if ctx.chance(0.2) else 40)
    x = gen.xs(ctx, (B, c["I"]), c["n"], c["S"] or 1, L, p)
    far = gen.t32(ctx.np.uniform(-30, 30, size=(8, c["I"])) * p * ctx.choice([1, 1, 1, 300, 3000]))
    edge = gen.t32(ctx.np.integers(-9, 10, size=(8, c["I"])) * 0.5 * p)
    x = torch.cat([x, far, edge])
    y = fc.check_forward(ctx, kind, layer, w, x, c, label=f"mirror-periodic {kind} layer")
    # the twin without a period, fed the folded point
    f = gen.t32(R.mirror(monitor.n64(x), p)[0])
    yf = monitor.read(ctx, "plain twin", plain, f)
    _, t1 = fc.reference(kind, x, w, c["n"], c["S"], L, p)
    _, t2 = fc.reference(kind, f, w, c["n"], c["S"], L, None)
    monitor.compare(ctx, f"mirror-periodic {kind} layer against the folded point", y, (monitor.n64(yf), t1 + t2), config=c)
    # inside the range nothing changes
    z = gen.t32(ctx.np.uniform(-0.5, 0.5, size=(16, c["I"])) * p)
    ya, yb = monitor.read(ctx, "periodic", layer, z), monitor.read(ctx, "plain", plain, z)
    _, t1 = fc.reference(kind, z, w, c["n"], c["S"], L, p)
    monitor.compare(ctx, f"{kind} layer inside its mirror range", ya, (monitor.n64(yb), 2 * t1), config=c)
    # even about both ends, period 2p
    k = ctx.int(-4, 4)
    for zz in (p - z, -p - z, z + 2 * p * k):
        yc = monitor.read(ctx, "reflected", layer, zz)
        _, t2 = fc.reference(kind, zz, w, c["n"], c["S"], L, p)
        # the reflected point itself is rounded: allow one more evaluation's worth at the reference
        r1, _ = fc.reference(kind, z, w, c["n"], c["S"], L, p)
        r2, _ = fc.reference(kind, zz, w, c["n"], c["S"], L, p)
        monitor.compare(ctx, f"{kind} layer at the reflected point", yc, (monitor.n64(ya), t1 + t2 + np.abs(r1 - r2) * (np.abs(r1 - r2) < 1e-3 * (1 + np.abs(r1)))), config=c)
    ctx.see("periodic_layers")
    ctx.describe(kind=kind, **c)
    ctx.sig(kind, c["n"], c["S"], c["I"], c["O"], L, p)


def product(ctx):
    """The plain product layer folds its inputs too."""
    I, O = ctx.int(1, 4), ctx.int(1, 3)
    p = ctx.choice([2.0, 1.0, 3.0, 0.7])
    with ctx.cut("building product layers"):
        a = api.fc("product", in_features=I, out_features=O, periodicity=p)
        b = api.fc("product", in_features=I, out_features=O)
        b.load_state_dict(a.state_dict())
    w = gen.main_weight(ctx, a, 2)
    x = gen.t32(np.concatenate([ctx.np.uniform(-12, 12, size=(12, I)) * p, ctx.np.integers(-9, 10, size=(6, I)) * 0.5 * p, ctx.np.uniform(-0.5, 0.5, size=(6, I)) * p]))
    bias = [q for q in a.parameters() if q.dim() == 1][0]
    v, t = c05.ref_product(x, w, bias, 1.0, p)
    y = monitor.read(ctx, "periodic product layer", a, x)
    monitor.compare(ctx, "mirror-periodic product layer", y, (v, t), period=p)
    f = gen.t32(R.mirror(monitor.n64(x), p)[0])
    z = monitor.read(ctx, "product layer", b, f)
    monitor.compare(ctx, "mirror-periodic product layer against the folded point", y, (monitor.n64(z), 2 * t), period=p)
    ctx.see("periodic_layers")
    ctx.sig("product", I, O, p, ctx.index)


def convs(ctx):
    kind = CONV[ctx.index % len(CONV)]
    c, B, size = conv.cfg(ctx, kind)
    c["p"] = period(ctx, c["L"])
    layer, w = conv.build(ctx, kind, c)
    gen.fill(ctx, w, "normal")
    x = conv.inputs(ctx, B, c, size)
    far = gen.t32(ctx.np.uniform(-20, 20, size=tuple(x.shape)) * c["p"])
    conv.check(ctx, kind, layer, w, torch.where(torch.tensor(ctx.np.random(size=tuple(x.shape)) < 0.3), far, x), c, label=f"mirror-periodic {kind} convolution")
    ctx.see("periodic_convolutions")
    ctx.describe(kind=kind, **c)
    ctx.sig(kind, c["n"], c["S"], c["C"], c["O"], c["k"], c["L"], c["p"])


def convt(ctx):
    c, size = c08.cfg(ctx)
    c["p"] = period(ctx, c["L"])
    layer, w = c08.build(ctx, c)
    gen.fill(ctx, w, "normal")
    x = gen.t32(ctx.np.uniform(-6, 6, size=(2, c["C"]) + size) * c["p"])
    y = monitor.read(ctx, "transposed convolution", layer, x)
    monitor.compare(ctx, "mirror-periodic transposed convolution", y, c08.reference(x, w, c), config=c)
    ctx.see("periodic_transposed")
    ctx.sig("t", c["n"], c["S"], c["C"], c["O"], c["L"], c["p"])


def meta(ctx, label, f, shape, p, dim, **detail):
    """f on dyadic points, their reflections and translates (all exact)."""
    half = int(0.5 * p * 2048)
    z = (ctx.np.integers(-half, half, size=shape) * 2 + 1) / 4096.0
    z = gen.t32(z)
    with torch.no_grad():
        y = monitor.read(ctx, label, f, z)
        for name, zz in (("reflected at the right end", p - z), ("reflected at the left end", -p - z), ("translated by two periods", z + 2 * p), ("translated back", z - 6 * p)):
            mask = torch.tensor(ctx.np.random(size=tuple(shape)) < 0.5)
            q = torch.where(mask, zz, z)
            r = monitor.read(ctx, label, f, q)
            lim = 1e-3 * (y.abs() + 1e-2 * (1 + y.abs().max()))
            ok = torch.isfinite(y)
            ctx.see("reflections_compared", int(ok.sum()))
            ctx.expect(bool(((r - y).abs() <= lim)[ok].all()), f"{label}: output changes when inputs are {name} (mirror period {p})", **detail)


def networks(ctx):
    N, Ls = api.ns.networks, api.ns.layers
    which = ctx.choice(["mlp", "mlp", "mlp", "list", "multi", "transform", "fcn1d", "fcn2d", "tail", "deconv"])
    p = ctx.choice([2.0, 2.0, 1.0, 4.0])
    kinds = ["continuous", "discontinuous", "polynomial", "continuous_prod", "discontinuous_prod", "polynomial_prod"]
    t = ctx.choice(kinds)
    seg = lambda: ctx.choice([1, 2, 3, 4])
    W = ctx.int(1, 3)
    folds_input = True
    norm = ctx.choice([None, None, Ls.MaxAbsNormalization])
    if which in ("mlp", "multi", "transform"):
        kw = dict(layer_type=t, n=ctx.choice([2, 3]), in_width=W, out_width=2, hidden_layers=ctx.int(0, 3), hidden_width=3, in_segments=seg(), hidden_segments=seg(), out_segments=seg(), periodicity=p)
        if which == "mlp":
            kw.update(normalization=norm, resnet=ctx.chance(0.3), scale=ctx.choice([2.0, 2.0, p]))
            build = lambda: N.HighOrderMLP(**kw)
        elif which == "multi":
            kw.update(replicas=2, normalization=norm)
            build = lambda: N.HighOrderMultiMLP(**kw)
        else:
            kw.update(n_in=None, n_hidden=None, n_out=None, rotations=ctx.int(1, 2))
            if ctx.chance(0.4):
                p = 2.0
                kw.pop("periodicity")  # two by default
            folds_input = kw["rotations"] == 1
            build = lambda: N.transform_mlp(**kw)
        shape = (12, W)
    elif which == "list":
        k = ctx.int(1, 3)
        width = [ctx.int(1, 3) for _ in range(k + 1)]
        kw = dict(layer_type=[ctx.choice(kinds) for _ in range(k)], n=[ctx.int(2, 3) for _ in range(k)], width=width, segments=[seg() for _ in range(k)], periodicity=p)
        build = lambda: N.HighOrderMLPList(**kw)
        shape = (12, width[0])
    else:
        d = 2 if which in ("fcn2d", "deconv") else 1
        k = ctx.int(1, 2)
        ts = [f"{b}{d}d" for b in ("continuous", "discontinuous", "polynomial")] if which != "deconv" else ["continuous2d"]
        kw = dict(layer_type=[ctx.choice(ts) for _ in range(k)], n=[ctx.int(2, 3) for _ in range(k)], channels=[ctx.int(1, 2) for _ in range(k + 1)],
                  segments=[seg() for _ in range(k)], kernel_size=[ctx.int(1, 3) for _ in range(k)], periodicity=p)
        cls = {"fcn1d": N.HighOrderFullyConvolutionalNetwork, "fcn2d": N.HighOrderFullyConvolutionalNetwork, "tail": N.HighOrderTailFocusNetwork, "deconv": N.HighOrderFullyDeconvolutionalNetwork}[which]
        if which.startswith("fcn"):
            kw["pooling"] = f"{d}d"
        if which == "tail":
            kw["focus"] = [1] * k
            folds_input = False  # the raw tail is part of the output
        build = lambda: cls(**kw)
        shape = (2, kw["channels"][0]) + (8,) * d if which != "deconv" else (2, kw["channels"][0], 2, 2)
    with ctx.cut(f"building {which} network {kw}"):
        net = build()
    with torch.no_grad():
        for q in net.parameters():
            if q.requires_grad:
                q.copy_(gen.t32(ctx.np.normal(size=tuple(q.shape)) * 0.5))
    desc = {k: str(v) for k, v in kw.items()}
    if folds_input:
        meta(ctx, f"{which} network", net, shape, p, None, config=desc)
    # and every layer inside folds on its own
    x = gen.t32(ctx.np.uniform(-1, 1, size=shape))
    seen = []
    types = (api.ns.poly.Function, api.ns.poly.Piecewise, api.ns.poly.PiecewiseDiscontinuous) + tuple(
        v for v in list(Ls.convolutional_layers.values()) + list(Ls.convolutional_transpose_layers.values()) if isinstance(v, type))
    with monitor.trace(ctx, lambda m: isinstance(m, types)) as ev:
        monitor.call(ctx, f"{which} network", net, x)
    for e in ev:
        if any(e.module is m for m in seen):
            continue
        seen.append(e.module)
        sh = tuple(e.inp.shape)
        meta(ctx, f"{type(e.module).__name__} inside a {which} network", e.module, sh, p, None, config=desc)
        ctx.see("network_layers_folded")
    ctx.expect(len(seen) >= 1, "no high order layer ran in the network")
    ctx.see("periodic_networks")
    ctx.describe(which=which, config=desc)
    ctx.sig(which, str(sorted(desc.items())))


SCENARIOS = {
    "folding": (folding, 400, 6000),
    "layers": (layers, 500, 8000),
    "product": (product, 60, 600),
    "convs": (convs, 240, 4000),
    "convt": (convt, 60, 800),
    "networks": (networks, 220, 3000),
}
MUST_SEE = ["folded_values", "periodic_layers", "periodic_convolutions", "periodic_transposed", "periodic_networks", "network_layers_folded", "reflections_compared", "values_compared"]
RULE = "one case = layer or network configuration with a mirror period below, at or above its length, weights and inputs inside, at the folds and many periods away; distinct by configuration"
ASSUMPTIONS = ["inputs are within 1e4 periods, beyond that float32 cannot resolve the position inside a period"]
