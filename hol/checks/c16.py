"""C16: smoothing of discontinuous layers."""
import copy

import numpy as np
import torch

from hol import api, fc, gen, monitor
from hol import ref as R

KINDS = ["discontinuous", "discontinuous_prod"]


def expected(w, n, S, f):
    """Weights after smoothing and a rounding bound."""
    v = w.copy()
    t = np.zeros_like(v)
    for k in range(S - 1):
        l, r = k * n + n - 1, (k + 1) * n
        if n == 1:
            continue
        a, b = w[..., l], w[..., r]
        v[..., l] = a - 0.5 * f * (a - b)
        v[..., r] = b + 0.5 * f * (a - b)
        e = 16 * R.EPS * (np.abs(a) + np.abs(b)) * (1 + abs(f))
        t[..., l] = t[..., r] = e
    if n == 1 and S > 1 and f != 0:
        # a single value is both ends of its segment: outside the statement
        t = np.full_like(w, np.inf)
    return v, t


def verify(ctx, label, before, after, n, S, f, **detail):
    v, t = expected(before, n, S, f)
    bad = ~(np.abs(after - v) <= t)
    ctx.see("weights_compared", after.size)
    if bad.any():
        i = tuple(int(q) for q in np.argwhere(bad)[0])
        ctx.fail(f"{label}: weight {i} went from {before[i]} to {after[i]} where {v[i]} is expected (n={n}, {S} segments, factor {f})", **detail)
    if n > 1:
        for k in range(S - 1):
            l, r = k * n + n - 1, (k + 1) * n
            jump0, jump1 = before[..., l] - before[..., r], after[..., l] - after[..., r]
            size = np.abs(before[..., l]) + np.abs(before[..., r])
            ctx.expect(bool((np.abs(jump1 - (1 - f) * jump0) <= 64 * R.EPS * size * (1 + abs(f))).all()), f"{label}: a jump does not shrink by exactly 1-f", **detail)
            ctx.expect(bool((np.abs((after[..., l] + after[..., r]) - (before[..., l] + before[..., r])) <= 64 * R.EPS * size * (1 + abs(f))).all()), f"{label}: the mean of a jump is not kept", **detail)
            ctx.see("jumps_checked", jump0.size)
        if f == 0:
            ctx.expect(bool((after == before).all()), f"{label}: factor 0 changed weights", **detail)


def layer_case(ctx):
    kind = KINDS[ctx.index % 2]
    n = ctx.choice([1, 2, 2, 3, 4, 5, 8, 11, 16, ctx.int(2, 16)])
    S = ctx.choice([1, 2, 2, 3, 4, 7, 16, ctx.int(5, 20)])
    I, O = ctx.choice([1, 2, 3, 6, ctx.int(3, 12)]), ctx.choice([1, 2, 4, ctx.int(3, 12)])
    if ctx.chance(0.1):
        S, I, O = ctx.choice([(200, 1, 2), (5, 60, 2), (4, 2, 70), (129, 3, 1), (2, 20, 20)])
    L = gen.length(ctx)
    layer, w = fc.build(ctx, kind, n, I, O, S, L)
    gen.fill(ctx, w)
    hist = []
    for _ in range(ctx.choice([1, 1, 2, 5])):
        f = ctx.choice([0.5, 1.0, 0.0, 0.25, 0.1, 0.9, ctx.uniform(0, 1), ctx.uniform(0, 1), 1, 1.5, 2.0, -0.5])
        hist.append(round(f, 3))
        before = monitor.n64(w).copy()
        p0 = id(w)
        rng = monitor.rng_state()
        with ctx.cut("smooth_discontinuous_layer"):
            out = api.ns.poly.smooth_discontinuous_layer(layer, f) if ctx.chance(0.5) else api.ns.poly.smooth_discontinuous_layer(layer=layer, factor=f)
        ctx.expect(id(gen.main_weight(ctx, layer)) == p0 and w.requires_grad and w.is_leaf, "smoothing replaced the layer's parameter")
        ctx.expect(monitor.same_rng(rng, monitor.rng_state()), "smoothing used a random generator")
        verify(ctx, f"smoothed {kind} layer", before, monitor.n64(w), n, S, f)
        ctx.see("smoothings")
        if f == 1.0 and n > 1 and S > 1 and kind == "discontinuous":
            # behaviour: no jump is left at any interior edge
            bp = gen.breakpoints(S, L)[1:-1].astype(np.float32)
            lo, hi = bp, bp
            for _ in range(6):
                lo, hi = np.nextafter(lo, np.float32(-np.inf)), np.nextafter(hi, np.float32(np.inf))
            xa, xb = (gen.t32(np.repeat(q[:, None], I, 1)) for q in (lo, hi))
            ya, yb = (monitor.n64(monitor.read(ctx, "smoothed layer", layer, q)) for q in (xa, xb))
            c = monitor.n64(w)
            lim = 1e-4 * n * n * S * I * (np.abs(c).max() + 1e-30)
            ctx.expect(bool((np.abs(ya - yb) <= lim).all()), f"a layer smoothed with factor 1 still jumps by {np.abs(ya - yb).max()}", n=n, S=S, L=L)
            ctx.see("continuity_checks", len(bp))
    ctx.describe(kind=kind, n=n, S=S, I=I, O=O, factors=hist)
    ctx.sig(kind, n, S, I, O, tuple(hist))


def grid(ctx):
    i = ctx.index
    n, S, f = 1 + i % 6, 1 + (i // 6) % 6, [0.0, 0.3, 0.5, 1.0][(i // 36) % 4]
    layer, w = fc.build(ctx, "discontinuous", n, 2, 2, S)
    gen.fill(ctx, w, "normal")
    before = monitor.n64(w).copy()
    with ctx.cut("smooth_discontinuous_layer"):
        api.ns.poly.smooth_discontinuous_layer(layer, f)
    verify(ctx, "smoothed layer", before, monitor.n64(w), n, S, f)
    ctx.see("smoothings")
    ctx.sig("grid", n, S, f)


def network_case(ctx):
    """Every discontinuous layer, no other parameter."""
    N, Ls = api.ns.networks, api.ns.layers
    which = ctx.choice(["mlp", "mlp", "list", "conv"])
    seg = lambda: ctx.int(1, 4)
    if which == "mlp":
        t = ctx.choice(["discontinuous", "discontinuous", "discontinuous_prod", "continuous", "switch_discontinuous", "polynomial"])
        n = ctx.choice([2, 3, 4])
        kw = dict(layer_type=t, n=n, in_width=ctx.int(1, 3), out_width=ctx.int(1, 3), hidden_layers=ctx.int(0, 3), hidden_width=ctx.int(1, 4),
                  in_segments=seg(), hidden_segments=seg(), out_segments=seg())
        gen.grow(ctx, kw, dict(in_width=[8, 20], out_width=[8, 20], hidden_layers=[5, 8], hidden_width=[8, 16, 33], in_segments=[9, 40], hidden_segments=[9, 40], out_segments=[9, 40], n=[5, 7]), 0.3)
        n = kw["n"]
        if ctx.chance(0.4):
            kw["layer_type_in"] = ctx.choice(["continuous", "discontinuous", "baseline"])
        if ctx.chance(0.4):
            kw["normalization"] = ctx.choice([Ls.MaxAbsNormalization, Ls.LazyLayerNormLastDim])
        if ctx.chance(0.4):
            kw["resnet"] = True
        tin = kw.get("layer_type_in") or t
        plan = [(tin, n, kw["in_segments"])] + [(t, n, kw["hidden_segments"])] * kw["hidden_layers"] + [(t, n, kw["out_segments"])]
        with ctx.cut(f"building {kw}"):
            net = N.HighOrderMLP(**kw)
        x = gen.xs(ctx, (3, kw["in_width"]))
    elif which == "list":
        k = ctx.int(1, 4)
        width = [ctx.int(1, 3) if ctx.chance(0.9) else ctx.choice([8, 17]) for _ in range(k + 1)]
        types = [ctx.choice(["discontinuous", "continuous", "discontinuous_prod", "polynomial", "product", "fourier"]) for _ in range(k)]
        ns = [ctx.int(2, 4) for _ in range(k)]
        ss = [seg() for _ in range(k)]
        kw = dict(layer_type=types, n=ns, width=width, segments=ss)
        plan = list(zip(types, ns, ss))
        with ctx.cut(f"building {kw}"):
            net = N.HighOrderMLPList(**kw)
        x = gen.xs(ctx, (3, width[0]))
    else:
        # anything with a .model: a convolutional network has no such layer inside
        kw = dict(layer_type="discontinuous1d", n=[3, 2], channels=[1, 2, 2], segments=[2, 3], kernel_size=[2, 2], pooling="1d")
        plan = []
        with ctx.cut("building a convolutional network"):
            net = N.HighOrderFullyConvolutionalNetwork(**kw)
        x = gen.xs(ctx, (3, 1, 6))
    monitor.call(ctx, "network", net, x)
    with torch.no_grad():
        for q in net.parameters():
            q.copy_(gen.t32(ctx.np.normal(size=tuple(q.shape))))
    flat = []
    for k, n, S in plan:
        if k.startswith("switch_"):
            flat += [(k[7:], n, S)] * 2
        elif k in ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod", "polynomial", "polynomial_prod", "fourier"):
            flat.append((k, n, S))
    with monitor.trace(ctx, lambda m: len([q for q in m.parameters(recurse=False) if q.dim() == 3]) == 1 and not list(m.children())) as ev:
        monitor.call(ctx, "network", net, x)
    ev = [e for e in ev] if which != "conv" else []
    ctx.expect(len(ev) == len(flat), f"network ran {len(ev)} high order layers where {len(flat)} are configured")
    target = {}
    for e, (k, n, S) in zip(ev, flat):
        if k.startswith("discontinuous"):
            q = [q for q in e.module.parameters(recurse=False) if q.dim() == 3][0]
            target[id(q)] = (n, S)
    f = ctx.choice([0.5, 1.0, 0.0, 0.3, ctx.uniform(0, 1), 1.5, 2.0, -0.5, -1.5])
    before = {name: monitor.n64(q).copy() for name, q in net.named_parameters()}
    bufs = {name: q.clone() for name, q in net.named_buffers()}
    with ctx.cut("smooth_discontinuous_network"):
        N.smooth_discontinuous_network(net, f) if ctx.chance(0.5) else N.smooth_discontinuous_network(network_in=net, factor=f)
    for name, q in net.named_parameters():
        after = monitor.n64(q)
        if id(q) in target:
            n, S = target[id(q)]
            verify(ctx, f"discontinuous layer {name} of a smoothed network", before[name], after, n, S, f, config={a: str(b) for a, b in kw.items()})
            ctx.see("network_layers_smoothed")
        else:
            ctx.expect(np.array_equal(after, before[name]), f"smoothing a network changed {name}, which is not a discontinuous layer's", config={a: str(b) for a, b in kw.items()})
            ctx.see("other_parameters_kept")
    for name, q in net.named_buffers():
        ctx.expect(torch.equal(q, bufs[name]), f"smoothing a network changed buffer {name}")
    ctx.see("networks_smoothed")
    ctx.describe(which=which, factor=f, config={a: str(b) for a, b in kw.items()})
    ctx.sig("net", which, str(sorted((a, str(b)) for a, b in kw.items())), f)


SCENARIOS = {"layer": (layer_case, 400, 6000), "grid": (grid, 144, 144), "network": (network_case, 250, 4000)}
MUST_SEE = ["weights_compared", "jumps_checked", "smoothings", "continuity_checks", "network_layers_smoothed", "other_parameters_kept", "networks_smoothed"]
RULE = "one case = layer (kind, nodes, segments, widths, weights) with a history of smoothing factors, or a network configuration and a factor; distinct by that signature"
ASSUMPTIONS = ["with one node per segment every node is both sides of a jump and takes half of each original difference"]
