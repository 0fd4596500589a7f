"""C15: initial weights."""
import random

import numpy as np
import torch

from hol import api, conv, fc, gen, monitor, zoo
from hol import ref as R

FC = ["continuous", "discontinuous", "polynomial", "continuous_prod", "discontinuous_prod", "polynomial_prod"]
ND = ["polynomial_2d", "polynomial_3d", "polynomial_4d", "polynomial_5d", "continuous_nd"]
CONV2 = ["continuous2d", "discontinuous2d", "polynomial2d"]


def seed_all(s):
    random.seed(s)
    np.random.seed(s & 0x7FFFFFFF)
    torch.manual_seed(s)


def links(w):
    """[links, nodes]"""
    return monitor.n64(w).reshape(-1, w.shape[-1])


def check_constant(ctx, label, A, bound, **detail):
    """A [links, nodes]: one constant per link, in bounds, links independent."""
    ctx.expect(bool(np.isfinite(A).all()), f"{label}: initial weights are not finite", **detail)
    spread = A.max(1) - A.min(1)
    ctx.expect(bool((spread <= 2 * R.EPS * np.abs(A).max(1)).all()), f"{label}: the weights of a link differ by {spread.max()}, it is not a constant", **detail)
    ctx.expect(bool((np.abs(A) <= bound * (1 + 1e-5)).all()), f"{label}: initial weight {np.abs(A).max()} exceeds {bound}", **detail)
    ctx.see("constant_links", len(A))
    if len(A) >= 64:
        lo, hi = A.min(), A.max()
        ctx.expect(hi - lo > 0.2 * bound, f"{label}: draws cover only [{lo}, {hi}] of +-{bound}", **detail)
        ctx.see("ranges_covered")
    distinct(ctx, label, A[:, 0], **detail)


def distinct(ctx, label, v, **detail):
    if len(v) >= 2:
        u = len(np.unique(np.abs(v)))
        # 24 bit draws collide rarely; systematic sharing repeats everywhere
        ctx.expect(u > 0.9 * len(v) - 1 and (len(v) > 3 or u == len(v) or len(v) - u <= 1), f"{label}: only {u} of {len(v)} links differ", **detail)
    if len(v) >= 4:
        ctx.expect(len(np.unique(v)) >= 3, f"{label}: links share their draw", **detail)


def check_uniform(ctx, label, A, bound, **detail):
    ctx.expect(bool(np.isfinite(A).all()), f"{label}: initial weights are not finite", **detail)
    ctx.expect(bool((np.abs(A) <= bound * (1 + 1e-5)).all()), f"{label}: initial weight {np.abs(A).max()} exceeds {bound}", **detail)
    f = A.ravel()
    distinct(ctx, label, f, **detail)
    if A.shape[1] >= 4:
        ctx.expect(bool((A.max(1) - A.min(1) > 0).all()), f"{label}: weights of a link are equal although each is drawn independently", **detail)
    if f.size >= 128:
        ctx.expect(f.min() < -0.2 * bound and f.max() > 0.2 * bound, f"{label}: draws cover only [{f.min()}, {f.max()}] of +-{bound}", **detail)
    ctx.see("uniform_weights", f.size)


def twice(ctx, label, make, pick):
    """Equal seeds, equal models; going on with the generators, another one."""
    s = ctx.int(0, 2**30)
    seed_all(s)
    with ctx.cut(f"building {label}"):
        a = make()
    seed_all(s)
    with ctx.cut(f"building {label}"):
        b = make()
        c = make()
    seed_all(s + 1)
    with ctx.cut(f"building {label}"):
        d = make()
    pa, pb, pc, pd = (pick(m) for m in (a, b, c, d))
    ctx.expect(len(pa) == len(pb) and all(torch.equal(x, y) for x, y in zip(pa, pb)), f"{label}: equal seeds give different weights")
    ctx.expect(all(not torch.equal(x, y) for x, y in zip(pb, pc) if x.numel()), f"{label}: two models built one after another start with the same draw")
    ctx.expect(all(not torch.equal(x, y) for x, y in zip(pa, pd) if x.numel()), f"{label}: different seeds give the same weights")
    ctx.see("seeded_builds", 4)
    return a


def fc_layers(ctx):
    kind = FC[ctx.index % len(FC)]
    n = ctx.choice([1, 2, 3, 4, 6, 10, ctx.int(2, 12)])
    S = ctx.choice([1, 2, 3, 5, 8, ctx.int(2, 14)]) if fc.base(kind) != "polynomial" else None
    I, O = ctx.choice([1, 1, 2, 3, 7, 20, ctx.int(2, 16)]), ctx.choice([1, 2, 3, 8, 20, ctx.int(2, 16)])
    if ctx.chance(0.15):
        I, O = ctx.choice([(3, 130), (130, 3), (40, 40), (1, 300), (300, 1), (70, 70), (17, 66)])
    elif S and ctx.chance(0.1):
        n, S, I, O = ctx.choice([(2, 70, 2, 3), (4, 130, 1, 2), (9, 20, 3, 1), (16, 2, 2, 2)])
    kw = dict(n=n, in_features=I, out_features=O)
    if S:
        kw["segments"] = S
    mag = ctx.choice([None, None, 1.0, 0.01, 5.0, 0.5])
    if mag is not None:
        kw["weight_magnitude"] = mag
    if ctx.chance(0.3):
        kw["length"] = 3.0
    if ctx.chance(0.3):
        kw["periodicity"] = 2.0
    init = ctx.choice([None, None, "constant_random", "uniform", "uniform"])
    if init is not None:
        kw["initialize"] = init
    via = ctx.choice(["factory", "class"])
    make = (lambda: api.fc(kind, **kw)) if via == "factory" else (lambda: getattr(api.ns.poly, fc.CLASSES[kind])(**kw))
    label = f"{kind} layer {kw}"
    layer = twice(ctx, label, make, lambda m: [q.detach() for q in m.parameters() if q.dim() == 3])
    w = gen.main_weight(ctx, layer)
    ctx.expect(w.requires_grad and w.dtype == torch.float32, f"{label}: weights are not trainable float32")
    bound = (1.0 if mag is None else mag) / I
    (check_uniform if init == "uniform" else check_constant)(ctx, label, links(w), bound)
    if init != "uniform" and fc.base(kind) == kind:
        # behaviour: the function of a fresh layer is the same constant for every input in the range
        L = kw.get("length", 2.0)
        x = gen.t32(ctx.np.uniform(-0.5 * L, 0.5 * L, size=(10, I)))
        y = monitor.n64(monitor.read(ctx, label, layer, x))
        want = links(w).reshape(O, I, -1)[:, :, 0].sum(1)
        tol = 1e-4 * (1 + n) * (np.abs(want) + bound * I * 1e-2)
        ctx.expect(bool((np.abs(y - want[None]) <= tol).all()), f"{label}: a fresh layer is not constant over its range")
        ctx.see("constant_functions")
    ctx.describe(kind=kind, **{k: v for k, v in kw.items()})
    ctx.sig(kind, n, S, I, O, mag, init, via)


def nd_layers(ctx):
    name = ND[ctx.index % len(ND)]
    I, O = ctx.choice([1, 2, 5, 9]), ctx.choice([1, 3, 6, 12])
    kw = dict(in_features=I, out_features=O)
    if name == "continuous_nd":
        d = ctx.choice([1, 2, 3])
        kw.update(n=[ctx.int(1, 3) for _ in range(d)], segments=[ctx.int(1, 3) for _ in range(d)])
    else:
        d = int(name[-2])
        kw.update(n=ctx.int(1, 3) if ctx.chance(0.5) else [ctx.int(1, 3) for _ in range(d)])
    mag = ctx.choice([None, 2.0, 0.1])
    if mag is not None:
        kw["weight_magnitude"] = mag
    init = ctx.choice([None, "uniform"])
    if init:
        kw["initialize"] = init
    layer = twice(ctx, f"{name} {kw}", lambda: api.fc(name, **kw), lambda m: [q.detach() for q in m.parameters() if q.dim() == 3])
    w = gen.main_weight(ctx, layer)
    (check_uniform if init else check_constant)(ctx, f"{name} layer {kw}", links(w), (mag or 1.0) / I)
    ctx.see("nd_layers")
    ctx.sig(name, str(kw))


def convs(ctx):
    kind = CONV2[ctx.index % len(CONV2)]
    base, _ = conv.split(kind)
    n = ctx.choice([1, 2, 3, 5])
    S = ctx.choice([1, 2, 3, 6]) if base != "polynomial" else None
    g = ctx.choice([1, 1, 1, 2])
    C, O, k = g * ctx.choice([1, 2, 3]), g * ctx.choice([1, 2, 3]), ctx.choice([1, 2, 3, 5])
    kw = dict(n=n, in_channels=C, out_channels=O, kernel_size=k)
    if S:
        kw["segments"] = S
    if g > 1:
        kw["groups"] = g
    if ctx.chance(0.3):
        kw["rescale_output"] = ctx.chance(0.5)
    mag = ctx.choice([None, None, 3.0, 0.1])
    if mag is not None:
        kw["weight_magnitude"] = mag
    label = f"{kind} convolution {kw}"
    layer = twice(ctx, label, lambda: api.conv(kind, **kw), lambda m: [q.detach() for q in m.parameters() if q.dim() == 4])
    w = gen.main_weight(ctx, layer, 4)
    K = fc.nb(base, n, S)
    W = monitor.n64(w).reshape(O, C // g, K, k, k)
    A = np.moveaxis(W, 2, -1).reshape(-1, K)
    check_constant(ctx, label, A, (1.0 if mag is None else mag) / (C // g * k * k))
    ctx.see("conv_layers")
    ctx.describe(kind=kind, **kw)
    ctx.sig(kind, n, S, C, O, k, g, mag)


def wrapper(ctx):
    """The convolution builders draw the weights they hand out."""
    tr = ctx.chance(0.4)
    d = ctx.choice([1, 2, 2])
    cls = getattr(torch.nn, ("ConvTranspose" if tr else "Conv") + f"{d}d")
    g = ctx.choice([1, 1, 2])
    C, O, k = g * ctx.int(1, 4), g * ctx.int(1, 4), ctx.choice([1, 2, 3, 5])
    kw = dict(in_channels=C, out_channels=O, kernel_size=k, groups=g, stride=ctx.int(1, 3), padding=ctx.int(0, k - 1), dilation=ctx.int(1, 2))
    if d != 2 or ctx.chance(0.5):
        kw["convolution"] = cls
    mag = ctx.choice([None, None, 3.0, 0.1])
    if mag is not None:
        kw["weight_magnitude"] = mag
    rescale = ctx.choice([None, False, True])
    if rescale is not None:
        kw["rescale_output"] = rescale
    if ctx.chance(0.3):
        kw.update(verbose=ctx.chance(0.5), unknown_setting=7)
    f = api.ns.convt.conv_transpose_wrapper if tr else api.ns.conv.conv_wrapper
    label = f"{f.__name__} {kw}"
    c = twice(ctx, label, lambda: f(**kw), lambda m: [q.detach() for q in m.parameters()])
    ps = list(c.parameters())
    ctx.expect(len(ps) == 1, f"{label}: {len(ps)} parameter tensors where the weights alone are expected (the bias is part of the expansion)")
    W = monitor.n64(ps[0])
    bound = 1.0 if mag is None else mag
    if not rescale:
        bound /= C * k * k if d == 2 else C * k
    ctx.expect(bool((np.abs(W) <= bound * (1 + 1e-5)).all()), f"{label}: initial weight {np.abs(W).max()} exceeds {bound}")
    if W.size >= 4:
        distinct(ctx, label, W.ravel())
    if d == 2 or rescale:
        if W.size >= 64:
            ctx.expect(W.min() < -0.3 * bound and W.max() > 0.3 * bound, f"{label}: draws cover only [{W.min()}, {W.max()}] of +-{bound}")
            ctx.see("wrapper_ranges_filled")
    # the settings are those that were asked for
    x = gen.t32(ctx.np.normal(size=(2, C) + (9 + k,) * d))
    y = monitor.read(ctx, label, c, x)
    F = getattr(torch.nn.functional, f"conv{'_transpose' if tr else ''}{d}d")
    z = F(x.double(), ps[0].detach().double(), None, stride=kw["stride"], padding=kw["padding"], dilation=kw["dilation"], groups=g)
    tol = F(x.double().abs(), ps[0].detach().double().abs(), None, stride=kw["stride"], padding=kw["padding"], dilation=kw["dilation"], groups=g)
    monitor.compare(ctx, label, y, (z.numpy(), 64 * R.EPS * tol.numpy() + 1e-30))
    ctx.see("wrappers")
    ctx.sig("wrapper", tr, d, C, O, k, g, mag, rescale)


def mlp(ctx):
    """Networks hand the request on to every layer."""
    t = ctx.choice(FC)
    init = ctx.choice([None, "constant_random", "uniform", "uniform"])
    H = ctx.choice([2, 3, 6])
    kw = dict(layer_type=t, n=ctx.choice([2, 3]), in_width=ctx.int(1, 4), out_width=ctx.int(1, 3), hidden_layers=ctx.int(0, 3), hidden_width=H,
              in_segments=ctx.int(1, 3), hidden_segments=ctx.int(1, 3), out_segments=ctx.int(1, 3))
    if init:
        kw["initialization"] = init
    if ctx.chance(0.3):
        kw["resnet"] = True
    multi = ctx.chance(0.25)
    if multi:
        kw["replicas"] = 2
        kw["resnet"] = False
    cls = api.ns.networks.HighOrderMultiMLP if multi else api.ns.networks.HighOrderMLP
    label = f"{cls.__name__} {kw}"
    net = twice(ctx, label, lambda: cls(**kw), lambda m: [q.detach() for q in m.parameters() if q.dim() == 3])
    seen = set()
    for m in net.modules():
        for q in m.parameters(recurse=False):
            if q.dim() == 3 and id(q) not in seen:
                seen.add(id(q))
                (check_uniform if init == "uniform" else check_constant)(ctx, f"layer of {label}", links(q), 1.0 / q.shape[1])
    ctx.expect(len(seen) == (kw["hidden_layers"] + 2) * (1 if not multi else 2) + (2 if multi else 0), f"{label} has {len(seen)} weight tensors")
    ctx.see("networks")
    ctx.sig("mlp", t, init, kw["n"], kw["in_width"], H, kw["hidden_layers"], multi)


def is_line(ctx, label, A, pos, amax, bmax, **detail):
    """A [links, nodes] sampled at positions pos is a line per link."""
    xm, ym = pos.mean(), A.mean(1, keepdims=True)
    dx = pos - xm
    a = ((A - ym) * dx).sum(1) / (dx**2).sum()
    b = ym[:, 0] - a * xm
    size = np.abs(a) * np.abs(pos).max() + np.abs(b) + 1e-30
    res = np.abs(A - (a[:, None] * pos + b[:, None]))
    ctx.expect(bool((res <= 1e-4 * size[:, None]).all()), f"{label}: a link is not one straight line across its segments (off by {res.max()})", **detail)
    slack = 1e-4 * size
    ctx.expect(bool((np.abs(a) <= amax + slack / max(np.abs(pos).max(), 1e-9) * 2).all()), f"{label}: slope {np.abs(a).max()} exceeds {amax}", **detail)
    ctx.expect(bool((np.abs(b) <= bmax + slack).all()), f"{label}: offset {np.abs(b).max()} exceeds {bmax}", **detail)
    if amax > 0 and len(a) >= 2:
        ctx.expect(len(np.unique(a.round(12))) > 0.8 * len(a) - 1, f"{label}: links share their slope", **detail)
    if len(a) >= 40:  # draws use the range they are given
        ctx.expect(np.abs(a).max() >= 0.6 * amax, f"{label}: slopes stay below {np.abs(a).max()} where {amax} is allowed", **detail)
        ctx.expect(np.abs(b).max() >= 0.6 * bmax - slack.max(), f"{label}: offsets stay below {np.abs(b).max()} where {bmax} is allowed", **detail)
        ctx.see("ranges_filled")
    if amax > 0 and len(a) >= 32:
        ctx.expect(a.min() < 0 < a.max(), f"{label}: slopes have one sign only", **detail)
    if bmax > 0 and len(b) >= 40:
        ctx.expect(b.min() < 0 < b.max(), f"{label}: offsets have one sign only", **detail)
    if bmax > 0 and len(b) >= 2:
        ctx.expect(len(np.unique(b.round(12))) > 0.8 * len(b) - 1, f"{label}: links share their offset", **detail)
    if amax > 0 and bmax > 0 and len(a) >= 30:
        r = np.corrcoef(a, b)[0, 1]
        ctx.expect(abs(r) < 0.9, f"{label}: slopes and offsets are one draw (correlation {r})", **detail)
    ctx.see("linear_links", len(A))
    return a, b


def positions(base, n, S, L):
    P = gen.node_positions(n, S, L)
    if base == "continuous":
        keep = [0] + [k * n + j for k in range(S) for j in range(1, n)]
        return P[keep]
    return P


def linear_layer(ctx):
    kind = ctx.choice(["continuous", "discontinuous", "continuous_prod", "discontinuous_prod"])
    n, S = ctx.choice([2, 3, 4, 6, ctx.int(2, 9)]), ctx.choice([1, 2, 3, 5, 8, ctx.int(2, 12)])
    I, O = ctx.choice([1, 2, 5, ctx.int(2, 10)]), ctx.choice([1, 3, 8, ctx.int(2, 10)])
    if ctx.chance(0.1):
        I, O = ctx.choice([(2, 70), (70, 2), (20, 20), (40, 5), (5, 40)])
        n, S = ctx.choice([2, 3]), ctx.choice([1, 2, 3])
    elif ctx.chance(0.15):
        n, S = ctx.choice([(2, 70), (4, 40), (3, 200), (9, 10), (12, 2), (7, 16)])
        I, O = ctx.int(1, 2), ctx.int(1, 2)
    L = ctx.choice([2.0, 2.0, 1.0, 3.0, 5.0])
    layer, w = fc.build(ctx, kind, n, I, O, S, L)
    args = {}
    if ctx.chance(0.8):
        args["max_slope"] = ctx.choice([1.0, 0.5, 3.0, 0.0, 20.0])
    if ctx.chance(0.8):
        args["max_offset"] = ctx.choice([0.0, 1.0, 0.25, 6.0])
    s = ctx.int(0, 2**30)
    with ctx.cut("initialize_polynomial_layer"):
        seed_all(s)
        api.ns.poly.initialize_polynomial_layer(layer, **args)
        first = w.detach().clone()
        api.ns.poly.initialize_polynomial_layer(layer, **args)
        second = w.detach().clone()
        seed_all(s)
        api.ns.poly.initialize_polynomial_layer(layer, **args)
    ctx.expect(torch.equal(first, w.detach()), "equal seeds give different linear initializations")
    am, bm = args.get("max_slope", 1.0), args.get("max_offset", 0.0)
    if am or bm:
        ctx.expect(not torch.equal(first, second), "two linear initializations in a row are the same draw")
    a, b = is_line(ctx, f"linearly initialised {kind} layer {args}", links(w), positions(fc.base(kind), n, S, L), am, bm)
    if kind == fc.base(kind):
        x = gen.t32(ctx.np.uniform(-0.5 * L, 0.5 * L, size=(10, I)))
        y = monitor.n64(monitor.read(ctx, "initialised layer", layer, x))
        A, Bq = a.reshape(O, I), b.reshape(O, I)
        want = monitor.n64(x) @ A.T + Bq.sum(1)
        size = np.abs(monitor.n64(x)) @ np.abs(A).T + np.abs(Bq).sum(1) + L * np.abs(A).sum(1)
        ctx.expect(bool((np.abs(y - want) <= 2e-4 * (size + 1e-9)).all()), "an initialised layer does not evaluate its lines")
        ctx.see("linear_functions")
    ctx.describe(kind=kind, n=n, S=S, I=I, O=O, L=L, **args)
    ctx.sig("line", kind, n, S, I, O, L, str(args))


def linear_network(ctx):
    t = ctx.choice(["continuous", "discontinuous", "continuous_prod", "discontinuous_prod", "switch_continuous", "switch_discontinuous"])
    L = ctx.choice([2.0, 2.0, 3.0])
    H = ctx.choice([1, 3, 6, 6, 8, 20])
    kw = dict(layer_type=t, n=ctx.choice([2, 3, 4]), in_width=ctx.int(1, 4), out_width=ctx.int(1, 3), hidden_layers=ctx.int(0, 3), hidden_width=H,
              in_segments=ctx.int(1, 3), hidden_segments=ctx.int(1, 4), out_segments=ctx.int(1, 3), scale=L)
    if ctx.chance(0.3):
        kw["resnet"] = True
    if ctx.chance(0.3):
        kw["normalization"] = api.ns.layers.MaxAbsNormalization
    if ctx.chance(0.3):
        kw["n_in"], kw["n_hidden"], kw["n_out"] = 3, 2, 4
    if ctx.chance(0.2):
        kw["layer_type_in"] = "continuous"
    with ctx.cut(f"building {kw}"):
        net = api.ns.networks.HighOrderMLP(**kw)
        if ctx.chance(0.3):
            net = torch.nn.Sequential(torch.nn.Linear(kw["in_width"], kw["in_width"]), net)
    am, bm = ctx.choice([1.0, 0.3, 2.0, 12.0]), ctx.choice([0.0, 0.5, 1.0, 5.0])
    mode = ctx.choice(["default", "one", "inverse", "sqrt", "twice"])
    f = {"default": lambda q: 1, "one": lambda q: 1, "inverse": lambda q: 1.0 / q, "sqrt": lambda q: q**-0.5, "twice": lambda q: 2.0}[mode]
    args = dict(max_slope=am, max_offset=bm)
    if mode != "default":
        args["scale_slope"] = f
    s = ctx.int(0, 2**30)
    seed_all(s)
    with ctx.cut("initialize_network_polynomial_layers"):
        api.ns.networks.initialize_network_polynomial_layers(net, **args)
        first = [q.detach().clone() for q in net.parameters() if q.dim() == 3]
        seed_all(s)
        api.ns.networks.initialize_network_polynomial_layers(net, **args)
    ctx.expect(all(torch.equal(a, q.detach()) for a, q in zip(first, [q for q in net.parameters() if q.dim() == 3])), "equal seeds give different linear initializations of a network")
    n = kw["n"]
    plan = [(kw.get("layer_type_in") or t, kw.get("n_in") or n, kw["in_segments"], kw["in_width"], H)]
    plan += [(t, kw.get("n_hidden") or n, kw["hidden_segments"], H, H)] * kw["hidden_layers"]
    plan += [(t, kw.get("n_out") or n, kw["out_segments"], H, kw["out_width"])]
    flat = []
    for k, m, S, i, o in plan:
        flat += [(k.replace("switch_", ""), m, S, i, o)] * (2 if k.startswith("switch") else 1)
    leaves, seen = [], set()
    for m in net.modules():
        for q in m.parameters(recurse=False):
            if q.dim() == 3 and id(q) not in seen:
                seen.add(id(q))
                leaves.append(q)
    # registration order starts with the input and output layers; pair by shape
    want = [((o, i, fc.nb(k, m, S)), (k, m, S, i)) for k, m, S, i, o in flat]
    ctx.expect(sorted(tuple(q.shape) for q in leaves) == sorted(w[0] for w in want), "network weights do not have the configured shapes")
    slopes = []
    for q in leaves:
        cands = [w[1] for w in want if w[0] == tuple(q.shape)]
        ok = None
        for k, m, S, i in dict.fromkeys(cands):
            try:
                a, b = is_line(ctx, f"{k} layer of a linearly initialised network ({t}, {mode})", links(q), positions(fc.base(k), m, S, L), am * f(i), bm)
                ok = True
                slopes.append(a)
                break
            except Exception as e:  # another layer of this shape may be meant
                ok = e
        if ok is not True:
            raise ok
    al = np.concatenate(slopes)
    if len(al) > 1:
        ctx.expect(len(np.unique(al.round(12))) > 0.8 * len(al) - 1, "links of a linearly initialised network share slopes")
    if len(leaves) > 1:
        for i in range(len(leaves)):
            for j in range(i):
                if leaves[i].shape == leaves[j].shape:
                    ctx.expect(not torch.equal(leaves[i], leaves[j]), "two layers of a linearly initialised network are equal")
    ctx.see("linear_networks")
    if t.startswith("switch"):
        ctx.see("linear_switch_networks")
    ctx.describe(config={k: str(v) for k, v in kw.items()}, max_slope=am, max_offset=bm, scale=mode)
    ctx.sig("linnet", t, kw["n"], H, kw["hidden_layers"], am, bm, mode)


def linear_switch(ctx):
    """A switch layer's own linear initialization reaches every sub-layer."""
    base = ctx.choice(["continuous", "discontinuous"])
    n, S, K = ctx.choice([2, 3, 5]), ctx.choice([1, 2, 3, 6]), ctx.choice([2, 3, 4])
    I, O = ctx.choice([1, 3, 8, 12]), ctx.choice([1, 4, 7])
    L = ctx.choice([2.0, 3.0])
    am, bm = ctx.choice([1.0, 0.3, 4.0]), ctx.choice([0.0, 0.5, 2.0])
    with ctx.cut("building and initialising a switch layer"):
        layer = api.fc("switch_" + base, n=n, in_features=I, out_features=O, segments=S, scale=L, num_input_layers=K)
        s = ctx.int(0, 2**30)
        seed_all(s)
        layer.initialize(max_slope=am, max_offset=bm)
        ws = [q for q in layer.parameters() if q.dim() == 3]
        first = [q.detach().clone() for q in ws]
        seed_all(s)
        layer.initialize(max_slope=am, max_offset=bm)
    ctx.expect(all(torch.equal(a, q.detach()) for a, q in zip(first, ws)), "equal seeds give different linear initializations of a switch layer")
    ctx.expect(len(ws) == K, f"switch layer of {K} sub-layers has {len(ws)} weight tensors")
    ab = [is_line(ctx, f"sub-layer of a linearly initialised switch layer of {K}", links(q), positions(base, n, S, L), am, bm) for q in ws]
    for i in range(K):
        for j in range(i):
            ctx.expect(not torch.equal(ws[i], ws[j]), "two sub-layers of a linearly initialised switch layer are equal")
    a = np.concatenate([q[0] for q in ab])
    if len(a) >= 40:
        ctx.expect(np.abs(a).max() >= 0.6 * am, f"slopes of a linearly initialised switch layer stay below {np.abs(a).max()} where {am} is allowed")
    ctx.see("linear_switch_layers")
    ctx.describe(base=base, n=n, S=S, K=K, I=I, O=O, L=L, max_slope=am, max_offset=bm)
    ctx.sig("linswitch", base, n, S, K, I, O, L, am, bm)


def poisoned(ctx):
    """What a fresh model computes is drawn, not found in memory."""
    name = zoo.ALL[ctx.index % len(zoo.ALL)]
    item = zoo.make(ctx, name)
    xs = item.inputs(2)
    wide = name in zoo.NETS + zoo.MODS
    if wide and not item.lazy:
        xs = [v.double() if torch.is_tensor(v) and v.dtype.is_floating_point else v for v in xs]
    s = ctx.int(0, 2**30)

    def fresh():
        seed_all(s)
        with ctx.cut(f"building {name} {item.config}"):
            m = item.build().eval()
        with torch.no_grad():
            if wide and not item.lazy:  # rounding must not decide on segments
                m = m.double()
            return [o.clone() for o in zoo.outs(monitor.call(ctx, f"fresh {name} {item.config}", m, *xs))]

    with monitor.poisoned():
        a = fresh()
    b, c = fresh(), fresh()
    for q, r, t in zip(a, b, c):
        ctx.expect(q.shape == r.shape, f"{name}: equal seeds, outputs of other shapes")
        ctx.expect(bool((q.isfinite() | ~r.isfinite()).all()), f"{name}: a fresh model's outputs depend on uninitialised memory", config={k: str(v) for k, v in item.config.items()})
        ok = r.isfinite() & (r.abs() < 1e25)
        top = float(r[ok].abs().max()) if bool(ok.any()) else 0.0
        if wide and item.lazy:
            continue
        for u, how in ((q, "with fresh memory poisoned"), (t, "again")):
            bad = ok & ~((u - r).abs() <= 1e-5 * top + 1e-7)
            ctx.expect(not bool(bad.any()), f"{name}: built {how} from equal seeds, another function", config={k: str(v) for k, v in item.config.items()})
    ctx.see("poisoned_builds")
    ctx.sig("poisoned", name, str(item.config))


SCENARIOS = {
    "poisoned": (poisoned, 3 * len(zoo.ALL), 30 * len(zoo.ALL)),
    "linear_switch": (linear_switch, 80, 1000),
    "fc": (fc_layers, 500, 8000),
    "nd": (nd_layers, 80, 1000),
    "convs": (convs, 200, 3000),
    "wrapper": (wrapper, 150, 2000),
    "mlp": (mlp, 150, 2000),
    "linear_layer": (linear_layer, 250, 4000),
    "linear_network": (linear_network, 200, 3000),
}
MUST_SEE = ["poisoned_builds", "linear_switch_layers", "constant_links", "ranges_filled", "uniform_weights", "seeded_builds", "constant_functions", "nd_layers", "conv_layers", "wrappers", "wrapper_ranges_filled", "networks", "linear_links", "linear_functions", "linear_networks", "linear_switch_networks"]
RULE = "one case = layer or network configuration, initialization request, magnitude and seed, built four times under controlled generators; distinct by configuration"
ASSUMPTIONS = ["linear initialization needs at least two nodes per segment"]
