"""C09: exact, local gradients."""
import copy

import numpy as np
import torch
import torch.nn.functional as F

from hol import api, conv, fc, gen, monitor, zoo
from hol import ref as R

KINDS = ["continuous", "discontinuous", "polynomial", "fourier", "continuous_prod", "discontinuous_prod", "polynomial_prod"]


FAR = dict(n=[10, 11, 12, 14], I=[17, 25, 40, 80, 200], O=[17, 25, 40, 130], B=[130, 300, 1100], S=[65, 130, 300, 1000])


def cfg(ctx, kind):
    for _ in range(50):
        n = ctx.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
        S = ctx.choice([1, 2, 3, 4, 5, 7, 8, 16, 50]) if fc.base(kind) in ("continuous", "discontinuous") else None
        I, O, B = ctx.choice([1, 1, 2, 3, 5, 8]), ctx.choice([1, 2, 3, 5]), ctx.choice([1, 1, 2, 3, 8, 20, 64])
        if B * I * O * fc.nb(kind, n, S or 1) < 2e6:
            break
    kw = gen.grow(ctx, dict(n=n, I=I, O=O, B=B, S=S), FAR if S else {k: v for k, v in FAR.items() if k != "S"}, 0.2)
    n, I, O, B, S = kw["n"], kw["I"], kw["O"], kw["B"], kw["S"]
    L = gen.length(ctx)
    p = gen.periodicity(ctx, L) if kind != "fourier" else None
    return dict(n=n, S=S, I=I, O=O, L=L, p=p), B


def grads(ctx, label, layer, x, w, G):
    x = x.clone().requires_grad_(True)
    y = monitor.call(ctx, label, layer, x)
    with ctx.cut(f"{label}: backward"):
        gx, gw = torch.autograd.grad(y, [x, w], G, allow_unused=True)
    gx = torch.zeros_like(x) if gx is None else gx
    ctx.expect(gw is not None, f"{label}: the weights receive no gradient")
    return y, gx, gw


def outer_factor(kind, Bs, E, ww, alpha):
    """d output / d link value and its bound, [batch, out, in]."""
    if not kind.endswith("_prod"):
        sh = (Bs.shape[0], ww.shape[0], ww.shape[1])
        return np.ones(sh), np.zeros(sh), None
    f, T, A = R.links(Bs, E, ww)
    T = T + (min(Bs.shape[2], 64) + 8) * R.EPS * A + 2 * R.EPS * (1 + np.abs(f))
    I = f.shape[-1]
    D, U = np.empty_like(f), np.empty_like(f)
    for i in range(I):
        m = np.arange(I) != i
        D[..., i] = np.prod(1 + f[..., m], -1)
        U[..., i] = np.prod(np.abs(1 + f[..., m]) + T[..., m], -1)
    err = U - np.abs(D) + (2 * I + 16) * R.EPS * (U + abs(1 - alpha))
    full = np.prod(1 + np.abs(f), -1)
    tiny = ((f != -1) & (np.abs(1 + f) < 1e-6)).any(-1)
    return D - (1 - alpha), err, (~(full < 1e20)) | tiny


def formula(ctx):
    kind = KINDS[ctx.index % len(KINDS)]
    c, B = cfg(ctx, kind)
    alpha = 1.0
    kw = {}
    if kind.endswith("_prod"):
        alpha = ctx.choice([1.0, 0.0, 0.5])
        kw["alpha"] = alpha
    layer, w = fc.build(ctx, kind, **c, **kw)
    gen.fill(ctx, w, "normal")
    if kind.endswith("_prod"):
        with torch.no_grad():
            w.mul_(0.5 if c["I"] < 12 else 0.02)
    x = gen.xs(ctx, (B, c["I"]), c["n"], c["S"] or 1, c["L"], c["p"], wild=False)
    if kind == "fourier":
        x = gen.t32(ctx.np.uniform(-2, 2, size=(B, c["I"])) * c["L"])
    how, xl = gen.layout(ctx, x)
    G = gen.t32(ctx.np.normal(size=(B, c["O"])))
    y, gx, gw = grads(ctx, f"{kind} layer {c}", layer, xl, w, G)
    xx, ww, g = monitor.n64(xl), monitor.n64(w), monitor.n64(G)
    Bs, E = R.basis(fc.base(kind), xx, c["n"], c["S"], c["L"], c["p"])
    dB, dE = R.basis(fc.base(kind), xx, c["n"], c["S"], c["L"], c["p"], deriv=True)
    D, De, bad = outer_factor(kind, Bs, E, ww, alpha)
    ga = np.abs(g)[:, :, None]
    gd = g[:, :, None] * D
    # weights
    v = np.einsum("boi,bik->oik", gd, Bs)
    mag = np.einsum("boi,bik->oik", ga * (np.abs(D) + De), np.abs(Bs))
    tol = np.einsum("boi,bik->oik", ga * (np.abs(D) + De), E) + np.einsum("boi,bik->oik", ga * De, np.abs(Bs)) + (B + 24) * R.EPS * mag
    judged = np.abs(Bs).max() < 1e15 and (bad is None or not bad.any())
    if judged:
        monitor.compare(ctx, f"{kind} layer: gradient of the weights", gw, (v, R.SLACK * tol + R.FLOOR), config=c, layout=how)
        ctx.see("weight_gradients")
    # inputs
    gw_link = np.einsum("bik,oik->boi", dB, ww)
    gw_abs = np.einsum("bik,oik->boi", np.abs(dB), np.abs(ww))
    gw_err = np.einsum("bik,oik->boi", dE, np.abs(ww))
    v = (gd * gw_link).sum(1)
    K = c["n"] + 24
    tol = (ga * (np.abs(D) + De) * (gw_err + K * R.EPS * gw_abs) + ga * De * gw_abs).sum(1) + (c["O"] + K) * R.EPS * (ga * (np.abs(D) + De) * gw_abs).sum(1)
    if np.abs(dB).max(initial=0) < 1e15 and judged:
        monitor.compare(ctx, f"{kind} layer: gradient of the inputs", gx, (v, R.SLACK * 2 * tol + 1e-30), config=c, layout=how)
        ctx.see("input_gradients")
    # locality, independently of the formula
    if c["S"]:
        xf, dx = (xx, np.zeros_like(xx)) if c["p"] is None else R.mirror(xx, c["p"])[:2]
        k, alt = R.locate(xf, c["S"], c["L"], np.broadcast_to(dx, xf.shape))
        st = c["n"] - 1 if fc.base(kind) == "continuous" else c["n"]
        active = np.zeros(ww.shape[1:], bool)
        for i in range(c["I"]):
            for q in set(k[:, i]) | set(alt[:, i]):
                active[i, q * st : q * st + c["n"]] = True
        outside = monitor.n64(gw)[:, ~active]
        ctx.see("inactive_weights", outside.size)
        ctx.expect(bool((outside == 0).all()), f"{kind} layer: weights of segments without a sample receive gradient", config=c)
    ctx.describe(kind=kind, **c, batch=B, layout=how)
    ctx.sig(kind, c["n"], c["S"], c["I"], c["O"], c["L"], c["p"], B, alpha)


def far(ctx):
    """Every setting in turn far beyond the usual sizes."""
    ctx.turn = ctx.index // len(KINDS)
    formula(ctx)


def zero_factor(ctx):
    """Links whose factor 1 + f is exactly zero: the product's gradient with
    respect to such a link is the product of the others."""
    kind = ctx.choice(["discontinuous_prod", "discontinuous_prod", "continuous_prod", "polynomial_prod"])
    disc = kind == "discontinuous_prod"
    n = ctx.choice([1, 1, 2, 3]) if disc else ctx.choice([2, 3, 4])
    S = None if kind == "polynomial_prod" else ctx.choice([1, 2, 4, 8])
    I, O, B = ctx.int(2, 5), ctx.int(1, 4), ctx.int(1, 5)
    alpha = ctx.choice([1.0, 0.0, 0.5])
    layer, w = fc.build(ctx, kind, n, I, O, S, 2.0, None, alpha=alpha)
    gen.fill(ctx, w, "normal")
    edges = np.linspace(-1, 1, (S or 1) + 1)
    x = gen.t32(ctx.np.choice(edges if not disc or n > 1 else edges[:-1] + 1.0 / S, size=(B, I)))
    for i in range(I):
        if ctx.chance(0.5):
            with torch.no_grad():
                w[ctx.int(0, O - 1) if ctx.chance(0.5) else slice(None), i] = -1.0
    G = gen.t32(ctx.np.normal(size=(B, O)))
    label = f"{kind} layer with vanishing factors, n={n} segments={S} alpha={alpha}"
    y, gx, gw = grads(ctx, label, layer, x, w, G)
    xx, ww, g = monitor.n64(x), monitor.n64(w), monitor.n64(G)
    Bs, E = R.basis(fc.base(kind), xx, n, S, 2.0, None)
    D, De, bad = outer_factor(kind, Bs, E, ww, alpha)
    f = R.links(Bs, E, ww)[0]
    ctx.see("vanishing_factors", int((f == -1).sum()))
    near = (f != -1) & (np.abs(1 + f) < 1e-5)
    ga, gd = np.abs(g)[:, :, None], g[:, :, None] * D
    v = np.einsum("boi,bik->oik", gd, Bs)
    mag = np.einsum("boi,bik->oik", ga * (np.abs(D) + De), np.abs(Bs))
    tol = np.einsum("boi,bik->oik", ga * (np.abs(D) + De), E) + np.einsum("boi,bik->oik", ga * De, np.abs(Bs)) + (B + 24) * R.EPS * mag
    if not near.any() and not bad.any():
        monitor.compare(ctx, f"{label}: gradient of the weights", gw, (v, R.SLACK * tol + R.FLOOR))
        ctx.see("vanishing_gradients_judged")
    ctx.expect(bool(torch.isfinite(gx).all()), f"{label}: gradient of the inputs is not finite")
    ctx.sig("zero", kind, n, S, I, O, B, alpha)


def product(ctx):
    """The plain product layer, factors 1 + w x exactly zero included."""
    I, O, B = ctx.choice([1, 2, 3, 5, 9]), ctx.int(1, 5), ctx.int(1, 6)
    alpha, bias = ctx.choice([1.0, 0.0, 0.5]), ctx.chance(0.5)
    with ctx.cut("building the product layer"):
        layer = api.fc("product", in_features=I, out_features=O, alpha=alpha, bias=bias)
    w = [q for q in layer.parameters() if q.dim() == 2][0]
    W = ctx.np.normal(size=(O, I))
    X = ctx.np.uniform(-1, 1, size=(B, I))
    if ctx.chance(0.6):
        hit = ctx.np.random(size=(O, I)) < 0.4
        col = ctx.np.choice([0.5, 1.0, -0.25, 0.0, 2.0], size=I)
        X = np.where(ctx.np.random(size=(B, I)) < 0.7, col, X)
        W = np.where(hit, -1.0 / np.where(col == 0, 1.0, col), W)
    x = gen.t32(X)
    with torch.no_grad():
        w.copy_(gen.t32(W))
    G = gen.t32(ctx.np.normal(size=(B, O)))
    label = f"product layer in={I} out={O} alpha={alpha}"
    _, gx, gw = grads(ctx, label, layer, x, w, G)
    xx, ww, g = monitor.n64(x), monitor.n64(w), monitor.n64(G)
    f = xx[:, None, :] * ww[None]
    D, U = np.empty_like(f), np.empty_like(f)
    for i in range(I):
        m = np.arange(I) != i
        D[..., i] = np.prod(1 + f[..., m], -1)
        U[..., i] = np.prod(np.abs(1 + f[..., m]) + 4 * R.EPS * (1 + np.abs(f[..., m])), -1)
    De = U - np.abs(D) + (2 * I + 16) * R.EPS * (U + abs(1 - alpha))
    D = D - (1 - alpha)
    if ((f != -1) & (np.abs(1 + f) < 1e-5)).any():
        return
    ctx.see("vanishing_factors", int((f == -1).sum()))
    ga = np.abs(g)[:, :, None]
    for name, got, ax, q in (("weights", gw, 0, xx[:, None, :]), ("inputs", gx, 1, ww[None])):
        v = (g[:, :, None] * D * q).sum(ax)
        tol = (ga * np.abs(q) * (De + (B + O + 16) * R.EPS * (np.abs(D) + De))).sum(ax)
        monitor.compare(ctx, f"{label}: gradient of the {name}", got, (v, R.SLACK * tol + R.FLOOR))
    ctx.see("product_gradients")
    ctx.sig("product", I, O, B, alpha, bias)


def one_sample(ctx):
    """A single sample touches n weights per link however many segments."""
    kind = ctx.choice(["continuous", "discontinuous", "continuous_prod", "discontinuous_prod"])
    n, S = ctx.choice([2, 3, 4, 6]), ctx.choice([2, 5, 10, 50, 200])
    L = gen.length(ctx)
    I, O = ctx.int(1, 4), ctx.int(1, 3)
    layer, w = fc.build(ctx, kind, n, I, O, S, L)
    gen.fill(ctx, w, "normal")
    with torch.no_grad():
        w.mul_(0.3)
    x = gen.t32(ctx.np.uniform(-0.55, 0.55, size=(1, I)) * L)
    if kind.endswith("prod"):
        x = x.clamp(-L / 2, L / 2)
    _, _, gw = grads(ctx, f"{kind} layer", layer, x, w, torch.ones(1, O))
    nz = (gw != 0).sum(-1)
    ctx.expect(bool((nz <= n).all()), f"one sample gives {int(nz.max())} non-zero weight gradients on a link with {n} nodes per segment", S=S, n=n)
    xx = monitor.n64(x)
    k, alt = R.locate(xx, S, L, np.zeros_like(xx))
    st = n - 1 if fc.base(kind) == "continuous" else n
    for i in range(I):
        on = set(np.nonzero(monitor.n64(gw)[:, i].any(0))[0])
        ok = set(range(k[0, i] * st, k[0, i] * st + n)) | set(range(alt[0, i] * st, alt[0, i] * st + n))
        ctx.expect(on <= ok, f"{kind} layer: gradient on weights {sorted(on)} where the sample lies in segment {k[0, i]}", n=n, S=S)
        if k[0, i] == alt[0, i] and kind in ("continuous", "discontinuous"):
            Bs, E = R.basis(fc.base(kind), xx, n, S, L)
            sure = set(np.nonzero(np.abs(Bs[0, i]) > 4 * E[0, i] + 1e-6)[0])
            ctx.expect(sure <= on, f"{kind} layer: active weights {sorted(sure - on)} receive no gradient", n=n, S=S)
    ctx.see("single_sample_supports", I * O)
    ctx.sig("one", kind, n, S, L, I, O)


def conv_formula(ctx):
    kind = list(conv.CLASSES)[ctx.index % len(conv.CLASSES)]
    base, d = conv.split(kind)
    turn = getattr(ctx, "turn", None)
    if turn is None:
        c, B, size = conv.cfg(ctx, kind)
        if c["n"] > 7:
            c["n"] = 5
    else:
        c, B, size, _ = conv.large_cfg(ctx, kind, turn, [q for q in conv.LARGE if q.get("B", 0) < 999])
    layer, w = conv.build(ctx, kind, c)
    gen.fill(ctx, w, "normal")
    x = gen.xs(ctx, (B, c["C"]) + size, c["n"], c["S"] or 1, c["L"], c["p"], wild=False)
    x = x.clone().requires_grad_(True)
    y = monitor.call(ctx, kind, layer, x)
    G = gen.t32(ctx.np.normal(size=tuple(y.shape)))
    with ctx.cut(f"{kind}: backward"):
        gx, gw = torch.autograd.grad(y, [x, w], G, allow_unused=True)
    gx = torch.zeros_like(x) if gx is None else gx
    V, E = conv.expanded(base, x, c)
    xx = monitor.n64(x)
    dB, dE = R.basis(base, xx, c["n"], c["S"], c["L"], c["p"], deriv=True)
    s = 1.0 / (c["C"] * c["k"] ** 2) if c["rescale"] else 1.0
    f = F.conv1d if d == 1 else F.conv2d
    kw = dict(stride=c["stride"], dilation=c["dilation"], groups=c["groups"])

    def pull(Vn, Wn, Gn):
        Vt = torch.tensor(Vn).requires_grad_(True)
        Wt = torch.tensor(Wn).requires_grad_(True)
        out = f(conv._pad(Vt, c, d), Wt, **kw)
        gV, gW = torch.autograd.grad(out, [Vt, Wt], torch.tensor(Gn))
        return gV.numpy(), gW.numpy()

    ww, g = monitor.n64(w), monitor.n64(G) * s
    gV, gW = pull(V, ww, g)
    aV, aW = pull(np.abs(V), np.abs(ww), np.abs(g))
    _, eW = pull(E, np.abs(ww), np.abs(g))
    nt = int(np.prod(y.shape)) // c["O"] + 24
    if np.abs(V).max() < 1e15:
        monitor.compare(ctx, f"{kind}: gradient of the weights", gw, (gW, R.SLACK * (eW + min(nt, 4096) * R.EPS * aW) + R.FLOOR), config=c)
        ctx.see("weight_gradients")
    K = dB.shape[-1]
    sh = (B, c["C"], K) + size
    mv = lambda a: np.moveaxis(a.reshape(sh), 2, -1)
    gVk, aVk = mv(gV), mv(aV)
    v = (gVk * dB).sum(-1)
    n2 = c["O"] * c["k"] ** d + c["n"] + 24
    tol = (aVk * dE).sum(-1) + n2 * R.EPS * (aVk * np.abs(dB)).sum(-1)
    if np.abs(dB).max(initial=0) < 1e15 and np.abs(V).max() < 1e15:
        monitor.compare(ctx, f"{kind}: gradient of the inputs", gx, (v, 2 * R.SLACK * tol + 1e-30), config=c)
        ctx.see("input_gradients")
    ctx.see("conv_gradients")
    ctx.sig("conv", kind, str(c), size)


def conv_far(ctx):
    ctx.turn = ctx.index // len(conv.CLASSES)
    conv_formula(ctx)
    ctx.see("large_settings")


def numeric(ctx):
    """Directional derivatives of every kind of model in double precision, with
    respect to all parameters and inputs, against central differences; and the
    gradient of a batch against the sum over its samples."""
    names = [q for q in zoo.ALL if q not in zoo.MODS]
    name = names[ctx.index % len(names)]
    item = zoo.make(ctx, name)
    m = zoo.build(ctx, item)
    zoo.shake(ctx, m)
    m = m.double().eval()
    B = ctx.choice([1, 2, 4])
    xs = [t.double().requires_grad_(True) if torch.is_tensor(t) else t for t in item.inputs(B)]
    with torch.no_grad():
        for t in xs:
            if torch.is_tensor(t):  # generic position
                t.copy_(torch.tensor(ctx.np.uniform(-0.97, 0.97, size=tuple(t.shape))))
    ps = [p for p in m.parameters() if p.requires_grad]
    ts = ps + [t for t in xs if torch.is_tensor(t)]
    for p in ps:
        with torch.no_grad():
            p.nan_to_num_()

    def f():
        with ctx.cut(f"{name}: evaluating"):
            ys = zoo.outs(m(*xs))
        return ys

    ys = f()
    cs = [torch.tensor(ctx.np.normal(size=tuple(y.shape))) for y in ys]
    loss = lambda: sum((c * y).sum() for c, y in zip(cs, f()))
    L0 = loss()
    if not L0.requires_grad:
        ctx.fail(f"{name}: output is detached from weights and inputs", config=str(item.config))
    if not abs(float(L0.detach())) < 1e8:
        # products of products overflow: no differences to compare with
        ctx.see("overflowing_models")
        return
    with ctx.cut(f"{name}: backward"):
        gs = torch.autograd.grad(L0, ts, allow_unused=True)
    gs = [torch.zeros_like(t) if g is None else g for g, t in zip(gs, ts)]
    for who in ("weights", "inputs"):
        idx = range(len(ps)) if who == "weights" else range(len(ps), len(ts))
        idx = list(idx)
        if not idx:
            continue
        for _ in range(2):
            vs = [torch.tensor(ctx.np.normal(size=tuple(ts[i].shape))) for i in idx]
            ad = float(sum((gs[i] * v).sum() for i, v in zip(idx, vs)))
            best = np.inf
            scale = 1 + abs(ad) + float(abs(L0.detach()))
            for h in (1e-6, 1e-7, 3e-8, 1e-8):
                vals = []
                for sgn in (1, -1):
                    with torch.no_grad():
                        for i, v in zip(idx, vs):
                            ts[i].add_(sgn * h * v)
                        vals.append(float(loss()))
                        for i, v in zip(idx, vs):
                            ts[i].add_(-sgn * h * v)
                fd = (vals[0] - vals[1]) / (2 * h)
                best = min(best, abs(fd - ad) / scale)
                if best < 1e-4:
                    break
            ctx.see("directional_derivatives")
            ctx.expect(best < 3e-4, f"{name}: derivative with respect to the {who} is {ad}, differences give another value (relative gap {best:.2g})", config=str(item.config))
    # what else is differentiated does not matter: frozen weights, fixed or computed inputs
    for which in ("inputs only", "weights only", "some"):
        pick = [i for i in range(len(ts)) if (i >= len(ps) if which == "inputs only" else i < len(ps) if which == "weights only" else ctx.chance(0.5))]
        if not pick:
            continue
        for i, t in enumerate(ts):
            t.requires_grad_(i in pick)
        into = list(xs)
        if ctx.chance(0.4):  # inputs that are themselves computed
            xs[:] = [t * 1.0 if torch.is_tensor(t) else t for t in into]
        with ctx.cut(f"{name}: evaluating"):
            Lp = loss()
        if Lp.requires_grad:
            with ctx.cut(f"{name}: backward"):
                part = torch.autograd.grad(Lp, [ts[i] for i in pick], allow_unused=True)
        else:
            part = [None] * len(pick)
        xs[:] = into
        for t in ts:
            t.requires_grad_(True)
        for i, g in zip(pick, part):
            g = torch.zeros_like(ts[i]) if g is None else g
            s = float(gs[i].abs().max()) if gs[i].numel() else 0.0
            ctx.expect(bool(((g - gs[i]).abs() <= 1e-6 * s + 1e-9).all()), f"{name}: with gradients asked for {which} the gradient of {'a weight' if i < len(ps) else 'an input'} is another one", config=str(item.config))
            ctx.see("partial_gradients")
    if item.per_sample and B > 1 and ps and not any(isinstance(q, torch.nn.modules.batchnorm._BatchNorm) for q in m.modules()):
        acc = [torch.zeros_like(p) for p in ps]
        for b in range(B):
            part = [t[b : b + 1] if torch.is_tensor(t) else t for t in xs]
            with ctx.cut(f"{name}: one sample"):
                yb = zoo.outs(m(*part))
                lb = sum((c[b : b + 1] * y).sum() for c, y in zip(cs, yb))
                if not lb.requires_grad:
                    continue
                gb = torch.autograd.grad(lb, ps, allow_unused=True)
            for a, g in zip(acc, gb):
                if g is not None:
                    a += g
        for a, g in zip(acc, gs):
            s = float(g.abs().max()) + float(a.abs().max()) + 1e-9
            ctx.see("batch_sums")
            ctx.expect(float((a - g).abs().max()) <= 1e-6 * s + 1e-9, f"{name}: gradient of a batch is not the sum over its samples", config=str(item.config))
    ctx.describe(model=name, config=str(item.config))
    ctx.sig("numeric", name, str(item.config))


def accumulate(ctx):
    """Backward accumulates over calls and does not depend on earlier ones."""
    kind = ctx.choice(KINDS)
    c, B = cfg(ctx, kind)
    layer, w = fc.build(ctx, kind, **c)
    gen.fill(ctx, w, "normal")
    with torch.no_grad():
        w.mul_(0.3)
    xa = gen.xs(ctx, (B, c["I"]), c["n"], c["S"] or 1, c["L"], c["p"], wild=False)
    xb = gen.xs(ctx, (3, c["I"]), c["n"], c["S"] or 1, c["L"], c["p"], wild=False)
    one = []
    for x in (xa, xb):
        y = monitor.call(ctx, kind, layer, x)
        with ctx.cut("backward"):
            one.append(torch.autograd.grad(y.sum(), w)[0])
    w.grad = None
    for x in (xb, xa):
        y = monitor.call(ctx, kind, layer, x)
        with ctx.cut("backward"):
            y.sum().backward()
    want = one[0] + one[1]
    s = (one[0].abs() + one[1].abs()).max() + 1e-12
    if torch.isfinite(s):
        ctx.expect(bool(((w.grad - want).abs() <= 1e-5 * s).all()), f"{kind}: accumulated gradients differ from the sum of separate ones", config=c)
    ctx.see("accumulations")
    ctx.sig("acc", kind, c["n"], c["S"], c["I"], B)


NUM = len([q for q in zoo.ALL if q not in zoo.MODS])
SMOOTH = zoo.FC + zoo.ND + zoo.CONV + ["convt2d"] + [q for q in zoo.NETS if q != "vae_parts"] + zoo.EMB


def second(ctx):
    """Derivatives of derivatives, as a loss on the network's own slope needs
    them, against central differences of the first derivative."""
    name = SMOOTH[ctx.index % len(SMOOTH)]
    item = zoo.make(ctx, name)
    m = zoo.build(ctx, item)
    zoo.shake(ctx, m)
    m = m.double().eval()
    xs = [t.double().requires_grad_(True) if torch.is_tensor(t) else t for t in item.inputs(ctx.choice([1, 2, 3]))]
    with torch.no_grad():
        for t in xs:
            if torch.is_tensor(t):
                t.copy_(torch.tensor(ctx.np.uniform(-0.97, 0.97, size=tuple(t.shape))))
    ins = [t for t in xs if torch.is_tensor(t)]
    ps = [p for p in m.parameters() if p.requires_grad]
    with torch.no_grad():
        for p in ps:
            p.nan_to_num_()
    with ctx.cut(f"{name}: evaluating"):
        cs = [torch.tensor(ctx.np.normal(size=tuple(y.shape))) for y in zoo.outs(m(*xs))]
    V = [torch.tensor(ctx.np.normal(size=tuple(t.shape))) for t in ins]

    def slope():
        """The derivative of the outputs along V with respect to the inputs."""
        with ctx.cut(f"{name}: differentiable slope"):
            L = sum((c * y).sum() for c, y in zip(cs, zoo.outs(m(*xs))))
            gs = torch.autograd.grad(L, ins, create_graph=True, allow_unused=True)
            return L, sum((g * v).sum() for g, v in zip(gs, V) if g is not None)

    L0, s0 = slope()
    if not (abs(float(L0.detach())) < 1e8 and abs(float(s0)) < 1e8):
        ctx.see("overflowing_models")
        return
    for who, ts in (("weights", ps), ("inputs", ins)):
        if not ts:
            continue
        L0, s0 = slope()
        if torch.is_tensor(s0) and s0.requires_grad:
            with ctx.cut(f"{name}: second derivative with respect to the {who}"):
                gs = torch.autograd.grad(s0, ts, allow_unused=True)
        else:
            gs = [None] * len(ts)
        vs = [torch.tensor(ctx.np.normal(size=tuple(t.shape))) for t in ts]
        ad = float(sum((g * v).sum() for g, v in zip(gs, vs) if g is not None))
        if not abs(ad) < 1e8:
            ctx.see("overflowing_models")
            continue
        best, scale = np.inf, 1 + abs(ad) + abs(float(s0)) + abs(float(L0.detach()))
        for h in (1e-5, 1e-6, 1e-7, 1e-8):
            vals = []
            for sgn in (1, -1):
                with torch.no_grad():
                    for t, v in zip(ts, vs):
                        t.add_(sgn * h * v)
                vals.append(float(slope()[1]))
                with torch.no_grad():
                    for t, v in zip(ts, vs):
                        t.add_(-sgn * h * v)
            best = min(best, abs((vals[0] - vals[1]) / (2 * h) - ad) / scale)
            if best < 1e-4:
                break
        ctx.see("second_derivatives")
        ctx.expect(best < 5e-4, f"{name}: the derivative of the slope with respect to the {who} is {ad}, differences give another value (relative gap {best:.2g})", config=str(item.config))
    ctx.describe(model=name, config=str(item.config))
    ctx.sig("second", name, str(item.config))


SCENARIOS = {
    "second": (second, 3 * len(SMOOTH), 40 * len(SMOOTH)),
    "formula": (formula, 1000, 14000),
    "far": (far, 140, 700),
    "one_sample": (one_sample, 200, 2500),
    "zero_factor": (zero_factor, 150, 1500),
    "product": (product, 200, 2000),
    "conv": (conv_formula, 400, 5000),
    "conv_far": (conv_far, 8 * len(conv.LARGE), 32 * len(conv.LARGE)),
    "numeric": (numeric, 6 * NUM, 60 * NUM),
    "accumulate": (accumulate, 100, 1200),
}
MUST_SEE = ["weight_gradients", "input_gradients", "inactive_weights", "single_sample_supports", "conv_gradients", "vanishing_gradients_judged", "product_gradients", "directional_derivatives", "partial_gradients", "second_derivatives", "batch_sums"]
RULE = "one case = layer or network kind with random configuration, weights, inputs (dwelling on segment edges) and upstream gradient; distinct by configuration signature"
ASSUMPTIONS = ["at a segment edge or fold either one-sided derivative is accepted", "central differences accept the best of four step sizes so that a kink inside a step is not judged"]
