"""C05: product and switch layers."""
import numpy as np
import torch

from hol import api, fc, gen, monitor, zoo
from hol import ref as R

PRODS = ("polynomial_prod", "continuous_prod", "discontinuous_prod")


def damp(ctx, w, I):
    """Keep most products away from overflow without making links alike."""
    with torch.no_grad():
        w.mul_(ctx.choice([1.0, 1.0, 1.0, 0.3, 2.0 / max(2, I)]))


def prod_case(ctx):
    kind = PRODS[ctx.index % 3]
    c, B = fc.cfg(ctx, kind)
    alpha = ctx.choice([1.0, 1.0, 0.0, 0.0, 0.5, 2.0, -1.0, 0.25])
    kw = {} if alpha == 1.0 and ctx.chance(0.5) else {"alpha": alpha}
    layer, w = fc.build(ctx, kind, **c, **kw)
    style = gen.fill(ctx, w, ctx.choice(["normal", "normal", "ramp", "onehot", "sparse", "tiny"]))
    damp(ctx, w, c["I"])
    x = gen.xs(ctx, (B, c["I"]), c["n"], c["S"] or 1, c["L"], c["p"])
    how, xl = gen.layout(ctx, x)
    y = fc.check_forward(ctx, kind, layer, w, xl, c, alpha=alpha)
    ctx.see("product_layers")
    if alpha == 0.0:
        ctx.see("alpha_zero")
    ctx.describe(kind=kind, **c, alpha=alpha, batch=B, layout=how)
    ctx.sig(kind, c["n"], c["S"], c["I"], c["O"], c["L"], c["p"], alpha, B, style, how)


def ref_product(x, w, b, alpha, p):
    xx, dx = monitor.n64(x), 0.0
    if p is not None:
        xx, dx, _ = R.mirror(xx, p)
    ww = monitor.n64(w)
    F = xx[:, None, :] * ww[None]
    T = np.abs(ww)[None] * np.broadcast_to(dx, xx.shape)[:, None, :] + 2 * R.EPS * np.abs(F) + R.FLOOR
    v, tol = R.prod_of_links(F, T, alpha)
    part = np.prod(np.maximum(1, np.abs(1 + F) * (1 + 1e-5) + T), -1)
    tol = np.where(part < R.HUGE, tol + 1e-38 * part, np.inf)
    if b is not None:
        bb = monitor.n64(b)
        v = v + bb
        tol = tol + 4 * R.EPS * (np.abs(v) + np.abs(bb))
    return v, tol


def plain(ctx):
    I, O, B = gen.n_features(ctx), gen.n_features(ctx), gen.n_batch(ctx)
    alpha = ctx.choice([1.0, 1.0, 0.0, 0.5, 2.0, -1.0])
    bias = ctx.choice([None, True, False])
    p = ctx.choice([None, None, 2.0, 1.0, 3.3])
    kw = dict(in_features=I, out_features=O)
    if alpha != 1.0 or ctx.chance(0.5):
        kw["alpha"] = alpha
    if bias is not None:
        kw["bias"] = bias
    if p is not None:
        kw["periodicity"] = p
    with ctx.cut(f"building product layer {kw}"):
        layer = api.fc("product", **kw) if ctx.chance(0.5) else api.ns.product.Product(**kw)
    zoo.decoy(ctx, "product", 0.15)
    w = gen.main_weight(ctx, layer, 2)
    ctx.expect(tuple(w.shape) == (O, I), f"product layer weights have shape {tuple(w.shape)}, expected {(O, I)}")
    gen.fill(ctx, w, "normal")
    damp(ctx, w, I)
    bs = [q for q in layer.parameters() if q.dim() == 1]
    want = bias is None or bias
    ctx.expect(len(bs) == (1 if want else 0), f"product layer with bias={bias} has {len(bs)} bias tensors")
    b = bs[0] if want else None
    if b is not None:
        gen.fill(ctx, b, "normal")
    x = gen.xs(ctx, (B, I), 3, 2, 2.0, p)
    if ctx.chance(0.3):
        x = x * 3
    how, xl = gen.layout(ctx, x)
    for _ in range(2):
        y = monitor.read(ctx, "product forward", layer, xl)
        monitor.compare(ctx, "product layer", y, ref_product(xl, w, b, alpha, p), config=str(kw), batch=B)
        with torch.no_grad():
            w.add_(0.1)
    ctx.see("plain_product_layers")
    ctx.describe(**{k: str(v) for k, v in kw.items()}, batch=B, layout=how)
    ctx.sig("plain", I, O, B, alpha, bias, p, how)


def single(ctx):
    """One input, alpha = 1: the product layer is the sum layer (and with
    alpha = 0 it is zero)."""
    kind = PRODS[ctx.index % 3]
    c, B = fc.cfg(ctx, kind, cap=200_000)
    c["I"] = 1
    prod, w = fc.build(ctx, kind, **c)
    flat, w0 = fc.build(ctx, fc.base(kind), **c)
    gen.fill(ctx, w, "normal")
    with torch.no_grad():
        w0.copy_(w)
    x = gen.xs(ctx, (B, 1), c["n"], c["S"] or 1, c["L"], c["p"])
    a = monitor.read(ctx, "prod", prod, x)
    v, tol = fc.reference(kind, x, w, c["n"], c["S"], c["L"], c["p"])
    b = monitor.read(ctx, "sum", flat, x)
    monitor.compare(ctx, f"{kind} layer with one input", a, (monitor.n64(b), 2 * tol), config=c)
    zero, w1 = fc.build(ctx, kind, **c, alpha=0.0)
    with torch.no_grad():
        w1.copy_(w)
    z = monitor.read(ctx, "prod alpha 0", zero, x)
    monitor.compare(ctx, f"{kind} layer with one input and alpha=0", z, (0 * v, 2 * tol + 16 * R.EPS * np.abs(v)), config=c)
    ctx.see("single_input_identities")
    ctx.sig("single", kind, c["n"], c["S"], c["L"], c["p"], B)


def _norms():
    Ls = api.ns.layers
    return {
        "none": (None, lambda v, t: (v, t)),
        "max_abs": (lambda: Ls.MaxAbsNormalization(), None),
        "last": (lambda: Ls.MaxAbsNormalizationLast(), None),
        "tanh": (lambda: torch.tanh, None),
        "fn": (lambda: (lambda z: 0.5 * z + 1.0), None),
    }


def switch(ctx):
    base = ctx.choice(["continuous", "discontinuous", "polynomial"])
    c, B = fc.cfg(ctx, base, cap=300_000)
    c["p"] = None
    k = ctx.choice([None, 1, 2, 2, 3, 4, 5])
    norm = ctx.choice(["none", "none", "none", "max_abs", "tanh", "fn"])
    nf = _norms()[norm][0]
    norm_obj = nf() if nf else None
    kw = dict(n=c["n"], in_features=c["I"], out_features=c["O"])
    if c["S"] is not None:
        kw["segments"] = c["S"]
    if c["L"] != 2.0 or ctx.chance(0.4):
        kw["scale"] = c["L"]
    if k is not None:
        kw["num_input_layers"] = k
    if norm_obj is not None:
        kw["normalization"] = norm_obj
    with ctx.cut(f"building switch layer {kw}"):
        if base == "polynomial" or ctx.chance(0.3):
            layer = api.ns.layers.SwitchLayer(layer_type=base, **kw)
        else:
            layer = api.fc("switch_" + base, **kw)
    zoo.decoy(ctx, ctx.choice(["switch_continuous", "switch_discontinuous"]), 0.15)
    K = 2 if k is None else k
    ctx.expect((layer.in_features, layer.out_features) == (c["I"], c["O"]), f"switch layer reports {layer.in_features} inputs and {layer.out_features} outputs", config=c)
    ws = [q for q in layer.parameters() if q.dim() == 3]
    ctx.expect(len(ws) == K, f"switch layer of {K} sub-layers has {len(ws)} weight tensors", config=c)
    ctx.expect(len({id(q) for q in ws}) == K, "switch layer's sub-layers share weights")
    for q in ws:
        gen.fill(ctx, q, "normal")
    x = gen.xs(ctx, (B, c["I"]), c["n"], c["S"] or 1, c["L"])
    before = x.clone()
    for rep in range(2):
        y = monitor.read(ctx, "switch forward", layer, x)
        P, U, mag = 1.0, 1.0, 1.0
        for q in ws:
            v, t = fc.reference(base, x, q, c["n"], c["S"], c["L"], None)
            P, U, mag = P * v, U * (np.abs(v) + t), mag * (1 + np.abs(v))
        tol = 2 * (U - np.abs(P)) + 8 * R.EPS * U + R.FLOOR
        tol = np.where(np.isfinite(mag) & (mag < R.HUGE), tol, np.inf)
        if norm_obj is None:
            monitor.compare(ctx, f"switch layer of {K} {base} layers", y, (P, tol), config=c)
        elif norm in ("tanh", "fn"):
            f = np.tanh if norm == "tanh" else (lambda z: 0.5 * z + 1)
            monitor.compare(ctx, f"switch layer with normalization {norm}", y, (f(P), tol + 8 * R.EPS * (1 + np.abs(f(P)))), config=c)
        else:
            m = np.abs(P).max(1, keepdims=True)
            mt = tol.max(1, keepdims=True)
            q = P / (m + 1e-6)
            tq = (tol + np.abs(q) * (mt + 1e-7 * 1)) / (m + 1e-6 - np.minimum(mt, 0.5 * m)) * 2 + 32 * R.EPS * np.abs(q)
            monitor.compare(ctx, "normalised switch layer", y, (q, np.where(np.isfinite(tq), tq, np.inf)), config=c)
        ctx.expect(torch.equal(x.nan_to_num(), before.nan_to_num()), "switch layer changed its input")
        with torch.no_grad():
            ws[ctx.int(0, K - 1)].mul_(-0.5)
    ctx.see("switch_layers")
    ctx.describe(base=base, **c, sublayers=K, normalization=norm)
    ctx.sig("switch", base, c["n"], c["S"], c["I"], c["O"], c["L"], K, norm, B)


def switch_linear(ctx):
    """Switch layers of linear, linear + relu and plain product layers."""
    kind = ctx.choice(["baseline", "baseline_relu", "product"])
    I, O, K = ctx.int(1, 5), ctx.int(1, 4), ctx.choice([1, 2, 2, 3, 4])
    with ctx.cut(f"building a switch layer of {kind} layers"):
        layer = api.ns.layers.SwitchLayer(layer_type=kind, n=ctx.choice([2, 3]), in_features=I, out_features=O, num_input_layers=K)
    ps = list(layer.parameters())
    ws, bs = [q for q in ps if q.dim() == 2], [q for q in ps if q.dim() == 1]
    ctx.expect(len(ws) == len(bs) == K, f"switch layer of {K} {kind} layers has {len(ws)} weights and {len(bs)} biases")
    x = gen.xs(ctx, (ctx.int(1, 6), I), 3, 4, 2.0)
    X = monitor.n64(x)
    for rep in range(2):
        P, U = 1.0, 1.0
        for w, b in zip(ws, bs):
            W, b = monitor.n64(w), monitor.n64(b)
            f = X[:, None, :] * W
            if kind == "product":
                v = np.prod(1 + f, 2) - 1 + b
                t = 8 * (I + 2) * R.EPS * (np.prod(1 + np.abs(f), 2) + np.abs(b))
            else:
                v = f.sum(2) + b
                t = 8 * (I + 2) * R.EPS * (np.abs(f).sum(2) + np.abs(b))
                v = np.maximum(v, 0) if kind == "baseline_relu" else v
            P, U = P * v, U * (np.abs(v) + t)
        y = monitor.call(ctx, f"switch layer of {K} {kind} layers", layer, x)
        monitor.compare(ctx, f"switch layer of {K} {kind} layers", y, (P, 2 * (U - np.abs(P)) + 8 * R.EPS * U + R.FLOOR))
        with ctx.cut(f"training a switch layer of {K} {kind} layers"):
            y.sum().backward()
        ctx.expect(all(q.grad is not None for q in ps), f"switch layer of {kind} layers: a parameter has no gradient")
        with torch.no_grad():
            for q in ps:
                q.add_(torch.tensor(ctx.np.normal(size=tuple(q.shape)), dtype=q.dtype))
    ctx.see("linear_switch_layers")
    ctx.sig("switch_linear", kind, I, O, K)


def sums(ctx):
    """A sum layer adds what its layers give, however many they are."""
    K = ctx.choice([1, 2, 2, 3, 4, 7])
    I = ctx.int(1, 4)
    same = ctx.chance(0.5)
    O = I if same else ctx.int(1, 4)
    subs, refs = [], []
    x = gen.xs(ctx, (ctx.int(1, 6), I), 3, 4, 2.0)
    for _ in range(K):
        kind = ctx.choice(["continuous", "discontinuous", "polynomial", "linear"] + (["identity"] if same else []))
        if kind == "identity":
            m = torch.nn.Identity()
            refs.append((monitor.n64(x), R.EPS * np.abs(monitor.n64(x))))
        elif kind == "linear":
            m = torch.nn.Linear(I, O)
            W, b = monitor.n64(m.weight), monitor.n64(m.bias)
            refs.append((monitor.n64(x) @ W.T + b, 16 * R.EPS * (np.abs(monitor.n64(x)) @ np.abs(W).T + np.abs(b))))
        else:
            n, S = ctx.int(2, 4), None if kind == "polynomial" else ctx.int(1, 4)
            m, w = fc.build(ctx, kind, n, I, O, S)
            gen.fill(ctx, w, "normal")
            refs.append(fc.reference(kind, x, w, n, S))
        subs.append(m)
    if ctx.chance(0.2):  # one layer object given more than once
        k = ctx.int(0, K - 1)
        for _ in range(ctx.int(1, 2)):
            at = ctx.int(0, len(subs))
            r, m = refs[k], subs[k]
            subs.insert(at, m), refs.insert(at, r)
            k += at <= k
        K = len(subs)
        ctx.see("repeated_summands")
    with ctx.cut("building a sum layer"):
        layer = api.ns.layers.SumLayer(layer_list=subs)
    y = monitor.read(ctx, f"sum layer of {K}", layer, x)
    v, t = sum(r[0] for r in refs), sum(r[1] for r in refs)
    big = sum(np.abs(r[0]) for r in refs)
    monitor.compare(ctx, f"sum layer of {K} layers", y, (v, t + 2 * K * R.EPS * big + R.FLOOR))
    got = {id(q) for q in layer.parameters()}
    ctx.expect(got == {id(q) for m in subs for q in m.parameters()}, f"sum layer of {K} layers does not have exactly their parameters")
    ctx.see("sum_layers")
    ctx.sig("sums", K, I, O)


SCENARIOS = {
    "sums": (sums, 150, 2000),
    "switch_linear": (switch_linear, 120, 2000),
    "prod": (prod_case, 1100, 15000),
    "plain": (plain, 350, 5000),
    "single": (single, 200, 3000),
    "switch": (switch, 350, 5000),
    "history_c": (fc.scenario_history("continuous_prod"), 80, 1000),
    "history_d": (fc.scenario_history("discontinuous_prod"), 80, 1000),
    "history_p": (fc.scenario_history("polynomial_prod"), 80, 1000),
    "large": (fc.scenario_large("continuous_prod"), 14, 80),
    "large_d": (fc.scenario_large("discontinuous_prod"), 14, 80),
    "large_p": (fc.scenario_large("polynomial_prod"), 14, 80),
    "far_c": (fc.scenario_far("continuous_prod"), 60, 600),
    "far_d": (fc.scenario_far("discontinuous_prod"), 60, 600),
    "far_p": (fc.scenario_far("polynomial_prod"), 60, 600),
    "double": (fc.scenario_double("continuous_prod"), 40, 400),
    "double_p": (fc.scenario_double("polynomial_prod"), 40, 400),
    "breaks_c": (fc.scenario_breaks("continuous_prod"), 30, 300),
    "breaks_d": (fc.scenario_breaks("discontinuous_prod"), 30, 300),
}
MUST_SEE = ["negative_factors", "decoys", "far_inputs", "sum_layers", "repeated_summands", "linear_switch_layers", "product_layers", "alpha_zero", "plain_product_layers", "single_input_identities", "switch_layers", "values_compared"]
RULE = "one case = layer kind, nodes, segments, widths, length, mirror period, alpha or sub-layer count, weights and a batch (or a history of updates); distinct by configuration signature"
ASSUMPTIONS = ["products whose partial results leave the float32 range are not judged"]
