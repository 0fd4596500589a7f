"""C08: transposed convolution."""
import copy

import numpy as np
import torch
import torch.nn.functional as F

from hol import api, conv, fc, gen, monitor, zoo
from hol import ref as R

KIND = "continuous2d"


def cfg(ctx):
    for _ in range(100):
        n = ctx.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, ctx.int(2, 10)])
        S = ctx.choice([1, 1, 2, 2, 3, 4, 5, 7, 8, 16, ctx.int(3, 20)])
        C, O = ctx.choice([1, 1, 2, 3, 4, 6, ctx.int(3, 9)]), ctx.choice([1, 2, 3, 4, 6, ctx.int(3, 9)])
        k = ctx.choice([1, 2, 3, 3, 4, 5])
        g = 1
        if ctx.chance(0.3):
            if ctx.chance(0.3):
                C, O = ctx.choice([(5, 5), (4, 8), (8, 4), (6, 6), (5, 10)])
            gs = [q for q in (2, 3, 4, 5, 6) if C % q == 0 and O % q == 0]
            g = ctx.choice(gs) if gs else 1
        st, pad, dil = ctx.choice([1, 1, 2, 3, 1, 2, 4, 5]), ctx.choice([0, 0, 0, 1, 2, 3]), ctx.choice([1, 1, 1, 2, 1, 3])
        op = ctx.int(0, max(st, dil) - 1) if ctx.chance(0.5) else 0
        size = (ctx.int(1, 6), ctx.int(1, 6))
        if all((s - 1) * st - 2 * pad + dil * (k - 1) + op + 1 >= 1 for s in size):
            break
    L = gen.length(ctx)
    return dict(n=n, S=S, C=C, O=O, k=k, groups=g, stride=st, padding=pad, dilation=dil, output_padding=op, L=L,
                p=gen.periodicity(ctx, L), rescale=ctx.chance(0.3)), size


def build(ctx, c):
    kw = dict(n=c["n"], segments=c["S"], in_channels=c["C"], out_channels=c["O"], kernel_size=c["k"])
    if c["L"] != 2.0 or ctx.chance(0.5):
        kw["length"] = c["L"]
    if c["p"] is not None:
        kw["periodicity"] = c["p"]
    for q, d in (("stride", 1), ("padding", 0), ("dilation", 1), ("groups", 1), ("output_padding", 0)):
        if c[q] != d or ctx.chance(0.2):
            kw[q] = c[q]
    if c["rescale"] or ctx.chance(0.3):
        kw["rescale_output"] = c["rescale"]
    with ctx.cut(f"building transposed convolution {c}"):
        layer = api.convt(KIND, **kw) if ctx.chance(0.5) else api.ns.convt.PiecewisePolynomialConvolutionTranspose2d(**kw)
    w = gen.main_weight(ctx, layer, 4)
    want = (c["C"] * ((c["n"] - 1) * c["S"] + 1), c["O"] // c["groups"], c["k"], c["k"])
    ctx.expect(tuple(w.shape) == want, f"transposed convolution weights {tuple(w.shape)} where {want} is expected", config=c)
    zoo.decoy(ctx, "convt2d", 0.15)
    return layer, w


def reference(x, w, c):
    V, E = conv.expanded("continuous", x, c)
    V, E, W = torch.tensor(V), torch.tensor(E), w.detach().double()
    kw = dict(stride=c["stride"], padding=c["padding"], output_padding=c["output_padding"], dilation=c["dilation"], groups=c["groups"])
    v = F.conv_transpose2d(V, W, **kw)
    tol = F.conv_transpose2d(E, W.abs(), **kw)
    mag = F.conv_transpose2d(V.abs(), W.abs(), **kw)
    nt = W.shape[0] * c["k"] ** 2
    tol = tol + (min(nt, 4096) + 8) * R.EPS * mag
    big = F.conv_transpose2d((~(V.abs() < 1e25)).double(), torch.ones_like(W), **kw) > 0.5
    s = 1.0 / (c["C"] * c["k"] ** 2) if c["rescale"] else 1.0
    tol = torch.where(big, torch.full_like(tol, np.inf), R.SLACK * tol * s + 4 * R.EPS * v.abs() * s + R.FLOOR)
    return (v * s).numpy(), tol.numpy()


def naive(x, w, c):
    """Spread tap by tap, without torch's transposed convolution."""
    V, _ = conv.expanded("continuous", x, c)
    B, CK, H, Wd = V.shape
    W = monitor.n64(w)
    g, k, st, pd, dl, op = c["groups"], c["k"], c["stride"], c["padding"], c["dilation"], c["output_padding"]
    OH, OW = [(s - 1) * st - 2 * pd + dl * (k - 1) + op + 1 for s in (H, Wd)]
    out = np.zeros((B, c["O"], OH, OW))
    cg, og = CK // g, c["O"] // g
    for a in range(k):
        for b in range(k):
            for i in range(H):
                oi = i * st - pd + a * dl
                if not 0 <= oi < OH:
                    continue
                for j in range(Wd):
                    oj = j * st - pd + b * dl
                    if not 0 <= oj < OW:
                        continue
                    for q in range(g):
                        out[:, q * og : (q + 1) * og, oi, oj] += V[:, q * cg : (q + 1) * cg, i, j] @ W[q * cg : (q + 1) * cg, :, a, b]
    if c["rescale"]:
        out /= c["C"] * k * k
    return out


def check(ctx, layer, w, x, c):
    y = monitor.read(ctx, f"transposed convolution forward {c}", layer, x)
    exp = tuple((s - 1) * c["stride"] - 2 * c["padding"] + c["dilation"] * (c["k"] - 1) + c["output_padding"] + 1 for s in x.shape[2:])
    ctx.expect(tuple(y.shape[2:]) == exp, f"transposed convolution output size {tuple(y.shape[2:])} where {exp} is expected", config=c)
    ref = reference(x, w, c)
    monitor.compare(ctx, "transposed convolution", y, ref, config=c, shape=list(x.shape))
    ctx.see("transposed_layers_checked")
    return y, ref


def random_case(ctx):
    c, size = cfg(ctx)
    layer, w = build(ctx, c)
    style = gen.fill(ctx, w)
    B = ctx.choice([1, 2, 3, 5])
    x = conv.inputs(ctx, B, c, size)
    how, xl = gen.layout(ctx, x)
    y, ref = check(ctx, layer, w, xl, c)
    if ctx.chance(0.3):
        v = naive(xl, w, c)
        monitor.compare(ctx, "transposed convolution, spread tap by tap", y, (v, ref[1]), config=c)
        ctx.see("spread_tap_by_tap")
    ctx.describe(**c, size=list(size), batch=B, weights=style, layout=how)
    ctx.sig(str(c), size, B, style, how)


def probe(ctx):
    c, size = cfg(ctx)
    layer, w = build(ctx, c)
    x = conv.inputs(ctx, 2, c, size)
    for _ in range(3):
        gen.fill(ctx, w, "onehot")
        check(ctx, layer, w, x, c)
        ctx.see("single_weight_probes")
    ctx.sig("probe", str(c), size)


def history(ctx):
    c, size = cfg(ctx)
    layer, w = build(ctx, c)
    gen.fill(ctx, w, "normal")
    ops = []
    for _ in range(ctx.int(3, 6)):
        op = ctx.choice(["forward", "resize", "sgd", "inplace", "copy", "nograd", "reload", "double"])
        ops.append(op)
        if op == "resize":
            size = tuple(s + ctx.int(0, 3) for s in size)
        x = conv.inputs(ctx, ctx.choice([1, 2, 4]), c, size)
        if op == "sgd":
            y = monitor.call(ctx, "forward", layer, x)
            with ctx.cut("backward"):
                y.nan_to_num().clamp(-1e3, 1e3).mean().backward()
            with torch.no_grad():
                w -= 0.1 * w.grad.nan_to_num(0, 0, 0).clamp(-1, 1)
            w.grad = None
        elif op == "inplace":
            with torch.no_grad():
                w[ctx.int(0, w.shape[0] - 1)] += 0.5
        elif op == "copy":
            layer = copy.deepcopy(layer)
            w = gen.main_weight(ctx, layer, 4)
        elif op == "reload":
            with ctx.cut("load_state_dict"):
                layer.load_state_dict({k: v.clone() * -0.5 for k, v in layer.state_dict().items()})
        elif op == "double":
            lay = copy.deepcopy(layer).double()
            y, _ = check(ctx, lay, gen.main_weight(ctx, lay, 4), x.double(), c)
            ctx.expect(y.dtype == torch.float64, f"transposed convolution in float64 returns {y.dtype}")
        if op == "nograd":
            with torch.no_grad():
                check(ctx, layer, w, x, c)
        else:
            check(ctx, layer, w, x, c)
        ctx.see("history_steps")
    ctx.sig("history", str(c), tuple(ops))


LARGE = [dict(S=100), dict(C=40), dict(O=70), dict(B=150), dict(size=(30, 33)), dict(size=(2, 90)), dict(size=(90, 2)), dict(k=7), dict(k=9), dict(stride=6), dict(stride=9, output_padding=7), dict(padding=6, k=7, size=(9, 9)),
         dict(dilation=5, output_padding=3), dict(dilation=8), dict(groups=9, C=9, O=18), dict(n=12), dict(n=5, C=30), dict(far=1), dict(far=1, n=1), dict(B=2000, C=1, O=1, size=(1, 1)), dict(C=130, k=1), dict(O=300, k=1), dict(S=300, C=1)]


def large(ctx):
    """One setting at a time far beyond the usual."""
    c, _ = cfg(ctx)
    big = dict(LARGE[ctx.index % len(LARGE)])
    c.update(n=ctx.choice([2, 3]), S=ctx.choice([1, 2, 3]), C=ctx.choice([1, 2]), O=ctx.choice([1, 2]), k=ctx.choice([2, 3]), groups=1, padding=0, dilation=1, stride=ctx.choice([1, 2]), output_padding=0)
    B, size, far = big.pop("B", 2), big.pop("size", (3, 4)), big.pop("far", 0)
    c.update(big)
    if far:
        c["p"] = None
    layer, w = build(ctx, c)
    gen.fill(ctx, w, "normal")
    x = conv.inputs(ctx, B, c, size)
    check(ctx, layer, w, conv.push_far(ctx, x, "continuous", c) if far else x, c)
    ctx.see("large_settings")
    ctx.describe(**c, size=list(size), batch=B)
    ctx.sig("large", str(c), size, B)


def mixed(ctx):
    """Mixed precision training: under autocast, on inputs as a previous layer hands them on."""
    c, size = cfg(ctx)
    c = conv.mixed_cfg(ctx, c)
    layer, w = build(ctx, c)
    gen.fill(ctx, w, "normal")
    sh = (ctx.int(1, 3), c["C"]) + tuple(size)[-2:]
    x = conv.exact_inputs(ctx, sh) if ctx.chance(0.6) else gen.xs(ctx, sh, c["n"], c["S"], 2.0)
    conv.check_mixed(ctx, "transposed convolution in mixed precision", layer, x, F.conv_transpose2d, "continuous", w, c,
                     stride=c["stride"], padding=c["padding"], output_padding=c["output_padding"], dilation=c["dilation"], groups=c["groups"])
    ctx.describe(**c, shape=list(sh), dtype=str(x.dtype))
    ctx.sig("mixed", str(c), sh, str(x.dtype))


SCENARIOS = {
    "mixed": (mixed, 50, 600),
    "large": (large, 3 * len(LARGE), 20 * len(LARGE)),
    "random": (random_case, 900, 12000),
    "probe": (probe, 200, 2500),
    "history": (history, 150, 2000),
}
MUST_SEE = ["decoys", "mixed_precision_layers", "large_settings", "far_inputs", "transposed_layers_checked", "spread_tap_by_tap", "single_weight_probes", "history_steps"]
RULE = "one case = nodes, segments, channels, kernel, stride, padding, output padding, dilation, groups, length, mirror period, rescaling, weights and a batch of small non-square images; distinct by that signature"
ASSUMPTIONS = ["integer kernel sizes; group counts that divide the input channels"]
