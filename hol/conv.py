"""Workloads and oracle for (transposed) convolutions."""
import numpy as np
import torch
import torch.nn.functional as F

from hol import api, fc, gen, monitor, zoo
from hol import ref as R

CLASSES = {
    "continuous1d": "PiecewisePolynomialConvolution1d",
    "continuous2d": "PiecewisePolynomialConvolution2d",
    "discontinuous1d": "PiecewiseDiscontinuousPolynomialConvolution1d",
    "discontinuous2d": "PiecewiseDiscontinuousPolynomialConvolution2d",
    "polynomial1d": "PolynomialConvolution1d",
    "polynomial2d": "PolynomialConvolution2d",
    "fourier1d": "FourierConvolution1d",
    "fourier2d": "FourierConvolution2d",
}


def split(kind):
    return kind[:-2], int(kind[-2])


def cfg(ctx, kind):
    base, d = split(kind)
    piecewise = base in ("continuous", "discontinuous")
    n = ctx.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9, ctx.int(2, 12)])
    S = ctx.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 16, 25, ctx.int(6, 25)]) if piecewise else None
    C = ctx.choice([1, 1, 2, 3, 4, 6, ctx.int(3, 9)])
    O = ctx.choice([1, 2, 3, 4, 6, ctx.int(3, 12)])
    k = ctx.choice([1, 2, 3, 3, 4, 5, 1, 2, 3, 3, 4, 5, 7])
    g = 1
    if ctx.chance(0.25):
        if ctx.chance(0.3):
            C, O = ctx.choice([(5, 5), (4, 8), (8, 4), (6, 6), (8, 8), (5, 10)])
        gs = [q for q in (2, 3, 4, 5, 6, 8) if C % q == 0 and O % q == 0]
        g = ctx.choice(gs) if gs else 1
    st = ctx.choice([1, 1, 1, 2, 3, 1, 1, 1, 2, 3, 4, 5])
    pad = ctx.choice([0, 0, 0, 1, 2, 3])
    dil = ctx.choice([1, 1, 1, 2, 1, 1, 1, 2, 3])
    mode = ctx.choice(["zeros", "zeros", "zeros", "zeros", "circular", "reflect", "replicate"]) if pad else "zeros"
    L = gen.length(ctx)
    p = gen.periodicity(ctx, L) if base != "fourier" else None
    B = ctx.choice([1, 1, 2, 3, 5])
    need = dil * (k - 1) + 1
    size = tuple(max(need, ctx.int(need, need + 6), pad + 1) for _ in range(d))
    return dict(
        n=n, S=S, C=C, O=O, k=k, stride=st, padding=pad, dilation=dil, groups=g, padding_mode=mode, L=L, p=p,
        rescale=ctx.chance(0.3),
    ), B, size


LARGE = [dict(S=100), dict(S=65, C=2), dict(S=300, C=1, O=1), dict(C=40), dict(O=70), dict(B=150), dict(size=(40, 45)), dict(size=(3, 130)), dict(size=(130, 3)), dict(B=9000, C=1, O=1, size=(3, 3)),
         dict(C=17, O=33), dict(k=11), dict(k=9, stride=7), dict(padding=5), dict(padding=8, k=9), dict(dilation=5), dict(dilation=9), dict(far=1), dict(C=60, n=5), dict(n=12), dict(groups=9, C=9, O=18), dict(n=16, S=20),
         dict(far=1, n=1), dict(C=130, k=1), dict(O=300, k=1)]


def large_cfg(ctx, kind, turn, table=LARGE):
    """One setting at a time far beyond the usual, the others small."""
    _, d = split(kind)
    big = dict(table[turn % len(table)])
    c, B, size = cfg(ctx, kind)
    c.update(n=ctx.choice([2, 3]), C=ctx.choice([1, 2]), O=ctx.choice([1, 2]), k=ctx.choice([2, 3]), groups=1, padding=ctx.choice([0, 1]), padding_mode="zeros", dilation=1, stride=ctx.choice([1, 2]))
    c["S"] = c["S"] and ctx.choice([1, 2, 3])
    B, size, far = big.pop("B", 2), big.pop("size", None), big.pop("far", 0)
    if not c["S"]:
        big.pop("S", None)
    c.update(big)
    if far:
        c["p"] = None
    need = c["dilation"] * (c["k"] - 1) + 1
    size = tuple(max(q, need) for q in (size or (max(5, need + 2),) * 2)[:d])
    return c, B, size, far


def push_far(ctx, x, base, c):
    """Some of the inputs far outside the range, as far as the values stay finite."""
    top = 5.0 if base == "fourier" else {1: 30.0, 2: 20.0, 3: 9.0}.get(c["n"], 6.0)
    big = ctx.np.choice([-1.0, 1.0], size=tuple(x.shape)) * 10.0 ** ctx.np.uniform(2, top, size=tuple(x.shape))
    ctx.see("far_inputs")
    return torch.where(torch.tensor(ctx.np.random(size=tuple(x.shape)) < 0.3), gen.t32(big), x)


def build(ctx, kind, c, extra=None):
    kw = dict(n=c["n"], in_channels=c["C"], out_channels=c["O"], kernel_size=c["k"])
    if c["S"] is not None:
        kw["segments"] = c["S"]
    elif ctx.chance(0.3) and split(kind)[0] == "polynomial":
        pass
    if c["L"] != 2.0 or ctx.chance(0.5):
        kw["length"] = c["L"]
    if c["p"] is not None:
        kw["periodicity"] = c["p"]
    for q, dflt in (("stride", 1), ("padding", 0), ("dilation", 1), ("groups", 1), ("padding_mode", "zeros")):
        if c[q] != dflt or ctx.chance(0.2):
            kw[q] = c[q]
    if c["rescale"] or ctx.chance(0.3):
        kw["rescale_output"] = c["rescale"]
    kw.update(extra or {})
    via = ctx.choice(["factory", "class"])
    with ctx.cut(f"building {kind} convolution {c}"):
        layer = api.conv(kind, **kw) if via == "factory" else getattr(api.ns.conv, CLASSES[kind])(**kw)
    ctx.see("layers_built")
    base, d = split(kind)
    w = gen.main_weight(ctx, layer, 2 + d)
    want = (c["O"], c["C"] // c["groups"] * fc.nb(base, c["n"], c["S"])) + (c["k"],) * d
    ctx.expect(tuple(w.shape) == want, f"{kind} convolution: weights {tuple(w.shape)} where {want} is expected", config=c)
    zoo.decoy(ctx, kind, 0.15)
    return layer, w


def expanded(base, x, c):
    """[B, C*K, *spatial] reference expansion and its bound."""
    xx = monitor.n64(x)
    Bs, E = R.basis(base, xx, c["n"], c["S"], c["L"], c["p"])
    K = Bs.shape[-1]
    Bs = np.moveaxis(Bs, -1, 2)
    E = np.moveaxis(E, -1, 2)
    sh = (xx.shape[0], xx.shape[1] * K) + xx.shape[2:]
    return Bs.reshape(sh), E.reshape(sh)


def _pad(t, c, d):
    if c["padding"] == 0:
        return t
    mode = {"zeros": "constant"}.get(c["padding_mode"], c["padding_mode"])
    if isinstance(c["padding"], tuple):
        return F.pad(t, [q for v in reversed(c["padding"]) for q in (v, v)], mode=mode)
    return F.pad(t, [c["padding"]] * (2 * d), mode=mode)


def reference(kind, x, w, c):
    base, d = split(kind)
    V, E = expanded(base, x, c)
    f = F.conv1d if d == 1 else F.conv2d
    W = w.detach().double()
    V, E = _pad(torch.tensor(V), c, d), _pad(torch.tensor(E), c, d)
    kw = dict(stride=c["stride"], dilation=c["dilation"], groups=c["groups"])
    v = f(V, W, **kw)
    tol = f(E, W.abs(), **kw)
    mag = f(V.abs(), W.abs(), **kw)
    nt = int(np.prod(W.shape[1:]))
    tol = tol + (min(nt, 4096) + 8) * R.EPS * mag
    big = f((~(V.abs() < 1e25)).double(), torch.ones_like(W), **kw) > 0.5
    s = 1.0 / (c["C"] * c["k"] * c["k"]) if c["rescale"] else 1.0
    tol = torch.where(big, torch.full_like(tol, np.inf), R.SLACK * tol * s + 4 * R.EPS * v.abs() * s + R.FLOOR)
    return (v * s).numpy(), tol.numpy()


def inputs(ctx, B, c, size):
    return gen.xs(ctx, (B, c["C"]) + size, c["n"], c["S"] or 1, c["L"], c["p"])


def check(ctx, kind, layer, w, x, c, label=None):
    y = monitor.read(ctx, f"{kind} convolution forward {c}", layer, x)
    monitor.compare(ctx, label or f"{kind} convolution", y, reference(kind, x, w, c), config=c, shape=list(x.shape))
    return y


BF = 2.0 ** -8


def exact_inputs(ctx, shape):
    """Values that half precision holds exactly, as are their distances from the ends, and that lie inside segments of a
    power of two."""
    return torch.tensor((2.0 * ctx.np.integers(-32, 32, size=shape) + 1) / 64.0).to(torch.bfloat16)


def mixed_cfg(ctx, c):
    """Settings for which a half precision input is located without rounding."""
    c.update(L=2.0, p=None, n=min(c["n"], 5))
    c["S"] = c["S"] and ctx.choice([1, 2, 4, 8])
    return c


def check_mixed(ctx, label, layer, x, f, base, w, c, **kw):
    """Under autocast: the products and sums are rounded to half precision, nothing else is."""
    with torch.autocast("cpu", dtype=torch.bfloat16):
        y = monitor.read(ctx, label, layer, x)
    V, E = expanded(base, x, c)
    V, E, W = torch.tensor(V), torch.tensor(E), w.detach().double()
    if base == "fourier" and x.dtype == torch.bfloat16:
        E = E + 8 * BF * np.pi * c["n"]
    pad = kw.pop("pad", lambda t: t)
    v, mag, err = f(pad(V), W, **kw), f(pad(V.abs()), W.abs(), **kw), f(pad(E), W.abs(), **kw)
    s = 1.0 / (c["C"] * c["k"] * c["k"]) if c["rescale"] else 1.0
    monitor.compare(ctx, label, y, ((v * s).numpy(), ((8 * BF * (mag + v.abs()) + 8 * err) * s + R.FLOOR).numpy()), config=c, shape=list(x.shape))
    ctx.see("mixed_precision_layers")


def scenario_random(kinds):
    def run(ctx):
        kind = kinds[ctx.index % len(kinds)]
        c, B, size = cfg(ctx, kind)
        layer, w = build(ctx, kind, c)
        style = gen.fill(ctx, w)
        x = inputs(ctx, B, c, size)
        how, xl = gen.layout(ctx, x)
        ctx.describe(kind=kind, **c, batch=B, size=list(size), weights=style, layout=how)
        check(ctx, kind, layer, w, xl, c)
        ctx.see("conv_layers_checked")
        ctx.sig(kind, tuple(sorted((k, str(v)) for k, v in c.items())), B, size, style, how)

    return run
