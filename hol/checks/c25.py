"""Positional embeddings."""
import math

import numpy as np
import torch

from hol import api, fc, gen, monitor, zoo
from hol import ref as R


def freqs(d):
    h = d // 2
    return np.array([1.0]) if h == 1 else 10000.0 ** (-np.arange(h) / (h - 1))


def positions(ctx):
    g = ctx.np
    nd = ctx.choice([1, 1, 1, 2, 2, 3, 4])
    shape = tuple(ctx.choice([1, 2, 3, 5, 8]) for _ in range(nd))
    if nd == 1:
        shape = (ctx.choice([1, 2, 7, 50, 200]),)
        if ctx.chance(0.15):  # a single position
            shape = ()
            ctx.see("single_positions")
    style = ctx.choice(["steps", "uniform", "normal", "large", "small", "mixed", "int"])
    N = int(np.prod(shape))
    v = {
        "steps": lambda: np.arange(N, dtype=float),
        "uniform": lambda: g.uniform(-1, 1, size=N),
        "normal": lambda: g.normal(size=N) * 10,
        "large": lambda: g.uniform(-5e4, 5e4, size=N),
        "small": lambda: g.normal(size=N) * 1e-6,
        "mixed": lambda: g.normal(size=N) * 10.0 ** g.uniform(-8, 4, size=N),
        "int": lambda: g.integers(-500, 5000, size=N).astype(float),
    }[style]()
    x = gen.t32(v.reshape(shape))
    if style != "int" and ctx.chance(0.15):  # positions single precision cannot tell apart
        return style, torch.tensor(v.reshape(shape))
    if style == "int":
        x = x.long() if ctx.chance(0.7) else x.int()
    elif ctx.chance(0.15):
        x = x.double()
    return style, x


def expected(x, d):
    xx = x.detach().double().numpy()[..., None]
    w = freqs(d)
    a = xx * w
    da = 40 * R.EPS * np.abs(a) + 1e-30
    v = np.concatenate([np.sin(a), np.cos(a)], -1)
    tol = np.concatenate([da, da], -1) + 4 * R.EPS
    return v, tol


def sinusoid(ctx):
    d = ctx.choice([2, 2, 4, 6, 8, 10, 16, 32, 64, 128, 250, 300, 514, 1024])
    style, x = positions(ctx)
    with ctx.cut(f"building the sinusoidal embedding of size {d}"):
        m = api.ns.emb.ClassicSinusoidalEmbedding(d)
    zoo.decoy(ctx, "sinusoidal", 0.15)
    ctx.expect(not list(m.parameters()), "the sinusoidal embedding has trainable parameters")
    how, xl = gen.layout(ctx, x) if x.dtype.is_floating_point and x.dim() else ("plain", x)
    keep = xl.clone()
    y = monitor.read(ctx, "sinusoidal embedding", m, xl)
    ctx.expect(torch.equal(keep, xl), "the embedding changed its input")
    ctx.expect(y.dtype.is_floating_point, f"embedding of {x.dtype} has dtype {y.dtype}")
    monitor.compare(ctx, f"sinusoidal embedding of size {d}", y, expected(xl, d), style=style)
    if xl.dtype == torch.float64:
        # the first pair has w = 1 exactly: full precision of the position
        a, h = monitor.n64(xl), d // 2
        ctx.expect(y.dtype == torch.float64, f"embedding of double precision positions has dtype {y.dtype}")
        e = np.maximum(np.abs(monitor.n64(y)[..., 0] - np.sin(a)), np.abs(monitor.n64(y)[..., h] - np.cos(a)))
        ctx.expect(bool((e <= 1e-13 * (10 + np.abs(a))).all()), f"sine and cosine of a double precision position are off by {e.max()}")
        ctx.see("double_positions", a.size)
    yy = monitor.n64(y)
    s = yy[..., : d // 2] ** 2 + yy[..., d // 2 :] ** 2
    ctx.expect(bool((np.abs(s - 1) < 1e-5).all()), f"a sine-cosine pair has squared norm {s.flat[np.abs(s-1).argmax()]}")
    ctx.see("pairs_checked", s.size)
    # each position alone
    flat = xl.reshape(-1)
    for _ in range(3):
        k = ctx.int(0, flat.numel() - 1)
        one = monitor.read(ctx, "sinusoidal embedding", m, flat[k : k + 1].clone())
        a, b = monitor.n64(one).reshape(-1), yy.reshape(-1, d)[k]
        lim = 40 * R.EPS * abs(float(flat[k])) + 8 * R.EPS
        ctx.expect(bool((np.abs(a - b) <= lim).all()), "the embedding of a position depends on the positions around it")
        ctx.see("positions_alone")
    # a shift by t rotates each pair by w_k t
    t = ctx.uniform(-3, 3)
    if style in ("steps", "uniform", "normal") and xl.dtype == torch.float32:
        z = monitor.n64(monitor.read(ctx, "sinusoidal embedding", m, xl + t))
        w = freqs(d)
        c, q = np.cos(w * t), np.sin(w * t)
        S, C = yy[..., : d // 2], yy[..., d // 2 :]
        lim = 200 * R.EPS * (float(xl.abs().max()) + 4)
        ctx.expect(bool((np.abs(z[..., : d // 2] - (S * c + C * q)) <= lim).all() and (np.abs(z[..., d // 2 :] - (C * c - S * q)) <= lim).all()), "shifting the position does not rotate the sine-cosine pairs")
        ctx.see("shifts_checked")
    if xl.dtype == torch.float32 and style != "large":
        xr = x.clone().requires_grad_(True)
        with ctx.cut("backward through the sinusoidal embedding"):
            m(xr)[..., : d // 2].sum().backward()
        want = (np.cos(x.double().numpy()[..., None] * freqs(d)) * freqs(d)).sum(-1)
        ctx.expect(bool((np.abs(monitor.n64(xr.grad) - want) <= 1e-4 * (1 + np.abs(want) + np.abs(x.double().numpy()))).all()), "gradient of the embedding with respect to the position is wrong")
    ctx.describe(dim=d, shape=list(x.shape), style=style, dtype=str(x.dtype), layout=how)
    ctx.sig("sinusoid", d, tuple(x.shape), style, how)


EMB = {"fourier": "FourierSeriesEmbedding", "continuous": "PiecewisePolynomialEmbedding", "discontinuous": "PiecewiseDiscontinuousPolynomialEmbedding"}


def layered(ctx):
    kind = list(EMB)[ctx.index % 3]
    c, B = fc.cfg(ctx, kind, 300000)
    kw = dict(n=c["n"], in_features=c["I"], out_features=c["O"])
    if c["S"]:
        kw["segments"] = c["S"]
    if c["L"] != 2.0 or ctx.chance(0.5):
        kw["length"] = c["L"]
    if c["p"] is not None:
        kw["periodicity"] = c["p"]
    mag = ctx.choice([None, 1.0, 0.25, 3.0])
    if mag is not None:
        kw["weight_magnitude"] = mag
    if ctx.chance(0.2):
        kw["unused_setting"] = 3
    args = ()
    if ctx.chance(0.3):
        args = (kw.pop("n"), kw.pop("in_features"), kw.pop("out_features")) + ((kw.pop("segments"),) if c["S"] else ())
    with ctx.cut(f"building the {kind} embedding {args} {kw}"):
        m = getattr(api.ns.emb, EMB[kind])(*args, **kw)
    zoo.decoy(ctx, "emb_" + kind, 0.15)
    ctx.expect(isinstance(m, torch.nn.Module), f"{EMB[kind]} returns {type(m).__name__}, not a layer")
    w = gen.main_weight(ctx, m)
    want = (c["O"], c["I"], fc.nb(kind, c["n"], c["S"]))
    ctx.expect(tuple(w.shape) == want, f"{EMB[kind]} {kw}: weights {tuple(w.shape)} where {want} is expected")
    if kind != "fourier":
        lim = (1.0 if mag is None else mag) / c["I"]
        ctx.expect(float(w.detach().abs().max()) <= lim * (1 + 1e-5), f"{EMB[kind]}: initial weights exceed {lim}")
        if w.shape[0] * w.shape[1] >= 24:
            ctx.expect(float(w.detach().abs().max()) > 0.3 * lim, f"{EMB[kind]}: initial weights stay far below {lim}")
    gen.fill(ctx, w)
    x = gen.xs(ctx, (B, c["I"]), c["n"], c["S"] or 1, c["L"], c["p"])
    fc.check_forward(ctx, kind, m, w, x, c, label=f"{EMB[kind]}")
    # the same settings in the layer itself
    with ctx.cut("building the plain layer"):
        k2 = {q: v for q, v in dict(n=c["n"], in_features=c["I"], out_features=c["O"], segments=c["S"], length=c["L"], periodicity=c["p"]).items() if v is not None}
        plain = api.fc(kind, **k2)
        w2 = gen.main_weight(ctx, plain)
        with torch.no_grad():
            w2.copy_(w)
        a, b = m(x), plain(x)
    ctx.expect(bool(torch.allclose(a, b, rtol=1e-4, atol=1e-6, equal_nan=True)) or not bool(torch.isfinite(b).all()), f"{EMB[kind]} differs from the {kind} layer with the same settings and weights")
    with ctx.cut("backward"):
        m(x.clamp(-c["L"], c["L"])).pow(2).clamp(max=100).mean().backward()
    ctx.expect(w.grad is not None, f"{EMB[kind]}: weights get no gradient")
    ctx.see("layer_embeddings")
    ctx.describe(kind=kind, **c, batch=B)
    ctx.sig(kind, tuple(sorted((k, str(v)) for k, v in c.items())), B, mag)


SCENARIOS = {"sinusoid": (sinusoid, 900, 15000), "layered": (layered, 500, 8000)}
MUST_SEE = ["single_positions", "decoys", "values_compared", "pairs_checked", "positions_alone", "shifts_checked", "layer_embeddings"]
RULE = "one case = an embedding size, position shape, value style and memory layout, or a layer-based embedding configuration with its batch"
ASSUMPTIONS = ["float32 rounding of the phase is allowed for"]
