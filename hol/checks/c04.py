"""C04: Fourier layers, embedding and convolutions."""
import numpy as np
import torch

from hol import api, conv, fc, gen, monitor
from hol import ref as R

K = "fourier"


def fcfg(ctx):
    n = ctx.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 20, 31])
    return dict(n=n, S=None, I=gen.n_features(ctx), O=gen.n_features(ctx), L=gen.length(ctx), p=None)


def random_case(ctx):
    c = fcfg(ctx)
    B = gen.n_batch(ctx)
    layer, w = fc.build(ctx, K, **c)
    style = gen.fill(ctx, w)
    x = gen.t32(ctx.np.uniform(-1, 1, size=(B, c["I"])) * ctx.choice([0.5, 1, 1, 3, 3, 20, 300, 1e4, 1e5]) * c["L"])
    if ctx.chance(0.3):
        x = gen.xs(ctx, (B, c["I"]), 3, 4, c["L"])
    how, xl = gen.layout(ctx, x)
    fc.check_forward(ctx, K, layer, w, xl, c)
    ctx.describe(**c, batch=B, weights=style, layout=how)
    ctx.sig(c["n"], c["I"], c["O"], c["L"], B, style)


def onehot(ctx):
    """Each coefficient drives its own component and no other."""
    n = ctx.choice([3, 4, 5, 6, 9, 14])
    L = gen.length(ctx)
    layer, w = fc.build(ctx, K, n, 1, n, None, L)
    with torch.no_grad():
        w.zero_()
        for j in range(n):
            w[j, 0, j] = 1.0
    M = 64
    x = gen.t32((np.arange(M) / M - 0.5) * L).reshape(-1, 1)
    y = monitor.read(ctx, "fourier forward", layer, x)
    a = monitor.n64(y)
    th = 2 * np.pi * monitor.n64(x)[:, 0] / L
    for j in range(n):
        k = (j + 1) // 2
        want = 0.5 + 0 * th if j == 0 else (np.cos(k * th) if j % 2 == 0 else np.sin(k * th))
        ctx.see("components_checked")
        ctx.expect(np.abs(a[:, j] - want).max() < 2e-5 * (1 + k), f"Fourier coefficient {j} does not drive its own harmonic", n=n, L=L)
    G = a.T @ a / M
    off = G - np.diag(np.diag(G))
    if (n // 2 + 1) * 2 < M:
        ctx.expect(np.abs(off).max() < 1e-4, "Fourier components are not orthogonal over one period", n=n, L=L)
    ctx.sig("onehot", n, L)


def period(ctx):
    """Shifting any single input by whole periods changes nothing."""
    c = fcfg(ctx)
    B = 16
    layer, w = fc.build(ctx, K, **c)
    gen.fill(ctx, w, "normal")
    x = gen.t32(ctx.np.uniform(-1, 1, size=(B, c["I"])) * c["L"])
    m = ctx.np.integers(-3, 4, size=(B, c["I"]))
    x2 = gen.t32(monitor.n64(x) + m * c["L"])
    y1 = monitor.n64(monitor.read(ctx, "fourier forward", layer, x))
    y2 = monitor.n64(monitor.read(ctx, "fourier forward", layer, x2))
    W = np.abs(monitor.n64(w)).sum(axis=(1, 2))
    tol = 3e-5 * (c["n"] + 1) * (W + 1e-9)
    ctx.see("period_shifts", B)
    ctx.expect(bool((np.abs(y1 - y2) <= tol).all()), "Fourier layer is not periodic with its length", config=c)
    ctx.sig("period", c["n"], c["I"], c["O"], c["L"])


def embedding(ctx):
    c = fcfg(ctx)
    kw = dict(n=c["n"], in_features=c["I"], out_features=c["O"])
    if c["L"] != 2.0:
        kw["length"] = c["L"]
    with ctx.cut("building the Fourier embedding"):
        layer = api.ns.emb.FourierSeriesEmbedding(**kw)
    ctx.expect(isinstance(layer, torch.nn.Module), "Fourier embedding is not a module")
    w = gen.main_weight(ctx, layer)
    gen.fill(ctx, w, "normal")
    x = gen.t32(ctx.np.uniform(-2, 2, size=(9, c["I"])) * c["L"])
    fc.check_forward(ctx, K, layer, w, x, c, label="Fourier embedding")
    ctx.sig("emb", c["n"], c["I"], c["O"], c["L"])


SCENARIOS = {
    "random": (random_case, 900, 15000),
    "onehot": (onehot, 80, 600),
    "period": (period, 250, 3000),
    "history": (fc.scenario_history(K), 150, 2000),
    "double": (fc.scenario_double(K), 80, 800),
    "large": (fc.scenario_large(K), 14, 100),
    "embedding": (embedding, 80, 800),
    "conv": (conv.scenario_random(["fourier1d", "fourier2d"]), 250, 3000),
}
MUST_SEE = ["values_compared", "components_checked", "period_shifts"]
RULE = "one case = number of components, length, widths, weights and a batch spanning many periods; distinct by configuration signature"
ASSUMPTIONS = ["|x| up to 1e5 periods, judged against the rounding of a float32 phase"]
