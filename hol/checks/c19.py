"""C19: rotation layers and rotated mesh coordinates."""
import copy

import numpy as np
import torch

from hol import api, gen, monitor, nets
from hol import ref as R

GRID = [(n, r, z) for n in (1, 2, 3, 4, 5, 6) for r in (1, 2, 3, 4, 5, 7) for z in (True, False)]


def rotation(ctx):
    if ctx.index < len(GRID):
        n, r, z = GRID[ctx.index]
    else:
        n, r, z = ctx.choice([1, 2, 3, 5, 8, 12, 14, 20, ctx.int(4, 16)]), ctx.choice([1, 2, 3, 6, 11, 15, ctx.int(4, 16)]), ctx.chance(0.6)
    kw = dict(n=n, rotations=r, normalize=z)
    if r == 2 and ctx.chance(0.5):
        kw.pop("rotations")
    if z and ctx.chance(0.5):
        kw.pop("normalize")
    with ctx.cut(f"fixed_rotation_layer {kw}"):
        layer, width = api.ns.layers.fixed_rotation_layer(**kw)
    ctx.expect(width == n + n * (n - 1) * (r - 1), f"rotation layer of {n} inputs and {r} rotations reports width {width}")
    M = nets.rotation_matrix(n, r, z)
    B = ctx.choice([1, 3, 20])
    x = gen.t32(ctx.np.uniform(-1, 1, size=(B, n)))
    corners = gen.t32(ctx.np.choice([-1.0, 1.0, 0.0], size=(12, n)))
    big = gen.t32(ctx.np.normal(size=(4, n)) * 1e3)
    ones = torch.eye(n)
    X = torch.cat([x, corners, big, ones, torch.zeros(1, n)])
    y = monitor.call(ctx, "rotation layer", layer, X)
    ctx.expect(tuple(y.shape) == (len(X), width), f"rotation layer returns {tuple(y.shape)} for {len(X)} samples of width {n}")
    label = f"rotation layer of {n} inputs, {r} rotations, normalize={z}"
    nets.match_columns(ctx, label, y, nets.linear_ref(monitor.n64(X), M, 0.0))
    if z:
        inside = y[: B + 12].detach().abs()
        ctx.expect(bool((inside <= 1 + 1e-6).all()), f"{label}: output {inside.max().item()} for inputs in [-1, 1]")
        ctx.see("range_checks", inside.numel())
    # orthogonal pairs: unit axes when not normalized
    if not z:
        sq = (y[: B + 12].detach().double() ** 2).sum(1)
        want = (X[: B + 12].double() ** 2).sum(1) * (1 + (n - 1) * (r - 1))
        ctx.expect(bool(((sq - want).abs() <= 1e-4 * (1 + want)).all()), f"{label}: rotations do not preserve length")
    # fixed
    before = [p.detach().clone() for p in layer.parameters()]
    net = torch.nn.Sequential(layer, torch.nn.Linear(width, 2))
    xi = X.clone().requires_grad_(True)
    with ctx.cut("training through the rotation"):
        for _ in range(3):
            opt = torch.optim.Adam(net.parameters(), lr=0.1)
            opt.zero_grad()
            net(xi).sum().backward()
            opt.step()
    ctx.expect(all(p.grad is None or not bool(p.grad.any()) for p in layer.parameters()), f"{label}: its weights receive a gradient")
    ctx.expect(all(torch.equal(a, b) for a, b in zip(before, layer.parameters())), f"{label}: training changed its weights")
    ctx.expect(xi.grad is not None and bool(torch.isfinite(xi.grad).all()), f"{label}: passes no gradient to its input")
    # input gradient is the transpose
    xj = x.clone().requires_grad_(True)
    g = gen.t32(ctx.np.normal(size=(B, width)))
    with ctx.cut("backward"):
        layer(xj).backward(g)
    W = monitor.n64(layer(torch.eye(n))).T
    ctx.expect(np.allclose(monitor.n64(xj.grad), monitor.n64(g) @ W, atol=1e-4), f"{label}: input gradient is not that of its linear map")
    ctx.see("rotation_layers")
    ctx.describe(n=n, rotations=r, normalize=z)
    ctx.sig("rot", n, r, z, B)


def mesh(ctx):
    w, h = ctx.choice([2, 3, 4, 5, 7, 8, 16, 33, 2, 64]), ctx.choice([2, 3, 4, 5, 6, 9, 16, 28, 2, 50])
    r = ctx.choice([1, 1, 2, 3, 4, 5, 8, 13, 20])
    z = ctx.chance(0.5)
    kw = dict(width=w, height=h, rotations=r, device="cpu", normalize=z)
    if r == 1 and ctx.chance(0.5):
        kw.pop("rotations")
    if not z and ctx.chance(0.5):
        kw.pop("normalize")
    with ctx.cut(f"positions_from_mesh {kw}"):
        out = api.ns.utils.positions_from_mesh(**kw)
    label = f"mesh {w}x{h}, {r} rotations, normalize={z}"
    ctx.expect(len(out) == 2 * r, f"{label}: {len(out)} coordinates where {2*r} are promised")
    m = max(w, h)
    half = 1.0 if z else 0.5 * m
    I, J = np.meshgrid(np.arange(w), np.arange(h), indexing="ij")
    for k in range(r):
        th = 0.5 * np.pi * k / r
        for q, (a, b) in enumerate(((np.cos(th), np.sin(th)), (-np.sin(th), np.cos(th)))):
            t = out[2 * k + q]
            ctx.expect(tuple(t.shape) == (w, h), f"{label}: coordinate of shape {tuple(t.shape)}")
            ctx.expect(t.dtype.is_floating_point and t.device.type == "cpu", f"{label}: coordinate is {t.dtype} on {t.device}")
            v = a * I + b * J
            v = (v - v.min()) / (v.max() - v.min()) * 2 * half - half
            got = monitor.n64(t)
            tol = 1e-5 * half * (1 + m / 16)
            err = np.abs(got - v).max()
            if q == 1:  # either direction along the orthogonal axis
                err = min(err, np.abs(got + v).max())
            which = "orthogonal" if q else "rotated"
            ctx.expect(bool(err <= tol), f"{label}: {which} coordinate of rotation {k} is off by {err}", got=got.flatten()[:5].tolist(), want=v.flatten()[:5].tolist())
            ctx.expect(abs(got.max() - half) <= tol and abs(got.min() + half) <= tol, f"{label}: {which} coordinate of rotation {k} fills [{got.min()}, {got.max()}] instead of [{-half}, {half}]")
            ctx.see("coordinates_compared", got.size)
    # orthogonal up to the common scaling of the axes
    ctx.see("meshes")
    ctx.describe(**{k: str(v) for k, v in kw.items()})
    ctx.sig("mesh", w, h, r, z)


SCENARIOS = {"rotation": (rotation, 160, 1500), "mesh": (mesh, 260, 3000)}
MUST_SEE = ["rotation_layers", "values_compared", "range_checks", "coordinates_compared", "meshes"]
RULE = "one case = a rotation layer (inputs, rotations, scaling, batch) or a mesh (sides, rotations, scaling); distinct by that"
ASSUMPTIONS = ["the direction along a mesh's orthogonal axis is free; the order of a rotation layer's outputs is free"]
