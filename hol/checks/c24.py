"""N-dimensional piecewise layers against the tensor polynomial of each cell."""
import itertools
import math

import numpy as np
import torch

from hol import api, gen, monitor, zoo
from hol import ref as R


def setup(ctx, cap=60000):
    for _ in range(60):
        d = ctx.choice([1, 2, 2, 2, 3, 3, 4, 4, 5, 6])
        ns = [ctx.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, ctx.int(3, 9)] if d < 5 else [1, 1, 2, 2, 3]) for _ in range(d)]
        Ss = [ctx.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 16] if d < 5 else [1, 2, 2, 3, 4]) for _ in range(d)]
        style = ctx.choice(["lists", "lists", "lists", "n", "segments", "both"])
        if style in ("n", "both"):
            ns = [ns[0]] * d
        if style in ("segments", "both"):
            Ss = [Ss[0]] * d
        I, O, B = ctx.choice([1, 1, 2, 3, 5, ctx.int(2, 9)]), ctx.choice([1, 2, 3, 4, ctx.int(2, 9)]), ctx.choice([1, 2, 3, 8, 16, 33, ctx.int(2, 40)])
        P, C = math.prod(ns), math.prod(Ss)
        if P * C * I * O <= cap and B * I * O * P <= 200000:
            break
    else:
        d, ns, Ss, style, I, O, B = 2, [3, 2], [2, 3], "lists", 2, 2, 5
    if ctx.chance(0.04):
        ns, Ss, I, O, B = ctx.choice([([2], [3000], 1, 1, 300), ([3], [300], 2, 1, 200), ([2, 2], [70, 5], 1, 2, 200), ([2, 2], [5, 70], 2, 1, 200), ([2, 3], [40, 40], 1, 1, 300), ([2], [3], 300, 2, 7),
                                      ([2, 2], [3, 2], 2, 70, 9), ([2], [3], 2, 2, 5000), ([2, 2, 2], [2, 3, 2], 1, 1, 3000)])
        d, style = len(ns), "lists"
        ctx.see("large_layers")
    L = gen.length(ctx)
    kw = dict(n=ns[0] if style in ("n", "both") else list(ns), segments=Ss[0] if style in ("segments", "both") else list(Ss), in_features=I, out_features=O)
    if style in ("n", "both") or ctx.chance(0.4):
        kw["dimensions"] = d
    if L != 2.0 or ctx.chance(0.5):
        kw["length"] = L
    if ctx.chance(0.3):
        kw["weight_magnitude"] = ctx.choice([0.5, 2.0])
    if ctx.chance(0.3):
        kw["initialize"] = ctx.choice(["constant_random", "uniform"])
    with ctx.cut(f"building PiecewiseND {kw}"):
        layer = api.ns.poly.PiecewiseND(**kw)
    zoo.decoy(ctx, "continuous_nd", 0.15)
    want = (I, O, math.prod(Ss) * math.prod(ns))
    ps = [p for p in layer.parameters() if tuple(p.shape) == want]
    ctx.expect(len(ps) == 1, f"PiecewiseND {kw}: no single parameter with one value per link, cell and node {want}")
    w = ps[0]
    gen.fill(ctx, w, ctx.choice(["normal", "normal", "ramp", "onehot", "sparse"]))
    ctx.see("layers_built")
    ctx.describe(n=kw["n"], segments=kw["segments"], dimensions=d, length=L, ins=I, outs=O, batch=B)
    ctx.sig(tuple(ns), tuple(Ss), style, I, O, B, L)
    return layer, w, ns, Ss, I, O, B, L


def points(ctx, B, I, ns, Ss, L):
    cols = [gen.xs(ctx, (B, I), n, S, L) for n, S in zip(ns, Ss)]
    return torch.stack(cols, -1)


def cells(x, Ss, L):
    """Candidates of cell per dimension; the first is the exact one."""
    ks = [R.locate(x[..., q], S, L, np.zeros(x.shape[:-1])) for q, S in enumerate(Ss)]
    return ks


def at_cells(x, w, ns, Ss, L, ks, deriv=None):
    """Values [b, o, i] of every link with the given cell choice, error bound
    and magnitude."""
    b, i, d = x.shape
    V, U = np.ones((b, i, 1)), np.ones((b, i, 1))
    flat = np.zeros((b, i), int)
    for q in range(d):
        u, du = R.local(x[..., q], ks[q], Ss[q], L, 0.0)
        if q == deriv:
            D, E = R.dlagrange(ns[q], u, du)
            s = 2.0 * Ss[q] / L
            D, E = D * s, E * s + 4 * R.EPS * (1 + Ss[q]) * np.abs(D) * s
        else:
            D, E = R.lagrange(ns[q], u, du)
        flat = flat * Ss[q] + ks[q]
        V = (V[..., :, None] * D[..., None, :]).reshape(b, i, -1)
        U = (U[..., :, None] * (np.abs(D) + E)[..., None, :]).reshape(b, i, -1)
    Err = U - np.abs(V) + 8 * d * R.EPS * U
    P = V.shape[-1]
    idx = flat[..., None] * P + np.arange(P)  # [b, i, P]
    W = np.stack([w[q][:, idx[:, q]] for q in range(i)], 0)
    # W: [i, o, b, P]
    F = np.einsum("bip,iobp->boi", V, W)
    A = np.einsum("bip,iobp->boi", np.abs(V), np.abs(W))
    T = np.einsum("bip,iobp->boi", Err, np.abs(W))
    return F, T, A, V, flat, Err


def reference(x, w, ns, Ss, L):
    ks = cells(x, Ss, L)
    F, T, A, V, flat, _ = at_cells(x, w, ns, Ss, L, [k for k, _ in ks])
    near = [k != a for k, a in ks]
    if any(q.any() for q in near):
        for pick in itertools.product((0, 1), repeat=len(Ss)):
            if not any(pick) or not any(near[q].any() for q, b in enumerate(pick) if b):
                continue
            F2, T2, A2, *_ = at_cells(x, w, ns, Ss, L, [k[b] for k, b in zip(ks, pick)])
            T, A = np.maximum(T, T2 + np.abs(F - F2)), np.maximum(A, A2)
    nt = F.shape[2] * min(V.shape[-1], 64) + 8
    tol = R.SLACK * (T.sum(-1) + nt * R.EPS * A.sum(-1)) + R.FLOOR
    return F.sum(-1), R.overflow(V, tol)


def values(ctx):
    layer, w, ns, Ss, I, O, B, L = setup(ctx)
    x = points(ctx, B, I, ns, Ss, L)
    how, xl = gen.layout(ctx, x)
    snap = monitor.Snapshot([("input", x)] + monitor.state_tensors(layer))
    y = monitor.read(ctx, "PiecewiseND forward", layer, xl)
    ctx.expect(snap.changed() is None, f"evaluation changed {snap.changed()}")
    monitor.compare(ctx, "PiecewiseND", y, reference(monitor.n64(xl), monitor.n64(w), ns, Ss, L), n=ns, segments=Ss, length=L)
    ctx.see("cells_hit", len(np.unique(cells_flat(x, Ss, L))))


def cells_flat(x, Ss, L):
    f = 0
    for q, (k, _) in enumerate(cells(monitor.n64(x), Ss, L)):
        f = f * Ss[q] + k
    return f


def lattice(ctx):
    """At node m of cell c the layer returns the weight of node m of cell c."""
    for _ in range(50):
        d = ctx.choice([1, 2, 2, 3, 5, 6])
        ns = [ctx.int(1, 4) if d < 5 else ctx.int(1, 2) for _ in range(d)]
        Ss = [ctx.choice([1, 2, 4, 3, 8] if d < 5 else [1, 2, 2, 3]) for _ in range(d)]
        if math.prod(ns) * math.prod(Ss) <= 2500:
            break
    O = ctx.int(1, 3)
    L = ctx.choice([2.0, 2.0, 1.0, 4.0, 3.0])
    with ctx.cut("building PiecewiseND"):
        layer = api.ns.poly.PiecewiseND(n=ns, in_features=1, out_features=O, segments=Ss, length=L)
    w = next(p for p in layer.parameters() if p.dim() == 3)
    gen.fill(ctx, w, "normal")
    W = monitor.n64(w)[0]  # [o, cells*nodes]
    pts, idx = [], []
    for ci, c in enumerate(itertools.product(*[range(S) for S in Ss])):
        for mi, m in enumerate(itertools.product(*[range(n) for n in ns])):
            # the upper end of a cell belongs to the next one, ties need exact arithmetic
            if any(n > 1 and q == n - 1 and s < S - 1 for q, n, s, S in zip(m, ns, c, Ss)):
                continue
            if any(n > 1 and q == 0 and s > 0 and not (R.ispow2(S) and R.ispow2(L)) for q, n, s, S in zip(m, ns, c, Ss)):
                continue
            pts.append([-L / 2 + (s + (R.nodes(n)[q] + 1) / 2) * L / S for q, n, s, S in zip(m, ns, c, Ss)])
            idx.append(ci * math.prod(ns) + mi)
    if not pts:
        return
    y = monitor.n64(monitor.read(ctx, "PiecewiseND forward", layer, gen.t32(np.array(pts)[:, None, :])))
    tol = 3e-5 * (1 + max(Ss)) * np.abs(W).max() * 3**d
    bad = np.abs(y - W[:, idx].T) > tol
    ctx.see("nodes_checked", len(pts))
    if bad.any():
        k = int(np.argwhere(bad)[0][0])
        ctx.fail(f"PiecewiseND n={ns} segments={Ss} length={L}: at {pts[k]} (a node) the value is {y[k].tolist()} where the node's weights are {W[:, idx[k]].tolist()}")
    ctx.describe(n=ns, segments=Ss, length=L)
    ctx.sig("lattice", tuple(ns), tuple(Ss), L, O)


def gradients(ctx):
    layer, w, ns, Ss, I, O, B, L = setup(ctx, 30000)
    # stay off the cell faces, where one-sided derivatives may be chosen
    g = ctx.np
    cols = []
    for n, S in zip(ns, Ss):
        k = g.integers(0, S, size=(B, I))
        f = g.uniform(0.05, 0.95, size=(B, I))
        out = g.random((B, I)) < 0.15
        f = np.where(out & (k == 0), -g.uniform(0.1, 1.5, size=(B, I)), np.where(out & (k == S - 1), 1 + g.uniform(0.1, 1.5, size=(B, I)), f))
        cols.append(-L / 2 + (k + f) * L / S)
    x = gen.t32(np.stack(cols, -1)).requires_grad_(True)
    y = monitor.call(ctx, "PiecewiseND forward", layer, x)
    c = gen.t32(g.normal(size=(B, O)))
    with ctx.cut("backward"):
        y.backward(c)
    cc, xx, ww = monitor.n64(c), monitor.n64(x), monitor.n64(w)
    ks = [k for k, _ in cells(xx, Ss, L)]
    F, T, A, V, flat, Err = at_cells(xx, ww, ns, Ss, L, ks)
    P = V.shape[-1]
    ctx.expect(w.grad is not None, "no gradient reaches the weights")
    want = np.zeros(w.shape)
    tol = np.zeros(w.shape)
    hit = np.zeros(w.shape, bool)
    for i in range(I):
        for b in range(B):
            s = slice(flat[b, i] * P, flat[b, i] * P + P)
            want[i][:, s] += cc[b][:, None] * V[b, i][None]
            tol[i][:, s] += np.abs(cc[b])[:, None] * (Err[b, i] + (B + 8) * R.EPS * np.abs(V[b, i]))[None]
            hit[i][:, s] = True
    got = monitor.n64(w.grad)
    ctx.expect(not (got[~hit]).any(), "gradient reaches weights of cells that no point fell into")
    ctx.see("untouched_weights", int((~hit).sum()))
    monitor.compare(ctx, "gradient of the PiecewiseND weights", w.grad, (want, R.SLACK * tol + R.FLOOR), n=ns, segments=Ss)
    if all(n == 1 for n in ns) and x.grad is None:
        return
    ctx.expect(x.grad is not None, "no gradient reaches the inputs")
    D, DT = np.zeros(xx.shape), np.zeros(xx.shape)
    for q in range(len(ns)):
        F, T, A, *_ = at_cells(xx, ww, ns, Ss, L, ks, deriv=q)
        D[..., q] = np.einsum("bo,boi->bi", cc, F)
        # the library may form the product derivative by dividing, so leave room
        size = np.einsum("bo,boi->bi", np.abs(cc), T + 64 * R.EPS * A)
        DT[..., q] = size
    monitor.compare(ctx, "gradient of PiecewiseND with respect to its inputs", x.grad, (D, 4 * R.SLACK * DT + 1e-5 * (1 + np.abs(D))), n=ns, segments=Ss)
    ctx.see("gradients_checked")


def history(ctx):
    """Training, state transfer and re-use leave the same function of the
    current weights."""
    layer, w, ns, Ss, I, O, B, L = setup(ctx, 20000)
    opt = torch.optim.SGD(layer.parameters(), lr=0.1)
    for k in range(ctx.int(2, 5)):
        act = ctx.choice(["step", "eval", "load", "reuse"])
        x = points(ctx, ctx.choice([1, 4, 9]), I, ns, Ss, L).clamp(-L, L)
        if act == "step":
            with ctx.cut("training step"):
                opt.zero_grad()
                layer(x).clamp(-10, 10).pow(2).mean().backward()
                opt.step()
        elif act == "load":
            st = {q: v.clone() + 0.1 for q, v in layer.state_dict().items()}
            with ctx.cut("load_state_dict"):
                layer.load_state_dict(st)
        elif act == "eval":
            layer.train(ctx.chance(0.5))
        y = monitor.call(ctx, "PiecewiseND forward", layer, x)
        monitor.compare(ctx, f"PiecewiseND after {act}", y, reference(monitor.n64(x), monitor.n64(w), ns, Ss, L), n=ns, segments=Ss)
        ctx.see("history_steps")


SCENARIOS = {"values": (values, 900, 16000), "lattice": (lattice, 250, 4000), "gradients": (gradients, 300, 5000), "history": (history, 150, 2500)}
MUST_SEE = ["decoys", "values_compared", "cells_hit", "nodes_checked", "untouched_weights", "gradients_checked", "history_steps"]
RULE = "one case = dimensions, nodes and segments per dimension, length, widths, weights and a batch of points; distinct by all but the values"
ASSUMPTIONS = ["within rounding of a shared face either neighbouring cell is accepted unless the arithmetic is exact"]
