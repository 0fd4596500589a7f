"""Workloads and oracle for fully connected layers, shared by several checks."""
import numpy as np
import torch

from hol import api, gen, monitor
from hol import ref as R

PIECEWISE = ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod")
CLASSES = {
    "continuous": "PiecewisePolynomial",
    "discontinuous": "PiecewiseDiscontinuousPolynomial",
    "continuous_prod": "PiecewisePolynomialProd",
    "discontinuous_prod": "PiecewiseDiscontinuousPolynomialProd",
    "polynomial": "Polynomial",
    "polynomial_prod": "PolynomialProd",
    "fourier": "FourierSeries",
}


def base(kind):
    return kind.replace("_prod", "")


def nb(kind, n, S):
    b = base(kind)
    return (n - 1) * S + 1 if b == "continuous" else n * S if b == "discontinuous" else n


def build(ctx, kind, n, I, O, S=None, L=2.0, p=None, via=None, **kw):
    via = via or ctx.choice(["factory", "class", "positional"])
    args = dict(kw)
    if p is not None:
        args["periodicity"] = p
    if L != 2.0 or ctx.chance(0.5):
        args["length"] = L
    if S is not None:
        args["segments"] = S
    with ctx.cut(f"building {kind} layer n={n} segments={S} in={I} out={O} length={L} periodicity={p}"):
        if via == "factory":
            layer = api.fc(kind, n=n, in_features=I, out_features=O, **args)
        elif via == "class":
            layer = getattr(api.ns.poly, CLASSES[kind])(n=n, in_features=I, out_features=O, **args)
        else:
            if S is not None:
                args.pop("segments")
                layer = getattr(api.ns.poly, CLASSES[kind])(n, I, O, S, **args)
            else:
                layer = getattr(api.ns.poly, CLASSES[kind])(n, I, O, **args)
    ctx.see("layers_built")
    w = gen.main_weight(ctx, layer)
    want = (O, I, nb(kind, n, S))
    ctx.expect(
        tuple(w.shape) == want,
        f"{kind} layer n={n} segments={S}: weights of shape {tuple(w.shape)} where {want} (one value per link and node) is expected",
    )
    decoy(ctx, kind)
    return layer, w


def decoy(ctx, kind, p=0.15):
    """Another layer of the same kind with settings of its own, built and used
    in between: it must not matter."""
    if not ctx.chance(p):
        return
    with gen.keep_random():
        L = ctx.choice([2.0, 1.0, 3.0, 5.0])
        kw = dict(n=ctx.int(1, 5), in_features=ctx.int(1, 3), out_features=ctx.int(1, 3), length=L, weight_magnitude=ctx.choice([1.0, 3.0]))
        if kind != "fourier":
            kw["periodicity"] = ctx.choice([None, 1.5])
        if base(kind) in ("continuous", "discontinuous"):
            kw["segments"] = ctx.int(1, 5)
        if kind.endswith("_prod"):
            kw["alpha"] = ctx.choice([1.0, 0.0, 0.3])
        with ctx.cut(f"building and using another {kind} layer {kw}"), torch.no_grad():
            api.fc(kind, **kw)(gen.t32(ctx.np.uniform(-L, L, size=(2, kw["in_features"]))))
    ctx.see("decoys")


def reference(kind, x, w, n, S=None, L=2.0, p=None, alpha=1.0):
    xx = monitor.n64(x) if torch.is_tensor(x) else x
    ww = monitor.n64(w) if torch.is_tensor(w) else w
    if base(kind) == "continuous":
        q = R.continuous_links(xx, ww, n, S, L, p)
        return R.prod_links(*q, alpha) if kind.endswith("_prod") else R.sum_links(*q)
    B, E = R.basis(base(kind), xx, n, S, L, p)
    if kind.endswith("_prod"):
        return R.prod_layer(B, E, ww, alpha)
    return R.sum_layer(B, E, ww)


def cfg(ctx, kind, cap=1_500_000):
    """A random configuration whose dense reference stays small."""
    for _ in range(50):
        n = gen.n_nodes(ctx)
        S = gen.n_segments(ctx) if base(kind) in ("continuous", "discontinuous") else None
        I, O, B = gen.n_features(ctx), gen.n_features(ctx), gen.n_batch(ctx)
        if B * I * nb(kind, n, S or 1) <= cap and B * I * O * nb(kind, n, S or 1) <= 2e7:
            break
    else:
        n, S, I, O, B = 3, (4 if S else None), 2, 2, 8
    L = gen.length(ctx)
    p = gen.periodicity(ctx, L) if base(kind) != "fourier" else None
    return dict(n=n, S=S, I=I, O=O, L=L, p=p), B


def check_forward(ctx, kind, layer, w, x, c, alpha=1.0, label=None):
    y = monitor.read(ctx, f"{kind} layer forward {c}", layer, x)
    monitor.compare(
        ctx,
        label or f"{kind} layer",
        y,
        reference(kind, x, w, c["n"], c["S"], c["L"], c["p"], alpha),
        config=c,
        batch=int(x.shape[0]),
    )
    return y


def scenario_random(kind):
    def run(ctx):
        c, B = cfg(ctx, kind)
        layer, w = build(ctx, kind, **c)
        style = gen.fill(ctx, w)
        x = gen.xs(ctx, (B, c["I"]), c["n"], c["S"] or 1, c["L"], c["p"])
        how, xl = gen.layout(ctx, x)
        ctx.describe(kind=kind, **c, batch=B, weights=style, layout=how, x=x.flatten()[:4].tolist())
        check_forward(ctx, kind, layer, w, xl, c)
        ctx.sig(kind, c["n"], c["S"], c["I"], c["O"], c["L"], c["p"], B, style, how)

    return run


def scenario_nodes(kind):
    """Weights are the values of the function: evaluate at every node."""

    def run(ctx):
        n, S = gen.n_nodes(ctx), (gen.n_segments(ctx) if kind != "polynomial" else None)
        S1 = S or 1
        if n * S1 > 400:
            S = S1 = ctx.int(1, 12)
        L = gen.length(ctx)
        layer, w = build(ctx, kind, n, 1, 2, S, L)
        gen.fill(ctx, w, "normal")
        if kind == "discontinuous" and n > 1:
            # stay inside each segment, next to but not at its right edge
            pos = gen.node_positions(n, S1, L).reshape(S1, n)
            X = gen.t32(pos)
        else:
            X = gen.t32(gen.node_positions(n, S1, L).reshape(S1, n))
        x = X.reshape(-1, 1)
        y = monitor.read(ctx, f"{kind} forward", layer, x)
        c = dict(n=n, S=S, I=1, O=2, L=L, p=None)
        monitor.compare(ctx, f"{kind} layer at its nodes", y, reference(kind, x, w, n, S, L), config=c)
        # directly against the weights, independent of the reference interpolant
        W = monitor.n64(w)[:, 0, :]
        yy = monitor.n64(y)
        scale = np.abs(W).max() + 1e-30
        lev = 1 + n * n
        tol = 64 * R.EPS * (S1 + n) * lev * scale * (4 if n > 8 else 1) * n
        for k in range(S1):
            for j in range(n):
                if kind == "discontinuous" and n > 1 and j == n - 1 and k < S1 - 1:
                    continue  # belongs to the next segment
                if kind == "discontinuous" and n > 1 and j == 0 and k > 0 and not (R.ispow2(S1) and R.ispow2(L)):
                    continue  # rounding of the breakpoint decides
                if kind == "continuous":
                    q = k * (n - 1) + j
                elif kind == "discontinuous":
                    q = k * n + j
                else:
                    q = j
                for o in range(2):
                    ctx.see("node_values_compared")
                    d = abs(yy[k * n + j, o] - W[o, q])
                    if not d <= tol:
                        ctx.fail(
                            f"{kind} layer: value {yy[k*n+j,o]} at node {j} of segment {k} is not the weight {W[o,q]}",
                            config=c,
                        )
        ctx.describe(kind=kind, n=n, S=S, L=L)
        ctx.sig("nodes", kind, n, S, L)

    return run


def scenario_breaks(kind):
    """Dense sweep with every breakpoint approached from both sides."""

    def run(ctx):
        n = gen.n_nodes(ctx)
        S = ctx.choice([2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 31, 32, 64])
        L = gen.length(ctx)
        p = ctx.choice([None, None, L, 2 * L])
        bp = gen.breakpoints(S, L).astype(np.float32)
        pts = [bp]
        a, b = bp, bp
        for _ in range(4):
            a, b = np.nextafter(a, np.float32(np.inf)), np.nextafter(b, np.float32(-np.inf))
            pts += [a, b]
        pts.append((bp[:-1] + bp[1:]) / 2)
        pts.append(np.array([0.0, -0.0], np.float32))
        for f in (1e-3, 0.01, 0.1, 0.25):
            pts.append((bp + f * L / S).astype(np.float32))
            pts.append((bp - f * L / S).astype(np.float32))
        x = gen.t32(np.concatenate(pts)).reshape(-1, 1)
        layer, w = build(ctx, kind, n, 1, 3, S, L, p)
        gen.fill(ctx, w, "normal")
        c = dict(n=n, S=S, I=1, O=3, L=L, p=p)
        y = check_forward(ctx, kind, layer, w, x, c)
        if kind == "continuous" and n > 1:
            yy = monitor.n64(y)
            W = monitor.n64(w)[:, 0, :]
            m = S + 1
            for q in range(1, S):
                ctx.see("breakpoint_joins")
                for o in range(3):
                    va, vb = yy[m + 2 * m * 3 + q, o], yy[2 * m + 2 * m * 3 + q, o]
                    tol = 1e-4 * S * n * n * (1 + np.abs(W).max())
                    if n <= 8 and not abs(va - vb) <= tol:
                        ctx.fail(f"continuous layer jumps by {va-vb} across breakpoint {q}", config=c)
        ctx.describe(kind=kind, **c, points=int(x.shape[0]))
        ctx.sig("breaks", kind, n, S, L, p)

    return run


def scenario_grid(kind, total):
    """All small configurations, one per case index."""
    combos = [
        (n, S, L)
        for n in range(1, 9)
        for S in ((1, 2, 3, 4, 5, 6, 7, 8) if base(kind) in ("continuous", "discontinuous") else (None,))
        for L in (2.0, 1.0, 3.0, 4.0, 0.7)
    ]

    def run(ctx):
        n, S, L = combos[ctx.index % len(combos)]
        I, O = ctx.int(1, 3), ctx.int(1, 3)
        layer, w = build(ctx, kind, n, I, O, S, L)
        gen.fill(ctx, w, "normal")
        c = dict(n=n, S=S, I=I, O=O, L=L, p=None)
        x = gen.xs(ctx, (40, I), n, S or 1, L)
        check_forward(ctx, kind, layer, w, x, c)
        ctx.describe(kind=kind, **c)
        ctx.sig("grid", kind, n, S, L, I, O)

    return run


def scenario_history(kind):
    """The function follows the current weights through a history of updates,
    batch sizes, modes and reloads."""

    def run(ctx):
        c, _ = cfg(ctx, kind, cap=60_000)
        layer, w = build(ctx, kind, **c)
        gen.fill(ctx, w, "normal")
        saved = None
        ops = []
        for step in range(ctx.int(4, 10)):
            op = ctx.choice(["forward", "forward", "sgd", "inplace", "data", "save", "load", "train", "eval", "nograd", "inference", "copy", "scale"])
            ops.append(op)
            B = ctx.choice([1, 2, 3, 7, 20])
            x = gen.xs(ctx, (B, c["I"]), c["n"], c["S"] or 1, c["L"], c["p"])
            if op == "sgd":
                opt = torch.optim.SGD([p for p in layer.parameters()], lr=0.05)
                y = monitor.call(ctx, "forward", layer, x)
                with ctx.cut("backward"):
                    (y * y).mean().clamp(max=1e6).backward()
                with torch.no_grad():
                    for q in layer.parameters():
                        if q.grad is not None:
                            q.grad.nan_to_num_(0, 0, 0).clamp_(-1, 1)
                opt.step()
                opt.zero_grad()
            elif op == "inplace":
                with torch.no_grad():
                    w[ctx.int(0, c["O"] - 1), ctx.int(0, c["I"] - 1)] += 0.5
            elif op == "data":
                w.data = gen.t32(ctx.np.normal(size=tuple(w.shape)))
            elif op == "save":
                saved = {k: v.clone() for k, v in layer.state_dict().items()}
            elif op == "load" and saved is not None:
                with ctx.cut("load_state_dict"):
                    layer.load_state_dict(saved)
            elif op == "train":
                layer.train()
            elif op == "eval":
                layer.eval()
            elif op == "scale":
                with torch.no_grad():
                    w.mul_(-1.5)
            elif op == "copy":
                import copy

                layer = copy.deepcopy(layer)
                w = gen.main_weight(ctx, layer)
            if op == "nograd":
                with torch.no_grad():
                    check_forward(ctx, kind, layer, w, x, c)
            elif op == "inference":
                with torch.inference_mode():
                    check_forward(ctx, kind, layer, w, x, c)
            else:
                check_forward(ctx, kind, layer, w, x, c)
            ctx.see("history_steps")
        ctx.describe(kind=kind, **c, ops=ops)
        ctx.sig("history", kind, c["n"], c["S"], tuple(ops))

    return run


def scenario_large(kind):
    def run(ctx):
        sizes = (
            [(2, 50, 64, 10, 128), (3, 10, 200, 5, 64), (5, 4, 17, 33, 300), (2, 200, 3, 2, 1025), (4, 128, 5, 3, 512), (3, 2, 784, 4, 16), (6, 3, 31, 64, 65), (2, 1000, 2, 1, 200),
             (3, 300, 2, 3, 400), (4, 97, 4, 4, 333), (3, 5, 2, 300, 40), (2, 3, 1, 1, 70000), (3, 3, 5, 2, 14000), (2, 7, 1030, 2, 9),
             (4, 10000, 1, 1, 12), (2, 40000, 1, 2, 6), (30, 1100, 1, 1, 10), (2, 2, 40000, 1, 2), (2, 2, 1, 40000, 2)]
        )
        n, S, I, O, B = sizes[ctx.index % len(sizes)]
        if base(kind) not in ("continuous", "discontinuous"):
            S = None
        L = ctx.choice([2.0, 2.0, 4.0, 1.0, 3.0])
        layer, w = build(ctx, kind, n, I, O, S, L)
        gen.fill(ctx, w, "normal")
        with torch.no_grad():
            w.mul_(0.5 / I if kind.endswith("prod") else 1.0)
            if kind.endswith("prod") and ctx.chance(0.5):  # factors near -1 as well as near 1
                w.sub_(2 * torch.tensor(ctx.np.random(size=(O, I, 1)) < 0.5).to(w.dtype))
                ctx.see("negative_factors")
        c = dict(n=n, S=S, I=I, O=O, L=L, p=None)
        x = gen.xs(ctx, (B, I), n, S or 1, L, wild=not kind.endswith("prod"))
        check_forward(ctx, kind, layer, w, x, c)
        ctx.describe(kind=kind, **c, batch=B)
        ctx.sig("large", kind, n, S, I, O, B, L)

    return run


def scenario_double(kind):
    def run(ctx):
        c, B = cfg(ctx, kind, cap=100_000)
        layer, w = build(ctx, kind, **c)
        gen.fill(ctx, w, "normal")
        with ctx.cut("double()"):
            layer = layer.double()
        w = gen.main_weight(ctx, layer)
        x = gen.xs(ctx, (B, c["I"]), c["n"], c["S"] or 1, c["L"], c["p"]).double()
        y = check_forward(ctx, kind, layer, w, x, c)
        ctx.expect(y.dtype == torch.float64, f"{kind} layer in float64 returns {y.dtype}", config=c)
        ctx.describe(kind=kind, **c, batch=B, dtype="float64")
        ctx.sig("double", kind, c["n"], c["S"], c["L"], c["p"], B)

    return run


def scenario_empty(kind):
    """Degenerate batches."""

    def run(ctx):
        c, _ = cfg(ctx, kind, cap=20_000)
        layer, w = build(ctx, kind, **c)
        gen.fill(ctx, w, "normal")
        # constant rows, repeated values, all samples in one segment
        v = gen.xs(ctx, (1, 1), c["n"], c["S"] or 1, c["L"], c["p"])
        for x in (v.expand(9, c["I"]).contiguous(), torch.zeros(4, c["I"]), v.expand(1, c["I"])):
            check_forward(ctx, kind, layer, w, x, c)
        ctx.describe(kind=kind, **c)
        ctx.sig("degenerate", kind, c["n"], c["S"], c["I"])

    return run


def scenario_far(kind):
    """The outer segments extend to any distance, however large the input."""

    def run(ctx):
        n, S = ctx.choice([1, 1, 2, 2, 3, 4]), ctx.choice([1, 2, 3, 4, 5, 8, 16, 50])
        I, O, B = ctx.int(1, 3), ctx.int(1, 3), ctx.int(1, 8)
        L = gen.length(ctx)
        if base(kind) == "polynomial":
            S = None
        top = {1: 37.0, 2: 27.0, 3: 12.0, 4: 8.0}[n]
        if kind.endswith("_prod"):
            n = min(n, 3)
            top = {1: 37.0, 2: 8.5, 3: 3.5}[n]
        layer, w = build(ctx, kind, n, I, O, S, L)
        gen.fill(ctx, w, "normal")
        x = ctx.np.choice([-1.0, 1.0], size=(B, I)) * 10.0 ** ctx.np.uniform(1, top, size=(B, I))
        inside = ctx.np.random(size=(B, I)) < 0.2
        x = gen.t32(np.where(inside, ctx.np.uniform(-L / 2, L / 2, size=(B, I)), x))
        c = dict(n=n, S=S, I=I, O=O, L=L, p=None)
        check_forward(ctx, kind, layer, w, x, c, label=f"{kind} layer far outside its range")
        ctx.see("far_inputs", int((x.abs() > 10).sum()))
        ctx.describe(kind=kind, **c, x=x.flatten()[:4].tolist())
        ctx.sig("far", kind, n, S, I, O, L)

    return run
