"""C28: segment lookup and coordinate maps of the piecewise layers."""
import numpy as np
import torch

from hol import api, fc, gen, monitor
from hol import ref as R

KINDS = list(fc.PIECEWISE)


def shapes(ctx, last=None):
    s = ctx.choice([(), (1,), (7,), (5, 2), (3, 2, 4), (1, 9), (2, 1, 2, 3), (300,), (40, 17)] if ctx.chance(0.1) else [(), (1,), (7,), (5, 2), (3, 2, 4), (1, 9), (2, 1, 2, 3)])
    return s if last is None else s + (last,)


def spread(ctx, shape, n, S, L, p, far=True):
    x = gen.xs(ctx, shape, n, S, L, p)
    if far and ctx.chance(0.3):
        big = ctx.np.choice([-1.0, 1.0], size=shape) * 10.0 ** ctx.np.uniform(0, 4 if p else 37, size=shape)
        x = torch.where(torch.tensor(ctx.np.random(size=shape) < 0.4), gen.t32(big), x)
        ctx.see("far_positions")
    return x


def judge_segments(ctx, label, got, x, S, L, p):
    ctx.expect(torch.is_tensor(got) and tuple(got.shape) == tuple(x.shape), f"{label}: segments of shape {tuple(got.shape)} for positions of shape {tuple(x.shape)}")
    ctx.expect(not got.dtype.is_floating_point and got.dtype != torch.bool, f"{label}: segment numbers of dtype {got.dtype}")
    xx = monitor.n64(x)
    xf, dx = (xx, np.zeros_like(xx)) if p is None else R.mirror(xx, p)[:2]
    k, alt = R.locate(xf, S, L, dx)
    g = got.numpy()
    # far away, folding leaves more than one neighbour open
    lo, hi = R.locate(xf - dx, S, L, 0 * dx)[0], R.locate(xf + dx, S, L, 0 * dx)[0]
    ok = (g == k) | (g == alt) | ((g >= lo) & (g <= hi))
    ctx.see("positions_pinned", int((lo == hi).sum()))
    if not ok.all():
        at = tuple(int(q[0]) for q in np.nonzero(~ok)) if ok.ndim else ()
        ctx.fail(f"{label}: position {xx[at]!r} is in segment {int(k[at])}, not {int(g[at])}", segments=S, length=L, periodicity=p)
    ctx.see("positions_located", int(ok.size))
    ctx.see("positions_outside", int((np.abs(xf) > L / 2).sum()))
    return xf, dx, k, alt


def where(ctx):
    """Which segment contains a position."""
    kind = KINDS[ctx.index % len(KINDS)]
    n, S, L = gen.n_nodes(ctx), gen.n_segments(ctx), gen.length(ctx)
    p = gen.periodicity(ctx, L)
    layer, _ = fc.build(ctx, kind, n, ctx.int(1, 3), ctx.int(1, 3), S, L, p)
    x = spread(ctx, shapes(ctx), n, S, L, p)
    how, xl = gen.layout(ctx, x)
    keep = xl.clone()
    seg = monitor.read(ctx, f"{kind}.which_segment", layer.which_segment, xl)
    ctx.expect(torch.equal(keep, xl), f"{kind}.which_segment changed its input")
    judge_segments(ctx, f"{kind}.which_segment", seg, xl, S, L, p)
    ctx.describe(kind=kind, n=n, S=S, L=L, p=p, layout=how, x=x.flatten()[:4].tolist())
    ctx.sig("where", kind, n, S, L, p, tuple(x.shape), how)


def local_ref(x, k, S, L):
    u, du = R.local(x, k, S, L, np.zeros_like(x))
    h = 0.5 * L
    return h * u, R.SLACK * h * (du + 4 * R.EPS * (np.abs(u) + 1)) + R.FLOOR


def global_ref(v, k, S, L):
    h, wd = 0.5 * L, L / S
    t = (v + h) / L
    x = t * wd + (-h + k * wd)
    tol = 8 * R.EPS * (np.abs(t) + (np.abs(v) + h) / L) * (wd + h) + 8 * R.EPS * (h + k * wd + np.abs(x))
    return x, R.SLACK * tol + R.FLOOR


def maps(ctx):
    """Local and global coordinates of any segment, whichever contains x."""
    nd = ctx.index % 5 == 4
    if nd:
        d = ctx.int(1, 4)
        n, S, L = [ctx.int(1, 4) for _ in range(d)], [ctx.choice([1, 2, 3, 4, 5, 7]) for _ in range(d)], gen.length(ctx)
        kind, p = "PiecewiseND", None
        with ctx.cut("building PiecewiseND"):
            layer = api.ns.poly.PiecewiseND(n=n, in_features=ctx.int(1, 2), out_features=ctx.int(1, 2), segments=S, length=L)
        shape = shapes(ctx, d)
        SS = np.array(S)
        k = np.stack([ctx.np.integers(0, s, size=shape[:-1]) for s in S], -1)
        x = gen.t32(ctx.np.uniform(-1.5, 1.5, size=shape) * L / 2)
    else:
        kind = KINDS[ctx.index % 5]
        n, S, L = gen.n_nodes(ctx), gen.n_segments(ctx), gen.length(ctx)
        p = gen.periodicity(ctx, L)
        layer, _ = fc.build(ctx, kind, n, 1, 1, S, L, p)
        shape = shapes(ctx)
        SS = np.array(S)
        x = gen.xs(ctx, shape, n, S, L, None)
        k = ctx.np.integers(0, S, size=shape)
    kt = torch.tensor(k, dtype=torch.int64)
    xx = monitor.n64(x)
    v = monitor.read(ctx, f"{kind}.x_local", layer.x_local, x, kt)
    monitor.compare(ctx, f"{kind}.x_local n={n} segments={S} length={L}", v, local_ref(xx, k, SS, L), key="local")
    # the other way, from coordinates that include both ends
    z = ctx.np.uniform(-1.2, 1.2, size=shape) * L / 2
    z = np.where(ctx.np.random(size=shape) < 0.3, ctx.np.choice([-0.5 * L, 0.0, 0.5 * L], size=shape), z)
    z = gen.t32(z)
    g = monitor.read(ctx, f"{kind}.x_global", layer.x_global, z, kt)
    monitor.compare(ctx, f"{kind}.x_global n={n} segments={S} length={L}", g, global_ref(monitor.n64(z), k, SS, L), key="global")
    # there and back
    back = monitor.read(ctx, f"{kind}.x_local", layer.x_local, g, kt)
    gg = monitor.n64(g)
    _, e1 = local_ref(gg, k, SS, L)
    _, e2 = global_ref(monitor.n64(z), k, SS, L)
    monitor.compare(ctx, f"{kind}: x_local of x_global", back, (monitor.n64(z), e1 + e2 * SS), key="round trip")
    ctx.see("round_trips", z.numel())
    ctx.describe(kind=kind, n=n, S=S, L=L, p=p, shape=list(shape))
    ctx.sig("maps", kind, str(n), str(S), L, p, shape)


def nd_where(ctx):
    d = ctx.int(1, 4)
    S = [ctx.choice([1, 2, 3, 4, 5, 8, 13]) for _ in range(d)]
    L = gen.length(ctx)
    n = ctx.int(1, 3)
    with ctx.cut("building PiecewiseND"):
        layer = api.ns.poly.PiecewiseND(n=[n] * d, in_features=1, out_features=1, segments=S, length=L)
    shape = shapes(ctx, d)
    cols = [spread(ctx, shape[:-1], n, s, L, None) for s in S]
    x = torch.stack(cols, -1)
    seg = monitor.read(ctx, "PiecewiseND.which_segment", layer.which_segment, x)
    ctx.expect(tuple(seg.shape) == tuple(x.shape), f"PiecewiseND.which_segment: shape {tuple(seg.shape)} for positions of shape {tuple(x.shape)}")
    for i, s in enumerate(S):
        judge_segments(ctx, f"PiecewiseND.which_segment, dimension {i} of {d}", seg[..., i], x[..., i], s, L, None)
    ctx.see("dimensions_located", d)
    ctx.sig("nd", n, str(S), L, shape)


def evaluate(ctx):
    """The maps describe the function the layer computes: the weights of the
    located segment, interpolated at the local coordinate, are its output."""
    kind = KINDS[ctx.index % len(KINDS)]
    for _ in range(40):
        n, S, L = gen.n_nodes(ctx), gen.n_segments(ctx), gen.length(ctx)
        if n * S < 3000:
            break
    else:
        n, S = 3, 4
    p = gen.periodicity(ctx, L)
    I, O, B = ctx.int(1, 4), ctx.int(1, 4), ctx.int(1, 12)
    layer, w = fc.build(ctx, kind, n, I, O, S, L, p)
    gen.fill(ctx, w, "normal")
    x = gen.xs(ctx, (B, I), n, S, L, p)
    xx = monitor.n64(x)
    xf, dx = (xx, np.zeros_like(xx)) if p is None else R.mirror(xx, p)[:2]
    xin = gen.t32(xf)
    seg = monitor.read(ctx, f"{kind}.which_segment", layer.which_segment, x)
    # x_local does not fold: it takes the position within the range
    v = monitor.read(ctx, f"{kind}.x_local", layer.x_local, xin, seg)
    y = monitor.read(ctx, kind, layer, x)
    k = seg.numpy()
    if k.shape != xx.shape or k.min() < 0 or k.max() >= S:
        ctx.fail(f"{kind}.which_segment: segments of shape {k.shape} between {k.min()} and {k.max()} where {S} exist")
    _, du = R.local(xf, k, S, L, dx + 2 * R.EPS * np.abs(xf))
    Lg, E = R.lagrange(n, 2 * monitor.n64(v) / L, 2 * du)
    cont = fc.base(kind) == "continuous"
    st = n - 1 if cont else n
    K = w.shape[-1]
    Bs, Es = R._scatter(Lg, k, n, st, K), R._scatter(E, k, n, st, K)
    ww = monitor.n64(w)
    val, tol = (R.prod_layer(Bs, Es, ww, 1.0) if kind.endswith("_prod") else R.sum_layer(Bs, Es, ww))
    _, own = fc.reference(kind, x, w, n, S, L, p)
    near = R.locate(xf, S, L, dx)
    clear = (near[0] == near[1]).all(1)
    if not cont:
        tol = np.where(clear[:, None], tol, np.inf)
    monitor.compare(ctx, f"{kind} layer against its segments' weights at x_local", y, (val, tol + own), config=dict(n=n, S=S, L=L, p=p))
    ctx.see("evaluations_from_maps", int(clear.sum()))
    ctx.describe(kind=kind, n=n, S=S, L=L, p=p, I=I, O=O, batch=B)
    ctx.sig("evaluate", kind, n, S, L, p, I, O, B)


def agree(ctx):
    """A layer that jumps at every edge shows which segment it evaluates, the
    edges and their neighbours included: which_segment names that one."""
    kind = ["discontinuous", "discontinuous_prod", "PiecewiseND"][ctx.index % 3]
    n, S, L = ctx.choice([1, 2, 2, 3, 4]), gen.n_segments(ctx), gen.length(ctx)
    S = min(S, 400)
    p = None if kind == "PiecewiseND" else gen.periodicity(ctx, L)
    if kind == "PiecewiseND":
        with ctx.cut("building PiecewiseND"):
            layer = api.ns.poly.PiecewiseND(n=[n], in_features=1, out_features=1, segments=[S], length=L)
        w = next(q for q in layer.parameters() if q.numel() == n * S)
    else:
        layer, w = fc.build(ctx, kind, n, 1, 1, S, L, p)
    with torch.no_grad():
        w.copy_(torch.arange(S, dtype=w.dtype).repeat_interleave(n).reshape(w.shape))
    B = ctx.choice([1, 7, 40])
    e = np.float32(-0.5 * L) + np.arange(S + 1, dtype=np.float32) * np.float32(L / S)
    x = torch.cat([gen.xs(ctx, (B, 1), n, S, L, p).clamp(-1.2 * L if p is None else -20 * L, 1.2 * L if p is None else 20 * L)]
                  + [gen.t32(q.reshape(-1, 1)) for q in (e, np.nextafter(e, np.float32(np.inf)), np.nextafter(e, np.float32(-np.inf)))])
    seg = monitor.read(ctx, f"{kind}.which_segment", layer.which_segment, x.unsqueeze(-1) if kind == "PiecewiseND" else x)
    y = monitor.read(ctx, kind, layer, x.unsqueeze(-1) if kind == "PiecewiseND" else x)
    used = monitor.n64(y).reshape(-1)
    got = seg.numpy().reshape(-1)
    # further out a constant is extrapolated by large terms that cancel
    xx = monitor.n64(x).reshape(-1)
    xf = xx if p is None else R.mirror(xx, p)[0]
    sure = (np.abs(used - np.round(used)) < 0.2) & (np.abs(xf) <= 0.5 * L + 0.3 * L / S)
    wrong = sure & (np.round(used) != got)
    if wrong.any():
        at = int(np.nonzero(wrong)[0][0])
        ctx.fail(f"{kind}: at {x[at, 0].item()!r} which_segment names segment {got[at]} while the layer evaluates segment {int(round(used[at]))}", n=n, segments=S, length=L, periodicity=p)
    ctx.see("segments_agreed", int(sure.sum()))
    ctx.describe(kind=kind, n=n, S=S, L=L, p=p, batch=B)
    ctx.sig("agree", kind, n, S, L, p, B)


SCENARIOS = {"where": (where, 900, 12000), "maps": (maps, 900, 12000), "nd_where": (nd_where, 300, 4000), "evaluate": (evaluate, 400, 5000), "agree": (agree, 300, 4000)}
MUST_SEE = ["positions_located", "positions_pinned", "positions_outside", "far_positions", "round_trips", "dimensions_located", "evaluations_from_maps", "segments_agreed", "values_compared"]
RULE = "one case = one layer configuration (kind, nodes, segments, length, mirror period) and one tensor of positions of some rank and layout; distinct by configuration and shape"
ASSUMPTIONS = [
    "positions within rounding of a segment edge may be attributed to either side, but which_segment and the layer itself choose the same one",
    "x_local and x_global convert positions within the range; folding by the mirror period is which_segment's and forward's part",
]
