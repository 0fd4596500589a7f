"""C20: attention outputs are masked convex combinations per sample and head."""
import copy
import math

import numpy as np
import torch

from hol import api, gen, monitor, zoo
from hol import ref as R

NAMES = ["ScaledDotProductAttention", "DotProductAttention", "AdditiveAttention", "LocationAwareAttention", "MultiHeadLocationAwareAttention",
         "MultiHeadAttention", "RelativeMultiHeadAttention", "CustomizingAttention"]


def softmax(s):
    e = np.exp(s - s.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


NAMES_QKV = ("ScaledDotProductAttention", "AdditiveAttention", "MultiHeadAttention", "RelativeMultiHeadAttention")


def near(ctx, label, got, want, scale=1.0, what="value", slack=0.0):
    g = monitor.n64(got)
    ctx.expect(g.shape == want.shape, f"{label}: {what} of shape {g.shape} where {want.shape} is expected")
    tol = (1e-4 + slack) * (np.abs(want) + scale)
    bad = ~(np.abs(g - want) <= tol)
    ctx.see("values_compared", g.size)
    if bad.any():
        i = tuple(int(q) for q in np.argwhere(bad)[0])
        ctx.fail(f"{label}: {what} {g[i]} at {i} where {want[i]} is expected ({int(bad.sum())} of {g.size} off)")


def convex(ctx, label, attn, dim=-1):
    a = monitor.n64(attn)
    ctx.expect(not np.isnan(a).any() and (a >= 0).all(), f"{label}: a weight is negative or NaN ({a.min()})")
    s = a.sum(dim)
    ctx.expect(bool((np.abs(s - 1) <= 1e-5).all()), f"{label}: weights sum to {s.flatten()[np.abs(s - 1).argmax()]}, not one")
    ctx.see("weight_rows", s.size)


class Setup:
    pass


def setup(ctx, name, far=False, double=0.15):
    s = Setup()
    s.name = name
    s.H = ctx.choice([1, 2, 2, 3, 4, ctx.int(5, 8)])
    s.dh = ctx.choice([1, 2, 3, 4, ctx.int(5, 9)])
    s.D = s.H * s.dh if name in NAMES[4:] else ctx.choice([1, 2, 3, 4, 6, ctx.int(5, 16)])
    s.B = ctx.choice([1, 2, 3, 4, 5, ctx.int(6, 12)])
    s.V = ctx.choice([1, 2, 3, 4, 5, 7, ctx.int(6, 14)])
    s.Q = ctx.choice([1, 2, 3, 4, 5, ctx.int(6, 12)])
    if name in ("AdditiveAttention", "LocationAwareAttention", "MultiHeadLocationAwareAttention"):
        s.Q = 1
    if name == "AdditiveAttention" and ctx.chance(0.3):
        s.Q = s.V
    if name == "RelativeMultiHeadAttention":
        s.Q = s.V
    s.conv = ctx.choice([1, 2, 3, 10])
    turn = getattr(ctx, "turn", None)
    if turn is not None or ctx.chance(0.12):  # one size far beyond the others
        sizes = ["H", "dh", "D", "B", "V", "Q", "conv"]
        q = ctx.choice(sizes) if turn is None else sizes[turn % 7]
        opts = {"H": [6, 8, 16], "dh": [8, 16, 33], "D": [8, 17, 40, 64], "B": [8, 17, 40], "V": [16, 33, 65, 130], "Q": [9, 17, 40], "conv": [16, 33]}[q]
        v = ctx.choice(opts) if turn is None else opts[-1 - turn // 7 % 2]
        if q == "D" and name in NAMES[4:]:
            q, v = "dh", ctx.choice([8, 16])
        if q == "Q" and s.Q == 1 and name in NAMES[2:5]:
            q, v = "V", ctx.choice([16, 33, 65])
        setattr(s, q, v)
        s.D = s.H * s.dh if name in NAMES[4:] else s.D
        if name == "RelativeMultiHeadAttention":
            s.V = s.Q = min(max(s.V, s.Q) if q in "VQ" else s.V, 40)
        if name == "AdditiveAttention" and s.Q > 1:
            s.Q = s.V
        ctx.see("large_settings")
    s.smooth = ctx.chance(0.5)
    A = api.ns.attentions
    with ctx.cut(f"building {name}"):
        if name == "ScaledDotProductAttention":
            s.mod = A.ScaledDotProductAttention(s.D)
        elif name == "DotProductAttention":
            s.mod = A.DotProductAttention(s.D)
        elif name == "AdditiveAttention":
            s.mod = A.AdditiveAttention(s.D)
        elif name == "LocationAwareAttention":
            s.mod = A.LocationAwareAttention(s.D, s.smooth) if not s.smooth or ctx.chance(0.5) else A.LocationAwareAttention(s.D)
        elif name == "MultiHeadLocationAwareAttention":
            s.mod = A.MultiHeadLocationAwareAttention(s.D, s.H, s.conv)
        elif name == "MultiHeadAttention":
            s.mod = A.MultiHeadAttention(s.D, s.H)
        elif name == "RelativeMultiHeadAttention":
            s.mod = A.RelativeMultiHeadAttention(s.D, s.H, ctx.choice([0.0, 0.1, 0.5]))
        else:
            s.mod = A.CustomizingAttention(s.D, s.H, s.conv)
    zoo.decoy(ctx, name, 0.15)
    if name in ("MultiHeadLocationAwareAttention", "CustomizingAttention"):
        ctx.expect(s.mod.conv1d.out_channels == s.conv, f"{name}: convolves the previous alignment into {s.mod.conv1d.out_channels} channels where {s.conv} are asked for")
    with torch.no_grad():
        for p in s.mod.parameters():
            p.copy_(gen.t32(ctx.np.normal(size=tuple(p.shape)) * 0.7))
        if hasattr(s.mod, "score_proj") and ctx.chance(0.4):  # scores all very low or high
            s.mod.score_proj.bias.add_(ctx.choice([-4.0, -9.0, -16.0, 9.0, 16.0, 120.0, -120.0, -400.0]))
            ctx.see("shifted_scores")
    s.mod.eval()
    s.double = ctx.chance(double)
    if s.double:
        s.mod.double()
        ctx.see("double_precision")
    s.scale = ctx.choice([1.0, 1.0, 0.1, 3.0])
    s.mag, s.back = 0.0, False
    if far and ctx.chance(0.15):  # queries and keys far from the usual
        s.scale = ctx.choice([30.0, 100.0])
        s.back = ctx.chance(0.5)  # keys as much smaller: the scores stay moderate
        ctx.see("far_inputs")
    return s


def t(ctx, *shape, scale=1.0):
    return gen.t32(ctx.np.normal(size=shape) * scale)


def mask_for(ctx, B, Q, V, density=None):
    """True marks a masked position; every query keeps at least one."""
    m = ctx.np.random((B, Q, V)) < (ctx.choice([0.2, 0.5, 0.8]) if density is None else density)
    style = ctx.choice(["random", "random", "causal", "padding", "none"])
    if style == "causal":
        m = np.broadcast_to(np.triu(np.ones((Q, V), bool), 1), (B, Q, V)).copy()
    elif style == "padding":
        n = ctx.np.integers(1, V + 1, size=B)
        m = np.broadcast_to((np.arange(V)[None] >= n[:, None])[:, None, :], (B, Q, V)).copy()
    elif style == "none":
        m[:] = False
    keep = ctx.np.integers(0, V, size=(B, Q))
    for b in range(B):
        for q in range(Q):
            if m[b, q].all():
                m[b, q, keep[b, q]] = False
    return style, torch.tensor(m)


def make_inputs(ctx, s):
    k = s.scale
    s.mask = None
    if s.name == "ScaledDotProductAttention":
        a = [t(ctx, s.B, s.Q, s.D, scale=k), t(ctx, s.B, s.V, s.D, scale=k), t(ctx, s.B, s.V, ctx.choice([s.D, s.D, 3]), scale=k)]
    elif s.name == "DotProductAttention":
        a = [t(ctx, s.B, s.Q, s.D, scale=k), t(ctx, s.B, s.V, s.D, scale=k)]
    elif s.name == "AdditiveAttention":
        a = [t(ctx, s.B, s.Q, s.D, scale=k), t(ctx, s.B, s.V, s.D, scale=k), t(ctx, s.B, s.V, ctx.choice([s.D, 3]), scale=k)]
    elif s.name == "LocationAwareAttention":
        a = [t(ctx, s.B, 1, s.D, scale=k), t(ctx, s.B, s.V, s.D, scale=k), None if ctx.chance(0.3) else t(ctx, s.B, s.V).softmax(-1)]
    elif s.name == "MultiHeadLocationAwareAttention":
        a = [t(ctx, s.B, 1, s.D, scale=k), t(ctx, s.B, s.V, s.D, scale=k), None if ctx.chance(0.3) else t(ctx, s.B, s.H, s.V).softmax(-1)]
    elif s.name == "MultiHeadAttention":
        a = [t(ctx, s.B, s.Q, s.D, scale=k), t(ctx, s.B, s.V, s.D, scale=k), t(ctx, s.B, s.V, s.D, scale=k)]
    elif s.name == "RelativeMultiHeadAttention":
        a = [t(ctx, s.B, s.Q, s.D, scale=k), t(ctx, s.B, s.V, s.D, scale=k), t(ctx, s.B, s.V, s.D, scale=k), t(ctx, s.B, s.V, s.D, scale=k)]
    else:
        a = [t(ctx, s.B, s.Q, s.D, scale=k), t(ctx, s.B, s.V, s.D, scale=k), None if ctx.chance(0.3) else t(ctx, s.B * s.H, s.V).softmax(-1)]
    if s.name in ("ScaledDotProductAttention", "MultiHeadAttention", "RelativeMultiHeadAttention") and ctx.chance(0.7):
        style, s.mask = mask_for(ctx, s.B, s.Q, s.V)
        s.mstyle = style
        if s.name == "RelativeMultiHeadAttention" and style in ("padding", "none") and ctx.chance(0.7):
            s.mask = s.mask[:, :1]
    if s.back:
        a[1] = a[1] / s.scale**2
        if s.name == "RelativeMultiHeadAttention":
            a[3] = a[3] / s.scale**2
    if ctx.chance(0.3):  # self-attention: one tensor in several places
        if s.name in NAMES_QKV and a[2].shape == a[1].shape:
            a[2] = a[1]
            ctx.see("shared_arguments")
        if a[0].shape == a[1].shape and ctx.chance(0.7):
            a[0] = a[1]
            ctx.see("shared_arguments")
        if s.name == "RelativeMultiHeadAttention" and ctx.chance(0.3):
            a[3] = a[1]
    return a


def invoke(ctx, s, args, mask="own"):
    m = s.mask if isinstance(mask, str) else mask
    args = list(args)
    if m is not None:
        args = args + [m]
    if s.double:
        args = [v.double() if torch.is_tensor(v) and v.dtype.is_floating_point else v for v in args]
    out = monitor.read(ctx, s.name, s.mod, *args, inference=False)
    for v in (out,) if torch.is_tensor(out) else out:
        ctx.expect(v.dtype == (torch.float64 if s.double else torch.float32), f"{s.name}: returns {v.dtype} in {'double' if s.double else 'single'} precision")
    if torch.is_tensor(out):
        return out, None
    ctx.expect(len(out) == 2, f"{s.name}: returns {len(out)} values")
    return out


def lin(m, x, bias=True):
    y = x @ monitor.n64(m.weight).T
    return y + monitor.n64(m.bias) if m.bias is not None and bias else y


def heads(x, H):
    """[B, T, H*d] -> [B, H, T, d]"""
    B, T, D = x.shape
    return x.reshape(B, T, H, D // H).transpose(0, 2, 1, 3)


def conv3(x, m):
    """1d convolution with kernel 3 and one zero on either side; x [B, C, V]"""
    W, b = monitor.n64(m.weight), monitor.n64(m.bias)
    p = np.pad(x, ((0, 0), (0, 0), (1, 1)))
    V = x.shape[-1]
    out = sum(np.einsum("bcv,oc->bov", p[:, :, k : k + V], W[:, :, k]) for k in range(3))
    return out + b[None, :, None]


def formula(s, args, mask):
    """(context, weights [B, H, Q, V]) of the documented score."""
    m = s.mod
    a = [None if v is None else monitor.n64(v) for v in args]
    neg = None if mask is None else np.broadcast_to(mask.numpy(), (s.B, s.Q, s.V))[:, None]
    n = s.name
    big = lambda *v: float(max(np.linalg.norm(q, axis=-1).max() for q in v)) if v else 0.0
    if n == "ScaledDotProductAttention":
        sc = np.einsum("bqd,bkd->bqk", a[0], a[1])[:, None] / math.sqrt(s.D)
        s.mag = big(a[0]) * big(a[1]) / math.sqrt(s.D)
    elif n == "DotProductAttention":
        sc = np.einsum("bqd,bkd->bqk", a[0], a[1])[:, None]
        s.mag = big(a[0]) * big(a[1])
    elif n == "AdditiveAttention":
        h = np.tanh(lin(m.key_proj, a[1]) + lin(m.query_proj, a[0]) + monitor.n64(m.bias))
        sc = lin(m.score_proj, h)[..., 0][:, None, None]
    elif n == "LocationAwareAttention":
        last = a[2] if a[2] is not None else np.zeros((s.B, s.V))
        cv = conv3(last[:, None], m.conv1d).transpose(0, 2, 1)
        h = np.tanh(lin(m.query_proj, a[0]) + lin(m.value_proj, a[1]) + cv + monitor.n64(m.bias))
        sc = lin(m.score_proj, h)[..., 0][:, None, None]
        if s.smooth:
            w = softmax(-np.logaddexp(0.0, -sc))  # normalized sigmoids
            return np.einsum("bhqv,bvd->bd", w, a[1]), w
        w = softmax(sc)
        return np.einsum("bhqv,bvd->bd", w, a[1]), w
    elif n == "MultiHeadLocationAwareAttention":
        last = a[2] if a[2] is not None else np.zeros((s.B, s.H, s.V))
        loc = np.tanh(lin(m.loc_proj, conv3(last, m.conv1d).transpose(0, 2, 1)))  # B V d
        q, v = heads(lin(m.query_proj, a[0]), s.H), heads(lin(m.value_proj, a[1]), s.H)
        h = np.tanh(v + q + loc[:, None] + monitor.n64(m.bias))
        sc = lin(m.score_proj, h)[..., 0]  # B H V
        w = softmax(sc)[:, :, None]
        c = np.einsum("bhqv,bhvd->bqhd", w, v).reshape(s.B, 1, s.D)
        return c, w
    elif n == "MultiHeadAttention":
        q, k, v = [heads(lin(p, x), s.H) for p, x in zip((m.query_proj, m.key_proj, m.value_proj), a)]
        sc = np.einsum("bhqd,bhkd->bhqk", q, k) / math.sqrt(s.dh)
        s.mag = big(q) * big(k) / math.sqrt(s.dh)
        if neg is not None:
            sc = np.where(neg, -np.inf, sc)
        w = softmax(sc)
        return np.einsum("bhqv,bhvd->bqhd", w, v).reshape(s.B, s.Q, s.D), w
    elif n == "RelativeMultiHeadAttention":
        q = heads(lin(m.query_proj, a[0]), s.H)
        k, v = heads(lin(m.key_proj, a[1]), s.H), heads(lin(m.value_proj, a[2]), s.H)
        pe = heads(lin(m.pos_proj, a[3]), s.H)
        u, vb = monitor.n64(m.u_bias)[None, :, None], monitor.n64(m.v_bias)[None, :, None]
        cs = np.einsum("bhqd,bhkd->bhqk", q + u, k)
        ps = np.einsum("bhqd,bhkd->bhqk", q + vb, pe)
        T = s.Q
        sh = np.zeros_like(ps)
        for i in range(T):  # the Transformer-XL relative shift
            for j in range(T):
                r, c = divmod(T + i * T + j, T + 1)
                sh[..., i, j] = 0.0 if c == 0 else ps[..., r, c - 1]
        sc = (cs + sh) / math.sqrt(s.D)
        s.mag = 2 * big(q + u, q + vb) * big(k, pe) / math.sqrt(s.D)
        if neg is not None:
            sc = np.where(neg, -np.inf, sc)
        w = softmax(sc)
        c = np.einsum("bhqv,bhvd->bqhd", w, v).reshape(s.B, s.Q, s.D)
        return lin(m.out_proj, c), w
    else:
        last = a[2] if a[2] is not None else np.zeros((s.B * s.H, s.V))
        cf = conv3(last[:, None], m.conv1d).reshape(s.B, s.H, -1, s.V).transpose(0, 1, 3, 2)
        loc = lin(m.loc_proj, cf)  # B H V d
        q = heads(lin(m.query_proj, a[0]), s.H)
        v = heads(lin(m.value_proj, a[1]), s.H) + loc + monitor.n64(m.bias).reshape(s.H, 1, s.dh)[None]
        sc = np.einsum("bhqd,bhkd->bhqk", q, v) / math.sqrt(s.dh)
        s.mag = big(q) * big(v) / math.sqrt(s.dh)
        w = softmax(sc)
        return np.einsum("bhqv,bhvd->bqhd", w, v).reshape(s.B, s.Q, s.D), w
    if neg is not None:
        sc = np.where(neg, -np.inf, sc)
    w = softmax(sc)
    val = a[2] if n != "DotProductAttention" else a[1]
    return np.einsum("bhqv,bvd->bqd", w, val), w


def by_sample(s, attn):
    """Returned weights as [B, H, Q, V] candidates: multi-head attention returns
    them flattened over (heads, samples)."""
    a = monitor.n64(attn)
    if s.name in ("ScaledDotProductAttention", "DotProductAttention"):
        return [a.reshape(s.B, 1, s.Q, s.V)]
    if s.name in ("AdditiveAttention", "LocationAwareAttention"):
        return [a.reshape(s.B, 1, 1, s.V)]
    if s.name == "MultiHeadLocationAwareAttention":
        return [a.reshape(s.B, s.H, 1, s.V)]
    if s.name == "MultiHeadAttention":
        return [a.reshape(s.H, s.B, s.Q, s.V).transpose(1, 0, 2, 3), a.reshape(s.B, s.H, s.Q, s.V)]
    return [a.reshape(s.B, s.H, s.Q, s.V)]


def pick(ctx, s, attn, w):
    if attn.numel() != w.size:
        ctx.fail(f"{s.name}: returns {tuple(attn.shape)} weights where {w.size} are expected")
    c = by_sample(s, attn)
    return min(c, key=lambda q: np.abs(q - w).max())


def rounding(s):
    """Rounding of a score of magnitude m moves a weight by a share of about eps m."""
    return 0.0 if s.double else min(64 * 1.2e-7 * s.mag, 0.2)


def check(ctx, s, args):
    ctxv, attn = invoke(ctx, s, args)
    label = f"{s.name} (batch {s.B}, {s.Q} queries, {s.V} positions, width {s.D}, {s.H} heads)"
    want, w = formula(s, args, s.mask)
    scale = max(1.0, np.abs(want).max())
    slack = rounding(s)
    near(ctx, label, ctxv, want, scale, "context", slack)
    if attn is not None:
        convex(ctx, label, attn)
        a = pick(ctx, s, attn, w)
        near(ctx, label, torch.tensor(a), w, 1.0, "weight", slack)
        if s.mask is not None:
            m = np.broadcast_to(s.mask.numpy(), (s.B, s.Q, s.V))[:, None]
            ctx.expect(bool((a[np.broadcast_to(m, a.shape)] == 0).all()), f"{label}: a masked position has weight {a[np.broadcast_to(m, a.shape)].max(initial=0)}")
            ctx.see("masked_weights", int(m.sum()) * a.shape[1])
    ctx.see("calls_" + s.name)
    return ctxv, attn


def random_case(ctx):
    s = setup(ctx, NAMES[ctx.index % len(NAMES)], far=True)
    args = make_inputs(ctx, s)
    for _ in range(ctx.choice([1, 2])):
        check(ctx, s, args)
        args = make_inputs(ctx, s)
    ctx.describe(module=s.name, batch=s.B, queries=s.Q, positions=s.V, width=s.D, heads=s.H, masked=s.mask is not None)
    ctx.sig(s.name, s.B, s.Q, s.V, s.D, s.H, s.conv, s.smooth, s.mask is None)


def rows(s, v, idx):
    """Samples idx of an argument or result."""
    if v is None:
        return None
    if s.name == "CustomizingAttention" and v.shape[0] == s.B * s.H and not (s.H == 1):
        return v.reshape(s.B, s.H, *v.shape[1:])[idx].reshape(len(idx) * s.H, *v.shape[1:])
    return v[idx]


def independent(ctx):
    """Samples neither see nor influence each other."""
    s = setup(ctx, NAMES[ctx.index % len(NAMES)], double=0.6)
    s.B = ctx.choice([2, 3, 4, 5])
    args = make_inputs(ctx, s)
    out, attn = invoke(ctx, s, args)
    formula(s, args, s.mask)  # for the size of the scores
    tol = (1e-5 + rounding(s)) * (1 + out.detach().abs().max())

    def close(a, b):
        return a.shape == b.shape and bool(((a - b).abs() <= tol).all())

    # permuted
    perm = ctx.np.permutation(s.B)
    pa = [rows(s, v, perm) if v is None or s.name == "CustomizingAttention" and i == 2 else v[perm] for i, v in enumerate(args)]
    o2, _ = invoke(ctx, s, pa, None if s.mask is None else s.mask[perm])
    ctx.expect(close(o2, out[perm]), f"{s.name}: permuting the batch does not permute the outputs")
    # alone
    b = ctx.int(0, s.B - 1)
    one = [rows(s, v, [b]) if v is None or s.name == "CustomizingAttention" and i == 2 else v[[b]] for i, v in enumerate(args)]
    o3, _ = invoke(ctx, s, one, None if s.mask is None else s.mask[[b]])
    ctx.expect(close(o3, out[[b]]), f"{s.name}: sample {b} evaluated alone differs from the same sample in a batch")
    # disturb the others, their masks included
    dist = []
    for i, v in enumerate(args):
        if v is None:
            dist.append(None)
            continue
        n = v.clone()
        H = s.H if s.name == "CustomizingAttention" and i == 2 else 1
        for o in range(s.B):
            if o != b:
                n[o * H : (o + 1) * H] = t(ctx, *n[o * H : (o + 1) * H].shape)
        dist.append(n)
    m2 = None
    if s.mask is not None:
        _, m2 = mask_for(ctx, s.B, s.Q, s.V)
        m2 = m2[:, : s.mask.shape[1]].clone()
        for o in range(s.B):  # keep one open for a shared row
            if s.mask.shape[1] == 1 and bool(m2[o].all()):
                m2[o, 0, 0] = False
        if ctx.chance(0.4):  # nothing at all is visible to another sample; what it gets is its own affair
            m2[(b + ctx.int(1, s.B - 1)) % s.B] = True
            ctx.see("blind_samples")
        m2[b] = s.mask[b]
    o4, _ = invoke(ctx, s, dist, m2)
    ctx.expect(close(o4[[b]], out[[b]]), f"{s.name}: other samples (or their masks) change the result of sample {b}")
    # what is masked for everybody in the sample does not matter
    if s.mask is not None and s.name != "DotProductAttention":
        full = np.broadcast_to(s.mask.numpy(), (s.B, s.Q, s.V)).all(1)
        if full.any():
            ch = [v.clone() for v in args]
            for bb, vv in np.argwhere(full):
                for q in (1, 2):
                    ch[q][bb, vv] = 50.0
            o5, a5 = invoke(ctx, s, ch)
            ctx.expect(close(o5, out), f"{s.name}: the content of a masked position changes the result")
            ctx.see("masked_positions_disturbed", int(full.sum()))
    ctx.see("independence_checks")
    ctx.describe(module=s.name, batch=s.B, sample=b, masked=s.mask is not None)
    ctx.sig("indep", s.name, s.B, s.Q, s.V, s.D, s.H, s.mask is None)


def decode(ctx):
    """The returned alignment is the previous alignment of the next step."""
    s = setup(ctx, ["LocationAwareAttention", "MultiHeadLocationAwareAttention", "CustomizingAttention"][ctx.index % 3])
    s.B, s.Q = ctx.choice([2, 3, 4]), 1
    val = t(ctx, s.B, s.V, s.D, scale=s.scale)
    last, ref_last = None, None
    single = [None] * s.B
    steps = ctx.int(2, 5)
    for k in range(steps):
        q = t(ctx, s.B, 1, s.D, scale=s.scale)
        s.mask = None
        args = [q, val, last]
        c, attn = check(ctx, s, args)
        # each sample on its own, keeping its own alignment
        for b in range(s.B):
            c1, a1 = invoke(ctx, s, [q[[b]], val[[b]], single[b]])
            ctx.expect(bool(((c1[0] - c[b]).abs() <= (1e-4 + rounding(s)) * (1 + c[b].abs().max())).all()), f"{s.name}: step {k}: sample {b} fed its own alignment differs from the batch fed the batch's alignment")
            single[b] = a1.detach()
            ctx.see("alignments_handed_back")
        last = attn.detach()
    ctx.see("decodes")
    ctx.describe(module=s.name, batch=s.B, steps=steps, positions=s.V, heads=s.H)
    ctx.sig("decode", s.name, s.B, s.V, s.D, s.H, steps)


def training(ctx):
    """Gradients flow to every part and a step changes the result accordingly."""
    ctx.tracked = True
    s = setup(ctx, NAMES[ctx.index % len(NAMES)])
    args = [v if v is None else v.clone().requires_grad_(True) for v in make_inputs(ctx, s)]
    out, _ = invoke(ctx, s, args)
    with ctx.cut(f"{s.name} backward"):
        (out * t(ctx, *out.shape)).sum().backward()
    for v in args[:2]:
        ctx.expect(v.grad is not None and bool(torch.isfinite(v.grad).all()), f"{s.name}: an input receives no finite gradient")
    with torch.no_grad():
        for p in s.mod.parameters():
            if p.grad is not None:
                p.sub_(0.05 * p.grad.clamp(-1, 1))
    check(ctx, s, [v if v is None else v.detach() for v in args])
    ctx.see("training_steps")
    ctx.describe(module=s.name)
    ctx.sig("train", s.name, s.B, s.Q, s.V, s.D, s.H)


def sharp(ctx):
    """Scores of any magnitude: what is masked stays out even where it scores highest by far."""
    name = ["ScaledDotProductAttention", "MultiHeadAttention", "RelativeMultiHeadAttention", "DotProductAttention", "CustomizingAttention"][ctx.index % 5]
    while True:  # a width whose root is a whole power of two, so that scores are exact however they are scaled
        s = setup(ctx, name)
        if {"ScaledDotProductAttention": s.D, "RelativeMultiHeadAttention": s.D, "DotProductAttention": 1}.get(name, s.dh) in (1, 4, 16):
            break
    s.B, s.V = ctx.choice([1, 2, 3]), ctx.choice([2, 3, 4, 6])
    s.Q = s.V if name == "RelativeMultiHeadAttention" else ctx.choice([1, 2, 3])
    for n, p in s.mod.named_parameters():  # every projection the identity: whole numbers stay exact
        with torch.no_grad():
            p.copy_(torch.eye(*p.shape) if p.dim() == 2 and p.shape[0] == p.shape[1] == s.D and "bias" not in n else torch.zeros_like(p))
    big = float(10 ** ctx.choice([1, 2, 3, 4, 5, 6]))
    whole = lambda *sh: torch.tensor(ctx.np.integers(-3, 4, size=sh), dtype=torch.float32)
    q, k, v = whole(s.B, s.Q, s.D), whole(s.B, s.V, s.D) * big, whole(s.B, s.V, s.D)
    if name in ("DotProductAttention", "CustomizingAttention"):
        args = [q, k] + ([None] if name == "CustomizingAttention" else [])
        s.mask = None
    else:
        args = [q, k, v] + ([torch.zeros(s.B, s.V, s.D)] if name == "RelativeMultiHeadAttention" else [])
        sc = torch.einsum("bqd,bkd->bqk", q, k)
        best = sc.argmax(-1, keepdim=True)
        m = torch.zeros(s.B, s.Q, s.V, dtype=torch.bool).scatter_(2, best, True)  # the best position is masked
        m |= torch.tensor(ctx.np.random((s.B, s.Q, s.V)) < 0.3)
        m[..., 0] &= ~m.all(-1)
        s.mask = m
        ctx.see("best_scores_masked", int(m.gather(2, best).sum()))
    c, attn = check(ctx, s, args)
    if s.mask is not None:
        # the masked contents may be anything: outputs stay within what is left
        w = formula(s, args, s.mask)[1]
        lo = np.where(np.broadcast_to(s.mask.numpy()[:, None], w.shape)[..., None], np.inf, monitor.n64(v).reshape(s.B, 1, 1, s.V, s.D))
        hi = np.where(np.isinf(lo), -np.inf, lo)
        if name == "ScaledDotProductAttention":
            g = monitor.n64(c)
            ctx.expect(bool((g >= lo.min(3)[:, 0] - 1e-4).all() and (g <= hi.max(3)[:, 0] + 1e-4).all()), f"{name}: a result lies outside the values left by the mask")
    ctx.see("sharp_scores")
    ctx.describe(module=name, magnitude=big, batch=s.B, positions=s.V)
    ctx.sig("sharp", name, big, s.B, s.Q, s.V, s.D, s.H)


def large(ctx):
    ctx.turn = ctx.index // len(NAMES)
    s = setup(ctx, NAMES[ctx.index % len(NAMES)])
    for _ in range(2):
        check(ctx, s, make_inputs(ctx, s))
    ctx.describe(module=s.name, batch=s.B, queries=s.Q, positions=s.V, width=s.D, heads=s.H)
    ctx.sig("large", s.name, s.B, s.Q, s.V, s.D, s.H, s.conv)


SCENARIOS = {"large": (large, 168, 1680), "sharp": (sharp, 200, 3000), "random": (random_case, 480, 9000), "independent": (independent, 320, 6000), "decode": (decode, 120, 2100), "training": (training, 120, 2000)}
MUST_SEE = ["blind_samples", "decoys", "large_settings", "shifted_scores", "sharp_scores", "best_scores_masked", "values_compared", "weight_rows", "masked_weights", "independence_checks", "masked_positions_disturbed", "alignments_handed_back", "decodes", "training_steps", "shared_arguments", "far_inputs", "double_precision"]
RULE = "one case = a module with sizes, weights, inputs, mask or previous alignment; distinct by module and sizes"
ASSUMPTIONS = ["every query keeps at least one unmasked position", "projections are linear layers under their documented names",
               "the relative-position score uses the Transformer-XL shift and is divided by the square root of the model width"]
