"""C14: normalizations."""
import numpy as np
import torch

from hol import api, gen, monitor, zoo
from hol import ref as R

E32, E64 = 2.0**-23, 2.0**-52

# name: (family, dimension rule, function form, module form)
FORMS = {
    "max_abs": ("abs", 1, "max_abs_normalization", "MaxAbsNormalization"),
    "max_abs_last": ("abs", -1, "max_abs_normalization_last", "MaxAbsNormalizationLast"),
    "max_abs_nd": ("abs", "all", "max_abs_normalization_nd", "MaxAbsNormalizationND"),
    "max_center": ("center", 1, "max_center_normalization", "MaxCenterNormalization"),
    "max_center_last": ("center", -1, "max_center_normalization_last", "MaxCenterNormalizationLast"),
    "max_center_nd": ("center", "all", "max_center_normalization_nd", "MaxCenterNormalizationND"),
    "l2": ("l2", 1, "l2_normalization", "L2Normalization"),
}
NAMES = list(FORMS)


def reference(family, x, axes, eps, ulp):
    a = np.abs(x)
    if family == "abs":
        m = a.max(axis=axes, keepdims=True)
        v = x / (m + eps)
        return v, 16 * ulp * np.abs(v) + 1e-44
    if family == "center":
        hi, lo = x.max(axis=axes, keepdims=True), x.min(axis=axes, keepdims=True)
        half, mid = 0.5 * (hi - lo), 0.5 * (hi + lo)
        v = (x - mid) / (half + eps)
        size = np.maximum(np.abs(hi), np.abs(lo))
        err = 8 * ulp * (size + a)
        # a half range lost in rounding cannot be resolved: bounded by the range check only
        tol = err / (half + eps) * (1 + np.abs(v)) + 16 * ulp * np.abs(v)
        return v, tol + 1e-44
    s = a.max(axis=axes, keepdims=True)
    s1 = np.where(s > 0, s, 1)
    m = s1 * np.sqrt(((x / s1) ** 2).sum(axis=axes, keepdims=True))
    v = x / (m + eps)
    n = x.shape[axes[0]]
    # float32 squares may under- or overflow
    hard = (s > 1e18) | ((s < 1e-15) & (eps < 1e-9))
    return v, np.where(hard, np.inf, (16 + n) * ulp * np.abs(v) + 1e-10 * np.abs(v) + 1e-44)


def sample_values(ctx, shape, dt):
    g = ctx.np
    style = ctx.choice(["normal", "normal", "uniform", "big", "tiny", "zeros", "constant", "nearly", "mixed", "negative", "single", "ints", "signed_zero"])
    x = g.normal(size=shape)
    if style == "uniform":
        x = g.uniform(0, 1, size=shape)
    elif style == "big":
        x = x * 10.0 ** g.uniform(3, 15)
    elif style == "tiny":
        x = x * 10.0 ** g.uniform(-25, -5)
    elif style == "zeros":
        x = x * 0
    elif style == "constant":
        x = np.full(shape, g.normal() * 10.0 ** g.uniform(-3, 5))
    elif style == "nearly":
        base = np.float32(abs(g.normal()) * 10.0 ** g.uniform(-2, 6))
        steps = g.integers(0, 3, size=shape)
        up1 = np.nextafter(base, np.float32(np.inf))
        up2 = np.nextafter(up1, np.float32(np.inf))
        x = np.where(steps == 0, base, np.where(steps == 1, up1, up2)).astype(float) * g.choice([-1.0, 1.0])
    elif style == "mixed":
        x = x * 10.0 ** g.uniform(-6, 6, size=shape)
    elif style == "negative":
        x = -np.abs(x) - 0.1
    elif style == "single":
        m = np.zeros(int(np.prod(shape)))
        m[g.integers(0, m.size)] = g.normal()
        x = m.reshape(shape)
    elif style == "ints":
        x = np.round(x * 3)
    elif style == "signed_zero":
        x = np.where(g.random(shape) < 0.5, -0.0, x)
    t = torch.tensor(x, dtype=torch.float32)
    return style, t.to(dt)


def axes_of(rule, nd):
    if rule == "all":
        return tuple(range(1, nd))
    return (rule % nd,)


def apply_form(ctx, name, x, eps, dim, how):
    fam, rule, fn, mod = FORMS[name]
    U, Ls = api.ns.utils, api.ns.layers
    kw = {}
    if eps is not None:
        kw["eps"] = eps
    if dim is not None:
        kw["dim"] = dim
    if how == "module":
        with ctx.cut(f"building {mod}"):
            m = getattr(Ls, mod)(**kw)
        if ctx.chance(0.15):  # another one, with another guard, must not matter
            with ctx.cut(f"building and using another {mod}"):
                getattr(Ls, mod)(eps=ctx.choice([0.25, 1e-3]))(torch.ones(2, 3, 2, 2))
            ctx.see("decoys")
        return monitor.read(ctx, f"{mod}{kw}", m, x)
    return monitor.read(ctx, f"{fn}{kw}", getattr(U, fn), x, **kw)


def verify(ctx, label, y, x, fam, axes, eps, dim0=False):
    ulp = E32 if x.dtype == torch.float32 else E64
    ctx.expect(torch.is_tensor(y) and tuple(y.shape) == tuple(x.shape), f"{label}: shape {tuple(x.shape)} became {tuple(y.shape)}")
    ctx.expect(y.dtype == x.dtype, f"{label}: dtype {x.dtype} became {y.dtype}")
    v, tol = reference(fam, monitor.n64(x), axes, eps, ulp)
    a = monitor.n64(y)
    fin = np.isfinite(tol)
    ctx.expect(not np.isnan(a).any(), f"{label}: NaN in the output")
    bad = fin & ~(np.abs(a - v) <= tol)
    ctx.see("values_compared", int(fin.sum()))
    if bad.any():
        i = tuple(int(q) for q in np.argwhere(bad)[0])
        ctx.fail(f"{label}: {a[i]} at {i} where {v[i]} +- {tol[i]:.3g} is expected", shape=list(x.shape))
    if fam in ("abs", "center"):
        ctx.see("range_checks", a.size)
        ctx.expect(bool((np.abs(a) <= 1 + 64 * ulp).all()), f"{label}: output {np.abs(a).max()} is outside [-1, 1]", x=x.flatten()[:6].tolist())
    # zero samples stay zero
    z = (monitor.n64(x) == 0).all(axis=axes, keepdims=True)
    if z.any():
        ctx.see("zero_slices", int(z.sum()))
        ctx.expect(bool((a[np.broadcast_to(z, a.shape)] == 0).all()), f"{label}: a zero sample does not stay zero")


def random_case(ctx):
    name = NAMES[ctx.index % len(NAMES)]
    fam, rule, fn, mod = FORMS[name]
    nd = ctx.choice([2, 2, 2, 3, 4, 5, 6] if rule != -1 else [1, 2, 2, 3, 4, 5, 6])
    if name == "max_abs_nd" or name == "max_center_nd":
        nd = ctx.choice([2, 3, 4, 4, 5])
    shape = tuple(ctx.int(1, 6) for _ in range(nd))
    if ctx.chance(0.2):
        shape = shape[:-1] + (ctx.choice([33, 100]),)
    elif ctx.chance(0.15):  # one dimension far beyond the others, the batch as often as any
        k = 0 if ctx.chance(0.5) else ctx.int(0, nd - 1)
        shape = shape[:k] + (ctx.choice([65, 130, 300]),) + shape[k + 1 :]
        ctx.see("large_shapes")
    dt = ctx.choice([torch.float32, torch.float32, torch.float32, torch.float64])
    style, x = sample_values(ctx, shape, dt)
    how, xl = gen.layout(ctx, x)
    x = xl.clone()
    eps = ctx.choice([None, None, 1e-6, 1e-3, 1e-8, 0.5])
    form = ctx.choice(["module", "function"])
    dim = None
    if name == "max_abs" and ctx.chance(0.5):
        dim = ctx.int(-nd, nd - 1)
    if name == "max_center" and form == "function" and ctx.chance(0.5):
        dim = ctx.int(-nd, nd - 1)
    axes = axes_of(rule if dim is None else dim, nd)
    y = apply_form(ctx, name, xl, eps, dim, form)
    ctx.expect(torch.equal(x, xl), f"{name} changed its input")
    label = f"{name} ({form}, eps={eps}, dim={dim}) on {style} values"
    verify(ctx, label, y, x, fam, axes, 1e-6 if eps is None else eps)
    other = apply_form(ctx, name, x, eps, dim if (form == "function" and name == "max_abs") or form == "module" else None, "function" if form == "module" else "module") if not (name == "max_center" and dim is not None) else None
    if other is not None:
        lim = 8 * (E32 if dt == torch.float32 else E64)
        d = (other - y).abs()
        ctx.expect(bool((d <= lim * (1 + y.abs())).all()), f"{name}: function form and module form disagree by {float(d.max())}")
        ctx.see("forms_compared")
    ctx.describe(name=name, shape=list(shape), style=style, eps=eps, dim=dim, form=form, layout=how)
    ctx.sig(name, shape, style, eps, dim, form, how, str(dt))


def independence(ctx):
    """Whatever happens to other samples, a sample's result stays."""
    name = NAMES[ctx.index % len(NAMES)]
    fam, rule, fn, mod = FORMS[name]
    nd = ctx.choice([2, 3, 4])
    B = ctx.int(2, 6)
    shape = (B,) + tuple(ctx.int(1, 5) for _ in range(nd - 1))
    _, x = sample_values(ctx, shape, torch.float32)
    form = ctx.choice(["module", "function"])
    y = apply_form(ctx, name, x, None, None, form)
    if ctx.chance(0.2):  # no samples, no results
        none = apply_form(ctx, name, x[:0], None, None, form)
        ctx.expect(none.shape == x[:0].shape and none.dtype == x.dtype, f"{name}: an empty batch of shape {tuple(x[:0].shape)} became {tuple(none.shape)}")
        ctx.see("empty_batches")
    i = ctx.int(0, B - 1)
    z = x.clone()
    other = [q for q in range(B) if q != i]
    z[other] = gen.t32(ctx.np.normal(size=(B - 1,) + shape[1:]) * ctx.choice([1e6, 1.0, 1e-9]))
    if ctx.chance(0.3):
        z[ctx.choice(other)] = float("nan")
    yz = apply_form(ctx, name, z, None, None, form)
    ctx.expect(torch.allclose(yz[i], y[i], rtol=1e-6, atol=1e-30), f"{name}: sample {i} changed although only other samples did")
    one = apply_form(ctx, name, x[i : i + 1], None, None, form)
    ctx.expect(torch.allclose(one[0], y[i], rtol=1e-6, atol=1e-30), f"{name}: sample {i} alone gives another result than in its batch")
    perm = torch.tensor(ctx.np.permutation(B))
    yp = apply_form(ctx, name, x[perm], None, None, form)
    ctx.expect(torch.allclose(yp, y[perm], rtol=1e-6, atol=1e-30), f"{name}: permuting the batch does not permute the outputs")
    ctx.see("independence_checks")
    ctx.sig("indep", name, shape, form, i)


def layer_norm(ctx):
    Ls = api.ns.layers
    bias = ctx.choice([None, True, False])
    nd = ctx.choice([1, 2, 2, 3, 4, 5, 6])
    shape = tuple(ctx.int(1, 6 if nd < 5 else 3) for _ in range(nd - 1)) + (ctx.choice([1, 2, 3, 5, 16]),)
    if ctx.chance(0.2):
        k = ctx.int(0, nd - 1)
        shape = shape[:k] + (ctx.choice([65, 130, 300]),) + shape[k + 1 :]
        ctx.see("large_shapes")
    with ctx.cut("building LazyLayerNormLastDim"):
        m = Ls.LazyLayerNormLastDim() if bias is None else Ls.LazyLayerNormLastDim(bias=bias)
        double = ctx.chance(0.25)
        if double:  # before its size is known
            m = m.double()
            ctx.see("double_layer_norms")
    zoo.decoy(ctx, "LazyLayerNormLastDim", 0.15)
    eps = 2.0**-50 if double else E32
    D = shape[-1]
    for t in range(ctx.int(1, 3)):
        sh = tuple(ctx.int(1, 5) for _ in range(ctx.int(0, 3))) + (D,) if t else shape
        style = ctx.choice(["normal", "normal", "offset", "constant", "zeros", "big", "huge"])
        x = ctx.np.normal(size=sh)
        if style == "offset":
            x = x + 3
        elif style == "constant":
            x = x * 0 + 1.5
        elif style == "zeros":
            x = x * 0
        elif style == "big":
            x = x * 1e4
        elif style == "huge":
            x = x * ctx.choice([1e7, 1e10])
        x = torch.tensor(x, dtype=torch.float64) if double else gen.t32(x)
        y = monitor.call(ctx, "LazyLayerNormLastDim", m, x)
        ctx.expect(tuple(y.shape) == tuple(x.shape) and y.dtype == x.dtype, "lazily sized layer norm changed shape or dtype")
        ps = {k: monitor.n64(v) for k, v in m.named_parameters()}
        want = 1 if bias is False else 2
        ctx.expect(len(ps) == want and all(v.shape == (D,) for v in ps.values()), f"lazily sized layer norm has parameters { {k: v.shape for k, v in ps.items()} } where {want} of size {D} are expected")
        w = [v for k, v in ps.items() if k.endswith("weight")]
        b = [v for k, v in ps.items() if k.endswith("bias")]
        ctx.expect(len(w) == 1 and len(b) == want - 1, "lazily sized layer norm lacks its weight or bias")
        xx = monitor.n64(x)
        mu = xx.mean(-1, keepdims=True)
        var = xx.var(-1, keepdims=True)
        s = np.sqrt(var + 1e-5)
        v = (xx - mu) / s
        size = np.abs(xx).max(-1, keepdims=True)
        err = 32 * eps * (size + 1e-30) / s * (1 + np.abs(v)) * (1 + size / s)
        rel = 1e-10 if double else 1e-5
        err = np.minimum(err + rel * (1 + np.abs(v)), 1e-2 * (1 + np.abs(v)) + err)
        out = v * w[0] + (b[0] if b else 0)
        monitor.compare(ctx, f"lazily sized layer norm on {style} values", y, (out, err * np.abs(w[0]) + 0.1 * rel * (1 + np.abs(out))), shape=list(sh))
        if t == 0:
            ctx.expect(bool((w[0] == 1).all() and (not b or (b[0] == 0).all())), "a new layer norm does not start as plain standardisation")
        with torch.no_grad():
            for q in m.parameters():
                q.copy_(torch.tensor(ctx.np.normal(size=tuple(q.shape)), dtype=q.dtype))
        ctx.see("layer_norm_calls")
    ctx.sig("ln", bias, shape, style)


def tables(ctx):
    """The names by which normalizations are asked for."""
    U, Ls = api.ns.utils, api.ns.layers
    _, x = sample_values(ctx, (3, 4), torch.float32)
    for key, name in (("max_abs", "max_abs"), ("l2", "l2")):
        y = monitor.read(ctx, f"norm_type[{key}]", U.norm_type[key], x)
        verify(ctx, f"norm_type[{key!r}]", y, x, FORMS[name][0], (1,), 1e-6)
    for key, name in (("max_abs", "max_abs"), ("max_center", "max_center"), ("l2", "l2")):
        with ctx.cut(f"building normalization_layers[{key}]"):
            m = Ls.normalization_layers[key]()
        verify(ctx, f"normalization_layers[{key!r}]", monitor.read(ctx, key, m, x), x, FORMS[name][0], (1,), 1e-6)
    with ctx.cut("building normalization_layers[layer_norm]"):
        m = Ls.normalization_layers["layer_norm"]()
    z = gen.t32(ctx.np.normal(size=(4, 7)))
    y = monitor.call(ctx, "layer_norm", m, z)
    ctx.expect(bool((y.mean(-1).abs() < 1e-4).all()), "normalization_layers['layer_norm'] does not standardise the last dimension")
    ctx.see("named_normalizations", 6)
    ctx.sig("tables", ctx.index)


def max_abs_fn(ctx):
    nd = ctx.choice([2, 3, 4])
    shape = tuple(ctx.int(1, 5) for _ in range(nd))
    _, x = sample_values(ctx, shape, torch.float32)
    dim = ctx.choice([None] + list(range(-nd, nd)))
    y = monitor.read(ctx, "max_abs", api.ns.utils.max_abs, x) if dim is None else monitor.read(ctx, "max_abs", api.ns.utils.max_abs, x, dim=dim)
    want = np.abs(monitor.n64(x)).max(axis=1 if dim is None else dim, keepdims=True)
    ctx.expect(tuple(y.shape) == want.shape and bool((monitor.n64(y) == want).all()), f"max_abs over dim {dim} is not the largest magnitude with the dimension kept")
    ctx.sig("max_abs", shape, dim)


SCENARIOS = {
    "random": (random_case, 2100, 30000),
    "independence": (independence, 420, 6000),
    "layer_norm": (layer_norm, 250, 4000),
    "tables": (tables, 20, 200),
    "max_abs": (max_abs_fn, 60, 600),
}
MUST_SEE = ["empty_batches", "decoys", "values_compared", "range_checks", "zero_slices", "forms_compared", "independence_checks", "layer_norm_calls", "double_layer_norms", "named_normalizations"]
RULE = "one case = normalization, form (function or module), shape, dimension, eps, dtype, memory layout and value style (random, huge, tiny, zero, constant, one ulp apart, ...); distinct by that signature"
ASSUMPTIONS = ["inputs are finite and below 1e15 in size (1e18 for the Euclidean norm's squares)"]
