"""Monitors for refinement: the refined layer's outputs against the source
layer's link functions, with a bound that follows from rounding alone."""
import contextlib
import copy

import numpy as np
import torch

from hol import api, fc, gen, monitor
from hol import ref as R


def base(kind):
    return kind.replace("_prod", "")


def target_weights(kind, w, n, S, L, m, T):
    """Exact values the refined layer (m nodes, T segments) should hold, and how
    far float32 evaluation may put them off.  w [O, I, K]."""
    w = np.asarray(w, float)
    if base(kind) == "discontinuous":
        B, E = R.lagrange(n, R.nodes(m), 8 * R.EPS)
        ww = w.reshape(w.shape[0], w.shape[1], S, n)
        v = np.einsum("mk,oisk->oism", B, ww)
        d = np.einsum("mk,oisk->oism", E + (n + 8) * R.EPS * np.abs(B), np.abs(ww))
        sh = (w.shape[0], w.shape[1], T * m)
        return v.reshape(sh), (2 * d).reshape(sh) + R.FLOOR
    K = (m - 1) * T + 1
    if m == 1:
        pos = np.zeros(1)
    else:
        pos = np.empty(K)
        X = R.nodes(m)
        for k in range(T):
            pos[k * (m - 1) : k * (m - 1) + m] = -0.5 * L + (k + (X + 1) * 0.5) * (L / T)
    x = np.repeat(pos[:, None], w.shape[1], 1)
    _, F, Te, A = R.continuous_links(x, w, n, S, L, None, dx=16 * R.EPS * (np.abs(x) + L))
    v = np.transpose(F, (1, 2, 0))
    d = np.transpose(Te + (n + 8) * R.EPS * A, (1, 2, 0))
    return v, 2 * d + R.FLOOR


def reference(kind, x, w, n, S, L, p, m, T, alpha=1.0):
    """Value of the source layer and bound on what the refined one may give."""
    xx, ww = monitor.n64(x), monitor.n64(w)
    wild = ~(np.abs(xx) < 1e5)
    if wild.any():  # a network may run away; such rows are not judged
        v, tol = reference(kind, torch.tensor(np.where(wild, 0.0, xx)), w, n, S, L, p, m, T, alpha)
        tol = tol.copy()
        tol[wild.any(-1)] = np.inf
        return v, tol
    if base(kind) == "continuous":
        q0 = R.continuous_links(xx, ww, n, S, L, p)
    else:
        B, E = R.basis("discontinuous", xx, n, S, L, p)
        q0 = (B,) + R.links(B, E, ww)
    wt, dw = target_weights(kind, ww, n, S, L, m, T)
    if base(kind) == "continuous":
        q1 = R.continuous_links(xx, wt, m, T, L, p)
        qd = R.continuous_links(xx, dw, m, T, L, p)
    else:
        B, E = R.basis("discontinuous", xx, m, T, L, p)
        q1 = (B,) + R.links(B, E, wt)
        qd = (B,) + R.links(B, E, dw)
    B1, F1, T1, A1 = q1
    D = qd[2] + qd[3]
    Tq, Aq = np.maximum(q0[2], T1) + D, np.maximum(q0[3], A1)
    q = (B1, q0[1], Tq, Aq)
    return R.prod_links(*q, alpha) if kind.endswith("_prod") else R.sum_links(*q)


@contextlib.contextmanager
def precision(ctx, src, dst):
    """Now and then the refinement itself runs on models in double precision."""
    pair = [m for m in (src, dst) if ctx.chance(0.7)] if ctx.chance(0.2) else []
    if any(isinstance(q, torch.nn.parameter.UninitializedTensorMixin) for m in pair for q in list(m.parameters()) + list(m.buffers())):
        pair = []
    for m in pair:
        m.double()
    yield
    for m in pair:
        m.float()
        ctx.see("refinements_in_double_precision")


def refine_call(ctx, how, src, dst):
    P = api.ns.poly
    piece = not isinstance(src, (api.ns.layers.SwitchLayer,))
    with precision(ctx, src, dst), ctx.cut(f"{how}-refinement"):
        if how == "p":
            if piece and ctx.chance(0.5):
                P.interpolate_polynomial_layer(src, dst)
            else:
                src.interpolate(dst)
        else:
            if piece and ctx.chance(0.5):
                P.refine_polynomial_layer(src, dst)
            else:
                src.refine(dst)
    ctx.see(f"{how}_refinements")


def sizes(ctx, how, n, S):
    if how == "p":
        return n + ctx.choice([0, 1, 1, 2, 3, 5, 6, 8]), S
    if how == "h":
        return n, S * ctx.choice([1, 2, 2, 3, 4, 5, 6, 8, 16])
    return n + ctx.choice([0, 1, 2, 3]), S * ctx.choice([1, 2, 3, 4, 5, 9])


def pts(ctx, B, I, n, S, T, L, p):
    a = gen.xs(ctx, (B, I), n, S, L, p)
    b = gen.xs(ctx, (B, I), n, T, L, p)
    return torch.cat([a, b])


def layer_case(kinds, how):
    def run(ctx):
        kind = ctx.choice(kinds)
        n = ctx.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
        S = ctx.choice([1, 1, 2, 3, 4, 5, 7, 10]) if ctx.chance(0.93) else ctx.choice([16, 20, 33, 50])
        I, O = ctx.choice([1, 1, 2, 3]), ctx.choice([1, 2, 3])
        if ctx.chance(0.08):
            I, O = ctx.choice([(7, 2), (2, 9), (20, 1), (1, 40), (12, 12), (65, 2)])
            ctx.see("large_settings")
        L = gen.length(ctx)
        p = gen.periodicity(ctx, L)
        kw = {}
        if kind.endswith("_prod"):
            kw["alpha"] = ctx.choice([1.0, 1.0, 0.0, 0.5])
        layer, w = fc.build(ctx, kind, n, I, O, S, L, p, **kw)
        gen.fill(ctx, w, ctx.choice(["normal", "normal", "ramp", "onehot", "tiny"]))
        chain = [(n, S)]
        for step in range(ctx.choice([1, 1, 2, 3])):
            one = how if how != "hp" else ctx.choice(["h", "hp", "hp"])
            m, T = sizes(ctx, one, n, S)
            if I * O * T * m > 900:  # the library refines link by link
                m, T = (min(m, n + 1), S) if one == "p" else (n, S * 2) if n * S * 2 * I * O <= 900 or step == 0 else (99, S)
            if m > 16 or T > 200:
                break
            dst, wd = fc.build(ctx, kind, m, I, O, T, L, p, **kw)
            gen.fill(ctx, wd, "normal")
            snap = monitor.Snapshot(monitor.state_tensors(layer))
            refine_call(ctx, how, layer, dst)
            ctx.expect(snap.changed() is None, f"{how}-refinement changed the source layer ({snap.changed()})")
            x = pts(ctx, ctx.choice([4, 16, 40]), I, n, S, T, L, p)
            y = monitor.read(ctx, "refined layer", dst, x)
            monitor.compare(ctx, f"{kind} layer refined from n={n}, {S} segments to n={m}, {T} segments", y,
                            reference(kind, x, w, n, S, L, p, m, T, kw.get("alpha", 1.0)), length=L, periodicity=p)
            # what was left of the source still evaluates as before
            fc.check_forward(ctx, kind, layer, w, x[:8], dict(n=n, S=S, I=I, O=O, L=L, p=p), kw.get("alpha", 1.0), label=f"source {kind} layer after refinement")
            # independent afterwards
            with torch.no_grad():
                before = w.detach().clone()
                wd.add_(0.0)
            ctx.expect(w.data_ptr() != wd.data_ptr() and torch.equal(before, w.detach()), "refined layer shares its weights with the source")
            layer, w, n, S = dst, wd, m, T
            chain.append((n, S))
        ctx.see("chains" if len(chain) > 2 else "single_refinements")
        ctx.describe(kind=kind, chain=chain, I=I, O=O, length=L, periodicity=p, **kw)
        ctx.sig(kind, tuple(chain), I, O, L, p, tuple(kw.values()))

    return run


def switch_case(bases, how):
    def run(ctx):
        b = ctx.choice(bases)
        n, S = ctx.choice([2, 3, 4]), ctx.choice([1, 2, 3, 5])
        I, O, K = ctx.int(1, 3), ctx.int(1, 3), ctx.choice([2, 2, 3, 4, 5])
        L = ctx.choice([2.0, 2.0, 3.0])
        m, T = sizes(ctx, how, n, S)
        Sw = api.ns.layers.SwitchLayer

        def mk(n, S):
            with ctx.cut("building a switch layer"):
                if ctx.chance(0.5):
                    return Sw(layer_type=b, n=n, in_features=I, out_features=O, segments=S, scale=L, num_input_layers=K)
                return api.fc("switch_" + b, n=n, in_features=I, out_features=O, segments=S, scale=L, num_input_layers=K)

        src, dst = mk(n, S), mk(m, T)
        ws = [q for q in src.parameters() if q.dim() == 3]
        for q in list(src.parameters()) + list(dst.parameters()):
            gen.fill(ctx, q, "normal")
        snap = monitor.Snapshot(monitor.state_tensors(src))
        refine_call(ctx, how, src, dst)
        ctx.expect(snap.changed() is None, "refinement changed the source switch layer")
        x = pts(ctx, 16, I, n, S, T, L, None)
        y = monitor.read(ctx, "refined switch layer", dst, x)
        P, mag = 1.0, 1.0
        for q in ws:
            v, t = reference(b, x, q, n, S, L, None, m, T)
            P, mag = P * v, mag * (np.abs(v) + t)
        tol = mag - np.abs(P) + 8 * K * R.EPS * mag + R.FLOOR
        monitor.compare(ctx, f"switch layer of {K} {b} layers refined from n={n}, {S} segments to n={m}, {T} segments", y, (P, np.where(np.isfinite(mag), tol, np.inf)))
        ctx.see("switch_refinements")
        ctx.describe(base=b, n=n, S=S, m=m, T=T, sublayers=K)
        ctx.sig("switch", b, n, S, m, T, I, O, K, L)

    return run


# ------------------------------------------------------------------ networks
def leaves(net):
    return lambda mod: not list(mod.children())


def is_high(mod):
    ps = list(mod.parameters(recurse=False))
    return len(ps) == 1 and ps[0].dim() == 3 and not list(mod.children())


def mlp_cfg(ctx, kinds, norms=True):
    t = ctx.choice(kinds)
    kw = dict(layer_type=t, n=ctx.choice([2, 3]), in_width=ctx.int(1, 3), out_width=ctx.int(1, 2), hidden_layers=ctx.choice([0, 1, 2, 3]),
              hidden_width=ctx.int(1, 4), in_segments=ctx.int(1, 3), hidden_segments=ctx.int(1, 3), out_segments=ctx.int(1, 3))
    if ctx.chance(0.4):
        kw["n_in"], kw["n_hidden"], kw["n_out"] = ctx.choice([2, 3, 4]), ctx.choice([2, 3]), ctx.choice([2, 4])
    if ctx.chance(0.3) and not t.startswith("switch"):
        kw["periodicity"] = ctx.choice([2.0, 3.0])
    if ctx.chance(0.3):
        kw["scale"] = 3.0 if kw.get("periodicity") != 2.0 else 2.0
    if ctx.chance(0.3):
        kw["resnet"] = True
        kw["hidden_layers"] = ctx.int(2, 4)
    if norms and ctx.chance(0.6):
        Ls = api.ns.layers
        kw["normalization"] = ctx.choice([Ls.MaxAbsNormalization, Ls.MaxCenterNormalization, Ls.L2Normalization, Ls.MaxAbsNormalizationLast, Ls.LazyLayerNormLastDim, Ls.LazyLayerNormLastDim, torch.nn.LazyBatchNorm1d, plain_batch_norm])
    if ctx.chance(0.3):
        kw["non_linearity"] = torch.nn.Tanh()
    if ctx.chance(0.2):
        kw["layer_type_in"] = ctx.choice(["continuous", "baseline", "baseline_relu"])
    elif ctx.chance(0.12):  # linear layers after a piecewise one
        kw["layer_type_in"] = "continuous"
        kw["layer_type"] = ctx.choice(["baseline", "baseline_relu"])
    gen.grow(ctx, kw, dict(in_width=[6, 12], out_width=[5, 9], hidden_layers=[5, 7], hidden_width=[8, 17], in_segments=[5, 8], hidden_segments=[5, 8], out_segments=[5, 8], n=[4, 5]), 0.12)
    return kw


def plan(kw):
    """(kind, n, S) of every high order leaf in order of execution."""
    t = kw["layer_type"]
    n = kw["n"]
    seq = [(kw.get("layer_type_in") or t, kw.get("n_in") or n, kw["in_segments"])]
    seq += [(t, kw.get("n_hidden") or n, kw["hidden_segments"])] * kw["hidden_layers"]
    seq += [(t, kw.get("n_out") or n, kw["out_segments"])]
    out = []
    for k, m, s in seq:
        if k.startswith("switch_"):
            out += [(k[7:], m, s)] * 2
        elif k in fc.PIECEWISE:
            out.append((k, m, s))
    return out


def grow(ctx, how, kw):
    g = dict(kw)
    t = kw["layer_type"]
    dn = (lambda: ctx.choice([0, 1, 2])) if how in ("p", "hp") else (lambda: 0)
    ds = (lambda: ctx.choice([1, 2, 3])) if how in ("h", "hp") else (lambda: 1)
    n = kw["n"]
    g["n_in"], g["n_hidden"], g["n_out"] = [(kw.get(q) or n) + dn() for q in ("n_in", "n_hidden", "n_out")]
    for q in ("in_segments", "hidden_segments", "out_segments"):
        g[q] = kw[q] * ds()
    return g


def network_case(kinds, how):
    def run(ctx):
        kw = mlp_cfg(ctx, kinds)
        N = api.ns.networks

        def mk(kw):
            with ctx.cut(f"building MLP {kw}"):
                net = N.HighOrderMLP(**kw)
            return net

        src = mk(kw)
        warm = gen.xs(ctx, (3, kw["in_width"]))
        lazy = kw.get("normalization") in (api.ns.layers.LazyLayerNormLastDim, torch.nn.LazyBatchNorm1d, plain_batch_norm)
        monitor.call(ctx, "first forward", src, warm)
        stats(ctx, src)
        with torch.no_grad():
            for q in src.parameters():
                q.copy_(gen.t32(ctx.np.normal(size=tuple(q.shape)) * 0.6))
        L, p = kw.get("scale", 2.0), kw.get("periodicity")
        cfgs = [kw]
        first = src
        for step in range(ctx.choice([1, 1, 2])):
            kw2 = grow(ctx, how, kw)
            dst = mk(kw2)
            if not lazy or ctx.chance(0.5):
                monitor.call(ctx, "first forward", dst, warm)
            with torch.no_grad():
                for q in dst.parameters():
                    if not isinstance(q, torch.nn.parameter.UninitializedParameter):
                        q.copy_(gen.t32(ctx.np.normal(size=tuple(q.shape)) * 0.6))
                stats(ctx, dst)
            snap = monitor.Snapshot(monitor.state_tensors(src))
            with precision(ctx, src, dst), ctx.cut(f"network {how}-refinement"):
                (N.interpolate_high_order_mlp if how == "p" else N.hp_refine_high_order_mlp)(network_in=src, network_out=dst)
            ctx.expect(snap.changed() is None, f"{how}-refinement changed the source network ({snap.changed()})")
            ctx.see("network_refinements")
            follow(ctx, how, src, dst, kw, kw2, L, p)
            coarse(ctx, how, first, dst, kw, L, p, len(cfgs))
            src, kw = dst, kw2
            cfgs.append(kw2)
        ctx.describe(how=how, config={k: str(v) for k, v in cfgs[0].items()}, steps=len(cfgs) - 1)
        ctx.sig("net", how, str(sorted((k, str(v)) for k, v in cfgs[0].items())), len(cfgs))

    return run


def plain_batch_norm():
    """Running statistics, no parameters."""
    return torch.nn.LazyBatchNorm1d(affine=False)


def stats(ctx, net):
    """Running statistics as after some training; evaluation uses them."""
    net.eval()
    with torch.no_grad():
        for name, q in net.named_buffers():
            if isinstance(q, torch.nn.parameter.UninitializedTensorMixin) or not q.dtype.is_floating_point:
                continue
            if name.endswith("running_mean"):
                q.copy_(gen.t32(ctx.np.normal(size=tuple(q.shape)) * 0.5))
            elif name.endswith("running_var"):
                q.copy_(gen.t32(ctx.np.uniform(0.3, 2.5, size=tuple(q.shape))))
            ctx.see("running_statistics", q.numel())


def follow(ctx, how, src, dst, kw, kw2, L, p):
    """Online check of every layer call inside the refined network."""
    x = gen.xs(ctx, (12, kw["in_width"]), 3, 4, L, p)
    with monitor.trace(ctx, leaves(src)) as ev0:
        monitor.call(ctx, "source network", src, x)
    with monitor.trace(ctx, leaves(dst)) as ev1:
        monitor.call(ctx, "refined network", dst, x)
    P0, P1 = plan(kw), plan(kw2)
    h0 = [e for e in ev0 if is_high(e.module)]
    h1 = [e for e in ev1 if is_high(e.module)]
    ctx.expect(len(h0) == len(P0) and len(h1) == len(P1), f"networks ran {len(h0)} and {len(h1)} piecewise layers where {len(P0)} are configured")
    ctx.expect(len(ev0) == len(ev1), "the refined network runs another sequence of layers than its source")
    for e0, e1, (k, n, S), (_, m, T) in zip(h0, h1, P0, P1):
        w = list(e0.module.parameters(recurse=False))[0]
        per = p if not kw["layer_type"].startswith("switch") or (kw.get("layer_type_in") and e1 is h1[0]) else None
        monitor.compare(ctx, f"{k} layer inside a network refined from n={n}, {S} segments to n={m}, {T} segments", e1.out,
                        reference(k, e1.inp, w, n, S, L, per, m, T), config={q: str(v) for q, v in kw.items()})
        ctx.see("network_layers_followed")
    for e0, e1 in zip(ev0, ev1):
        if is_high(e0.module):
            continue
        with torch.no_grad():
            z = monitor.call(ctx, "source leaf", e0.module.forward, e1.inp)
        ctx.expect(z.shape == e1.out.shape and bool(((z - e1.out).abs() <= 1e-5 * (1 + z.abs()))[torch.isfinite(z)].all()), f"{type(e0.module).__name__} inside the refined network gives other values than in the source network",
                   config={q: str(v) for q, v in kw.items()})
        ctx.see("other_layers_followed")


def coarse(ctx, how, src, dst, kw, L, p, steps):
    """End to end: the outputs agree as well as the source network agrees with
    itself under rounding-sized disturbances."""
    x = gen.xs(ctx, (64, kw["in_width"]), 3, 4, L, p)
    with torch.no_grad():
        with monitor.trace(ctx, is_high) as ev:
            y0 = monitor.call(ctx, "source network", src, x).double()
        # beyond the range the extended polynomials amplify rounding without limit
        calm = torch.ones(len(x), dtype=torch.bool)
        for e in ev:
            z = e.inp if p is None else torch.tensor(R.mirror(np.nan_to_num(monitor.n64(e.inp)), p)[0])
            calm &= (z.abs() <= 0.55 * L).all(-1)
        y1 = monitor.call(ctx, "refined network", dst, x).double()
        ctx.expect(y0.shape == y1.shape, "refinement changed the output shape")
        var = torch.zeros_like(y0)
        for _ in range(4):
            twin = copy.deepcopy(src)
            for q in twin.parameters():
                q.add_(gen.t32(ctx.np.normal(size=tuple(q.shape))) * 3e-6 * (q.abs() + 1e-2 * q.abs().max()))
            xp = x * (1 + 1e-6 * gen.t32(ctx.np.normal(size=tuple(x.shape)))) + 1e-7 * gen.t32(ctx.np.normal(size=tuple(x.shape)))
            var = torch.maximum(var, (twin(xp).double() - y0).abs())
        tol = 60 * steps * var + 1e-4 * (1 + y0.abs())
        ok = torch.isfinite(y0) & torch.isfinite(tol) & (y0.abs() < 1e4) & calm[:, None]
        bad = ok & ~((y1 - y0).abs() <= tol)
        ctx.see("network_outputs_compared", int(ok.sum()))
        # a jump next to an input may go either way in the discontinuous kinds
        limit = 0 if "dis" not in kw["layer_type"] else max(6, 0.2 * int(ok.sum()))
        ctx.expect(int(bad.sum()) <= limit, f"{how}-refined network differs from its source on {int(bad.sum())} of {int(ok.sum())} outputs", config={q: str(v) for q, v in kw.items()})


def list_case(kinds, how):
    """Networks given as layer lists are refined the same way."""

    def run(ctx):
        N = api.ns.networks
        k = ctx.int(1, 3)
        width = [ctx.int(1, 3) for _ in range(k + 1)]
        types = [ctx.choice(kinds) for _ in range(k)]
        n = [ctx.int(2, 3) for _ in range(k)]
        S = [ctx.int(1, 3) for _ in range(k)]
        m = [a + (ctx.int(0, 2) if how != "h" else 0) for a in n]
        T = [a * (ctx.int(1, 3) if how != "p" else 1) for a in S]
        with ctx.cut("building layer-list networks"):
            src = N.HighOrderMLPList(layer_type=types, n=n, width=width, segments=S)
            dst = N.HighOrderMLPList(layer_type=types, n=m, width=width, segments=T)
        with torch.no_grad():
            for q in list(src.parameters()) + list(dst.parameters()):
                q.copy_(gen.t32(ctx.np.normal(size=tuple(q.shape)) * 0.6))
        snap = monitor.Snapshot(monitor.state_tensors(src))
        with ctx.cut(f"network {how}-refinement"):
            (N.interpolate_high_order_mlp if how == "p" else N.hp_refine_high_order_mlp)(src, dst)
        ctx.expect(snap.changed() is None, "refinement changed the source network")
        x = gen.xs(ctx, (16, width[0]), 3, 4)
        with monitor.trace(ctx, leaves(dst)) as ev:
            monitor.call(ctx, "refined network", dst, x)
        ws = [q for q in src.parameters() if q.dim() == 3]
        hs = [e for e in ev if is_high(e.module)]
        ctx.expect(len(hs) == k, f"layer-list network ran {len(hs)} layers of {k}")
        for e, w, t, a, b, c, d in zip(hs, ws, types, n, S, m, T):
            monitor.compare(ctx, f"{t} layer inside a refined layer-list network", e.out, reference(t, e.inp, w, a, b, 2.0, None, c, d))
            ctx.see("network_layers_followed")
        ctx.see("list_networks")
        ctx.describe(types=types, n=n, S=S, m=m, T=T)
        ctx.sig("list", tuple(types), tuple(n), tuple(S), tuple(m), tuple(T))

    return run


def resample_case(kinds, how):
    """Into a layer that cannot hold the source's function the target takes the
    source's values at its own nodes."""

    def run(ctx):
        kind = ctx.choice(kinds)
        n, S = ctx.choice([2, 3, 3, 4, 5, 6, 8]), ctx.choice([1, 2, 3, 4, 5, 6, 7, 12])
        I, O = ctx.choice([1, 1, 2, 3]), ctx.choice([1, 2, 3])
        L = gen.length(ctx)
        p = gen.periodicity(ctx, L)
        if how == "p":
            m, T = ctx.int(2, n), S
        else:
            m, T = ctx.choice([2, 3, 4, 5, 7]), ctx.choice([1, 2, 3, 4, 5, 7, 10])
            same = [(a, b) for a in range(2, 9) for b in range(1, 13) if (a - 1) * b == (n - 1) * S]
            if ctx.chance(0.4):  # as many weights, arranged otherwise
                m, T = ctx.choice(same)
        kw = {"alpha": ctx.choice([1.0, 0.0, 0.5])} if kind.endswith("_prod") else {}
        src, w = fc.build(ctx, kind, n, I, O, S, L, p, **kw)
        gen.fill(ctx, w, ctx.choice(["normal", "normal", "ramp", "onehot", "tiny"]))
        dst, wd = fc.build(ctx, kind, m, I, O, T, L, p, **kw)
        gen.fill(ctx, wd, "normal")
        snap = monitor.Snapshot(monitor.state_tensors(src))
        refine_call(ctx, how, src, dst)
        ctx.expect(snap.changed() is None, f"{how}-refinement changed the source layer ({snap.changed()})")
        v, d = target_weights(kind, monitor.n64(w), n, S, L, m, T)
        monitor.compare(ctx, f"node values of a {kind} layer with n={m}, {T} segments taken from one with n={n}, {S} segments", wd, (v, R.SLACK * d), length=L, periodicity=p)
        ctx.see("resampled_layers")
        ctx.describe(kind=kind, source=[n, S], target=[m, T], I=I, O=O, length=L, periodicity=p, **kw)
        ctx.sig("resample", kind, n, S, m, T, I, O, L, p, tuple(kw.values()))

    return run
