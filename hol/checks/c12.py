"""C12: h- and hp-refinement preserve continuous layers and networks."""
import torch

from hol import api, fc, gen, monitor, refine

KINDS = ["continuous", "continuous", "continuous_prod"]


def refused(ctx):
    kind = ctx.choice(["discontinuous", "discontinuous_prod"])
    n, S = ctx.choice([1, 2, 3, 4]), ctx.choice([1, 2, 3])
    m, T = n + ctx.int(0, 2), S * ctx.choice([1, 2, 3])
    I, O = ctx.int(1, 3), ctx.int(1, 3)
    how = ctx.choice(["layer", "layer", "switch", "network"])
    N = api.ns.networks
    if how == "layer":
        a, wa = fc.build(ctx, kind, n, I, O, S)
        b, wb = fc.build(ctx, kind, m, I, O, T)
        gen.fill(ctx, wa, "normal")
        gen.fill(ctx, wb, "normal")
        f = ctx.choice([lambda: a.refine(b), lambda: api.ns.poly.refine_discontinuous_polynomial_layer(a, b)])
    elif how == "switch":
        with ctx.cut("building switch layers"):
            a, b = (api.fc("switch_discontinuous", n=q, in_features=I, out_features=O, segments=t) for q, t in ((n, S), (m, T)))
        f = lambda: a.refine(b)
    else:
        kw = dict(layer_type=kind, in_width=I, out_width=O, hidden_layers=ctx.int(0, 2), hidden_width=2)
        with ctx.cut("building networks"):
            a, b = (N.HighOrderMLP(n=q, in_segments=t, hidden_segments=t, out_segments=t, **kw) for q, t in ((n, S), (m, T)))
        f = lambda: N.hp_refine_high_order_mlp(a, b)
    snap = monitor.Snapshot(monitor.state_tensors(a) + monitor.state_tensors(b))
    ctx.rejects(f"h-refinement of a {kind} {how}", f, (ValueError,))
    ctx.expect(snap.changed() is None, f"the refused h-refinement of a {kind} {how} changed weights ({snap.changed()})")
    ctx.sig("refused", how, kind, n, S, m, T, I, O)


def grid(ctx):
    i = ctx.index
    n = 1 + i % 5
    m = n + (i // 5) % 3
    S = 1 + (i // 15) % 4
    T = S * (1 + (i // 60) % 4)
    a, wa = fc.build(ctx, "continuous", n, 2, 2, S)
    b, wb = fc.build(ctx, "continuous", m, 2, 2, T)
    gen.fill(ctx, wa, "normal")
    gen.fill(ctx, wb, "normal")
    refine.refine_call(ctx, "hp", a, b)
    x = refine.pts(ctx, 24, 2, n, S, T, 2.0, None)
    monitor.compare(ctx, f"continuous layer refined from n={n}, {S} segments to n={m}, {T} segments", monitor.read(ctx, "refined layer", b, x), refine.reference("continuous", x, wa, n, S, 2.0, None, m, T))
    ctx.sig("grid", n, m, S, T)


SCENARIOS = {
    "layer_h": (refine.layer_case(KINDS, "h"), 250, 4000),
    "layer_hp": (refine.layer_case(KINDS, "hp"), 250, 4000),
    "grid": (grid, 240, 240),
    "switch": (refine.switch_case(["continuous"], "hp"), 80, 1000),
    "network_h": (refine.network_case(["continuous", "continuous", "continuous_prod", "switch_continuous"], "h"), 80, 1500),
    "network_hp": (refine.network_case(["continuous", "continuous", "continuous_prod", "switch_continuous"], "hp"), 120, 2500),
    "list": (refine.list_case(["continuous", "continuous_prod"], "hp"), 40, 600),
    "resample": (refine.resample_case(KINDS, "hp"), 200, 3000),
    "refused": (refused, 120, 1000),
}
MUST_SEE = ["refinements_in_double_precision", "h_refinements", "hp_refinements", "chains", "switch_refinements", "network_refinements", "running_statistics", "network_layers_followed", "other_layers_followed", "rejections_required", "values_compared", "resampled_layers"]
RULE = "one case = source and refined node counts and segments, kind, length, mirror period, chain of refinements (or a network configuration), weights and inputs inside, on old and new edges and outside; distinct by that signature"
ASSUMPTIONS = ["equality is up to the rounding of float32 evaluation of the two layers", "the function is kept where the segment counts of the refined layer are multiples of the source's; elsewhere only its node values are judged"]
