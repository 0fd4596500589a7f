"""C11: p-refinement preserves layers, switch layers and networks."""
import torch

from hol import api, fc, gen, monitor, refine

KINDS = ["continuous", "discontinuous", "continuous_prod", "discontinuous_prod"]


def refused(ctx):
    kind = ctx.choice(KINDS)
    n, S = ctx.choice([2, 3, 4]), ctx.choice([1, 2, 3, 4])
    m = n + ctx.int(0, 2)
    T = ctx.choice([t for t in (1, 2, 3, 4, 6, 8) if t != S])
    I, O = ctx.int(1, 3), ctx.int(1, 3)
    if ctx.chance(0.6):
        a, wa = fc.build(ctx, kind, n, I, O, S)
        b, wb = fc.build(ctx, kind, m, I, O, T)
        gen.fill(ctx, wa, "normal")
        gen.fill(ctx, wb, "normal")
        snap = monitor.Snapshot(monitor.state_tensors(a) + monitor.state_tensors(b))
        f = ctx.choice([lambda: a.interpolate(b), lambda: api.ns.poly.interpolate_polynomial_layer(a, b)])
        ctx.rejects(f"p-refinement of a {kind} layer from {S} to {T} segments", f, (ValueError,))
        ctx.expect(snap.changed() is None, "a refused p-refinement changed weights")
    elif ctx.chance(0.5):
        b = "switch_" + kind.replace("_prod", "")
        with ctx.cut("building switch layers"):
            s, d = (api.fc(b, n=q, in_features=I, out_features=O, segments=t) for q, t in ((n, S), (m, T)))
        snap = monitor.Snapshot(monitor.state_tensors(s) + monitor.state_tensors(d))
        ctx.rejects(f"p-refinement of a {b} layer from {S} to {T} segments", lambda: s.interpolate(d), (ValueError,))
        ctx.expect(snap.changed() is None, "a refused p-refinement changed weights")
    else:
        which = ctx.choice(["in_segments", "hidden_segments", "out_segments"])
        kw = dict(layer_type=kind, n=n, in_width=I, out_width=O, hidden_layers=ctx.int(1, 2), hidden_width=2, in_segments=S, hidden_segments=S, out_segments=S)
        N = api.ns.networks
        with ctx.cut("building networks"):
            s, d = N.HighOrderMLP(**kw), N.HighOrderMLP(**{**kw, "n": m, which: T})
        snap = monitor.Snapshot(monitor.state_tensors(s))
        ctx.rejects(f"p-refinement of a network whose {which} differ", lambda: N.interpolate_high_order_mlp(network_in=s, network_out=d), (ValueError,))
        ctx.expect(snap.changed() is None, "a refused p-refinement changed the source network")
    ctx.sig("refused", kind, n, S, m, T, I, O)


def grid(ctx):
    """Every small pair of node counts, all segments."""
    i = ctx.index
    kind = KINDS[i % 4]
    n = 1 + (i // 4) % 6
    m = n + (i // 24) % 5
    S = 1 + (i // 120) % 4
    a, wa = fc.build(ctx, kind, n, 2, 2, S)
    b, wb = fc.build(ctx, kind, m, 2, 2, S)
    gen.fill(ctx, wa, "normal")
    refine.refine_call(ctx, "p", a, b)
    x = refine.pts(ctx, 24, 2, n, S, S, 2.0, None)
    monitor.compare(ctx, f"{kind} layer p-refined from n={n} to n={m} on {S} segments", monitor.read(ctx, "refined layer", b, x), refine.reference(kind, x, wa, n, S, 2.0, None, m, S))
    ctx.sig("grid", kind, n, m, S)


SCENARIOS = {
    "layer": (refine.layer_case(KINDS, "p"), 500, 7000),
    "grid": (grid, 480, 480),
    "switch": (refine.switch_case(["continuous", "discontinuous"], "p"), 120, 1500),
    "network": (refine.network_case(KINDS + ["continuous", "discontinuous", "switch_continuous", "switch_discontinuous"], "p"), 260, 4000),
    "list": (refine.list_case(KINDS, "p"), 60, 800),
    "resample": (refine.resample_case(KINDS, "p"), 150, 2500),
    "refused": (refused, 100, 1000),
}
MUST_SEE = ["refinements_in_double_precision", "p_refinements", "chains", "switch_refinements", "network_refinements", "running_statistics", "network_layers_followed", "other_layers_followed", "rejections_required", "values_compared", "list_networks", "resampled_layers"]
RULE = "one case = source and refined node counts, segments, kind, length, mirror period, chain of refinements (or a network configuration), weights and inputs inside, on the edges and outside; distinct by that signature"
ASSUMPTIONS = ["equality is up to the rounding of float32 evaluation of the two layers"]
