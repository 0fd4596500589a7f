"""C17: MLPs compose exactly the layers their configuration asks for."""
import torch

from hol import api, gen, monitor, nets, zoo

KINDS = ["continuous", "discontinuous", "polynomial", "fourier", "product", "continuous_prod", "discontinuous_prod", "polynomial_prod",
         "switch_continuous", "switch_discontinuous", "baseline", "baseline_relu"]


def norms(lazy=True):
    Ls = api.ns.layers
    return [Ls.MaxAbsNormalization, Ls.MaxCenterNormalization, Ls.L2Normalization, Ls.MaxAbsNormalizationLast, Ls.MaxCenterNormalizationLast,
            Ls.MaxAbsNormalizationND, Ls.MaxCenterNormalizationND] + ([Ls.LazyLayerNormLastDim, torch.nn.LazyBatchNorm1d] if lazy else [])


WIDE = dict(n=[8, 11], in_width=[9, 17, 33, 65], out_width=[9, 20, 40, 70], hidden_layers=[6, 7, 9, 12], hidden_width=[9, 17, 33, 65, 100], in_segments=[9, 20, 40, 100], hidden_segments=[9, 20, 70],
            out_segments=[9, 20, 70], n_in=[8, 11], n_hidden=[8, 11], n_out=[8, 11], scale=[0.25, 20.0, 8.0], dropout=[0.05, 0.75, 0.9], periodicity=[0.3, 7.0, 25.0])
ACTS = [torch.nn.Tanh, torch.nn.ReLU, torch.nn.Sigmoid, torch.nn.SiLU]


def pieces(ctx, kw, k_norm=0.5, k_act=0.4):
    if ctx.chance(k_norm):
        kw["normalization"] = ctx.choice(norms())
    if ctx.chance(k_act):
        kw["non_linearity"] = ctx.choice(ACTS)()
    return kw


def mlp_cfg(ctx, index=None):
    t = KINDS[index % len(KINDS)] if index is not None else ctx.choice(KINDS)
    kw = dict(layer_type=t, n=ctx.choice([1, 2, 3, 4, 5]), in_width=ctx.int(1, 4), out_width=ctx.int(1, 4), hidden_layers=ctx.choice([0, 1, 1, 2, 3, 4]),
              hidden_width=ctx.choice([1, 2, 3, 4, 6]), in_segments=ctx.int(1, 5), hidden_segments=ctx.int(1, 5), out_segments=ctx.int(1, 5))
    for q in ("n_in", "n_hidden", "n_out"):
        if ctx.chance(0.5):
            kw[q] = ctx.int(1, 6)
    if ctx.chance(0.35):
        kw["scale"] = ctx.choice([1.0, 3.0, 4.0, 2.5])
    if ctx.chance(0.35) and not t.startswith("switch") and t != "fourier":
        kw["periodicity"] = ctx.choice([2.0, 1.0, 3.0, kw.get("scale", 2.0)])
    if ctx.chance(0.3):
        kw["layer_type_in"] = ctx.choice([k for k in KINDS if not (kw.get("periodicity") and (k.startswith("switch") or k == "fourier"))])
    if ctx.chance(0.35):
        kw["resnet"] = True
        kw["hidden_layers"] = ctx.choice([1, 2, 3, 4])
    if ctx.chance(0.3):
        kw["dropout"] = ctx.choice([0.1, 0.25, 0.5, 0.8])
    if ctx.chance(0.2):
        kw["initialization"] = "uniform"
    if ctx.chance(0.2):
        kw["device"] = "cpu"
    gen.grow(ctx, kw, WIDE)
    return pieces(ctx, kw)


def show(kw):
    return {k: (v.__name__ if isinstance(v, type) else str(v)) for k, v in kw.items()}


def inputs(ctx, B, w, L=2.0, p=None):
    return gen.xs(ctx, (B, w), 3, 4, L, p)


def drive(ctx, net, kw, follow, inw, L=2.0, p=None, label="MLP"):
    """A short history of passes: both modes, changed weights, other batches."""
    bn = kw.get("normalization") is torch.nn.LazyBatchNorm1d
    steps = ctx.choice([1, 2, 3])
    monitor.call(ctx, f"{label} first call", net, inputs(ctx, 3, inw, L, p))
    nets.fill(ctx, net)
    for s in range(steps):
        training = ctx.chance(0.5)
        net.train(training)
        B = ctx.choice([1, 2, 5, 16]) if not (bn and training) else ctx.choice([2, 5, 16])
        x = inputs(ctx, B, inw, L, p)
        f, out = nets.run(ctx, net, x, label, training, show(kw))
        follow(f)
        f.finish(out)
        if s + 1 < steps:
            how = ctx.choice(["fill", "sgd", "reload"])
            if how == "fill":
                nets.fill(ctx, net)
            elif how == "sgd":
                with ctx.cut("training step"):
                    y = net(x)
                    opt = torch.optim.SGD(net.parameters(), lr=0.01)
                    (y * y).mean().backward()
                    with torch.no_grad():
                        for q in net.parameters():
                            if q.grad is not None:
                                q.grad.nan_to_num_(0, 0, 0).clamp_(-1, 1)
                    opt.step()
                    opt.zero_grad()
                ctx.see("training_steps")
            else:
                sd = {k: v.clone() for k, v in net.state_dict().items()}
                nets.fill(ctx, net)
                with ctx.cut("load_state_dict"):
                    net.load_state_dict(sd)
                ctx.see("reloads")
    ctx.describe(network=label, **show(kw))
    ctx.sig(label, str(sorted(show(kw).items())), steps)


def build(ctx, cls, kw):
    with ctx.cut(f"building {cls.__name__} {show(kw)}"):
        net = cls(**kw)
    zoo.decoy(ctx, DECOYS[cls.__name__], 0.15)
    return net


DECOYS = dict(HighOrderMLP="mlp", LowOrderMLP="low_mlp", HighOrderMLPList="mlp_list", HighOrderMultiMLP="mlp_multi")


def mlp(ctx):
    kw = mlp_cfg(ctx, ctx.index)
    net = build(ctx, api.ns.networks.HighOrderMLP, kw)
    drive(ctx, net, kw, lambda f: nets.follow_mlp(f, kw), kw["in_width"], kw.get("scale", 2.0), kw.get("periodicity"), "HighOrderMLP")
    ctx.see("kind_" + kw["layer_type"])
    if kw.get("resnet") and kw["hidden_layers"] > 1:
        ctx.see("residual_networks")


def low(ctx):
    kw = dict(in_width=ctx.int(1, 6), out_width=ctx.int(1, 4), hidden_layers=ctx.choice([0, 1, 2, 3, 5]), hidden_width=ctx.int(1, 7))
    gen.grow(ctx, kw, WIDE)
    pieces(ctx, kw, 0.6, 0.7)
    net = build(ctx, api.ns.networks.LowOrderMLP, kw)
    drive(ctx, net, kw, lambda f: nets.follow_low(f, kw), kw["in_width"], label="LowOrderMLP")


def listed(ctx):
    k = ctx.choice([1, 2, 2, 3, 4, 5]) if ctx.chance(0.95) else ctx.choice([7, 9, 12])
    kw = dict(layer_type=[ctx.choice(KINDS) for _ in range(k)], n=[ctx.int(1, 5) for _ in range(k)], width=[ctx.int(1, 5) for _ in range(k + 1)],
              segments=[ctx.int(1, 5) for _ in range(k)])
    if ctx.chance(0.35):
        kw["scale"] = ctx.choice([1.0, 3.0, 2.5])
    if ctx.chance(0.35):
        kw["layer_type"] = [t if not t.startswith("switch") and t != "fourier" else "continuous" for t in kw["layer_type"]]
        kw["periodicity"] = ctx.choice([2.0, 3.0, 1.0])
    if ctx.chance(0.15):
        q = ctx.choice(["n", "width", "segments"])
        kw[q][ctx.int(0, len(kw[q]) - 1)] = ctx.choice({"n": [8, 11], "width": [9, 20, 40], "segments": [9, 20, 70]}[q])
    norm = act = None
    if ctx.chance(0.5):
        norm = ctx.choice(norms())
        kw["normalization"] = [norm] * k
    if ctx.chance(0.5):
        act = ctx.choice(ACTS)()
        kw["non_linearity"] = [act] * k
    net = build(ctx, api.ns.networks.HighOrderMLPList, kw)
    L, p = kw.get("scale", 2.0), kw.get("periodicity")

    def follow(f):
        for i in range(k):
            if i:
                if norm is not None:
                    f.norm(norm)
                if act is not None:
                    f.act(act)
            f.fc(kw["layer_type"][i], kw["n"][i], kw["segments"][i], kw["width"][i], kw["width"][i + 1], L, p, f"layer {i}")

    drive(ctx, net, dict(kw, normalization=norm), follow, kw["width"][0], L, p, "HighOrderMLPList")


def multi(ctx):
    kw = mlp_cfg(ctx)
    kw["replicas"] = ctx.choice([1, 2, 2, 3, 4]) if ctx.chance(0.9) else ctx.choice([5, 6, 9, 12])
    kw["hidden_layers"] = min(kw["hidden_layers"], 2)
    net = build(ctx, api.ns.networks.HighOrderMultiMLP, kw)
    t, n, H = kw["layer_type"], kw["n"], kw["hidden_width"]
    L, p = kw.get("scale", 2.0), kw.get("periodicity")
    norm, act, dr = kw.get("normalization"), kw.get("non_linearity"), kw.get("dropout", 0.0)
    rep = dict(kw)
    nh = kw.get("n_hidden") or n
    rep.update(in_width=H, out_width=H, n_in=nh, n_hidden=nh, n_out=nh, in_segments=kw["hidden_segments"], out_segments=kw["hidden_segments"])

    def follow(f):
        f.fc(kw.get("layer_type_in") or t, kw.get("n_in") or n, kw["in_segments"], kw["in_width"], H, L, p, "input layer")
        if norm is not None:
            f.norm(norm)
        if act is not None:
            f.act(act)
        shared, total, room = f.save(), 0.0, 0.0
        for r in range(kw["replicas"]):
            f.restore(shared)
            nets.follow_mlp(f, rep)
            v, rm = f.value()
            total, room = total + v, room + rm
        f.combine(total, room, f"sum of {kw['replicas']} replicas")
        if dr > 0:
            f.drop(dr)
        if norm is not None:
            f.norm(norm)
        if act is not None:
            f.act(act)
        f.fc(t, kw.get("n_out") or n, kw["out_segments"], H, kw["out_width"], L, p, "output layer")
        f.ctx.see("replica_sums")

    drive(ctx, net, kw, follow, kw["in_width"], L, p, "HighOrderMultiMLP")


def transform(ctx):
    N = api.ns.networks
    if ctx.chance(0.6):
        kw = dict(layer_type=ctx.choice(["continuous", "discontinuous", "polynomial", "continuous_prod"]), in_width=ctx.int(1, 4), hidden_width=ctx.int(1, 5),
                  out_width=ctx.int(1, 3), n=ctx.int(2, 4), n_in=ctx.choice([None, 2, 5]), n_hidden=ctx.choice([None, 4, 3]), n_out=ctx.choice([None, 2, 6]),
                  in_segments=ctx.int(1, 4), hidden_segments=ctx.int(1, 4), out_segments=ctx.int(1, 4), hidden_layers=ctx.int(0, 3), rotations=ctx.int(1, 4))
        gen.grow(ctx, kw, dict(WIDE, in_width=[6, 8], rotations=[6, 9, 12]))
        if ctx.chance(0.5):
            kw["periodicity"] = ctx.choice([None, 3.0, 1.0])
        if ctx.chance(0.4):
            kw["scale"] = ctx.choice([3.0, 1.0])
        if ctx.chance(0.5):
            kw["normalization"] = ctx.choice(norms())
        if ctx.chance(0.45):
            kw["resnet"] = True
        full = dict(periodicity=2.0)
        full.update(kw)
        with ctx.cut(f"transform_mlp {show(kw)}"):
            net = N.transform_mlp(**kw)

        def follow(f):
            w = nets.follow_rotation(f, kw["in_width"], kw["rotations"])
            nets.follow_mlp(f, full, w)

        drive(ctx, net, kw, follow, kw["in_width"], label="transform_mlp")
    else:
        kw = dict(in_width=ctx.int(1, 4), hidden_width=ctx.int(1, 5), out_width=ctx.int(1, 3), hidden_layers=ctx.int(0, 3),
                  non_linearity=ctx.choice([None, torch.nn.Tanh(), torch.nn.ReLU()]), normalization=ctx.choice([None] + norms()), rotations=ctx.int(1, 4))
        gen.grow(ctx, kw, dict(WIDE, in_width=[6, 8], rotations=[6, 9, 12]))
        with ctx.cut(f"transform_low_mlp {show(kw)}"):
            net = N.transform_low_mlp(**kw)

        def follow(f):
            w = nets.follow_rotation(f, kw["in_width"], kw["rotations"])
            nets.follow_low(f, kw, w)

        drive(ctx, net, kw, follow, kw["in_width"], label="transform_low_mlp")


def large(ctx):
    """Every setting in turn far beyond the usual sizes."""
    ctx.turn = ctx.index // 4
    (mlp, low, multi, transform)[ctx.index % 4](ctx)


SCENARIOS = {"large": (large, 120, 1200), "mlp": (mlp, 360, 6000), "low": (low, 80, 1200), "list": (listed, 160, 2400), "multi": (multi, 160, 2400), "transform": (transform, 120, 1800)}
MUST_SEE = ["decoys", "layers_followed", "links_followed", "normalizations_followed", "nonlinearities_followed", "dropouts_followed", "combinations_checked",
            "residual_networks", "large_settings", "replica_sums", "rotations_followed", "forward_passes_followed", "training_steps", "reloads"]
RULE = "one case = a network configuration with a short history of passes (mode, batch, weight updates); distinct by configuration and history length"
ASSUMPTIONS = ["the layers of a network are torch modules, so their calls pass through torch's forward hooks",
               "in a layer-list network the normalization and non-linearity lists are uniform (which entry goes where is not documented)"]
