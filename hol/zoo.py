"""Every kind of layer and network the library builds, with random
configurations, for the properties that hold for all of them."""
import numpy as np
import torch

from hol import api, gen


class Item:
    """build() makes a fresh module, inputs(B) a batch of B samples."""

    def __init__(self, name, build, inputs, smooth=True, perturb=True, per_sample=True, config=None, lazy=False):
        self.name, self.build, self.inputs = name, build, inputs
        self.per_sample, self.config, self.lazy = per_sample, config or {}, lazy


def outs(y):
    if torch.is_tensor(y):
        return [y]
    return [t for t in y if torch.is_tensor(t)]


def _x(ctx, shape, L=2.0, S=4, n=3):
    return gen.xs(ctx, shape, n, S, L)


FC = ["continuous", "discontinuous", "continuous_prod", "discontinuous_prod", "polynomial", "polynomial_prod", "fourier", "product",
      "switch_continuous", "switch_discontinuous", "baseline", "baseline_relu"]
ND = ["polynomial_2d", "polynomial_3d", "polynomial_4d", "polynomial_5d", "continuous_nd"]
CONV = ["continuous1d", "continuous2d", "discontinuous1d", "discontinuous2d", "polynomial1d", "polynomial2d", "fourier1d", "fourier2d"]
NETS = ["mlp", "mlp_resnet", "mlp_norm", "mlp_switch", "mlp_list", "mlp_multi", "low_mlp", "transform_mlp", "transform_low", "fcn1d", "fcn2d",
        "deconv", "tail", "vae_parts", "sum_layer", "switch_any"]
NORMS = ["MaxAbsNormalization", "MaxAbsNormalizationLast", "MaxAbsNormalizationND", "MaxCenterNormalization", "MaxCenterNormalizationLast",
         "MaxCenterNormalizationND", "L2Normalization", "LazyLayerNormLastDim"]
ATT = ["ScaledDotProductAttention", "DotProductAttention", "AdditiveAttention", "LocationAwareAttention", "MultiHeadLocationAwareAttention",
       "MultiHeadAttention", "RelativeMultiHeadAttention", "CustomizingAttention"]
EMB = ["sinusoidal", "emb_fourier", "emb_continuous", "emb_discontinuous", "rotation"]
MODS = ["ClassificationNet", "RegressionNet"]
ALL = FC + ND + CONV + ["convt2d"] + NETS + NORMS + ATT + EMB + MODS


def fc_kwargs(ctx, kind):
    n = ctx.choice([1, 2, 3, 4, 5, 6])
    I, O = ctx.choice([1, 2, 3, 5]), ctx.choice([1, 2, 3, 4])
    kw = dict(n=n, in_features=I, out_features=O)
    base = kind.replace("_prod", "").replace("switch_", "")
    S = ctx.choice([1, 2, 3, 4, 7])
    big = ctx.choice([None] * 9 + ["in_features", "out_features", "segments"])  # one setting far beyond the others
    if big == "segments":
        S = ctx.choice([16, 40])
    elif big and not kind.endswith("_prod") and kind != "product":
        kw[big] = ctx.choice([17, 33])
    if base in ("continuous", "discontinuous"):
        kw["segments"] = S
    if not kind.startswith("switch") and not kind.startswith("baseline") and kind != "product":
        kw["length"] = ctx.choice([2.0, 2.0, 1.0, 3.0])
        if kind != "fourier":
            kw["periodicity"] = ctx.choice([None, None, 2.0])
    if kind.endswith("_prod") or kind == "product":
        kw["alpha"] = ctx.choice([1.0, 0.0, 0.5])
    if kind.startswith("switch"):
        kw["scale"] = ctx.choice([2.0, 3.0])
        kw["num_input_layers"] = ctx.choice([2, 3])
    if kind == "product":
        kw.pop("n")
        kw["bias"] = ctx.choice([True, False])
    return kw


def conv_kwargs(ctx, kind):
    C = ctx.choice([1, 2, 3])
    kw = dict(n=ctx.choice([1, 2, 3, 4, 5, 6]), in_channels=C, out_channels=ctx.choice([1, 2, 3]), kernel_size=ctx.choice([1, 2, 3]))
    big = ctx.choice([None] * 10 + ["in_channels", "out_channels"])
    if big:
        kw[big] = ctx.choice([9, 17])
    if "continuous" in kind:
        kw["segments"] = ctx.choice([1, 2, 3, 5])
    kw["length"] = ctx.choice([2.0, 2.0, 3.0])
    kw["stride"] = ctx.choice([1, 1, 2])
    kw["padding"] = ctx.choice([0, 0, 1])
    if "fourier" not in kind:
        kw["periodicity"] = ctx.choice([None, None, 2.0])
    return kw


def mlp_kwargs(ctx, kinds=("continuous", "discontinuous", "polynomial", "fourier", "product", "continuous_prod", "discontinuous_prod", "polynomial_prod")):
    t = ctx.choice(list(kinds))
    kw = dict(
        layer_type=t, n=ctx.choice([2, 3, 4]), in_width=ctx.int(1, 3), out_width=ctx.int(1, 3),
        hidden_layers=ctx.choice([0, 1, 2, 3]), hidden_width=ctx.int(1, 5),
        in_segments=ctx.int(1, 4), hidden_segments=ctx.int(1, 4), out_segments=ctx.int(1, 4),
    )
    if ctx.chance(0.5):
        kw["n_in"], kw["n_hidden"], kw["n_out"] = ctx.choice([2, 3, 5]), ctx.choice([2, 3, 4]), ctx.choice([2, 3, 6])
    if ctx.chance(0.3):
        kw["periodicity"] = 2.0
    if ctx.chance(0.3):
        kw["scale"] = 3.0
    if ctx.chance(0.2):
        kw["initialization"] = "uniform"
    return kw


def norm_choice(ctx, lazy_ok=True):
    Ls = api.ns.layers
    return ctx.choice([Ls.MaxAbsNormalization, Ls.MaxCenterNormalization, Ls.L2Normalization, Ls.MaxAbsNormalizationLast, Ls.MaxAbsNormalizationND]
                      + ([Ls.LazyLayerNormLastDim] if lazy_ok else []))


class Det(torch.nn.Module):
    """deterministic part of the autoencoder: encode, decode the mean"""

    def __init__(self, lat, enc, dec):
        super().__init__()
        N = api.ns.networks
        self.vae = N.VanillaVAE(lat, N.HighOrderFullyConvolutionalNetwork(**enc), N.HighOrderFullyDeconvolutionalNetwork(**dec))

    def forward(self, x):
        mu, lv = self.vae.encode(x)
        return self.vae.decode(mu), mu, lv


def make(ctx, name):
    ns = api.ns
    if name in FC:
        kw = fc_kwargs(ctx, name)
        L = kw.get("length", kw.get("scale", 2.0))
        if name.startswith("switch") and ctx.chance(0.4):
            norm = ctx.choice([lambda: torch.nn.LayerNorm(kw["out_features"]), lambda: torch.nn.BatchNorm1d(kw["out_features"]), ns.layers.LazyLayerNormLastDim, ns.layers.MaxAbsNormalization])
            return Item(name, lambda: api.fc(name, normalization=norm(), **kw), lambda B: (_x(ctx, (B, kw["in_features"]), L, kw["segments"]),), config=dict(kw, normalized=True), lazy=norm is ns.layers.LazyLayerNormLastDim)
        return Item(name, lambda: api.fc(name, **kw), lambda B: (_x(ctx, (B, kw["in_features"]), L, kw.get("segments", 2)),), config=kw)
    if name in ND:
        I, O = ctx.int(1, 3), ctx.int(1, 3)
        if name == "continuous_nd":
            d = ctx.choice([1, 2, 3])
            kw = dict(n=[ctx.int(1, 3) for _ in range(d)], in_features=I, out_features=O, segments=[ctx.int(1, 3) for _ in range(d)])
        else:
            d = int(name[-2])
            n = ctx.int(1, 3) if d > 3 else ctx.int(1, 4)
            kw = dict(n=n if ctx.chance(0.5) else [ctx.int(1, 3) for _ in range(d)], in_features=I, out_features=O)
        kw["length"] = ctx.choice([2.0, 2.0, 3.0])
        return Item(name, lambda: api.fc(name, **kw), lambda B: (_x(ctx, (B, I, d), kw["length"]),), config=kw)
    if name in CONV:
        kw = conv_kwargs(ctx, name)
        d = int(name[-2])
        size = tuple(kw["kernel_size"] + ctx.int(0, 4) for _ in range(d))
        return Item(name, lambda: api.conv(name, **kw), lambda B: (_x(ctx, (B, kw["in_channels"]) + size, kw["length"]),), config=kw)
    if name == "convt2d":
        kw = conv_kwargs(ctx, "continuous2d")
        kw["kernel_size"] += 2 * kw["padding"]
        size = (ctx.int(1, 4), ctx.int(1, 4))
        return Item(name, lambda: api.convt("continuous2d", **kw), lambda B: (_x(ctx, (B, kw["in_channels"]) + size, kw["length"]),), config=kw)
    if name in ("mlp", "mlp_resnet", "mlp_norm", "mlp_switch"):
        kw = mlp_kwargs(ctx)
        lazy = False
        if name == "mlp_resnet":
            kw["resnet"] = True
            kw["hidden_layers"] = ctx.int(2, 4)
        if name == "mlp_switch":
            kw = mlp_kwargs(ctx, ("switch_continuous", "switch_discontinuous"))
            kw.pop("periodicity", None)
        if name != "mlp" or ctx.chance(0.3):
            kw["normalization"] = norm_choice(ctx)
            lazy = kw["normalization"].__name__.startswith("Lazy")
        if ctx.chance(0.3):
            kw["non_linearity"] = torch.nn.Tanh()
        if ctx.chance(0.2):
            kw["layer_type_in"] = "continuous"
        return Item(name, lambda: ns.networks.HighOrderMLP(**kw), lambda B: (_x(ctx, (B, kw["in_width"]), kw.get("scale", 2.0)),), config=kw, lazy=lazy)
    if name == "mlp_list":
        k = ctx.int(1, 4)
        width = [ctx.int(1, 4) for _ in range(k + 1)]
        kw = dict(
            layer_type=[ctx.choice(["continuous", "discontinuous", "polynomial", "fourier", "continuous_prod"]) for _ in range(k)],
            n=[ctx.int(2, 4) for _ in range(k)], width=width, segments=[ctx.int(1, 3) for _ in range(k)],
        )
        if ctx.chance(0.5):
            nm = norm_choice(ctx, False)
            kw["normalization"] = [nm] * k
        return Item(name, lambda: ns.networks.HighOrderMLPList(**kw), lambda B: (_x(ctx, (B, width[0])),), config=kw)
    if name == "mlp_multi":
        kw = mlp_kwargs(ctx)
        kw["replicas"] = ctx.int(1, 3)
        if ctx.chance(0.5):
            kw["normalization"] = norm_choice(ctx, False)
        return Item(name, lambda: ns.networks.HighOrderMultiMLP(**kw), lambda B: (_x(ctx, (B, kw["in_width"])),), config=kw)
    if name == "low_mlp":
        kw = dict(in_width=ctx.int(1, 4), out_width=ctx.int(1, 3), hidden_layers=ctx.int(0, 3), hidden_width=ctx.int(1, 5))
        if ctx.chance(0.7):
            kw["non_linearity"] = torch.nn.ReLU()
        if ctx.chance(0.5):
            kw["normalization"] = norm_choice(ctx, False)
        return Item(name, lambda: ns.networks.LowOrderMLP(**kw), lambda B: (_x(ctx, (B, kw["in_width"])),), config=kw)
    if name == "transform_mlp":
        kw = dict(layer_type=ctx.choice(["continuous", "discontinuous", "polynomial"]), in_width=ctx.int(1, 3), hidden_width=ctx.int(1, 4), out_width=ctx.int(1, 3),
                  n=3, n_in=ctx.choice([None, 2]), n_hidden=ctx.choice([None, 4]), n_out=ctx.choice([None, 2]), in_segments=ctx.int(1, 3),
                  hidden_segments=ctx.int(1, 3), out_segments=ctx.int(1, 3), hidden_layers=ctx.int(0, 2), rotations=ctx.int(1, 3))
        return Item(name, lambda: ns.networks.transform_mlp(**kw), lambda B: (_x(ctx, (B, kw["in_width"])),), config=kw)
    if name == "transform_low":
        kw = dict(in_width=ctx.int(1, 3), hidden_width=ctx.int(1, 4), out_width=ctx.int(1, 3), hidden_layers=ctx.int(0, 2),
                  non_linearity=torch.nn.Tanh(), normalization=None, rotations=ctx.int(1, 3))
        return Item(name, lambda: ns.networks.transform_low_mlp(**kw), lambda B: (_x(ctx, (B, kw["in_width"])),), config=kw)
    if name in ("fcn1d", "fcn2d", "tail", "deconv"):
        d = 1 if name in ("fcn1d", "tail") else 2
        k = ctx.int(1, 3)
        types = [t for t in CONV if t.endswith(f"{d}d")] if name != "deconv" else ["continuous2d"]
        kw = dict(
            layer_type=[ctx.choice(types) for _ in range(k)] if ctx.chance(0.7) else types[0],
            n=[ctx.int(2, 4) for _ in range(k)], channels=[ctx.int(1, 3) for _ in range(k + 1)],
            segments=[ctx.int(1, 3) for _ in range(k)], kernel_size=[ctx.int(1, 3) for _ in range(k)],
        )
        if ctx.chance(0.4):
            kw["normalization"] = (torch.nn.BatchNorm1d if d == 1 else torch.nn.BatchNorm2d)
        if ctx.chance(0.4) and name != "tail":
            kw["stride"] = [ctx.int(1, 2) for _ in range(k)]
        size = (16,) * d if name != "deconv" else (2, 2)
        if name == "tail":
            kw["focus"] = [ctx.int(1, 3) for _ in range(k)]
            cls = ns.networks.HighOrderTailFocusNetwork
        elif name == "deconv":
            cls = ns.networks.HighOrderFullyDeconvolutionalNetwork
        else:
            kw["pooling"] = ctx.choice([f"{d}d", f"{d}d", None])
            cls = ns.networks.HighOrderFullyConvolutionalNetwork
        return Item(name, lambda: cls(**kw), lambda B: (_x(ctx, (B, kw["channels"][0]) + size),), config=kw)
    if name == "vae_parts":
        enc = dict(layer_type="continuous2d", n=ctx.int(2, 3), channels=[1, 2, 3], segments=2, kernel_size=[3, 3])
        dec = dict(layer_type="continuous2d", n=[2, 2], channels=[4, 2, 1], segments=[2, 2], kernel_size=[3, 3])
        lat = ctx.int(1, 4)
        return Item(name, lambda: Det(lat, enc, dec), lambda B: (_x(ctx, (B, 1, 7, 7)),), config=dict(latent=lat))
    if name == "sum_layer":
        kinds = [ctx.choice([k for k in FC if not k.startswith("switch")]) for _ in range(ctx.choice([1, 2, 2, 3]))]
        kws = [fc_kwargs(ctx, k) for k in kinds]
        for kw in kws:
            kw["in_features"], kw["out_features"] = kws[0]["in_features"], kws[0]["out_features"]
        if ctx.chance(0.5):
            for kw in kws:
                kw["out_features"] = kw["in_features"]
        same, first = kws[0]["in_features"] == kws[0]["out_features"] and ctx.chance(0.7), ctx.chance(0.5)
        return Item(name, lambda: ns.layers.SumLayer(layer_list=([torch.nn.Identity()] if same and first else []) + [api.fc(k, **kw) for k, kw in zip(kinds, kws)] + ([torch.nn.Identity()] if same and not first else [])),
                    lambda B: (_x(ctx, (B, kws[0]["in_features"])),), config=dict(kinds=kinds, identity=same, **kws[0]))
    if name == "switch_any":
        kind = ctx.choice([k for k in FC if not k.startswith("switch")])
        kw = fc_kwargs(ctx, kind)
        kw = {k: q for k, q in kw.items() if k in ("n", "in_features", "out_features", "segments")}
        kw.setdefault("n", 2)
        kw["num_input_layers"] = ctx.choice([1, 2, 2, 3])
        return Item(name, lambda: ns.layers.SwitchLayer(layer_type=kind, **kw), lambda B: (_x(ctx, (B, kw["in_features"]), 2.0, kw.get("segments", 2)),), config=dict(kw, kind=kind))
    if name in NORMS:
        shp = (ctx.int(1, 6),) if name in ("L2Normalization",) or ctx.chance(0.4) else (ctx.int(1, 4), ctx.int(1, 5))
        kw = {}
        if name == "LazyLayerNormLastDim":
            kw["bias"] = ctx.choice([True, False])
        elif ctx.chance(0.4):
            kw["eps"] = 1e-3
        return Item(name, lambda: getattr(ns.layers, name)(**kw), lambda B: (_x(ctx, (B,) + shp),), config=kw, lazy=name.startswith("Lazy"))
    if name in ATT:
        return attention(ctx, name)
    if name == "sinusoidal":
        d = 2 * ctx.int(1, 6)
        shp = ctx.choice([(), (3,), (2, 2)])
        return Item(name, lambda: ns.emb.ClassicSinusoidalEmbedding(d), lambda B: (_x(ctx, (B,) + shp) * 5,), config=dict(dim=d))
    if name.startswith("emb_"):
        kind = name[4:]
        kw = dict(n=ctx.int(2, 5), in_features=ctx.int(1, 3), out_features=ctx.int(1, 3))
        if kind != "fourier":
            kw["segments"] = ctx.int(1, 4)
        cls = {"fourier": ns.emb.FourierSeriesEmbedding, "continuous": ns.emb.PiecewisePolynomialEmbedding, "discontinuous": ns.emb.PiecewiseDiscontinuousPolynomialEmbedding}[kind]
        return Item(name, lambda: cls(**kw), lambda B: (_x(ctx, (B, kw["in_features"])),), config=kw)
    if name == "rotation":
        n, r, nz = ctx.int(1, 4), ctx.int(1, 4), ctx.chance(0.5)
        return Item(name, lambda: ns.layers.fixed_rotation_layer(n, r, nz)[0], lambda B: (_x(ctx, (B, n)),), config=dict(n=n, rotations=r))
    if name in MODS:
        return lightning(ctx, name)
    raise KeyError(name)


def lightning(ctx, name):
    from omegaconf import OmegaConf

    mt = ctx.choice(["high_order", "high_order_input"])
    cfg = OmegaConf.create(
        dict(
            net=dict(model_type=mt, layer_type=ctx.choice(["continuous", "discontinuous"]), n=3, n_in=None, n_hidden=2, n_out=None, normalize=False,
                     input=dict(width=3, segments=2), hidden=dict(width=4, segments=2, layers=ctx.int(1, 3)), output=dict(width=3, segments=2)),
            optimizer=dict(name="adam", lr=0.01, scheduler=None), data=dict(classes=3),
        )
    )
    return Item(name, lambda: getattr(api.ns.modules, name)(cfg), lambda B: (_x(ctx, (B, 3)),), config=dict(model_type=mt))


def attention(ctx, name):
    ns = api.ns
    H = ctx.choice([1, 2, 4])
    D = H * ctx.choice([1, 2, 3])
    q, v = ctx.int(1, 4), ctx.int(1, 5)
    cls = getattr(ns.attentions, name)
    t = lambda *s: gen.t32(ctx.np.normal(size=s))
    if name == "ScaledDotProductAttention":
        return Item(name, lambda: cls(D), lambda B: (t(B, q, D), t(B, v, D), t(B, v, D)))
    if name == "DotProductAttention":
        return Item(name, lambda: cls(D), lambda B: (t(B, q, D), t(B, v, D)))
    if name == "AdditiveAttention":
        return Item(name, lambda: cls(D), lambda B: (t(B, 1, D), t(B, v, D), t(B, v, D)))
    if name == "LocationAwareAttention":
        sm = ctx.chance(0.5)
        return Item(name, lambda: cls(D, sm), lambda B: (t(B, 1, D), t(B, v, D), t(B, v).softmax(-1)))
    if name == "MultiHeadLocationAwareAttention":
        return Item(name, lambda: cls(D, H, 3), lambda B: (t(B, 1, D), t(B, v, D), t(B, H, v).softmax(-1)))
    if name == "MultiHeadAttention":
        # attn comes head-major: only the context is one row per sample
        return Item(name, lambda: _First(cls(D, H)), lambda B: (t(B, q, D), t(B, v, D), t(B, v, D)))
    if name == "RelativeMultiHeadAttention":
        return Item(name, lambda: cls(D, H, 0.0), lambda B: (t(B, v, D), t(B, v, D), t(B, v, D), t(B, v, D)))
    if name == "CustomizingAttention":
        return Item(name, lambda: _First(cls(D, H, 3)), lambda B: (t(B, 1, D), t(B, v, D), None))
    raise KeyError(name)


class _First(torch.nn.Module):
    """Keeps the context only."""

    def __init__(self, m):
        super().__init__()
        self.m = m

    def forward(self, *a):
        return self.m(*a)[0]


def shake(ctx, mod, scale=0.5):
    """Random values for every trainable tensor."""
    with torch.no_grad():
        for p in mod.parameters():
            if p.requires_grad and not isinstance(p, torch.nn.parameter.UninitializedParameter):
                p.copy_(gen.t32(ctx.np.normal(size=tuple(p.shape)) * scale).to(p.dtype))


def build(ctx, item, ready=True):
    with ctx.cut(f"building {item.name} {item.config}"):
        m = item.build()
    if item.lazy and ready:
        with ctx.cut(f"first call of {item.name}"), torch.no_grad():
            m(*item.inputs(2))
    ctx.see("models_built")
    decoy(ctx, item.name)
    return m


def decoy(ctx, name, p=0.2):
    """Another model of the same kind with settings of its own, built and used
    in between: it must not matter."""
    if not ctx.chance(p):
        return
    with gen.keep_random():
        other = make(ctx, name)
        with ctx.cut(f"building and using another {name} {other.config}"), torch.no_grad():
            m = other.build()
            m(*other.inputs(2))
    ctx.see("decoys")
