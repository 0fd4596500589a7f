"""Invalid requests are refused loudly; every documented name works."""
import numpy as np
import torch
from omegaconf import OmegaConf

from hol import api, conv, fc, gen, monitor, nets, refine
from hol import ref as R
from hol.checks import c03, c08, c14, c24

FC = ["baseline_relu", "baseline", "continuous", "continuous_prod", "discontinuous", "discontinuous_prod", "polynomial", "polynomial_prod", "product", "fourier",
      "switch_continuous", "switch_discontinuous", "polynomial_2d", "polynomial_3d", "polynomial_4d", "polynomial_5d", "continuous_nd"]
CONV = list(conv.CLASSES)
LISTED_ONLY = ["continuous_prod2d", "discontinuous_prod2d", "polynomial_prod2d", "product2d"]  # named, never implemented
CONVT = ["continuous2d"]


def unknown(ctx, known):
    """A name that is not known but looks like one."""
    alphabet = "abcdefghijklmnopqrstuvwxyz_0123456789 "
    for _ in range(100):
        b = ctx.choice([q for q in known if q])
        how = ctx.choice(["drop", "double", "swap", "case", "suffix", "prefix", "dim", "space", "junk", "empty", "other", "replace"])
        if how == "drop":
            i = ctx.int(0, len(b) - 1)
            s = b[:i] + b[i + 1 :]
        elif how == "double":
            i = ctx.int(0, len(b) - 1)
            s = b[:i] + b[i] + b[i:]
        elif how == "swap":
            i = ctx.int(0, len(b) - 2)
            s = b[:i] + b[i + 1] + b[i] + b[i + 2 :]
        elif how == "case":
            s = ctx.choice([b.upper(), b.capitalize(), b.title()])
        elif how == "suffix":
            s = b + ctx.choice(["1d", "2d", "3d", "_prod", "s", "_nd", "_", "_2d"])
        elif how == "prefix":
            s = ctx.choice(["switch_", "dis", "_", "piecewise_", "low_"]) + b
        elif how == "dim":
            s = b.replace("2d", "3d").replace("1d", "0d").replace("_5d", "_6d")
        elif how == "space":
            s = ctx.choice([" " + b, b + " ", b.replace("_", " "), b.replace("_", "-"), b + "\n"])
        elif how == "junk":
            s = "".join(ctx.choice(alphabet) for _ in range(ctx.int(1, 12)))
        elif how == "empty":
            s = ctx.choice(["", "none", "None", "default", "linear", "relu", "auto"])
        elif how == "replace":
            i = ctx.int(0, len(b) - 1)
            s = b[:i] + ctx.choice(alphabet) + b[i + 1 :]
        else:
            s = ctx.choice(["quadratic", "spline", "chebyshev", "legendre", "max_abs", "l2", "adam", "high_order"])
        if s not in known:
            return s
    return "certainly_not_a_name"


def refuses(ctx, label, fn, name=None):
    """Raises an ordinary exception; for a bad name, one that mentions it."""
    ctx.see("rejections_required")
    try:
        with open("/dev/null", "w") as dn:
            import contextlib

            with contextlib.redirect_stdout(dn):
                out = fn()
    except Exception as e:
        if name is not None and name.strip() and name not in str(e):
            ctx.fail(f"{label}: the {type(e).__name__} ({str(e)[:150]!r}) does not name the problem")
        ctx.see("rejected")
        return e
    ctx.fail(f"{label}: accepted silently (returned {type(out).__name__})")


FACT = dict(n=3, in_features=2, out_features=2, segments=2)
CF = dict(n=2, in_channels=1, out_channels=2, kernel_size=2, segments=2)


def names(ctx):
    for _ in range(6):
        k = ctx.choice(["fc", "conv", "convt", "listed", "mlp", "mlp_in", "list", "fcn", "deconv", "tail", "switch", "model", "optimizer", "other_table"])
        N = api.ns.networks
        if k == "fc":
            s = unknown(ctx, FC)
            refuses(ctx, f"fully connected layer {s!r}", lambda: api.fc(s, **FACT), s)
        elif k == "conv":
            s = unknown(ctx, CONV + LISTED_ONLY)
            refuses(ctx, f"convolution {s!r}", lambda: api.conv(s, **CF), s)
        elif k == "convt":
            s = unknown(ctx, CONVT) if ctx.chance(0.5) else ctx.choice([q for q in CONV if q not in CONVT])
            refuses(ctx, f"transposed convolution {s!r}", lambda: api.convt(s, **CF), s)
        elif k == "listed":
            s = ctx.choice(LISTED_ONLY)
            refuses(ctx, f"unimplemented convolution {s!r}", lambda: api.conv(s, **CF))
        elif k == "other_table":
            s = ctx.choice([q for q in CONV + CONVT if q not in FC])
            refuses(ctx, f"fully connected layer {s!r}", lambda: api.fc(s, **FACT), s)
            s2 = ctx.choice([q for q in FC if q not in CONV])
            refuses(ctx, f"convolution {s2!r}", lambda: api.conv(s2, **CF), s2)
        elif k == "mlp":
            s = unknown(ctx, FC)
            refuses(ctx, f"network of {s!r}", lambda: N.HighOrderMLP(layer_type=s, n=2, in_width=2, out_width=1, hidden_layers=1, hidden_width=2, in_segments=2, hidden_segments=2, out_segments=2), s)
        elif k == "mlp_in":
            s = unknown(ctx, FC + [""])
            refuses(ctx, f"network with input layer {s!r}", lambda: N.HighOrderMLP(layer_type="continuous", layer_type_in=s, n=2, in_width=2, out_width=1, hidden_layers=1, hidden_width=2, in_segments=2, hidden_segments=2, out_segments=2), s)
        elif k == "list":
            s = unknown(ctx, FC)
            ts = ["continuous"] * 3
            ts[ctx.int(0, 2)] = s
            refuses(ctx, f"layer list {ts}", lambda: N.HighOrderMLPList(layer_type=ts, n=[2, 2, 2], width=[2, 2, 2, 1], segments=[2, 2, 2]), s)
        elif k in ("fcn", "tail"):
            s = unknown(ctx, CONV + LISTED_ONLY)
            ts = ["continuous1d"] * 2
            ts[ctx.int(0, 1)] = s
            cls = N.HighOrderFullyConvolutionalNetwork if k == "fcn" else N.HighOrderTailFocusNetwork
            kw = dict(pooling="1d") if k == "fcn" else dict(focus=[1, 1])
            refuses(ctx, f"convolutional network of {ts}", lambda: cls(layer_type=ts, n=2, channels=[1, 2, 1], segments=2, kernel_size=[2, 2], **kw), s)
        elif k == "deconv":
            s = unknown(ctx, CONVT)
            refuses(ctx, f"deconvolutional network of {s!r}", lambda: N.HighOrderFullyDeconvolutionalNetwork(layer_type=s, n=2, channels=[1, 2, 1], segments=2, kernel_size=[2, 2]), s)
        elif k == "switch":
            s = unknown(ctx, FC)
            refuses(ctx, f"switch layer of {s!r}", lambda: api.ns.layers.SwitchLayer(layer_type=s, n=2, in_features=2, out_features=1, segments=2), s)
        else:
            task = ctx.choice(["ClassificationNet", "RegressionNet"])
            mts = ["high_order", "high_order_input", "high_order_conv", "high_order_tail_focus"]
            s = unknown(ctx, mts if k == "model" else ["adam", "lion"])
            net = dict(model_type=s if k == "model" else "high_order", layer_type="continuous", normalize=False, n=2, n_in=None, n_out=None, n_hidden=None, input=dict(segments=2, width=2), output=dict(segments=2, width=2), hidden=dict(segments=2, layers=1, width=2))
            cfg = OmegaConf.create(dict(net=net, optimizer=dict(name=s if k == "optimizer" else "adam", lr=0.1, scheduler=ctx.choice([None, "plateau", "exponential"]), patience=1, factor=0.5, gamma=0.5), data=dict(classes=2)))
            if k == "model":
                refuses(ctx, f"{task} with model type {s!r}", lambda: getattr(api.ns.modules, task)(cfg), s)
            else:
                with ctx.cut(f"building {task}"):
                    m = getattr(api.ns.modules, task)(cfg)
                snap = monitor.Snapshot(monitor.state_tensors(m))
                refuses(ctx, f"optimizer {s!r}", m.configure_optimizers, s)
                ctx.expect(snap.changed() is None, f"the refused optimizer changed {snap.changed()}")
        ctx.see("names_" + k)
        ctx.sig(k, s)
    ctx.describe(last=k, name=s)


def numbers(ctx):
    for _ in range(6):
        k = ctx.choice(["rotations", "rotations_net", "sinusoid", "nd_missing", "nd_mismatch", "nd_dims", "width", "channels", "lists", "lists", "lists", "heads", "lion", "basis"])
        N = api.ns.networks
        what = None
        if k == "rotations":
            r, n = ctx.choice([0, -1, -2, -7, 0.5]), ctx.int(1, 4)
            refuses(ctx, f"{r} rotations", lambda: api.ns.layers.fixed_rotation_layer(n=n, rotations=r))
            what = r, n
        elif k == "rotations_net":
            r = ctx.choice([0, -1, -3])
            cls = ctx.choice(["HighOrderMLP", "LowOrderMLP"])
            args = dict(in_width=2, out_width=1, hidden_layers=1, hidden_width=2, rotations=r)
            if cls == "HighOrderMLP":
                refuses(ctx, f"transformed network with {r} rotations", lambda: N.transform_mlp(layer_type="continuous", n=2, in_segments=2, hidden_segments=2, out_segments=2, **args))
            else:
                refuses(ctx, f"transformed low order network with {r} rotations", lambda: N.transform_low_mlp(**args))
            what = cls, r
        elif k == "sinusoid":
            d = ctx.choice([1, 3, 5, 7, 9, 33, 127, 511, 2 * ctx.int(0, 400) + 1])
            refuses(ctx, f"sinusoidal embedding of size {d}", lambda: api.ns.emb.ClassicSinusoidalEmbedding(d))
            what = d
        elif k == "nd_missing":
            n = ctx.int(1, 5)
            s = ctx.choice([2, [2, 3]])
            make = ctx.choice([lambda **q: api.fc("continuous_nd", **q), lambda **q: api.ns.poly.PiecewiseND(**q)])
            refuses(ctx, f"N-dimensional layer with n={n} and no dimensions", lambda: make(n=n, in_features=1, out_features=1, segments=s))
            what = n, str(s)
        elif k == "nd_mismatch":
            a = ctx.int(1, 4)
            b = ctx.choice([q for q in (1, 2, 3, 4, 5) if q != a])
            refuses(ctx, f"N-dimensional layer with {a} node counts and {b} segment counts", lambda: api.ns.poly.PiecewiseND(n=[2] * a, in_features=1, out_features=1, segments=[2] * b))
            what = a, b
        elif k == "nd_dims":
            a = ctx.int(1, 4)
            b = ctx.choice([q for q in (1, 2, 3, 4, 5) if q != a])
            s = ctx.choice([2, [2] * a, [2] * b])
            refuses(ctx, f"{b}-dimensional layer with {a} node counts and segments {s}", lambda: api.ns.poly.PiecewiseND(n=[2] * a, in_features=1, out_features=1, segments=s, dimensions=b))
            what = a, b, str(s)
        elif k == "width":
            a = ctx.int(1, 4)
            b = ctx.choice([q for q in (1, 2, 3, 4, 5, 6) if q != a + 1])
            refuses(ctx, f"{b} widths for {a} layers", lambda: N.HighOrderMLPList(layer_type=["continuous"] * a, n=[2] * a, width=[2] * b, segments=[2] * a))
            what = a, b
        elif k == "channels":
            cls = ctx.choice(["HighOrderFullyConvolutionalNetwork", "HighOrderFullyDeconvolutionalNetwork", "HighOrderTailFocusNetwork"])
            ch = ctx.choice([[1], [3], []])
            t = "continuous1d" if "Tail" in cls else "continuous2d"
            ks = ctx.choice([[2], [2, 2], []])
            kw = dict(focus=1) if "Tail" in cls else {}
            refuses(ctx, f"{cls} with channels {ch}", lambda: getattr(N, cls)(layer_type=t, n=2, channels=ch, segments=2, kernel_size=ks, **kw))
            what = cls, len(ch), len(ks)
        elif k == "lists":
            cls = ctx.choice(["HighOrderFullyConvolutionalNetwork", "HighOrderFullyDeconvolutionalNetwork", "HighOrderTailFocusNetwork"])
            K = ctx.int(1, 4)
            t = "continuous1d" if "Tail" in cls else "continuous2d"
            kw = dict(layer_type=[t] * K, n=[2] * K, channels=[1] * (K + 1), segments=[2] * K, kernel_size=[1] * K)
            kw["stride"] = ctx.choice([None, 1, [1] * K])
            if "Tail" in cls:
                kw["focus"] = [1] * K
            which = ctx.choice(["layer_type", "n", "channels", "segments", "kernel_size"])
            L = len(kw[which]) + ctx.choice([-1, 1, 1, 2])
            if L < 1:
                L = len(kw[which]) + 1
            kw[which] = [kw[which][0]] * L
            if ctx.chance(0.5):  # some of the others as single values
                for q in ("layer_type", "n", "segments"):
                    if q != which and ctx.chance(0.5):
                        kw[q] = kw[q][0]
            ctx.describe(lists=str(kw))
            refuses(ctx, f"{cls} with {which} of length {L} for {K} layers ({kw})", lambda: getattr(N, cls)(**kw))
            what = cls, K, which, L
        elif k == "heads":
            cls = ctx.choice(["MultiHeadAttention", "RelativeMultiHeadAttention"])
            h = ctx.choice([2, 3, 4, 5, 8])
            d = ctx.choice([q for q in range(1, 40) if q % h])
            refuses(ctx, f"{cls} of size {d} with {h} heads", lambda: getattr(api.ns.attentions, cls)(d, h))
            what = cls, d, h
        elif k == "lion":
            p = [torch.nn.Parameter(torch.ones(2))]
            kw = ctx.choice([dict(lr=0.0), dict(lr=-1e-3), dict(betas=(1.5, 0.9)), dict(betas=(0.9, -0.1)), dict(betas=(-0.5, 0.5)), dict(betas=(0.9, 1.0001))])
            refuses(ctx, f"SparseLion with {kw}", lambda: api.ns.sparse_lion.SparseLion(p, **kw))
            what = str(kw)
        else:
            cls = ctx.choice(["Expansion1d", "Expansion2d"])
            refuses(ctx, f"{cls} without a basis", lambda: getattr(api.ns.conv, cls)(None) if ctx.chance(0.5) else getattr(api.ns.conv, cls)())
            what = cls
        ctx.see("numbers_" + k)
        ctx.sig(k, what)
    ctx.describe(last=k, request=str(what))


def refusals(ctx):
    """Refused refinements leave both sides as they were."""
    k = ctx.choice(["p_segments", "p_segments", "h_discontinuous", "h_discontinuous", "p_network", "h_network", "p_switch", "h_switch"])
    I, O, n, m = ctx.int(1, 3), ctx.int(1, 3), ctx.int(2, 4), ctx.int(2, 5)
    S = ctx.int(1, 6)
    T = ctx.choice([q for q in range(1, 9) if q != S])
    N = api.ns.networks
    P = api.ns.poly
    L = ctx.choice([2.0, 1.0, 3.0])
    if k == "p_segments":
        kind = ctx.choice(["continuous", "discontinuous", "continuous_prod", "discontinuous_prod"])
        with ctx.cut("building layers"):
            a, b = (api.fc(kind, n=q, in_features=I, out_features=O, segments=s, length=L) for q, s in ((n, S), (m, T)))
        fn = ctx.choice([lambda: a.interpolate(b), lambda: P.interpolate_polynomial_layer(a, b), lambda: P.interpolate_polynomial_layer(layer_in=a, layer_out=b)])
        label = f"p-refinement of a {kind} layer from {S} to {T} segments"
        both = True
    elif k == "h_discontinuous":
        kind = ctx.choice(["discontinuous", "discontinuous_prod"])
        T = ctx.int(1, 8)
        with ctx.cut("building layers"):
            a, b = (api.fc(kind, n=n, in_features=I, out_features=O, segments=s, length=L) for s in (S, T))
        fn = ctx.choice([lambda: a.refine(b), lambda: P.refine_discontinuous_polynomial_layer(a, b)])
        label = f"h-refinement of a {kind} layer from {S} to {T} segments"
        both = True
    elif k in ("p_switch", "h_switch"):
        kind = ctx.choice(["switch_continuous", "switch_discontinuous"]) if k == "p_switch" else "switch_discontinuous"
        with ctx.cut("building layers"):
            a, b = (api.fc(kind, n=q, in_features=I, out_features=O, segments=s) for q, s in ((n, S), (m if k == "p_switch" else n, T)))
        fn = (lambda: a.interpolate(b)) if k == "p_switch" else (lambda: a.refine(b))
        label = f"{k} of {kind} from {S} to {T} segments"
        both = True
    else:
        kind = ctx.choice(["continuous", "discontinuous"]) if k == "p_network" else "discontinuous"
        mk = lambda q, s: N.HighOrderMLP(layer_type=kind, n=q, in_width=2, out_width=1, hidden_layers=1, hidden_width=2, in_segments=s, hidden_segments=s, out_segments=s)
        with ctx.cut("building networks"):
            a, b = mk(n, S), mk(m if k == "p_network" else n, T)
        fn = (lambda: N.interpolate_high_order_mlp(network_in=a, network_out=b)) if k == "p_network" else (lambda: N.hp_refine_high_order_mlp(network_in=a, network_out=b))
        if k == "h_network" and hasattr(N, "refine_high_order_mlp") and ctx.chance(0.5):
            fn = lambda: N.refine_high_order_mlp(network_in=a, network_out=b)
        label = f"{k} of a {kind} network from {S} to {T} segments"
        both = True
    sa = monitor.Snapshot([(q, t) for q, t in monitor.state_tensors(a)])
    sb = monitor.Snapshot([(q, t) for q, t in monitor.state_tensors(b)])
    refuses(ctx, label, fn)
    ctx.expect(sa.changed() is None, f"{label}: was refused but changed the source ({sa.changed()})")
    if both:
        ctx.expect(sb.changed() is None, f"{label}: was refused but changed the target ({sb.changed()})")
    x = gen.t32(ctx.np.uniform(-1, 1, size=(4, a.in_features if hasattr(a, "in_features") else (2 if "network" in k else I))))
    monitor.call(ctx, "use after a refused refinement", a, x)
    ctx.see("refused_refinements")
    ctx.see("refused_" + k)
    ctx.describe(kind=k, label=label)
    ctx.sig(k, label, I, O, n, m)


def accepted(ctx):
    """Every documented name builds a working layer of the kind it names, and
    a refused request before it makes no difference."""
    table = FC + [q + "/conv" for q in CONV] + [q + "/convt" for q in CONVT]
    name = table[ctx.index % len(table)]
    if ctx.chance(0.3):
        bad = unknown(ctx, FC + CONV + LISTED_ONLY + CONVT)
        for f, kw in ((api.fc, FACT), (api.conv, CF), (api.convt, CF)):
            refuses(ctx, f"layer {bad!r}", lambda: f(bad, **kw), bad)
    if name.endswith("/conv"):
        kind = name[:-5]
        c, B, size = conv.cfg(ctx, kind)
        kw = dict(n=c["n"], in_channels=c["C"], out_channels=c["O"], kernel_size=c["k"], stride=c["stride"], padding=c["padding"], dilation=c["dilation"], groups=c["groups"], padding_mode=c["padding_mode"], length=c["L"], rescale_output=c["rescale"])
        if c["S"] is not None:
            kw["segments"] = c["S"]
        if c["p"] is not None:
            kw["periodicity"] = c["p"]
        with ctx.cut(f"convolution {kind}"):
            layer = api.conv(kind, **kw)
        w = gen.main_weight(ctx, layer, 2 + int(kind[-2]))
        gen.fill(ctx, w, "normal")
        conv.check(ctx, kind, layer, w, conv.inputs(ctx, B, c, size), c, f"layer named {kind}")
    elif name.endswith("/convt"):
        c08.random_case(ctx)
    elif name in fc.CLASSES:
        c, B = fc.cfg(ctx, name, 200000)
        layer, w = fc.build(ctx, name, via="factory", **c)
        gen.fill(ctx, w, "normal" if "prod" not in name else "tiny")
        fc.check_forward(ctx, name, layer, w, gen.xs(ctx, (B, c["I"]), c["n"], c["S"] or 1, c["L"], c["p"]), c, label=f"layer named {name}")
    elif name == "continuous_nd":
        n, S, I, O, d = ctx.int(1, 3), ctx.int(1, 4), ctx.int(1, 2), ctx.int(1, 3), ctx.int(1, 3)
        with ctx.cut(f"layer {name}"):
            layer = api.fc(name, n=n, in_features=I, out_features=O, segments=S, dimensions=d)
        w = next(p for p in layer.parameters() if p.dim() == 3)
        gen.fill(ctx, w, "normal")
        x = c24.points(ctx, 5, I, [n] * d, [S] * d, 2.0)
        monitor.compare(ctx, f"layer named {name}", monitor.call(ctx, name, layer, x), c24.reference(monitor.n64(x), monitor.n64(w), [n] * d, [S] * d, 2.0))
    elif name.startswith("polynomial_"):
        d, n, I, O = int(name[-2]), ctx.int(1, 3), ctx.int(1, 2), ctx.int(1, 3)
        with ctx.cut(f"layer {name}"):
            layer = api.fc(name, n=n, in_features=I, out_features=O)
        w = gen.main_weight(ctx, layer)
        ctx.expect(tuple(w.shape) == (O, I, n**d), f"layer named {name}: weights {tuple(w.shape)}")
        gen.fill(ctx, w, "normal")
        x = gen.t32(ctx.np.uniform(-1.2, 1.2, size=(5, I, d)))
        V, E = R.tensor_basis(monitor.n64(x), [n] * d)
        monitor.compare(ctx, f"layer named {name}", monitor.call(ctx, name, layer, x), R.sum_layer(V, E, monitor.n64(w)))
    else:
        I, O = ctx.int(1, 4), ctx.int(1, 4)
        n, S = ctx.int(1, 4), ctx.int(1, 4)
        with ctx.cut(f"layer {name}"):
            layer = api.fc(name, n=n, in_features=I, out_features=O, segments=S)
        nets.fill(ctx, layer)
        x = gen.t32(ctx.np.uniform(-1, 1, size=(6, I)))
        f, out = nets.run(ctx, layer, x, f"layer named {name}")
        f.fc(name, n, S, I, O, what="layer")
        f.finish(out)
    ctx.see("documented_names")
    ctx.see("name_" + name.replace("/", "_"))
    ctx.describe(name=name)
    ctx.sig(name, ctx.index)


SCENARIOS = {"names": (names, 300, 5000), "numbers": (numbers, 300, 5000), "refusals": (refusals, 300, 4000), "accepted": (accepted, 520, 6000)}
MUST_SEE = ["rejected", "refused_refinements", "documented_names", "values_compared"] + ["name_" + q for q in FC] + ["name_" + q + "_conv" for q in CONV] + [
    "numbers_" + q for q in ("rotations", "rotations_net", "sinusoid", "nd_missing", "nd_mismatch", "nd_dims", "width", "channels", "lists", "heads", "lion", "basis")] + [
    "names_" + q for q in ("fc", "conv", "convt", "listed", "mlp", "mlp_in", "list", "fcn", "deconv", "tail", "switch", "model", "optimizer")]
RULE = "one case = six invalid requests, one refused refinement or one documented name with a random valid configuration; distinct by the request"
ASSUMPTIONS = ["names that the convolution table lists without an implementation must be refused too", "layer lists of the convolutional networks are types, node counts, segments, kernels and channels"]
