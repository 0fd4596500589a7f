"""C18: convolutional networks chain their layers and report their sizes."""
import numpy as np
import torch

from hol import api, conv, gen, monitor, nets, zoo
from hol import ref as R
from hol.checks import c08


class Gain(torch.nn.Module):
    """A per-channel normalization of our own that records its channel count."""

    def __init__(self, channels):
        super().__init__()
        self.weight = torch.nn.Parameter(torch.ones(channels))

    def forward(self, x):
        return x * self.weight.view([1, -1] + [1] * (x.dim() - 2))


def unit(mod):
    """Convolution layers of the library and normalizations, whole."""
    home = type(mod).__module__.rsplit(".", 1)[-1]
    if home.startswith("FunctionalConvolution"):
        return any(True for _ in mod.children()) and any(True for _ in mod.parameters())
    return isinstance(mod, (Gain, torch.nn.modules.batchnorm._BatchNorm)) or home == "layers" and not list(mod.children())


KINDS = {1: [k for k in conv.CLASSES if k.endswith("1d")], 2: [k for k in conv.CLASSES if k.endswith("2d")]}


def entry(ctx, kw, i, d, transposed=False):
    pick = lambda v: v[i] if isinstance(v, (list, tuple)) else v
    kind = pick(kw["layer_type"])
    base = kind[:-2]
    return kind, dict(n=pick(kw["n"]), S=pick(kw["segments"]) if base in ("continuous", "discontinuous") else None, C=kw["channels"][i], O=kw["channels"][i + 1],
                      k=kw["kernel_size"][i], stride=1 if kw.get("stride") is None else pick(kw["stride"]), padding=kw.get("padding", 0), dilation=1, groups=1,
                      padding_mode="zeros", output_padding=0, L=2.0, p=kw.get("periodicity") if base != "fourier" else None, rescale=kw.get("rescale_output", False))


def follow(ctx, label, net, events, x, kw, d, training, transposed=False):
    """Checks the chain; returns the outputs of all levels."""
    params = {id(p) for p in net.parameters()}
    cur, levels, seen = x, [], []
    ev = list(events)
    show = {k: str(v) for k, v in kw.items()}
    norm = kw.get("normalization")
    K = len(kw["kernel_size"])

    def nxt(what):
        if not ev:
            ctx.fail(f"{label}: ended where {what} is expected", config=show)
        e = ev.pop(0)
        if not nets.same(e.inp, cur):
            ctx.fail(f"{label}: {what} is not fed the output of the step before it", config=show)
        for p in e.module.parameters():
            if id(p) not in params or not p.requires_grad:
                ctx.fail(f"{label}: {what} has weights that are not trainable parameters of the network", config=show)
        if any(e.module is s for s in seen):
            ctx.fail(f"{label}: {what} is the same module as an earlier step", config=show)
        seen.append(e.module)
        ctx.see("links_followed")
        return e

    for i in range(K):
        kind, c = entry(ctx, kw, i, d)
        what = f"layer {i} ({'transposed ' if transposed else ''}{kind} n={c['n']} segments={c['S']} {c['C']}->{c['O']} kernel {c['k']} stride {c['stride']} padding {c['padding']})"
        e = nxt(what)
        ws = [q for q in e.module.parameters() if q.dim() == 2 + d]
        if len(ws) != 1:
            ctx.fail(f"{label}: {what} is {type(e.module).__name__}, which holds {len(ws)} kernels", config=show)
        w = ws[0]
        nb = conv.fc.nb(kind[:-2], c["n"], c["S"])
        want = ((c["C"] * nb, c["O"]) if transposed else (c["O"], c["C"] * nb)) + (c["k"],) * d
        if tuple(w.shape) != want:
            ctx.fail(f"{label}: {what} has weights {tuple(w.shape)} where {want} is expected", config=show)
        xx = e.inp.double()
        wild = ~(xx.abs() < 1e4)
        r = (lambda z: c08.reference(z, w, c)) if transposed else (lambda z: conv.reference(kind, z, w, c))
        v, tol = r(torch.where(wild, torch.zeros_like(xx), xx))
        rows = wild.flatten(1).any(-1).numpy()
        tol = tol.copy()
        tol[rows] = np.inf
        monitor.compare(ctx, f"{label}: {what}", e.out, (v, tol), config=show)
        ctx.see("layers_followed")
        cur = e.out
        if norm is not None:
            e = nxt(f"normalization of layer {i}")
            z = monitor.n64(e.inp)
            if isinstance(e.module, Gain):
                w = monitor.n64(e.module.weight)
                v = z * w.reshape([1, -1] + [1] * (z.ndim - 2))
                monitor.compare(ctx, f"{label}: normalization of layer {i}", e.out, (v, 4 * R.EPS * np.abs(v) + R.FLOOR), config=show)
            elif not (training and not (np.abs(z) < 1e5).all()):
                monitor.compare(ctx, f"{label}: normalization of layer {i}", e.out, nets.tame(lambda q: nets.norm_ref(ctx, e.module, q, training), z), config=show)
            ctx.see("normalizations_followed")
            cur = e.out
        levels.append(cur)
    if ev:
        ctx.fail(f"{label}: ran {type(ev[0].module).__name__} after the last layer", config=show)
    ctx.see("forward_passes_followed")
    return levels


def cfg(ctx, d, types):
    K = ctx.choice([1, 2, 2, 3, 3, 4]) if ctx.chance(0.93) else ctx.choice([5, 6])
    kw = dict(channels=[ctx.int(1, 3) for _ in range(K + 1)], kernel_size=[ctx.int(1, 3) for _ in range(K)])
    lists = lambda f: [f() for _ in range(K)] if ctx.chance(0.7) else f()
    kw["layer_type"] = lists(lambda: ctx.choice(types))
    kw["n"] = lists(lambda: ctx.choice([1, 2, 3, 4]))
    kw["segments"] = lists(lambda: ctx.int(1, 4))
    if ctx.chance(0.6):
        kw["stride"] = ctx.choice([lists(lambda: ctx.choice([1, 2, 2, 3])), None])
    if ctx.chance(0.4):
        kw["padding"] = ctx.int(0, 2) if ctx.chance(0.85) else ctx.choice([3, 4])
    if ctx.chance(0.15):  # one entry far beyond the usual sizes
        q = ctx.choice(["channels", "channels", "kernel_size", "n", "segments", "stride"])
        v = ctx.choice({"channels": [6, 8, 9, 16, 20], "kernel_size": [4, 5, 7], "n": [6, 8], "segments": [8, 12, 30], "stride": [4, 5]}[q])
        if isinstance(kw.get(q), list):
            kw[q][ctx.int(0, len(kw[q]) - 1)] = v
        elif kw.get(q) is not None:
            kw[q] = v
        ctx.see("large_settings")
    if ctx.chance(0.3):
        kw["rescale_output"] = ctx.chance(0.7)
    if ctx.chance(0.3):
        kw["periodicity"] = ctx.choice([2.0, 3.0, 1.0, 0.4, 9.0])
    if ctx.chance(0.55):
        kw["normalization"] = ctx.choice([Gain, torch.nn.BatchNorm1d if d == 1 else torch.nn.BatchNorm2d])
    return kw, K


def width_chain(kw, K, w):
    out = [w]
    for i in range(K):
        s = 1 if kw.get("stride") is None else kw["stride"][i] if isinstance(kw["stride"], list) else kw["stride"]
        w = (w + 2 * kw.get("padding", 0) - kw["kernel_size"][i]) // s + 1
        out.append(w)
        if w < 1:
            return None
    return out


def pick_size(kw, K, ctx, least=1):
    for w in range(1, 240):
        ch = width_chain(kw, K, w)
        if ch is not None and min(ch) >= least:
            return w + ctx.choice([0, 0, 1, 2, 5] * 4 + [40])
    return None


def passes(ctx, net, make_x, body):
    for s in range(ctx.choice([1, 2])):
        nets.fill(ctx, net, 0.4)
        training = ctx.chance(0.4)
        net.train(training)
        x = make_x()
        with monitor.trace(ctx, unit) as ev:
            out = monitor.call(ctx, "network", net, x)
        body(ev, x, out, training)


def near(ctx, label, got, want, room, show):
    g, w = got.detach().double(), want
    ctx.expect(tuple(g.shape) == tuple(w.shape), f"{label}: output shape {tuple(g.shape)} where {tuple(w.shape)} is expected", config=show)
    fin = torch.isfinite(w) & (room < 1e30)
    bad = fin & ~((g - w).abs() <= 64 * R.EPS * room + 1e-30)
    ctx.see("output_values", int(fin.sum()))
    if bool(bad.any()):
        i = tuple(int(q) for q in bad.nonzero()[0])
        ctx.fail(f"{label}: output {g[i].item()} at {i} where {w[i].item()} is expected", config=show)


def fully(d):
    def run(ctx):
        for _ in range(20):
            kw, K = cfg(ctx, d, KINDS[d])
            w = pick_size(kw, K, ctx)
            if w is not None:
                break
        kw["pooling"] = ctx.choice([f"{d}d", f"{d}d", None])
        show = {k: str(v) for k, v in kw.items()}
        if d == 2 and kw["pooling"] == "2d" and ctx.chance(0.5):
            kw.pop("pooling")
        with ctx.cut(f"building a convolutional network {show}"):
            net = api.ns.networks.HighOrderFullyConvolutionalNetwork(**kw)
        zoo.decoy(ctx, f"fcn{d}d", 0.15)
        pooled = kw.get("pooling", "2d") is not None
        size = (w,) if d == 1 else (w, w + ctx.choice([0, 1, 3]))
        label = f"fully convolutional network ({d}d)"

        def body(ev, x, out, training):
            last = follow(ctx, label, net, ev, x, kw, d, training)[-1].double()
            if pooled:
                want, room = last.flatten(2).mean(-1), last.flatten(2).abs().mean(-1) * (1 + last[0, 0].numel() / 16)
                ctx.expect(net.output_size == out.shape[1], f"{label}: reports output size {net.output_size} but returns {out.shape[1]} values", config=show)
                ctx.see("sizes_reported")
            else:
                want, room = last.flatten(1), last.flatten(1).abs()
            near(ctx, label, out, want, room, show)

        passes(ctx, net, lambda: gen.xs(ctx, (ctx.choice([2, 3]), kw["channels"][0]) + size, 3, 3, 2.0, kw.get("periodicity")), body)
        ctx.see(f"networks_{d}d")
        ctx.describe(network=label, **show)
        ctx.sig(d, str(sorted(show.items())), size)

    return run


def deconv(ctx):
    for _ in range(50):
        kw, K = cfg(ctx, 2, ["continuous2d"])
        size = [ctx.int(1, 3), ctx.int(1, 3)]
        if ctx.chance(0.1):
            kw["channels"][ctx.int(0, K)] = ctx.choice([6, 9, 17])
        if ctx.chance(0.15):  # one side far longer
            size[ctx.int(0, 1)] = ctx.choice([9, 16, 24])
        s, ok = list(size), True
        for i in range(K):
            st = 1 if kw.get("stride") is None else kw["stride"][i] if isinstance(kw["stride"], list) else kw["stride"]
            s = [(v - 1) * st - 2 * kw.get("padding", 0) + kw["kernel_size"][i] for v in s]
            ok &= min(s) >= 1
        if ok and s[0] * s[1] < 2000:
            break
    else:
        return
    show = {k: str(v) for k, v in kw.items()}
    with ctx.cut(f"building a deconvolutional network {show}"):
        net = api.ns.networks.HighOrderFullyDeconvolutionalNetwork(**kw)
    zoo.decoy(ctx, "deconv", 0.15)
    label = "deconvolutional network"
    B = ctx.choice([2, 2, 3, 5, 2 if kw.get("normalization") is torch.nn.BatchNorm2d else 1])
    ctx.expect(net.in_channels == kw["channels"][0], f"{label}: reports {net.in_channels} input channels", config=show)

    def body(ev, x, out, training):
        last = follow(ctx, label, net, ev, x, kw, 2, training, True)[-1].double()
        near(ctx, label, out, last, last.abs(), show)

    passes(ctx, net, lambda: gen.xs(ctx, (B, kw["channels"][0]) + tuple(size), 3, 3, 2.0, kw.get("periodicity")), body)
    ctx.see("deconvolutional_networks")
    ctx.describe(network=label, **show)
    ctx.sig("deconv", str(sorted(show.items())), tuple(size))


def last_of(x, k):
    return x[:, :, max(x.shape[2] - k, 0):]


def tail(ctx):
    for _ in range(50):
        kw, K = cfg(ctx, 1, KINDS[1])
        focus = [ctx.int(1, 4) for _ in range(K)] if ctx.chance(0.7) else ctx.int(1, 3)
        if isinstance(focus, list) and ctx.chance(0.12):
            focus[ctx.int(0, K - 1)] = ctx.choice([6, 9, 12, 17, 33, 40, 70])
        if isinstance(focus, list) and ctx.chance(0.15):  # nothing of a level
            focus[ctx.int(0, K - 1)] = 0
        fl = focus if isinstance(focus, list) else [focus] * K
        # a level may be narrower than its focus: then all of it is its tail
        w = pick_size(kw, K, ctx, 1 if ctx.chance(0.3) else max(fl))
        if w is not None:
            break
    else:
        return
    kw["focus"] = focus
    if ctx.chance(0.2):
        kw["device"] = "cpu"
    show = {k: str(v) for k, v in kw.items()}
    with ctx.cut(f"building a tail focus network {show}"):
        net = api.ns.networks.HighOrderTailFocusNetwork(**kw)
    zoo.decoy(ctx, "tail", 0.15)
    label = "tail focus network"

    def body(ev, x, out, training):
        levels = follow(ctx, label, net, ev, x, kw, 1, training)
        parts = [last_of(x, fl[0])] + [last_of(lv, fl[i + 1]) for i, lv in enumerate(levels[:-1])] + [levels[-1]]
        if 0 in fl:
            ctx.see("levels_left_out")
        want = torch.cat([q.flatten(1) for q in parts], 1)
        ctx.expect(tuple(out.shape) == tuple(want.shape), f"{label}: output shape {tuple(out.shape)} where {tuple(want.shape)} is expected", config=show)
        ctx.expect(nets.same(out.detach(), want), f"{label}: output is not the tails of the input and the intermediate levels followed by the last level", config=show)
        ctx.see("tails_compared", len(parts))
        with ctx.cut("compute_sizes"):
            widths, sizes = net.compute_sizes(x.shape[-1])
            far = x.shape[-1] + ctx.choice([1, 97, 1500, 40000])
            ws = net.compute_sizes(far)[0]
        ctx.expect(list(ws) == width_chain(kw, K, far), f"{label}: computes widths {list(ws)} for an input of {far} where {width_chain(kw, K, far)} is expected", config=show)
        real = [x.shape[-1]] + [lv.shape[-1] for lv in levels]
        ctx.expect(list(widths) == real, f"{label}: computes widths {list(widths)} where the tensors have {real}", config=show)
        if any(f > r for f, r in zip(fl, real)):
            ctx.see("narrow_levels")
        rs = [q.shape[1] * q.shape[2] for q in parts]
        ctx.expect(list(sizes) == rs, f"{label}: computes output sizes {list(sizes)} where the parts have {rs}", config=show)
        ctx.see("sizes_reported")

    passes(ctx, net, lambda: gen.xs(ctx, (ctx.choice([2, 3]), kw["channels"][0], w + ctx.choice([0, 0, 1, 4])), 3, 3, 2.0, kw.get("periodicity")), body)
    # sizes for other lengths, without running
    for _ in range(6):
        v = ctx.int(1, 400)
        ch = width_chain(kw, K, v)
        if ch is None:
            continue
        with ctx.cut("compute_sizes"):
            widths, sizes = net.compute_sizes(v)
        ctx.expect(list(widths) == ch, f"{label}: computes widths {list(widths)} for length {v} where {ch} follows from kernels, strides and padding", config=show)
        ctx.expect(list(sizes) == [kw["channels"][i] * min(f, ch[i]) for i, f in enumerate(fl + [ch[-1]])], f"{label}: output sizes {list(sizes)} for length {v}", config=show)
    ctx.see("tail_networks")
    ctx.describe(network=label, width=w, **show)
    ctx.sig("tail", str(sorted(show.items())), w)


SCENARIOS = {"fully_1d": (fully(1), 160, 3000), "fully_2d": (fully(2), 160, 3000), "deconv": (deconv, 120, 2000), "tail": (tail, 240, 4500)}
MUST_SEE = ["levels_left_out", "decoys", "narrow_levels", "large_settings", "layers_followed", "links_followed", "normalizations_followed", "output_values", "tails_compared", "sizes_reported", "networks_1d", "networks_2d",
            "deconvolutional_networks", "tail_networks"]
RULE = "one case = a network configuration and input size with one or two forward passes in either mode; distinct by configuration and size"
ASSUMPTIONS = ["without pooling the fully convolutional network makes no claim about its reported output size"]
