"""C07: one- and two-dimensional high-order convolutions."""
import copy

import numpy as np
import torch

from hol import conv, fc, gen, monitor

ALL = list(conv.CLASSES)


def equivalence(ctx):
    """Kernel covering the input: the convolution is the fully connected layer
    with the same weights."""
    kind = ALL[ctx.index % len(ALL)]
    base, d = conv.split(kind)
    c, B, _ = conv.cfg(ctx, kind)
    c.update(groups=1, stride=1, padding=0, dilation=1, padding_mode="zeros", rescale=False)
    layer, w = conv.build(ctx, kind, c)
    gen.fill(ctx, w, "normal")
    size = (c["k"],) * d
    x = conv.inputs(ctx, B, c, size)
    y = monitor.read(ctx, "conv", layer, x)
    I = c["C"] * int(np.prod(size))
    K = fc.nb(base, c["n"], c["S"])
    flat, wf = fc.build(ctx, base, c["n"], I, c["O"], c["S"], c["L"], c["p"])
    with torch.no_grad():
        q = w.reshape(c["O"], c["C"], K, -1).permute(0, 1, 3, 2).reshape(c["O"], I, K)
        wf.copy_(q)
    z = monitor.read(ctx, "fc", flat, x.reshape(B, I))
    v, tol = conv.reference(kind, x, w, c)
    monitor.compare(ctx, f"{kind} covering its input, against the {base} layer", y.reshape(B, -1), (monitor.n64(z), 2 * tol.reshape(B, -1)), config=c)
    ctx.see("fc_equivalences")
    ctx.sig("fc", kind, c["n"], c["S"], c["C"], c["O"], c["k"], c["L"], c["p"])


def probe(ctx):
    """One-hot weights: a single link and node acts at a single tap."""
    kind = ALL[ctx.index % len(ALL)]
    base, d = conv.split(kind)
    c, B, size = conv.cfg(ctx, kind)
    layer, w = conv.build(ctx, kind, c)
    x = conv.inputs(ctx, B, c, size)
    for _ in range(3):
        gen.fill(ctx, w, "onehot")
        conv.check(ctx, kind, layer, w, x, c, label=f"{kind} convolution with a single active weight")
        ctx.see("single_weight_probes")
    ctx.sig("probe", kind, str(c))


def history(ctx):
    kind = ALL[ctx.index % len(ALL)]
    c, _, size = conv.cfg(ctx, kind)
    layer, w = conv.build(ctx, kind, c)
    gen.fill(ctx, w, "normal")
    _, d = conv.split(kind)
    ops = []
    for _ in range(ctx.int(3, 7)):
        op = ctx.choice(["forward", "resize", "sgd", "inplace", "copy", "nograd", "inference", "data", "reload"])
        ops.append(op)
        if op == "resize":
            size = tuple(s + ctx.int(0, 3) for s in size)
        x = conv.inputs(ctx, ctx.choice([1, 2, 4]), c, size)
        if op == "sgd":
            y = monitor.call(ctx, "conv", layer, x)
            with ctx.cut("backward"):
                y.nan_to_num().clamp(-1e3, 1e3).mean().backward()
            with torch.no_grad():
                w -= 0.1 * w.grad.nan_to_num(0, 0, 0).clamp(-1, 1)
            w.grad = None
        elif op == "inplace":
            with torch.no_grad():
                w[ctx.int(0, c["O"] - 1)] += 0.5
        elif op == "data":
            w.data = gen.t32(ctx.np.normal(size=tuple(w.shape)))
        elif op == "copy":
            layer = copy.deepcopy(layer)
            w = gen.main_weight(ctx, layer, 2 + d)
        elif op == "reload":
            sd = {k: v.clone() * -0.5 for k, v in layer.state_dict().items()}
            with ctx.cut("load_state_dict"):
                layer.load_state_dict(sd)
        if op == "nograd":
            with torch.no_grad():
                conv.check(ctx, kind, layer, w, x, c)
        elif op == "inference":
            with torch.inference_mode():
                conv.check(ctx, kind, layer, w, x, c)
        else:
            conv.check(ctx, kind, layer, w, x, c)
        ctx.see("history_steps")
    ctx.describe(kind=kind, **c, ops=ops)
    ctx.sig("history", kind, str(c), tuple(ops))


def double(ctx):
    kind = ALL[ctx.index % len(ALL)]
    base, d = conv.split(kind)
    c, B, size = conv.cfg(ctx, kind)
    layer, w = conv.build(ctx, kind, c)
    gen.fill(ctx, w, "normal")
    with ctx.cut("double()"):
        layer = layer.double()
    w = gen.main_weight(ctx, layer, 2 + d)
    x = conv.inputs(ctx, B, c, size).double()
    y = conv.check(ctx, kind, layer, w, x, c)
    ctx.expect(y.dtype == torch.float64, f"{kind} in float64 returns {y.dtype}")
    ctx.sig("double", kind, str(c))


def rectangles(ctx):
    """Strongly non-square inputs and larger batches."""
    kind = ALL[ctx.index % len(ALL)]
    base, d = conv.split(kind)
    c, B, size = conv.cfg(ctx, kind)
    size = (size[0] + ctx.int(5, 20),) if d == 1 else ctx.choice([(size[0], size[1] + 13), (size[0] + 11, size[1])])
    layer, w = conv.build(ctx, kind, c)
    gen.fill(ctx, w, "normal")
    x = conv.inputs(ctx, ctx.choice([1, 7]), c, size)
    conv.check(ctx, kind, layer, w, x, c)
    ctx.sig("rect", kind, str(c), size)


def pairs(ctx):
    """Stride, padding and dilation of their own per dimension, as an ordinary convolution takes them."""
    kinds = [k for k in ALL if k.endswith("2d")]
    kind = kinds[ctx.index % len(kinds)]
    c, B, size = conv.cfg(ctx, kind)
    c["stride"], c["dilation"] = (ctx.int(1, 3), ctx.int(1, 3)), (ctx.int(1, 3), ctx.int(1, 2))
    c["padding"] = (ctx.int(0, 2), ctx.int(0, 3))
    size = tuple(max(c["dilation"][q] * (c["k"] - 1) + 1, c["padding"][q] + 1) + ctx.int(0, 5) for q in range(2))
    layer, w = conv.build(ctx, kind, c)
    gen.fill(ctx, w, "normal")
    conv.check(ctx, kind, layer, w, conv.inputs(ctx, B, c, size), c)
    ctx.see("tuple_settings")
    ctx.describe(kind=kind, **c, batch=B, size=list(size))
    ctx.sig("pairs", kind, str(c), size)


def large(ctx):
    """One setting at a time far beyond the usual."""
    kind = ALL[ctx.index % len(ALL)]
    c, B, size, far = conv.large_cfg(ctx, kind, ctx.index // len(ALL))
    layer, w = conv.build(ctx, kind, c)
    gen.fill(ctx, w, "normal")
    x = conv.inputs(ctx, B, c, size)
    if far:
        x = conv.push_far(ctx, x, conv.split(kind)[0], c)
    conv.check(ctx, kind, layer, w, x, c)
    ctx.see("large_settings")
    ctx.describe(kind=kind, **c, batch=B, size=list(size))
    ctx.sig("large", kind, str(c), B, size)


def mixed(ctx):
    """Mixed precision training: under autocast, on inputs as a previous layer hands them on."""
    kind = ALL[ctx.index % len(ALL)]
    base, d = conv.split(kind)
    c, B, size = conv.cfg(ctx, kind)
    c = conv.mixed_cfg(ctx, c)
    layer, w = conv.build(ctx, kind, c)
    gen.fill(ctx, w, "normal")
    x = conv.exact_inputs(ctx, (B, c["C"]) + size) if ctx.chance(0.6) else conv.inputs(ctx, B, c, size)
    conv.check_mixed(ctx, f"{kind} convolution in mixed precision", layer, x, torch.nn.functional.conv1d if d == 1 else torch.nn.functional.conv2d, base, w, c,
                     pad=lambda t: conv._pad(t, c, d), stride=c["stride"], dilation=c["dilation"], groups=c["groups"])
    ctx.describe(kind=kind, **c, batch=B, size=list(size), dtype=str(x.dtype))
    ctx.sig("mixed", kind, str(c), B, size, str(x.dtype))


SCENARIOS = {
    "mixed": (mixed, 80, 1000),
    "pairs": (pairs, 60, 800),
    "large": (large, 8 * len(conv.LARGE), 32 * len(conv.LARGE)),
    "random": (conv.scenario_random(ALL), 900, 12000),
    "equivalence": (equivalence, 240, 3000),
    "probe": (probe, 240, 3000),
    "history": (history, 160, 2000),
    "double": (double, 120, 1500),
    "rectangles": (rectangles, 120, 1500),
}
MUST_SEE = ["decoys", "mixed_precision_layers", "tuple_settings", "large_settings", "conv_layers_checked", "fc_equivalences", "single_weight_probes", "history_steps"]
RULE = "one case = convolution kind, nodes, segments, channels, kernel, stride, padding (and mode), dilation, groups, length, mirror period, rescaling, weights, batch and spatial size; distinct by that signature"
ASSUMPTIONS = ["integer kernel sizes (the only ones the constructors accept)"]
