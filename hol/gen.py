"""Workload generators: configurations, weights and hostile inputs."""
import contextlib
import math
import random

import numpy as np
import torch

from hol import ref as R


def t32(a):
    return torch.tensor(np.asarray(a, dtype=np.float32))


def n_nodes(ctx, lo=1):
    pool = [1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20]
    if ctx.chance(0.15):
        return ctx.int(max(lo, 1), 20)
    return ctx.choice([p for p in pool if p >= lo])


@contextlib.contextmanager
def keep_random():
    """Leave the global random generators as they were."""
    a, b, c = torch.get_rng_state(), np.random.get_state(), random.getstate()
    try:
        yield
    finally:
        torch.set_rng_state(a)
        np.random.set_state(b)
        random.setstate(c)


def grow(ctx, kw, table, p=0.15):
    """Now and then one setting far beyond the usual sizes, the others as they are."""
    keys = sorted(k for k in table if k in kw)
    turn = getattr(ctx, "turn", None)  # a scenario may ask for every setting in turn
    if turn is not None:
        kw[keys[turn % len(keys)]] = table[keys[turn % len(keys)]][-1 - turn // len(keys) % 2]
        ctx.see("large_settings")
    elif ctx.chance(p):
        k = ctx.choice(keys)
        kw[k] = ctx.choice(table[k])
        ctx.see("large_settings")
    return kw


def n_segments(ctx):
    if ctx.chance(0.06):
        return ctx.choice([65, 96, 100, 129, 200, 257, 300, 1000])
    if ctx.chance(0.15):
        return ctx.int(1, 70)
    return ctx.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 20, 25, 32, 50, 64, 128])


def n_features(ctx):
    if ctx.chance(0.05):
        return ctx.choice([20, 33, 40, 65, 100, 130, 260])
    if ctx.chance(0.2):
        return ctx.int(1, 20)
    return ctx.choice([1, 1, 1, 2, 2, 3, 4, 5, 7, 8, 16])


def n_batch(ctx):
    if ctx.chance(0.03):
        return ctx.choice([129, 513, 1025, 2000])
    if ctx.chance(0.2):
        return ctx.int(1, 130)
    return ctx.choice([1, 2, 3, 4, 5, 8, 16, 17, 33, 64, 100, 257])


def length(ctx):
    if ctx.chance(0.06):
        return ctx.choice([0.0371, 0.0123, 123.4, 512.0, 2 / 3, 3.14159, round(ctx.uniform(0.05, 40), 4)])
    return ctx.choice([2.0, 2.0, 2.0, 2.0, 1.0, 4.0, 0.5, 3.0, 2.5, 7.3, 10.0, 0.37, 20.0])


def usual(ctx, L):
    """The length argument, left to its default now and then where that is it."""
    return {} if L == 2.0 and ctx.chance(0.5) else dict(length=L)


def periodicity(ctx, L):
    if ctx.chance(0.05):
        return ctx.choice([11 * L, 0.07 * L, 150.0, 3.14159])
    return ctx.choice([None, None, None, L, L, 2.0, 1.0, 0.5 * L, 3.0, 0.75 * L, 2 * L, 1.3])


def breakpoints(S, L):
    return -0.5 * L + L * np.arange(S + 1) / S


def node_positions(n, S, L):
    X = R.nodes(n)
    w = L / S
    return np.concatenate([(-0.5 * L + k * w) + (X + 1) * 0.5 * w for k in range(S)])


def xs(ctx, shape, n=3, S=1, L=2.0, p=None, wild=True):
    """Inputs that dwell on the places where piecewise code goes wrong."""
    g = ctx.np
    N = int(np.prod(shape))
    half = 0.5 * L
    reach = 3.0 if n <= 6 else 1.5 if n <= 10 else 1.15
    bp = breakpoints(S, L)
    nd = node_positions(n, S, L)
    mode = g.integers(0, 10, size=N)
    base = g.uniform(-half, half, size=N)
    out = base.copy()
    out[mode == 1] = g.choice(bp, size=N)[mode == 1]
    out[mode == 2] = g.choice(nd, size=N)[mode == 2]
    out[mode == 3] = (g.uniform(-reach, reach, size=N) * half)[mode == 3]
    o32 = out.astype(np.float32)
    b32 = g.choice(bp, size=N).astype(np.float32)
    step = g.integers(1, 4, size=N)
    up = b32.copy()
    for s in range(3):
        up = np.where(step > s, np.nextafter(up, np.float32(np.inf)), up)
    dn = b32.copy()
    for s in range(3):
        dn = np.where(step > s, np.nextafter(dn, np.float32(-np.inf)), dn)
    o32 = np.where(mode == 4, np.where(g.random(N) < 0.5, up, dn), o32)
    # on either side of an edge, at any small distance
    side = g.choice([-1.0, 1.0], size=N) * 10.0 ** g.uniform(-6.5, -1.5, size=N) * L / S
    o32 = np.where(mode == 8, (g.choice(bp, size=N) + side).astype(np.float32), o32)
    if wild:
        special = np.array(
            [0.0, -0.0, half, -half, 1e-38, -1e-40, 1e-7, -1e-7, half * (1 + 1e-6), -half * (1 + 1e-6)],
            dtype=np.float32,
        )
        o32 = np.where(mode == 5, g.choice(special, size=N), o32)
    if p is not None and wild:
        m = mode == 6
        o32 = np.where(m, (g.uniform(-12, 12, size=N) * p).astype(np.float32), o32)
        m = mode == 7
        o32 = np.where(m, (g.integers(-9, 10, size=N) * 0.5 * p).astype(np.float32), o32)
    return t32(o32.reshape(shape))


def fill(ctx, p, style=None):
    """Give a parameter values that leave no link, node or output equal to
    another one."""
    style = style or ctx.choice(["normal", "normal", "normal", "onehot", "ramp", "big", "tiny", "sparse"])
    g = ctx.np
    shape = tuple(p.shape)
    N = int(np.prod(shape)) if shape else 1
    if style == "normal":
        v = g.normal(size=N)
    elif style == "onehot":
        v = np.zeros(N)
        v[g.integers(0, N)] = 1.0
    elif style == "ramp":
        v = np.linspace(-1, 1, N) + 0.1 * g.normal(size=N)
    elif style == "big":
        v = g.normal(size=N) * 1e4
    elif style == "tiny":
        v = g.normal(size=N) * 1e-5
    else:
        v = g.normal(size=N) * (g.random(N) < 0.3)
    with torch.no_grad():
        p.copy_(t32(v.reshape(shape)).to(p.dtype))
    return style


def main_weight(ctx, layer, ndim=3):
    ps = [p for p in layer.parameters() if p.dim() == ndim]
    if len(ps) != 1:
        ctx.fail(f"layer exposes {len(ps)} trainable tensors of rank {ndim}, expected one", layer=type(layer).__name__)
    return ps[0]


def layout(ctx, x):
    """The same values in another memory layout."""
    how = ctx.choice(["plain", "plain", "transposed", "strided", "offset", "expanded_row"])
    if how == "transposed" and x.dim() >= 2:
        y = x.transpose(0, -1).contiguous().transpose(0, -1)
    elif how == "strided":
        y = torch.stack([x, torch.full_like(x, float("nan"))], dim=-1)[..., 0]
    elif how == "offset":
        buf = torch.full((x.numel() + 5,), float("nan"), dtype=x.dtype)
        buf[3 : 3 + x.numel()] = x.reshape(-1)
        y = buf[3 : 3 + x.numel()].view(x.shape)
    elif how == "expanded_row" and x.dim() >= 2 and x.shape[0] > 1:
        y = x[:1].expand(x.shape)
    else:
        how, y = "plain", x
    return how, y
