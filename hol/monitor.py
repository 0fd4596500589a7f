"""Instrumentation of the running library: forward-call traces over global
module hooks, state guards (inputs, parameters, random generators)."""
import contextlib
import os
import random
import threading

import contextlib
import warnings

import numpy as np
import torch
from torch.nn.modules import module as _m

_ctx = None
_handles = []
_lock = threading.Lock()


def reset(ctx):
    global _ctx
    disarm()
    _ctx = ctx


def disarm():
    for h in _handles:
        h.remove()
    _handles.clear()


class Event:
    __slots__ = ("module", "inp", "out", "thread")

    def __init__(self, module, inp, out):
        self.module, self.inp, self.out = module, inp, out
        self.thread = threading.get_ident()


@contextlib.contextmanager
def trace(ctx, accept):
    """Record every forward call of the modules that accept(module) selects, in
    the order in which they return."""
    events = []

    def hook(mod, args, out):
        if accept(mod):
            with _lock:
                i = args[0].detach().clone() if args and torch.is_tensor(args[0]) else None
                o = out.detach().clone() if torch.is_tensor(out) else None
                events.append(Event(mod, i, o))

    h = _m.register_module_forward_hook(hook)
    _handles.append(h)
    try:
        yield events
    finally:
        h.remove()
        if h in _handles:
            _handles.remove(h)
        ctx.see("traced_forward_calls", len(events))


def rng_state():
    return (
        torch.get_rng_state().clone(),
        random.getstate(),
        tuple(np.random.get_state()[1].tolist()) + (np.random.get_state()[2],),
    )


def same_rng(a, b):
    return torch.equal(a[0], b[0]) and a[1] == b[1] and a[2] == b[2]


class Snapshot:
    """Values and version counters of tensors that a call must leave alone."""

    def __init__(self, tensors):
        self.items = [(name, t, t.detach().clone(), t._version if not t.is_inference() else None) for name, t in tensors]

    def changed(self):
        for name, t, before, ver in self.items:
            if t.shape != before.shape:
                return name
            a, b = t.detach(), before
            if a.dtype.is_floating_point:
                same = torch.equal(torch.nan_to_num(a), torch.nan_to_num(b)) and torch.equal(a.isnan(), b.isnan())
            else:
                same = torch.equal(a, b)
            if not same:
                return name
        return None


def state_tensors(mod):
    out = []
    for n, p in mod.named_parameters():
        if not isinstance(p, torch.nn.parameter.UninitializedParameter):
            out.append(("param " + n, p))
    for n, b in mod.named_buffers():
        if b is not None and not isinstance(b, torch.nn.parameter.UninitializedTensorMixin):
            out.append(("buffer " + n, b))
    return out


def call(ctx, label, fn, *args, **kw):
    with ctx.cut(label):
        out = fn(*args, **kw)
    ctx.see("library_calls")
    return out


def read(ctx, label, fn, *args, inference=True, **kw):
    """A call made for its values: with or without gradient tracking, and the
    inputs stay what they were."""
    how = ctx.choice(["grad", "grad", "grad", "nograd", "nograd", "inference"])
    if getattr(ctx, "tracked", False):
        how = "grad"
    mod = fn if isinstance(fn, torch.nn.Module) else getattr(fn, "__self__", None)
    if how == "inference" and (not inference or isinstance(mod, torch.nn.Module) and any(isinstance(p, torch.nn.parameter.UninitializedTensorMixin) for p in mod.parameters())):
        how = "nograd"
    ts = [a for a in args if torch.is_tensor(a)]
    keep = [a.detach().clone() for a in ts]
    guard = torch.no_grad() if how == "nograd" else torch.inference_mode() if how == "inference" else contextlib.nullcontext()
    with guard:
        out = call(ctx, label, fn, *args, **kw)
    for a, k in zip(ts, keep):
        ctx.expect(a.shape == k.shape and bool(((a == k) | ((a != a) & (k != k))).all()), f"{label}: the call changed its input")
    ctx.see("value_calls_" + how)
    return out


def n64(t):
    return t.detach().cpu().double().numpy()


def compare(ctx, label, got, ref, key=None, **detail):
    """Online oracle: a float32 result against the reference model."""
    from hol import ref as R

    v, tol = ref
    if not torch.is_tensor(got):
        ctx.fail(f"{label}: returned {type(got).__name__}, not a tensor", key=key, **detail)
    if tuple(got.shape) != tuple(v.shape):
        ctx.fail(f"{label}: shape {tuple(got.shape)} where {tuple(v.shape)} is expected", key=key, **detail)
    a = n64(got)
    at, nbad, nok = R.close(a, v, tol)
    ctx.see("values_compared", nok)
    if at is not None:
        ctx.fail(
            f"{label}: value {a[at]!r} at {at} where {float(v[at])!r} +- {float(tol[at]):.3g} is expected ({nbad} of {nok} values off)",
            key=key,
            **detail,
        )
    return nok


@contextlib.contextmanager
def poisoned():
    """Fresh memory handed out by torch.empty and its kin is filled with NaN
    (integers: the largest value), so that reading it before writing shows."""
    on, warn, fill = torch.are_deterministic_algorithms_enabled(), torch.is_deterministic_algorithms_warn_only_enabled(), torch.utils.deterministic.fill_uninitialized_memory
    torch.utils.deterministic.fill_uninitialized_memory = True
    torch.use_deterministic_algorithms(True, warn_only=True)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        torch.use_deterministic_algorithms(on, warn_only=warn)
        torch.utils.deterministic.fill_uninitialized_memory = fill
