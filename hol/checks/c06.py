"""C06: saving, loading, copying, converting and training copies."""
import copy
import io
import pickle
import random

import numpy as np
import torch

from hol import monitor, zoo


def same(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    x, y = monitor.n64(a), monitor.n64(b)
    s = np.nanmax(np.abs(x), initial=0.0, where=np.isfinite(x))
    with np.errstate(invalid="ignore"):
        ok = (np.abs(x - y) <= 1e-6 * np.abs(x) + 1e-7 * s) | (np.isnan(x) & np.isnan(y)) | (x == y)
    return bool(ok.all())


def run(ctx, item, m, xs, what):
    with ctx.cut(f"{item.name}: evaluating {what}"), torch.no_grad():
        ys = zoo.outs(m(*xs))
    ctx.see("evaluations")
    return [y.clone() for y in ys]


def agree(ctx, item, ys, zs, what):
    ctx.see("model_pairs_compared")
    ctx.expect(len(ys) == len(zs) and all(same(a, b) for a, b in zip(ys, zs)), f"{item.name}: {what} changes the outputs", config=str(item.config))


def reseed(ctx):
    torch.manual_seed(ctx.int(0, 2**31 - 1))
    random.seed(ctx.int(0, 2**31 - 1))
    np.random.seed(ctx.int(0, 2**31 - 1))


def leaves(ys):
    seen, out, stack = set(), [], [y.grad_fn for y in ys if y.grad_fn is not None]
    while stack:
        f = stack.pop()
        if f is None or f in seen:
            continue
        seen.add(f)
        v = getattr(f, "variable", None)
        if v is not None:
            out.append(v)
        stack += [g for g, _ in f.next_functions]
    return out


def warm(ctx, item, m):
    """Move running statistics away from their initial values."""
    if any(isinstance(q, torch.nn.modules.batchnorm._BatchNorm) for q in m.modules()):
        m.train()
        for _ in range(2):
            with ctx.cut(f"{item.name}: training-mode call"), torch.no_grad():
                m(*item.inputs(5))
        ctx.see("running_statistics_moved")
    m.eval()


def train(ctx, item, m, xs, steps=2):
    if not list(m.parameters()):
        return
    opt = torch.optim.SGD(m.parameters(), lr=0.1)
    for _ in range(steps):
        opt.zero_grad()
        with ctx.cut(f"{item.name}: training step"):
            loss = sum((y * y).mean() for y in zoo.outs(m(*xs)))
            if not loss.requires_grad:
                return
            loss.backward()
        for q in m.parameters():
            if q.grad is not None:
                q.grad.nan_to_num_(0, 0, 0).clamp_(-1, 1)
        opt.step()
    with torch.no_grad():
        for q in m.parameters():
            q.add_(0.25)


def params_of(m):
    return {k: v.detach().clone() for k, v in list(m.named_parameters()) + list(m.named_buffers())}


def unchanged(ctx, item, m, before, what):
    for k, v in list(m.named_parameters()) + list(m.named_buffers()):
        a, b = v.detach(), before[k]
        ctx.expect(torch.equal(a.nan_to_num(), b.nan_to_num()), f"{item.name}: {what} changed {k} of the original")


FROZEN = {"transform_mlp", "transform_low", "rotation"}  # begin with a fixed rotation


def case(ctx):
    name = zoo.ALL[ctx.index % len(zoo.ALL)]
    item = zoo.make(ctx, name)
    m = zoo.build(ctx, item)
    # an untouched copy of a freshly built model behaves like it
    pre = None
    if ctx.chance(0.4):
        with ctx.cut(f"{name}: deepcopy before any call"):
            pre = copy.deepcopy(m)
    if pre is None:
        zoo.shake(ctx, m)
    warm(ctx, item, m)
    xs = item.inputs(ctx.choice([1, 3, 6, 3, 6, 3, 6, 48]))
    ys = run(ctx, item, m, xs, "the model")
    if pre is not None:
        if not any(isinstance(q, torch.nn.modules.batchnorm._BatchNorm) for q in m.modules()):
            pre.eval()
            agree(ctx, item, ys, run(ctx, item, pre, xs, "an early copy"), "deep-copying before use")
        zoo.shake(ctx, m)
        ys = run(ctx, item, m, xs, "the model")
    before = params_of(m)

    # everything that gets gradient is a listed parameter
    with ctx.cut(f"{name}: tracked evaluation"):
        tracked = zoo.outs(m(*xs))
    listed = {id(p) for p in m.parameters()}
    lv = leaves(tracked)
    ctx.see("graph_leaves", len(lv))
    for v in lv:
        ctx.expect(id(v) in listed, f"{name}: a tensor of shape {tuple(v.shape)} receives gradients but is not among the parameters")
    inside = {id(v) for v in lv}
    if name not in FROZEN:
        for k, p in m.named_parameters():
            ctx.expect(p.requires_grad, f"{name}: parameter {k} of shape {tuple(p.shape)} is frozen although nothing promises that", config=str(item.config))
            ctx.see("trainable_parameters")
    for k, p in m.named_parameters():
        if p.requires_grad and p.dim() >= 2:
            ctx.see("weights_in_graph")
            ctx.expect(id(p) in inside or all(o.grad_fn is None for o in tracked), f"{name}: parameter {k} does not reach the output's graph", config=str(item.config))

    # save and load into a fresh model built under another seed, before or
    # after that model has been used
    buf = io.BytesIO()
    with ctx.cut(f"{name}: saving the state"):
        torch.save(m.state_dict(), buf)
    for used in (False, True):
        reseed(ctx)
        fresh = zoo.build(ctx, item, ready=False)
        if used:
            fresh.eval()
            run(ctx, item, fresh, item.inputs(2), "a fresh model")
        buf.seek(0)
        with ctx.cut(f"{name}: loading the state into a fresh model"):
            fresh.load_state_dict(torch.load(buf, weights_only=True))
        fresh.eval()
        agree(ctx, item, ys, run(ctx, item, fresh, xs, "the loaded model"), "loading the saved state" + (" into a used model" if used else ""))
        ctx.see("state_round_trips")

    # whole-object copies
    how = ctx.choice(["deepcopy", "pickle", "torch.save"])
    with ctx.cut(f"{name}: {how}"):
        if how == "deepcopy":
            twin = copy.deepcopy(m)
        elif how == "pickle":
            twin = pickle.loads(pickle.dumps(m))
        else:
            b2 = io.BytesIO()
            torch.save(m, b2)
            b2.seek(0)
            twin = torch.load(b2, weights_only=False)
    ctx.see("object_copies")
    agree(ctx, item, ys, run(ctx, item, twin, xs, "the copy"), how)
    ctx.expect([p.requires_grad for p in m.parameters()] == [p.requires_grad for p in twin.parameters()], f"{name}: {how} changes which parameters train")
    train(ctx, item, twin, item.inputs(3))
    unchanged(ctx, item, m, before, f"training a {how} copy")
    agree(ctx, item, ys, run(ctx, item, m, xs, "the original"), f"training a {how} copy of it")
    train(ctx, item, fresh, item.inputs(3))
    unchanged(ctx, item, m, before, "training a model that had loaded its state")
    agree(ctx, item, ys, run(ctx, item, m, xs, "the original"), "training a model that loaded its state")

    # precision round trip
    with ctx.cut(f"{name}: double()"):
        m = m.double()
    d = run(ctx, item, m, [x.double() if torch.is_tensor(x) and x.is_floating_point() else x for x in xs], "the double model")
    ctx.expect(all(t.dtype == torch.float64 for t in d), f"{name}: double model returns {[str(t.dtype) for t in d]}")
    with ctx.cut(f"{name}: float()"):
        m = m.float()
    agree(ctx, item, ys, run(ctx, item, m, xs, "the model after double and back"), "converting to double and back")
    ctx.see("precision_round_trips")

    # the state can also come from the copy after training
    with ctx.cut(f"{name}: loading a trained state"):
        m.load_state_dict(twin.state_dict())
    twin.eval()
    m.eval()
    agree(ctx, item, run(ctx, item, twin, xs, "the trained copy"), run(ctx, item, m, xs, "the reloaded original"), "loading the state of a trained copy")
    ctx.describe(model=name, config=str(item.config), via=how)
    ctx.sig(name, str(item.config), how)


SCENARIOS = {"zoo": (case, 12 * len(zoo.ALL), 120 * len(zoo.ALL))}
MUST_SEE = ["state_round_trips", "object_copies", "precision_round_trips", "graph_leaves", "running_statistics_moved"]
RULE = "one case = one kind of layer or network with a random configuration, pushed through save/load into fresh and used models, a whole-object copy, training of the copies and a precision round trip; distinct by kind, configuration and copy method"
ASSUMPTIONS = ["lazily sized modules are called once before their parameters are judged"]
