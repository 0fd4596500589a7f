"""C10: the sparse Lion optimizer, step by step against a reference history."""
import copy
import io

import numpy as np
import torch

from hol import api, fc, gen, monitor

EPS32, EPS64 = 2.0**-23, 2.0**-52


class Model:
    """Momentum history of one parameter, with a rounding bound."""

    def __init__(self, p):
        self.m = np.zeros(tuple(p.shape))
        self.dm = np.zeros(tuple(p.shape))


def state_tensor(opt, p):
    st = [v for v in opt.state.get(p, {}).values() if torch.is_tensor(v) and v.shape == p.shape and v.dtype == p.dtype]
    return st[0] if len(st) == 1 else None


def alike(a, b):
    """Equal, or both not a number."""
    return bool(((a == b) | ((a != a) & (b != b))).all())


def step(ctx, opt, models, call, where):
    """Run one optimizer step under the monitor."""
    todo = []
    for gi, g in enumerate(opt.param_groups):
        for p in g["params"]:
            st = state_tensor(opt, p)
            todo.append((gi, p, p.detach().clone(), None if p.grad is None else p.grad.detach().clone(), None if st is None else st.clone(), dict(lr=g["lr"], wd=g["weight_decay"], b=tuple(g["betas"]))))
    out = call()
    for gi, p, before, grad, st0, h in todo:
        now = p.detach()
        if grad is None:
            ctx.expect(alike(now, before), f"{where}: a parameter without gradient was changed")
            ctx.see("untouched_parameters")
            continue
        ctx.expect(p.grad is not None and alike(p.grad, grad), f"{where}: the gradient itself was changed")
        eps = EPS32 if p.dtype == torch.float32 else EPS64
        g = monitor.n64(grad)
        b, a = monitor.n64(before), monitor.n64(now)
        mod = models[id(p)]
        zero = g == 0
        ctx.expect(alike(a[zero], b[zero]), f"{where}: an entry with zero gradient moved", group=gi, settings=h)
        ctx.see("entries_held", int(zero.sum()))
        live = ~zero & np.isfinite(g) & np.isfinite(mod.m) & np.isfinite(b)
        lr, wd, (b1, b2) = h["lr"], h["wd"], h["b"]
        nan = np.isnan(g)
        over = np.isinf(g) & np.isfinite(mod.m) & np.isfinite(b) & (b1 < 1)
        if over.any():
            w = b[over] * (1 - lr * wd) - lr * np.sign(g[over])
            ctx.expect(bool((np.abs(a[over] - w) <= 8 * eps * (np.abs(b[over]) * (1 + abs(lr * wd)) + abs(lr))).all()), f"{where}: an entry with an infinite gradient did not move by the learning rate against its sign", settings=str(h))
            ctx.see("overflowed_entries", int(over.sum()))
        g = np.where(np.isfinite(g), g, 0.0)
        m0 = np.where(np.isfinite(mod.m), mod.m, 0.0)
        u = b1 * m0 + (1 - b1) * g
        du = 8 * eps * (np.abs(b1 * m0) + np.abs((1 - b1) * g)) + b1 * mod.dm + 1e-45
        b = np.where(live, b, 0.0)
        dec = b * (1 - lr * wd)
        tol = 8 * eps * (np.abs(b) * (1 + abs(lr * wd)) + abs(lr)) + 1e-44
        ok = np.abs(a - (dec - lr * np.sign(u))) <= tol
        vague = np.abs(u) <= du
        for s in (-1, 0, 1):
            ok |= vague & (np.abs(a - (dec - lr * s)) <= tol)
        bad = live & ~ok
        ctx.see("entries_stepped", int(live.sum()))
        if bad.any():
            i = tuple(int(q) for q in np.argwhere(bad)[0])
            ctx.fail(
                f"{where}: entry went from {b[i]} to {a[i]}; expected {dec[i] - lr * np.sign(u[i])} (gradient {g[i]}, momentum {mod.m[i]})",
                settings=str(h),
            )
        nm = b2 * m0 + (1 - b2) * g
        ndm = b2 * mod.dm + 8 * eps * (np.abs(b2 * m0) + np.abs((1 - b2) * g)) + 1e-45
        mod.m = np.where(live, nm, np.where(zero, mod.m, np.nan))
        mod.dm = np.where(live, ndm, mod.dm)
        st = state_tensor(opt, p)
        if st is not None:
            s = monitor.n64(st)
            if st0 is not None:
                ctx.expect(alike(s[zero], monitor.n64(st0)[zero]), f"{where}: momentum of an entry with zero gradient changed")
            else:
                ctx.expect(bool((s[zero] == 0).all()), f"{where}: momentum of an untouched entry is not zero")
            if over.any() and b2 < 1:
                ctx.expect(bool(np.isinf(s[over]).all()), f"{where}: the momentum of an entry with an infinite gradient stays finite", settings=str(h))
            ctx.expect(bool(np.isnan(s[nan]).all()), f"{where}: the momentum of an entry whose gradient is not a number stays a number", settings=str(h))
            badm = np.isfinite(mod.m) & ~(np.abs(s - mod.m) <= mod.dm * 2)
            ctx.see("momenta_compared", s.size)
            if badm.any():
                i = tuple(int(q) for q in np.argwhere(badm)[0])
                ctx.fail(f"{where}: momentum {s[i]} where {mod.m[i]} is expected", settings=str(h))
    ctx.see("optimizer_steps")
    return out


def make_params(ctx):
    out = []
    for _ in range(ctx.int(1, 4)):
        shape = ctx.choice([(), (1,), (5,), (3, 4), (2, 3, 4), (1, 1, 7), (40,), (600,), (33, 31), (2, 1, 3, 2), (2, 2, 1, 2, 3)])
        dt = ctx.choice([torch.float32, torch.float32, torch.float32, torch.float64])
        p = torch.nn.Parameter(torch.tensor(ctx.np.normal(size=shape) * ctx.choice([0.01, 1, 10]), dtype=dt))
        if len(shape) == 2 and ctx.chance(0.3):
            p = torch.nn.Parameter(p.detach().t())  # non-contiguous
        out.append(p)
    return out


def set_grad(ctx, p, scale):
    how = ctx.choice(["dense", "sparse", "sparse", "zero", "none", "single", "negzero", "repeat", "tiny", "wild"])
    shape = tuple(p.shape)
    if how == "none":
        p.grad = None
        return how
    g = ctx.np.normal(size=shape) * scale
    if how == "sparse":
        g = g * (ctx.np.random(size=shape) < 0.4)
    elif how == "zero":
        g = g * 0
    elif how == "negzero":
        g = np.where(ctx.np.random(size=shape) < 0.5, -0.0, g)
    elif how == "single":
        m = np.zeros(int(np.prod(shape)) if shape else 1)
        m[ctx.int(0, m.size - 1)] = 1
        g = g * m.reshape(shape)
    elif how == "tiny":
        g = g * 1e-20
    elif how == "wild" and ctx.chance(0.3):  # overflowed gradients
        g = np.where(ctx.np.random(size=shape) < 0.3, ctx.choice([np.inf, -np.inf, np.nan]), g)
        ctx.see("overflowed_gradients")
    t = torch.tensor(g, dtype=p.dtype)
    if how == "repeat" and p.grad is not None:
        return how  # keep the previous gradient
    if len(shape) == 2 and ctx.chance(0.3):
        t = t.t().contiguous().t()
    p.grad = t
    return how


def settings(ctx):
    s = {}
    s["lr"] = ctx.choice([1e-4, 1e-2, 0.1, 1.0, 0.37, 2.0, 7.0])
    if ctx.chance(0.7):
        s["betas"] = ctx.choice([(0.9, 0.99), (0.5, 0.7), (0.0, 0.0), (0.95, 0.5), (1.0, 0.9), (0.9, 1.0), (0.0, 0.9)])
    if ctx.chance(0.6):
        s["weight_decay"] = ctx.choice([0.0, 0.1, 0.01, 1.0])
    return s


def history(ctx):
    params = make_params(ctx)
    opt_cls = api.ns.sparse_lion.SparseLion
    top = settings(ctx)
    if ctx.chance(0.5) or len(params) == 1:
        groups = [dict(params=params)]
        arg = params if ctx.chance(0.5) else groups
    else:
        k = ctx.int(1, len(params) - 1)
        groups = [dict(params=params[:k], **settings(ctx)), dict(params=params[k:], **(settings(ctx) if ctx.chance(0.5) else {}))]
        if ctx.chance(0.5):
            groups[1].pop("lr", None)
        arg = groups
    asked_for = [{k: v for k, v in g.items() if k != "params"} for g in groups]  # the optimizer keeps the dictionaries it is given
    with ctx.cut("building SparseLion"):
        opt = opt_cls(arg, **top)
    ctx.expect(len(opt.param_groups) == len(groups), f"{len(opt.param_groups)} parameter groups where {len(groups)} were given")
    # the groups hold what was asked for
    dflt = dict(lr=top.get("lr", 1e-4), betas=top.get("betas", (0.9, 0.99)), weight_decay=top.get("weight_decay", 0.0))
    for g, asked in zip(opt.param_groups, asked_for):
        for q in dflt:
            want = asked.get(q, dflt[q])
            ctx.expect(tuple(g[q]) == tuple(want) if q == "betas" else g[q] == want, f"parameter group has {q}={g[q]} where {want} was asked for")
    models = {id(p): Model(p) for p in params}
    ops = []
    for t in range(ctx.int(5, 25)):
        op = ctx.choice(["step", "step", "step", "step", "lr", "settings", "closure", "save", "sched", "add", "edit", "zero_grad", "copy"])
        ops.append(op)
        if op == "lr":
            ctx.choice(opt.param_groups)["lr"] = ctx.choice([1e-3, 0.05, 0.5])
        elif op == "settings":  # coefficients and decay are changed on the way
            g = ctx.choice(opt.param_groups)
            for q, v in settings(ctx).items():
                g[q] = v
            ctx.see("settings_changed")
        elif op == "sched":
            sch = torch.optim.lr_scheduler.ExponentialLR(opt, gamma=0.5)
            for p in params:
                set_grad(ctx, p, 1.0)
            step(ctx, opt, models, lambda: monitor.call(ctx, "SparseLion.step", opt.step), f"step {t}")
            sch.step()
        elif op == "add" and len(params) < 6:
            p = torch.nn.Parameter(torch.tensor(ctx.np.normal(size=(3, 2)), dtype=torch.float32))
            params.append(p)
            models[id(p)] = Model(p)
            with ctx.cut("add_param_group"):
                asked = settings(ctx)
                opt.add_param_group(dict(params=[p], **asked))
            for q, v in asked.items():
                ctx.expect(tuple(opt.param_groups[-1][q]) == tuple(v) if q == "betas" else opt.param_groups[-1][q] == v, f"added parameter group has {q}={opt.param_groups[-1][q]} where {v} was asked for")
        elif op == "edit":
            with torch.no_grad():
                ctx.choice(params).add_(0.125)
        elif op == "zero_grad":
            opt.zero_grad(set_to_none=ctx.chance(0.5))
        elif op in ("save", "copy"):
            # continue with a new optimizer over cloned parameters
            new = [torch.nn.Parameter(p.detach().clone()) for p in params]
            m2 = {id(q): models[id(p)] for p, q in zip(params, new)}
            gs, i = [], 0
            for g in opt.param_groups:
                gs.append(dict(params=new[i : i + len(g["params"])]))
                i += len(g["params"])
            order = [p for g in opt.param_groups for p in g["params"]]
            m2 = {id(q): models[id(p)] for p, q in zip(order, new)}
            new = [torch.nn.Parameter(p.detach().clone()) for p in order]
            m2 = {id(q): models[id(p)] for p, q in zip(order, new)}
            gs, i = [], 0
            for g in opt.param_groups:
                gs.append(dict(params=new[i : i + len(g["params"])]))
                i += len(g["params"])
            buf = io.BytesIO()
            with ctx.cut("saving and loading the optimizer state"):
                torch.save(opt.state_dict(), buf)
                buf.seek(0)
                opt2 = opt_cls(gs, lr=0.77)
                opt2.load_state_dict(torch.load(buf, weights_only=False))
            for g, h in zip(opt.param_groups, opt2.param_groups):
                ctx.expect(all(tuple(g[q]) == tuple(h[q]) if q == "betas" else g[q] == h[q] for q in ("lr", "betas", "weight_decay")), "a reloaded optimizer has other settings")
            opt, params, models = opt2, new, m2
            ctx.see("optimizer_reloads")
        if op == "closure":
            calls = []
            for p in params:
                p.grad = None
                p.requires_grad_(True)
            c0 = [torch.tensor(ctx.np.normal(size=tuple(p.shape)) * (ctx.np.random(size=tuple(p.shape)) < 0.6), dtype=p.dtype) for p in params]

            gives = ctx.choice(["loss", "loss", "number", "nothing", "nan", "inf", "detached"])

            def closure():
                calls.append(torch.is_grad_enabled())
                opt.zero_grad()
                loss = sum((p * c).sum().double() for p, c in zip(params, c0))
                loss.backward()
                bad = {"nan": float("nan"), "inf": float("inf")}
                return {"loss": loss, "number": loss.item(), "nothing": None, "detached": loss.detach()}.get(gives, bad.get(gives))

            # run the closure once by hand to know the gradients the step will see
            closure()
            calls.clear()
            with torch.no_grad():
                want = float(sum((p * c).sum().double() for p, c in zip(params, c0)))
            out = step(ctx, opt, models, lambda: monitor.call(ctx, "SparseLion.step(closure)", opt.step, closure), f"step {t} with closure")
            ctx.expect(len(calls) == 1, f"the closure was evaluated {len(calls)} times")
            ctx.expect(calls[0] is True, "the closure ran without gradients enabled")
            if gives == "nothing":
                ctx.expect(out is None, f"step returned {out!r} for a closure that returns nothing")
            elif gives in ("nan", "inf"):
                ctx.expect(isinstance(out, float) and not np.isfinite(out), f"step returned {out!r} for a closure that returns {gives}")
            else:
                ctx.expect(out is not None and abs(float(out) - want) <= 1e-4 * (1 + abs(want)), f"step returned {out} where the closure's loss {want} is expected")
            ctx.see("closures_returning_" + gives)
            ctx.see("closures")
        else:
            for p in params:
                set_grad(ctx, p, ctx.choice([1.0, 1e-3, 100.0]))
            if ctx.chance(0.1):  # frozen after its gradient was computed
                for p in params:
                    p.requires_grad_(ctx.chance(0.5))
                ctx.see("frozen_with_gradient")
            out = step(ctx, opt, models, lambda: monitor.call(ctx, "SparseLion.step", opt.step), f"step {t}")
            ctx.expect(out is None, f"a step without closure returned {out!r}")
    ctx.describe(ops=ops, groups=len(opt.param_groups), top=str(top))
    ctx.sig(tuple(ops), str(top), tuple(tuple(p.shape) for p in params))


def cancel(ctx):
    """Where momentum and gradient cancel exactly the entry only decays."""
    b1, b2 = ctx.choice([(0.5, 0.5), (0.5, 0.75), (0.75, 0.5), (0.5, 1.0)])
    lr, wd = ctx.choice([0.125, 1.0, 0.01]), ctx.choice([0.0, 0.0, 0.5])
    dt = ctx.choice([torch.float32, torch.float64])
    shape = ctx.choice([(4,), (3, 5), (2, 2, 3), (40,)])
    p = torch.nn.Parameter(torch.tensor(ctx.np.normal(size=shape), dtype=dt))
    with ctx.cut("building SparseLion"):
        opt = api.ns.sparse_lion.SparseLion([p], lr=lr, betas=(b1, b2), weight_decay=wd)
    m = np.zeros(shape)
    eps = EPS32 if dt == torch.float32 else EPS64
    for t in range(ctx.int(3, 7)):
        g = ctx.np.integers(-4, 5, size=shape).astype(float)
        cut = (ctx.np.random(size=shape) < 0.4) & (m != 0)
        g = np.where(cut, -m * b1 / (1 - b1), g)  # few bits, so every number here is exact
        if not (np.float32(g) == g).all():
            break
        b = monitor.n64(p).copy()
        p.grad = torch.tensor(g, dtype=dt)
        monitor.call(ctx, "SparseLion.step", opt.step)
        a, live = monitor.n64(p), g != 0
        u = b1 * m + (1 - b1) * g
        want = np.where(live, b * (1 - lr * wd) - lr * np.sign(u), b)
        bad = np.abs(a - want) > 8 * eps * (np.abs(b) + lr)
        if bad.any():
            i = tuple(int(q) for q in np.argwhere(bad)[0])
            ctx.fail(f"step {t}: entry went from {b[i]} to {a[i]}; expected {want[i]} (gradient {g[i]}, momentum {m[i]}, betas {(b1, b2)}, lr {lr})")
        ctx.see("exact_cancellations", int((live & (u == 0)).sum()))
        m = np.where(live, b2 * m + (1 - b2) * g, m)
        if not (np.float32(m) == m).all():
            break
    ctx.describe(shape=list(shape), betas=(b1, b2), lr=lr, wd=wd)
    ctx.sig("cancel", shape, b1, b2, lr, wd, str(dt), t)


def layers(ctx):
    """On real piecewise layers only weights of visited segments ever move."""
    kind = ctx.choice(["continuous", "discontinuous"])
    n, S, I, O = ctx.choice([2, 3, 4]), ctx.choice([4, 8, 16]), ctx.int(1, 3), ctx.int(1, 3)
    layer, w = fc.build(ctx, kind, n, I, O, S, 2.0)
    gen.fill(ctx, w, "normal")
    with ctx.cut("building SparseLion"):
        opt = api.ns.sparse_lion.SparseLion(layer.parameters(), lr=0.01, weight_decay=ctx.choice([0.0, 0.1]))
    start = w.detach().clone()
    models = {id(p): Model(p) for p in layer.parameters()}
    lo, hi = ctx.choice([(-1, -0.3), (0.3, 1), (-0.2, 0.2)])
    for t in range(ctx.int(3, 12)):
        x = gen.t32(ctx.np.uniform(lo, hi, size=(ctx.int(1, 6), I)))
        opt.zero_grad()
        y = monitor.call(ctx, kind, layer, x)
        with ctx.cut("backward"):
            ((y - 1) ** 2).mean().backward()
        step(ctx, opt, models, lambda: monitor.call(ctx, "SparseLion.step", opt.step), f"step {t} on a {kind} layer")
    st = n - 1 if kind == "continuous" else n
    k0, k1 = int(np.floor((lo + 1) / 2 * S + 1e-4)), int(np.floor((hi + 1) / 2 * S + 1e-4))
    k0, k1 = max(0, k0 - 1), min(S - 1, k1 + 1)
    far = [q for q in range(w.shape[-1]) if q < k0 * st or q > k1 * st + n - 1]
    if far:
        ctx.see("never_visited_weights", len(far) * I * O)
        ctx.expect(torch.equal(w.detach()[..., far], start[..., far]), f"{kind} layer: weights of segments that were never visited moved")
    ctx.sig("layers", kind, n, S, I, O, lo)


SCENARIOS = {"history": (history, 700, 9000), "layers": (layers, 120, 1500), "cancel": (cancel, 150, 2000)}
MUST_SEE = ["optimizer_steps", "entries_held", "entries_stepped", "untouched_parameters", "closures", "optimizer_reloads", "momenta_compared", "overflowed_entries", "frozen_with_gradient", "never_visited_weights", "settings_changed", "exact_cancellations"]
RULE = "one case = a history of 5-25 operations (steps with dense, sparse, zero, single or missing gradients, changes of learning rate, coefficients and decay, schedulers, closures, added groups, edits, save/load into a new optimizer) over 1-6 parameters; distinct by operation sequence, settings and shapes"
ASSUMPTIONS = ["an entry is not judged any more after a gradient that was not finite", "where momentum and gradient cancel to within rounding, any sign of the update is accepted (where they cancel exactly, only none)"]
