"""C22: layers are pure functions of input and parameters, sample by sample."""
import copy
import sys
import threading
import time

import numpy as np
import torch
from torch.nn.modules import module as _m

from hol import api, gen, monitor, nets, zoo

CHAOTIC = set(zoo.NETS) | set(zoo.MODS)  # rounding may be amplified without limit: judged in float64


def to(v, dt):
    return v.to(dt) if torch.is_tensor(v) and v.dtype.is_floating_point else v


def model(ctx, name, wide=None):
    item = zoo.make(ctx, name)
    m = zoo.build(ctx, item)
    zoo.shake(ctx, m, 0.4)
    m.eval()
    dt = torch.float64 if (name in CHAOTIC if wide is None else wide) else torch.float32
    if dt == torch.float64:
        with ctx.cut("double()"):
            m = m.double()
    return item, m, dt


def batch(item, B, dt):
    return tuple(to(v, dt) for v in item.inputs(B))


def call(ctx, m, args, label):
    return [o for o in zoo.outs(monitor.call(ctx, label, m, *args))]


def close(a, b, dt, scale=None):
    """Up to rounding of a differently ordered sum."""
    if len(a) != len(b):
        return False, "number of outputs"
    for p, q in zip(a, b):
        p, q = p.detach().double(), q.detach().double()
        if p.shape != q.shape:
            return False, f"shape {tuple(p.shape)} against {tuple(q.shape)}"
        fin = (q.abs() < 1e25)
        top = q[fin].abs().max() if fin.any() else 0.0
        if scale is not None:
            top = max(float(top), scale)
        if dt == torch.float32:
            tol = 2e-5 * q.abs() + (2e-5 if scale is None else 2e-4) * top + 1e-7
        else:
            tol = 1e-7 * q.abs() + 1e-8 * top + 1e-10
        bad = fin & ~((p - q).abs() <= tol)
        if bool(bad.any()):
            i = tuple(int(v) for v in bad.nonzero()[0])
            return False, f"{p[i].item()} against {q[i].item()} at {i}"
    return True, None


def expect_close(ctx, item, what, a, b, dt, scale=None):
    ok, why = close(a, b, dt, scale)
    ctx.see("results_compared", sum(int(v.numel()) for v in b))
    ctx.expect(ok, f"{item.name}: {what}: {why}", config={k: str(v) for k, v in item.config.items()})


def world():
    return (torch.is_grad_enabled(), torch.get_default_dtype(), torch.get_num_threads(), torch.are_deterministic_algorithms_enabled(), torch.is_inference_mode_enabled())


def pure(ctx):
    """Nothing but the result comes out of a call."""
    name = zoo.ALL[ctx.index % len(zoo.ALL)]
    item, m, dt = model(ctx, name, False)
    training = ctx.chance(0.3) and not any(isinstance(q, (torch.nn.modules.batchnorm._BatchNorm, torch.nn.Dropout)) for q in m.modules())
    m.train(training)
    args = list(batch(item, ctx.choice([1, 2, 3, 5]), dt))
    layouts = []
    for i, v in enumerate(args):
        if torch.is_tensor(v) and v.dtype.is_floating_point:
            how, args[i] = gen.layout(ctx, v)
            layouts.append(how)
    grad = ctx.choice(["plain", "grad", "nograd", "inference"])
    if grad == "grad":
        args = [v.requires_grad_(True) if torch.is_tensor(v) and v.dtype.is_floating_point and v.is_leaf else v for v in args]
    snap = monitor.Snapshot([(f"input {i}", v) for i, v in enumerate(args) if torch.is_tensor(v)] + monitor.state_tensors(m))
    keys = list(m.state_dict().keys())
    flags = [(k, p.requires_grad) for k, p in m.named_parameters()]
    rng, env = monitor.rng_state(), world()
    guard = torch.no_grad() if grad == "nograd" else torch.inference_mode() if grad == "inference" else torch.enable_grad()
    with guard:
        first = call(ctx, m, args, f"{name} {item.config}")
    ctx.expect(world() == env, f"{name}: evaluating it changed torch's global settings from {env} to {world()}")
    ctx.expect(monitor.same_rng(rng, monitor.rng_state()), f"{name}: evaluating it advanced a global random generator", config={k: str(v) for k, v in item.config.items()})
    ch = snap.changed()
    ctx.expect(ch is None, f"{name}: evaluating it changed {ch}", config={k: str(v) for k, v in item.config.items()})
    ctx.expect(keys == list(m.state_dict().keys()) and flags == [(k, p.requires_grad) for k, p in m.named_parameters()], f"{name}: evaluating it changed its set of parameters")
    keep = [o.detach().clone() for o in first]
    # again, with other work in between
    other = batch(item, ctx.choice([1, 4]), dt)
    call(ctx, m, other, name)
    torch.manual_seed(ctx.int(0, 999))
    second = call(ctx, m, args, name)
    expect_close(ctx, item, "the same input gave another result the second time", second, keep, torch.float64 if name not in CHAOTIC else dt)
    # and with all fresh memory poisoned: nothing is read before it is written
    if not ctx.index % 2 and all(bool(k.isfinite().all()) for k in keep):
        with monitor.poisoned():
            third = [o.detach() for o in call(ctx, m, args, name)]
        expect_close(ctx, item, "with fresh memory poisoned the result is another one", third, keep, torch.float64 if name not in CHAOTIC else dt)
        ctx.expect(all(bool(t.isfinite().all()) for t in third), f"{name}: the result depends on uninitialised memory", config={k: str(v) for k, v in item.config.items()})
        ctx.see("poisoned_calls")
    same = all(nets.same(o.detach(), k) for o, k in zip(first, keep))
    ctx.expect(same, f"{name}: a later call changed a result handed out before", config={k: str(v) for k, v in item.config.items()})
    ch = snap.changed()
    ctx.expect(ch is None, f"{name}: repeated evaluation changed {ch}")
    # the same tensor object with new content is a new input
    if grad != "grad" and "expanded_row" not in layouts:
        new = batch(item, args[0].shape[0], dt) if torch.is_tensor(args[0]) else None
        if new is not None and all(not torch.is_tensor(a) or a.shape == b.shape for a, b in zip(args, new)):
            part = ctx.choice(["all", "all", "not first", "not last", "one sample", "one number"])
            with torch.no_grad():
                for a, b in zip(args, new):
                    if not torch.is_tensor(a):
                        continue
                    if part == "all" or not a.dim() or a.shape[0] < 2:
                        a.copy_(b)
                    elif part == "one sample":
                        q = ctx.int(0, a.shape[0] - 1)
                        a[q] = b[q]
                    elif part == "one number":
                        q = tuple(ctx.int(0, k - 1) for k in a.shape)
                        a[q] = b[q]
                    else:
                        q = slice(1, None) if part == "not first" else slice(0, -1)
                        a[q] = b[q]
            r1 = call(ctx, m, args, name)
            r2 = call(ctx, m, [v.clone() if torch.is_tensor(v) else v for v in args], name)
            expect_close(ctx, item, "an input overwritten in place is answered with a stale result", r1, r2, torch.float64 if name not in CHAOTIC else dt)
            ctx.see("overwritten_inputs")
    ctx.see("pure_calls")
    ctx.describe(module=name, config={k: str(v) for k, v in item.config.items()}, layouts=layouts, mode=grad)
    ctx.sig("pure", name, str(item.config), layouts, grad, training)


def trouble(ctx):
    """Whatever went on in between, ordinary inputs get the ordinary answer."""
    other = getattr(ctx, "precision", False)
    pool = (zoo.FC + zoo.CONV + ["convt2d"]) if other else zoo.ALL
    name = pool[ctx.index % len(pool)]
    for _ in range(8 if other else 1):
        item, m, dt = model(ctx, name, False)
        if item.config.get("n") in (5, 6):  # nodes that are no short binary fractions
            break
    args = list(batch(item, ctx.choice([1, 2, 4]), dt))
    before = [o.detach().clone() for o in call(ctx, m, args, f"{name} {item.config}")]
    snap = monitor.Snapshot(monitor.state_tensors(m))
    done = []
    for _ in range(ctx.int(1, 3)):
        bad = [v.clone() if torch.is_tensor(v) else v for v in batch(item, ctx.choice([1, 2, 3]), dt)]
        how = ctx.choice(["nan", "inf", "neginf", "all_nan", "zero", "huge", "wrong_width", "wrong_rank", "interrupted", "empty", "half", "bfloat16", "double", "roundtrip"]) if not other else ctx.choice(["half", "bfloat16", "double", "roundtrip"])
        done.append(how)
        ts = [i for i, v in enumerate(bad) if torch.is_tensor(v) and v.dtype.is_floating_point and v.numel()]
        hook = None
        if how in ("nan", "inf", "neginf"):
            v = bad[ctx.choice(ts)]
            v.view(-1)[ctx.int(0, v.numel() - 1)] = {"nan": float("nan"), "inf": float("inf"), "neginf": -float("inf")}[how]
        elif how in ("all_nan", "zero", "huge"):
            for i in ts:
                bad[i].fill_({"all_nan": float("nan"), "zero": 0.0, "huge": 3e37}[how])
        elif how == "wrong_width":
            i = ctx.choice(ts)
            bad[i] = torch.cat([bad[i], bad[i][..., :1]], -1)
        elif how == "wrong_rank":
            i = ctx.choice(ts)
            bad[i] = bad[i].unsqueeze(0)
        elif how in ("half", "bfloat16", "double"):
            bad = [to(v, {"half": torch.float16, "bfloat16": torch.bfloat16, "double": torch.float64}[how]) for v in bad]
        elif how == "roundtrip":
            m.double()
            bad = [to(v, torch.float64) for v in bad]
        elif how == "empty":
            bad = [v[:0] if torch.is_tensor(v) and v.dim() else v for v in bad]
        elif how == "interrupted":
            left = [ctx.int(1, 4)]

            def stop(mod, a):
                left[0] -= 1
                if left[0] == 0:
                    raise KeyboardInterrupt

            hook = _m.register_module_forward_pre_hook(stop)
        try:
            m(*bad)
        except (Exception, KeyboardInterrupt):
            ctx.see("refused_or_interrupted_calls")
        finally:
            if hook is not None:
                hook.remove()
            if how == "roundtrip":
                m.to(dt)
        ctx.see("troubled_calls")
    after = call(ctx, m, args, name)
    what = f"after {', '.join(done)} the same input gives another result"
    expect_close(ctx, item, what, after, before, torch.float64 if name not in CHAOTIC else dt)
    ctx.expect(all(not b.isfinite().all() or a.isfinite().all() for a, b in zip(after, before)), f"{name}: {what}: not finite any more")
    ch = snap.changed()
    ctx.expect(ch is None, f"{name}: {', '.join(done)} changed {ch}")
    ctx.sig("trouble", name, str(item.config), tuple(done))


def precision(ctx):
    """Inputs of another precision, accepted or refused, leave nothing behind."""
    ctx.precision = True
    trouble(ctx)
    ctx.see("precision_excursions")


def recycled(ctx):
    """A stream of inputs whose memory is used again and again."""
    name = zoo.ALL[ctx.index % len(zoo.ALL)]
    item, m, dt = model(ctx, name)
    B, k = ctx.choice([1, 2, 3]), ctx.int(3, 6)
    data = [batch(item, B, dt) for _ in range(k)]
    if any(a.shape != b.shape for d in data for a, b in zip(d, data[0]) if torch.is_tensor(a)):
        return
    how = ctx.choice(["freed", "freed", "copy_", "behind", "data"])
    grad = ctx.choice(["nograd", "inference", "grad"])
    want = []
    with torch.no_grad():
        for d in data:
            want.append([o.clone() for o in call(ctx, copy.deepcopy(m), d, name)])
    buf = [v.clone() if torch.is_tensor(v) else v for v in data[0]]
    where = set()
    guard = torch.no_grad() if grad == "nograd" else torch.inference_mode() if grad == "inference" else torch.enable_grad()
    with guard:
        for j in [ctx.int(0, k - 1) for _ in range(2 * k)]:
            if how == "freed":
                buf = None
                buf = [v.clone() if torch.is_tensor(v) else v for v in data[j]]
            else:
                for a, b in zip(buf, data[j]):
                    if not torch.is_tensor(a):
                        continue
                    if how == "copy_":
                        a.copy_(b)
                    elif how == "data":
                        a.data.copy_(b)
                    else:
                        a.detach().numpy()[...] = b.numpy()
            where.add(tuple(v.data_ptr() for v in buf if torch.is_tensor(v)))
            expect_close(ctx, item, f"input {j} of a stream in recycled memory ({how}, {grad}) gives another result", call(ctx, m, buf, name), want[j], dt)
            ctx.see("recycled_inputs")
    ctx.see("addresses_used_again", 2 * k - len(where))
    ctx.describe(module=name, how=how, mode=grad)
    ctx.sig("recycled", name, str(item.config), how, grad)


def stack(parts):
    return [torch.cat([p[i] for p in parts]) for i in range(len(parts[0]))]


def take(args, idx):
    return [v[idx] if torch.is_tensor(v) else v for v in args]


def samples(ctx):
    """Batches can be cut and shuffled at will."""
    names = [n for n in zoo.ALL]
    name = names[ctx.index % len(names)]
    item, m, dt = model(ctx, name, True if ctx.chance(0.5) else None)
    if not item.per_sample:
        return
    B = ctx.choice([2, 3, 5, 8, 13, 60])
    args = batch(item, B, dt)
    with torch.no_grad():
        full = call(ctx, m, args, name)
    if not all(o.dim() and o.shape[0] == B for o in full):
        ctx.fail(f"{name}: returns {[tuple(o.shape) for o in full]} for a batch of {B}", config={k: str(v) for k, v in item.config.items()})
    fin = [o[o.abs() < 1e20] for o in full]
    top = max([1.0] + [float(f.abs().max()) for f in fin if f.numel()])
    grab = lambda idx: [o[idx] for o in full]
    for how in ("one", "split", "permute", "repeat", "strided", "grad", "others", "layout"):
        if how == "one":
            b = ctx.int(0, B - 1)
            expect_close(ctx, item, f"sample {b} of {B} alone differs", call(ctx, m, take(args, [b]), name), grab([b]), dt, top)
        elif how == "split":
            c = ctx.int(1, B - 1)
            expect_close(ctx, item, f"splitting the batch at {c} of {B} changes results", stack([call(ctx, m, take(args, slice(0, c)), name), call(ctx, m, take(args, slice(c, B)), name)]), full, dt, top)
        elif how == "permute":
            p = ctx.np.permutation(B)
            expect_close(ctx, item, "permuting the batch does not permute the results", call(ctx, m, take(args, p), name), grab(p), dt, top)
        elif how == "repeat":
            p = ctx.np.integers(0, B, size=ctx.choice([B, 2 * B, 3]))
            expect_close(ctx, item, "repeating samples changes results", call(ctx, m, take(args, p), name), grab(p), dt, top)
        elif how == "strided":
            expect_close(ctx, item, "every other sample of a batch (a strided view) gives other results", call(ctx, m, take(args, slice(0, B, 2)), name), grab(slice(0, B, 2)), dt, top)
        elif how == "grad":
            with torch.enable_grad():
                g = [v.clone().requires_grad_(True) if torch.is_tensor(v) and v.dtype.is_floating_point else v for v in args]
                expect_close(ctx, item, "tracking gradients changes results", call(ctx, m, g, name), full, dt, top)
        elif how == "others":
            b = ctx.int(0, B - 1)
            new = batch(item, B, dt)
            mix = [v.clone() if torch.is_tensor(v) else v for v in new]
            for v, o in zip(mix, args):
                if torch.is_tensor(v):
                    v[b] = o[b]
            r = call(ctx, m, mix, name)
            expect_close(ctx, item, f"the other samples influence sample {b}", [o[[b]] for o in r], grab([b]), dt, top)
        else:
            lay = []
            for v in args:
                if torch.is_tensor(v) and v.dtype.is_floating_point:
                    k, v = gen.layout(ctx, v)
                    if k == "expanded_row":
                        v = v.contiguous()
                        v = args[len(lay)]
                lay.append(v)
            expect_close(ctx, item, "the memory layout of the input changes results", call(ctx, m, lay, name), full, dt, top)
        ctx.see("batch_relations")
    ctx.describe(module=name, config={k: str(v) for k, v in item.config.items()}, batch=B)
    ctx.sig("samples", name, str(item.config), B)


def siblings(ctx):
    """Other instances, of the same kind and other settings, do not interfere."""
    name = zoo.ALL[ctx.index % len(zoo.ALL)]
    k = ctx.int(2, 4)
    group = [model(ctx, name) for _ in range(k)]
    data = [batch(i, 3, dt) for i, m, dt in group]
    alone = []
    for (i, m, dt), a in zip(group, data):
        with torch.no_grad():
            alone.append([o.clone() for o in call(ctx, copy.deepcopy(m), a, name)])
    for _ in range(3):
        for j in ctx.np.permutation(k):
            i, m, dt = group[j]
            with torch.no_grad():
                expect_close(ctx, i, "another instance of the same kind influences the result", call(ctx, m, data[j], name), alone[j], dt)
            ctx.see("interleaved_instances")
    # new instances built in between
    i2 = zoo.make(ctx, name)
    zoo.build(ctx, i2)
    i, m, dt = group[0]
    with torch.no_grad():
        expect_close(ctx, i, "building another instance influences the result", call(ctx, m, data[0], name), alone[0], dt)
    ctx.describe(module=name, instances=k)
    ctx.sig("siblings", name, str([str(g[0].config) for g in group]))


def threads(ctx):
    """Many threads at once on one module, with switches forced inside it."""
    name = zoo.ALL[ctx.index % len(zoo.ALL)]
    item, m, dt = model(ctx, name)
    T = ctx.choice([2, 3, 4])
    R_ = ctx.choice([2, 3])
    sizes = [ctx.choice([1, 2, 3, 6]) for _ in range(T)]
    data = [[batch(item, sizes[t], dt) for _ in range(R_)] for t in range(T)]
    with torch.no_grad():
        want = [[[o.clone() for o in call(ctx, m, a, name)] for a in row] for row in data]
    got = [[None] * R_ for _ in range(T)]
    errs = []
    log = []
    pauses = ctx.np.random(4096)
    barrier = threading.Barrier(T)
    snap = monitor.Snapshot(monitor.state_tensors(m))

    def hook(mod, args, out=None):
        log.append(threading.get_ident())
        k = len(log) % 4096
        if pauses[k] < 0.25:
            time.sleep(0)
        elif pauses[k] < 0.32:
            time.sleep(0.0003)

    def work(t):
        try:
            barrier.wait(30)
            with torch.no_grad():
                for r in range(R_):
                    got[t][r] = [o for o in zoo.outs(m(*data[t][r]))]
        except Exception as e:  # judged below
            errs.append(f"{type(e).__name__}: {e}")

    h1 = _m.register_module_forward_pre_hook(lambda mod, a: hook(mod, a))
    h2 = _m.register_module_forward_hook(hook)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ths = [threading.Thread(target=work, args=(t,)) for t in range(T)]
        for th in ths:
            th.start()
        for th in ths:
            th.join(120)
    finally:
        sys.setswitchinterval(old)
        h1.remove()
        h2.remove()
    ctx.expect(not errs, f"{name}: evaluation from {T} threads at once raised {errs[:1]}", config={k: str(v) for k, v in item.config.items()})
    ctx.expect(all(not th.is_alive() for th in ths), f"{name}: evaluation from {T} threads does not end")
    for t in range(T):
        for r in range(R_):
            expect_close(ctx, item, f"evaluated by {T} threads at once, another result than alone", got[t][r], want[t][r], dt)
    ctx.expect(snap.changed() is None, f"{name}: concurrent evaluation changed {snap.changed()}")
    ids = {v: i for i, v in enumerate(dict.fromkeys(log))}
    order = tuple(ids[v] for v in log)
    switches = sum(a != b for a, b in zip(order, order[1:]))
    ctx.see("thread_switches_inside_modules", switches)
    ctx.see("concurrent_evaluations", T * R_)
    ctx.sig("threads", name, T, hash(order))
    ctx.describe(module=name, threads=T, rounds=R_, switches=switches)


SCENARIOS = {"precision": (precision, 6 * len(zoo.FC + zoo.CONV), 40 * len(zoo.FC + zoo.CONV)), "trouble": (trouble, 6 * len(zoo.ALL), 50 * len(zoo.ALL)), "pure": (pure, 6 * len(zoo.ALL), 50 * len(zoo.ALL)), "recycled": (recycled, 4 * len(zoo.ALL), 30 * len(zoo.ALL)), "samples": (samples, 5 * len(zoo.ALL), 40 * len(zoo.ALL)),
             "siblings": (siblings, 2 * len(zoo.ALL), 15 * len(zoo.ALL)), "threads": (threads, 3 * len(zoo.ALL), 25 * len(zoo.ALL))}
MUST_SEE = ["precision_excursions", "troubled_calls", "refused_or_interrupted_calls", "pure_calls", "poisoned_calls", "recycled_inputs", "addresses_used_again", "results_compared", "overwritten_inputs", "batch_relations", "interleaved_instances", "thread_switches_inside_modules", "concurrent_evaluations"]
RULE = "one case = a module of any kind with a random configuration under one regime (repetition, batch surgery, sibling instances, threads); distinct by module, configuration and, for threads, the observed interleaving"
ASSUMPTIONS = ["dropout is off and batch normalization in evaluation mode", "networks are judged in float64, where rounding cannot flip a segment"]
