"""Training modules: the configured model, loss, metrics, optimizer, scheduler."""
import shutil
import tempfile

import numpy as np
import torch
from omegaconf import OmegaConf

from hol import api, fc, gen, monitor, nets
from hol import ref as R
from hol.checks import c18

FCS = ["continuous", "discontinuous", "polynomial", "continuous_prod", "discontinuous_prod", "polynomial_prod", "fourier"]


# ------------------------------------------------------------ configurations
def opt_cfg(ctx, name=None, sched="?"):
    d = dict(name=name or ctx.choice(["adam", "lion"]), lr=ctx.choice([1e-3, 1e-4, 0.02, 0.5, 1e-6, 1.5]), patience=ctx.choice([0, 1, 2, 5]), factor=ctx.choice([0.1, 0.5, 0.7]), gamma=ctx.choice([0.9, 0.5, 0.99, 0.995, 0.999, 1.0]))
    d["scheduler"] = ctx.choice(["plateau", "exponential", None, "none"]) if sched == "?" else sched
    return d


def mlp_cfg(ctx, mt):
    n = ctx.choice([2, 3, 4])
    o = lambda: ctx.choice([None, None, 1, 2, 3, 5])
    net = dict(
        model_type=mt,
        layer_type=ctx.choice(FCS),
        normalize=ctx.chance(0.5),
        features=16,
        n=n,
        n_in=o(),
        n_out=o(),
        n_hidden=o(),
        periodicity=2.0,
        rescale_output=False,
        input=dict(segments=ctx.int(1, 5), width=ctx.choice([1, 2, 3, 5, 8, ctx.int(1, 10)])),
        output=dict(segments=ctx.int(1, 5), width=ctx.choice([1, 2, 3, 4, 6, ctx.int(1, 10)])),
        hidden=dict(segments=ctx.int(1, 5), layers=ctx.choice([1, 2, 2, 3, 4]) if mt == "high_order_input" else ctx.choice([0, 1, 2, 3]), width=ctx.choice([1, 2, 4, 7])),
    )
    turn = getattr(ctx, "turn", None)
    if turn is not None or ctx.chance(0.12):  # one setting far beyond the others
        a, b, v = (ctx.choice if turn is None else lambda q: q[turn % len(q)])([("input", "width", [17, 40, 64]), ("input", "segments", [9, 30]), ("output", "segments", [9, 30]), ("hidden", "segments", [9, 30]), ("hidden", "layers", [5, 7, 9]), ("hidden", "width", [17, 33, 64])])
        net[a][b] = ctx.choice(v)
        ctx.see("large_settings")
    return net


def conv_cfg(ctx, mt):
    for _ in range(60):
        kw, K = c18.cfg(ctx, 1, c18.KINDS[1])
        focus = [ctx.int(1, 3) for _ in range(K)] if ctx.chance(0.7) else ctx.int(1, 3)
        fl = focus if isinstance(focus, list) else [focus] * K
        for k in ("padding", "rescale_output", "normalization"):
            kw.pop(k, None)
        w = c18.pick_size(kw, K, ctx, max(fl + [2]))
        if w is not None:
            break
    kw.setdefault("periodicity", ctx.choice([None, 2.0]))
    kw.setdefault("stride", ctx.choice([None, 1]))
    net = dict(kw, model_type=mt, normalize=True, features=w, out_features=ctx.choice([1, 2, 3, 5, ctx.int(1, 10)]), focus=focus)
    kw["normalization"] = torch.nn.BatchNorm1d
    return net, kw, fl, w


def make(ctx, task, net, opt):
    cfg = OmegaConf.create(dict(net=net, optimizer=opt, data=dict(classes=max(2, net["output"]["width"] if "output" in net else net["out_features"]))))
    show = {k: str(v) for k, v in net.items()}
    with ctx.cut(f"building {task} module {show} {opt}"):
        m = (api.ns.modules.ClassificationNet if task == "classification" else api.ns.modules.RegressionNet)(cfg)
    ctx.see("modules_built")
    return m, show


# ------------------------------------------------------------ the model itself
def run_model(ctx, m, net, show, x, training, extra=None):
    mt = net["model_type"]
    label = f"{mt} model"
    if mt in ("high_order", "high_order_input"):
        f, out = nets.run(ctx, m, x, label, training, show)
        norm = torch.nn.LazyBatchNorm1d if net["normalize"] else None
        if mt == "high_order":
            kw = dict(layer_type=net["layer_type"], n=net["n"], n_in=net["n_in"], n_hidden=net["n_hidden"], n_out=net["n_out"], in_width=net["input"]["width"], in_segments=net["input"]["segments"],
                      out_width=net["output"]["width"], out_segments=net["output"]["segments"], hidden_width=net["hidden"]["width"], hidden_layers=net["hidden"]["layers"], hidden_segments=net["hidden"]["segments"], normalization=norm)
            nets.follow_mlp(f, kw)
        else:
            f.fc(net["layer_type"], net["n"], net["input"]["segments"], net["input"]["width"], net["hidden"]["width"], what="input layer")
            if norm is not None:
                f.norm(norm)
            nets.follow_low(f, dict(in_width=net["hidden"]["width"], hidden_width=net["hidden"]["width"], hidden_layers=net["hidden"]["layers"] - 1, out_width=net["output"]["width"], non_linearity=torch.nn.ReLU(), normalization=norm))
        f.finish(out)
        return out
    kw, fl = extra
    with monitor.trace(ctx, lambda q: c18.unit(q) or isinstance(q, torch.nn.Linear)) as ev:
        out = monitor.call(ctx, label, m, x)
    ctx.expect(bool(ev) and isinstance(ev[-1].module, torch.nn.Linear), f"{label}: does not end in a linear layer", config=show)
    levels = c18.follow(ctx, label, m, ev[:-1], x, kw, 1, training)
    if mt == "high_order_conv":
        want = levels[-1].flatten(1)
    else:
        parts = [x[:, :, -fl[0]:]] + [lv[:, :, -fl[i + 1]:] for i, lv in enumerate(levels[:-1])] + [levels[-1]]
        want = torch.cat([q.flatten(1) for q in parts], 1)
    e = ev[-1]
    ctx.expect(nets.same(e.inp, want), f"{label}: the linear layer is not fed the flattened features", config=show)
    W, b = monitor.n64(e.module.weight), monitor.n64(e.module.bias)
    ctx.expect(W.shape == (net["out_features"], want.shape[1]), f"{label}: linear layer of shape {W.shape}", config=show)
    monitor.compare(ctx, f"{label}: output", out, nets.tame(lambda z: nets.linear_ref(z, W, b), monitor.n64(e.inp)), config=show)
    ctx.expect(nets.same(out.detach(), e.out), f"{label}: output is not that of its linear layer", config=show)
    return out


def inputs(ctx, net, B, w=None):
    if "input" in net:
        return gen.t32(ctx.np.uniform(-1.1, 1.1, size=(B, net["input"]["width"])))
    return gen.t32(ctx.np.uniform(-1.1, 1.1, size=(B, net["channels"][0], w)))


def any_net(ctx, i=None):
    mt = ["high_order", "high_order_input", "high_order_conv", "high_order_tail_focus"][(ctx.index if i is None else i) % 4]
    if mt in ("high_order", "high_order_input"):
        return mlp_cfg(ctx, mt), None, None
    net, kw, fl, w = conv_cfg(ctx, mt)
    return net, (kw, fl), w


def model(ctx):
    net, extra, w = any_net(ctx)
    task = ctx.choice(["classification", "regression"])
    m, show = make(ctx, task, net, opt_cfg(ctx))
    m.train(False if ctx.chance(0.5) else True)
    x = inputs(ctx, net, ctx.choice([2, 3, 6]), w)
    with ctx.cut("first forward pass"):
        m(x)  # lazy parts take their sizes here
    nets.fill(ctx, m, 0.4)
    run_model(ctx, m, net, show, x, m.training, extra)
    ctx.see("models_" + net["model_type"])
    ctx.describe(task=task, **show)
    ctx.sig(task, str(sorted(show.items())))


# ------------------------------------------------------------ steps
def record(m):
    logs = []

    def log(name, value, *a, **k):
        logs.append((name, float(value)))

    def log_dict(d, *a, **k):
        for q, v in d.items():
            logs.append((q, float(v)))

    m.log, m.log_dict = log, log_dict
    return logs


def softmax_loss(z, y):
    z = z - z.max(1, keepdims=True)
    return float((np.log(np.exp(z).sum(1)) - z[np.arange(len(y)), y]).mean())


def targets(ctx, task, O, B, z):
    """Labels or values for a batch; z are predictions to argue with, if known."""
    if task != "classification":
        return gen.t32(ctx.np.normal(size=(B, O)) * ctx.choice([1.0, 10.0, 10.0, 1e4]))
    y = ctx.np.integers(0, O, size=B)
    if z is not None:
        near = z.argmax(1) + ctx.np.choice([0, 0, 1, -1, 2, 16, -128, 128, 255, 256, -256, 512], size=B)
        y = np.where((near >= 0) & (near < O), near, y)
    return torch.tensor(y)


def steps(ctx):
    task = ["classification", "regression"][ctx.index % 2]
    net, extra, w = any_net(ctx, ctx.index // 2)
    if ctx.chance(0.2):
        wide = ctx.choice([130, 257, 300, 600])
        if "output" in net:
            net["output"]["width"] = wide
        else:
            net["out_features"] = wide
    m, show = make(ctx, task, net, opt_cfg(ctx))
    O = net["output"]["width"] if "output" in net else net["out_features"]
    with ctx.cut("first forward pass"):
        m(inputs(ctx, net, 3, w))
    nets.fill(ctx, m, 0.5)
    logs = record(m)
    indifferent = task == "classification" and ctx.chance(0.15)
    if indifferent:  # every class scores the same
        with torch.no_grad():
            for q in m.parameters():
                q.zero_()
    for s in range(ctx.int(2, 5)):
        name, fn = ctx.choice([("train", m.training_step), ("val", m.validation_step), ("test", m.test_step)])
        m.train(name == "train" and ctx.chance(0.7))
        B = ctx.choice([2, 3, 5, 16, 33, 100]) if m.training else ctx.choice([1, 2, 3, 5, 16, 33, 100])
        x = inputs(ctx, net, B, w)
        z = None
        if not m.training and ctx.chance(0.7):
            with torch.no_grad(), ctx.cut("forward pass"):
                z = monitor.n64(m(x))
        y = targets(ctx, task, O, B, z)
        if task == "classification":
            if z is not None and O > 128:
                ctx.see("labels_far_from_the_prediction", int((np.abs(z.argmax(1) - y.numpy()) >= 128).sum()))
            if ctx.chance(0.3):
                y = y[:, None]
        elif ctx.chance(0.2):
            y = y.reshape(-1)
        seen = []
        h = m.model.register_forward_hook(lambda q, a, o: seen.append((a[0].detach().clone(), o.detach().clone())))
        logs.clear()
        with ctx.cut(f"{name} step"):
            loss = fn((x, y), s)
        h.remove()
        ctx.expect(len(seen) == 1 and nets.same(seen[0][0], x), f"{task} {name} step evaluates the model {len(seen)} times or on something other than the batch", config=show)
        z = monitor.n64(seen[0][1])
        if not (np.abs(z) < 1e6).all():
            continue
        yy = y.flatten().numpy()
        got = dict(logs)
        if task == "classification":
            want = softmax_loss(z, yy)
            srt = np.sort(z, 1)
            keys = {f"{name}_loss", f"{name}_acc"}
            tie = O > 1 and bool((srt[:, -1] == srt[:, -2]).any())
            acc = float((z.argmax(1) == yy).mean())
            ctx.expect(f"{name}_acc" in got, f"{name} step logs {sorted(got)}, not {name}_acc", config=show)
            ctx.expect(tie or abs(got[f"{name}_acc"] - acc) <= 1e-6, f"{name} step logs accuracy {got.get(f'{name}_acc')} where {acc} is expected", config=show)
            if O > 1 and (z == z[0, 0]).all():  # one class is predicted throughout, whichever
                ctx.expect(any(abs(got[f"{name}_acc"] - (yy == q).mean()) <= 1e-6 for q in range(O)), f"{name} step logs accuracy {got[f'{name}_acc']} for a model that cannot tell the classes apart", config=show)
                ctx.see("indifferent_models")
            room = 1e-5 * (1 + np.abs(z).max())
        else:
            t = yy.astype(float).reshape(z.shape)
            want = float(((z - t) ** 2).mean())
            keys = {f"{name}_loss"}
            room = 1e-5 * (1 + want + np.abs(z).max() ** 2 * 1e-2)
        ctx.expect(keys <= set(got) and not any(k.split("_")[0] in {"train", "val", "test"} - {name} for k in got), f"{task} {name} step logs {sorted(got)} where {sorted(keys)} is expected", config=show)
        ctx.expect(torch.is_tensor(loss) and loss.dim() == 0, f"{name} step returns {type(loss).__name__}", config=show)
        ctx.expect(abs(float(loss) - want) <= room, f"{task} {name} step returns loss {float(loss)} where {want} is expected", config=show)
        ctx.expect(abs(got[f"{name}_loss"] - want) <= room, f"{task} {name} step logs loss {got[f'{name}_loss']} where {want} is expected", config=show)
        if torch.is_grad_enabled() and name == "train":
            m.zero_grad()
            with ctx.cut("backward of the training loss"):
                loss.backward()
            ctx.expect(any(p.grad is not None for p in m.parameters()), "the training loss reaches no parameter", config=show)
            if not indifferent and not (task == "classification" and (O == 1 or np.ptp(z) > 10)):  # saturated probabilities have no slope
                ctx.expect(any(p.grad is not None and bool(p.grad.any()) for p in m.parameters()), "the training loss reaches no parameter", config=show)
            ctx.see("losses_backpropagated")
        ctx.see(f"steps_{task}")
        ctx.see("steps_" + name)
    ctx.describe(task=task, **show)
    ctx.sig(task, str(sorted(show.items())))


# ------------------------------------------------------------ optimizers
def unpack(ctx, r):
    """Any of the forms Lightning accepts."""
    mon, sch = None, None
    if isinstance(r, torch.optim.Optimizer):
        return r, None, None
    if isinstance(r, dict):
        r = ([r["optimizer"]], [r["lr_scheduler"]] if r.get("lr_scheduler") is not None else [])
    if isinstance(r, (list, tuple)) and r and not isinstance(r[0], (list, tuple)):
        r = (r, [])
    opts, schs = r
    ctx.expect(len(opts) == 1 and len(schs) <= 1, f"{len(opts)} optimizers and {len(schs)} schedulers are configured")
    if schs:
        sch = schs[0]
        if isinstance(sch, dict):
            sch, mon = sch["scheduler"], sch.get("monitor")
    return opts[0], sch, mon


def adam(lr, gs):
    m = v = 0.0
    out = 0.0
    for t, g in enumerate(gs, 1):
        m, v = 0.9 * m + 0.1 * g, 0.999 * v + 0.001 * g * g
        out -= lr * (m / (1 - 0.9**t)) / (np.sqrt(v / (1 - 0.999**t)) + 1e-8)
    return out


def lion(lr, gs):
    m, out = 0.0, 0.0
    for g in gs:
        out -= lr * np.sign(0.9 * m + 0.1 * g)
        m = 0.99 * m + 0.01 * g
    return out


def plateau(lr, patience, factor, losses):
    best, bad, seq = np.inf, 0, []
    for l in losses:
        if l < best * (1 - 1e-4):
            best, bad = l, 0
        else:
            bad += 1
        if bad > patience:
            new = lr * factor
            if lr - new > 1e-8:
                lr = new
            bad = 0
        seq.append(lr)
    return seq


def optimizers(ctx):
    task = ctx.choice(["classification", "regression"])
    net, extra, w = any_net(ctx)
    opt = opt_cfg(ctx, ["adam", "lion"][ctx.index // 4 % 2])
    m, show = make(ctx, task, net, opt)
    x = inputs(ctx, net, 4, w)
    early = ctx.chance(0.4)
    if not early:
        with ctx.cut("first forward pass"):
            m(x)
    frozen = [p for p in m.parameters() if not torch.nn.parameter.is_lazy(p) and p.requires_grad and ctx.chance(0.4)] if ctx.chance(0.25) else []
    for p in frozen:  # frozen for now; unfrozen later it must train
        p.requires_grad_(False)
    with ctx.cut(f"configure_optimizers {opt}"):
        o, sch, mon = unpack(ctx, m.configure_optimizers())
    for p in frozen:
        p.requires_grad_(True)
        ctx.see("frozen_parameters")
    if early:
        with ctx.cut("first forward pass"):
            m(x)
    held = [id(p) for g in o.param_groups for p in g["params"]]
    mine = [id(p) for p in m.parameters()]
    ctx.expect(sorted(held) == sorted(mine), f"the optimizer holds {len(held)} parameters of {len(mine)}", config=show)
    ctx.expect(all(abs(g["lr"] - opt["lr"]) <= 1e-12 for g in o.param_groups), f"learning rate {[g['lr'] for g in o.param_groups]} where {opt['lr']} is configured")
    # what the optimizer does with a known sequence of gradients
    ps = [p for p in m.parameters() if p.numel() and p.requires_grad]
    start = [p.detach().double().clone() for p in ps]
    gs = [[gen.t32(ctx.np.choice([-1, 1], size=tuple(p.shape)) * ctx.np.uniform(0.05, 5, size=tuple(p.shape))) for p in ps] for _ in range(3)]
    for k in range(3):
        for p, g in zip(ps, gs[k]):
            p.grad = g.clone()
        with ctx.cut("optimizer step"):
            o.step()
    rule = adam if opt["name"] == "adam" else lion
    for q, (p, s) in enumerate(zip(ps, start)):
        want = rule(opt["lr"], [monitor.n64(gs[k][q]) for k in range(3)])
        moved = monitor.n64(p) - s.numpy()
        m2 = 0.9 * (0.99 * 0.01 * monitor.n64(gs[0][q]) + 0.01 * monitor.n64(gs[1][q])) + 0.1 * monitor.n64(gs[2][q])
        m1 = 0.9 * 0.01 * monitor.n64(gs[0][q]) + 0.1 * monitor.n64(gs[1][q])
        clear = np.ones(moved.shape, bool) if opt["name"] == "adam" else (np.abs(m2) > 1e-4) & (np.abs(m1) > 1e-4)
        bad = clear & ~(np.abs(moved - want) <= 1e-3 * opt["lr"] + 16 * R.EPS * (np.abs(s.numpy()) + 3 * opt["lr"]))
        ctx.expect(not bad.any(), f"{opt['name']} with rate {opt['lr']} moves a weight by {moved[bad][0] if bad.any() else 0} where {np.broadcast_to(want, moved.shape)[bad][0] if bad.any() else 0} follows from its gradients")
        ctx.see("optimizer_moves", moved.size)
    kind = opt.get("scheduler")
    if kind not in ("plateau", "exponential"):
        ctx.expect(sch is None, f"a scheduler is attached although the configuration says {kind}")
        ctx.see("unscheduled")
    else:
        ctx.expect(sch is not None, f"no scheduler is attached although the configuration says {kind}")
        ctx.expect(getattr(sch, "optimizer", o) is o, "the scheduler drives another optimizer")
        if kind == "plateau":
            ctx.expect(mon == "train_loss", f"the plateau scheduler watches {mon!r}")
            losses = [float(ctx.choice([5.0, 4.0, 3.0, 2.0, 4.5, 4.4999])) for _ in range(14)]
            if ctx.chance(0.5):  # a slow but real descent
                losses = [3.0 * float(q) for q in np.cumprod(1 - ctx.np.choice([0.004, 0.001, 0.0003, 0.0], size=14))]
                ctx.see("slow_descents")
            got = []
            for l in losses:
                with ctx.cut("scheduler step"):
                    sch.step(l)
                got.append(o.param_groups[0]["lr"])
            want = plateau(opt["lr"], opt["patience"], opt["factor"], losses)
        else:
            got = []
            for _ in range(6):
                with ctx.cut("scheduler step"):
                    sch.step()
                got.append(o.param_groups[0]["lr"])
            want = [opt["lr"] * opt["gamma"] ** (k + 1) for k in range(6)]
        ctx.expect(np.allclose(got, want, rtol=1e-6, atol=0), f"{kind} scheduler {opt} gives rates {got} where {want} is expected")
        ctx.see("scheduler_steps", len(got))
        ctx.see("schedules_" + kind)
    ctx.describe(task=task, optimizer=opt, **show)
    ctx.sig(task, str(opt), str(sorted(show.items())))


def training(ctx):
    """The real trainer drives the module; rates and metrics are recorded."""
    import pytorch_lightning as pl

    task = ["classification", "regression"][ctx.index % 2]
    net, extra, w = any_net(ctx, ctx.index // 2)
    if "input" in net:
        net["hidden"]["layers"] = max(1, net["hidden"]["layers"])
    opt = opt_cfg(ctx, None, ["plateau", "exponential", None][ctx.index % 3])
    opt["patience"] = 0
    opt["lr"] = ctx.choice([0.02, 0.3])
    m, show = make(ctx, task, net, opt)
    O = net["output"]["width"] if "output" in net else net["out_features"]
    B = 6
    x = inputs(ctx, net, B, w)
    y = torch.tensor(ctx.np.integers(0, O, size=B)) if task == "classification" else gen.t32(ctx.np.normal(size=(B, O)))
    with ctx.cut("first forward pass"):
        m(x)
    rec = []

    class Watch(pl.Callback):
        def on_train_batch_start(self, trainer, mod, batch, batch_idx):
            self.lr = trainer.optimizers[0].param_groups[0]["lr"]

        def on_train_batch_end(self, trainer, mod, outputs, batch, batch_idx):
            rec.append((self.lr, float(outputs["loss"]), float(trainer.callback_metrics["train_loss"])))

    ds = torch.utils.data.TensorDataset(x, y)
    ld = lambda: torch.utils.data.DataLoader(ds, batch_size=B, num_workers=0)
    tmp = tempfile.mkdtemp(prefix="hol_pl_")
    E = 5
    before = [p.detach().clone() for p in m.parameters()]
    try:
        with ctx.cut("training with the Lightning trainer"):
            tr = pl.Trainer(max_epochs=E, accelerator="cpu", devices=1, logger=False, enable_checkpointing=False, enable_progress_bar=False, enable_model_summary=False, default_root_dir=tmp, callbacks=[Watch()], num_sanity_val_steps=0, log_every_n_steps=1)
            tr.fit(m, ld(), ld())
            res = tr.test(m, ld(), verbose=False)[0]
            vm = {k: float(v) for k, v in tr.callback_metrics.items()}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.expect(len(rec) == E, f"the trainer ran {len(rec)} of {E} batches")
    finite = all(np.isfinite(l) and abs(l) < 1e12 for _, l, _ in rec)
    for lr, l, t in rec:
        ctx.expect(not finite or abs(l - t) <= 1e-5 * (1 + abs(l)), f"logged training loss {t} differs from the returned one {l}")
    lrs = [r[0] for r in rec]
    losses = [r[2] for r in rec]
    if opt["scheduler"] == "plateau":
        want = [opt["lr"]] + plateau(opt["lr"], 0, opt["factor"], losses)[:-1]
    elif opt["scheduler"] == "exponential":
        want = [opt["lr"] * opt["gamma"] ** k for k in range(E)]
    else:
        want = [opt["lr"]] * E
    if finite:
        ctx.expect(np.allclose(lrs, want, rtol=1e-5, atol=0), f"training with {opt}: rates {lrs} for losses {losses} where {want} is expected")
    ctx.expect("test_loss" in res and (task == "regression" or "test_acc" in res), f"testing reports {sorted(res)}")
    m.eval()
    with torch.no_grad():
        z = monitor.n64(m(x))
    if (np.abs(z) < 1e5).all():
        want = softmax_loss(z, y.numpy()) if task == "classification" else float(((z - monitor.n64(y)) ** 2).mean())
        ctx.expect(abs(res["test_loss"] - want) <= 1e-4 * (1 + want), f"test loss {res['test_loss']} where {want} is expected")
    ctx.expect(any(not torch.equal(a, b) for a, b in zip(before, m.parameters())) or task == "classification" and (O == 1 or min(losses) < 1e-3), "training moves nothing")
    ctx.see("trained_epochs", E)
    ctx.describe(task=task, optimizer=opt, **show)
    ctx.sig("train", task, str(opt), str(sorted(show.items())))


def large(ctx):
    ctx.turn = ctx.index // 2
    net = mlp_cfg(ctx, ["high_order", "high_order_input"][ctx.index % 2])
    m, show = make(ctx, ctx.choice(["classification", "regression"]), net, opt_cfg(ctx))
    x = inputs(ctx, net, 3)
    with ctx.cut("first forward pass"):
        m(x)
    nets.fill(ctx, m, 0.4)
    run_model(ctx, m, net, show, x, m.training, None)
    ctx.describe(**show)
    ctx.sig("large", str(sorted(show.items())))


SCENARIOS = {"large": (large, 60, 600), "model": (model, 400, 6000), "steps": (steps, 320, 5000), "optimizers": (optimizers, 240, 3500), "training": (training, 24, 240)}
MUST_SEE = ["slow_descents", "indifferent_models", "large_settings", "labels_far_from_the_prediction", "models_high_order", "models_high_order_input", "models_high_order_conv", "models_high_order_tail_focus", "layers_followed", "steps_classification", "steps_regression", "steps_train", "steps_val",
            "steps_test", "losses_backpropagated", "optimizer_moves", "unscheduled", "schedules_plateau", "schedules_exponential", "trained_epochs"]
RULE = "one case = a full module configuration with its batch, gradient sequence or training run; distinct by configuration"
ASSUMPTIONS = ["the normalize flag governs the fully connected models, the convolutional ones always normalize", "Adam and Lion run with their libraries' default coefficients"]
