"""Following a network while it runs: the recorded calls of its leaf modules
are replayed against the composition its configuration asks for.  Data flow is
compared bit by bit, every layer's values against its reference model."""
import numpy as np
import torch
import torch.nn.functional as F

from hol import api, conv, fc, gen, monitor
from hol import ref as R
from hol.checks import c14

ULP = R.EPS


def relu_unit(mod):
    """A linear layer with its relu inside one module."""
    ch = list(mod.children())
    return bool(ch) and not isinstance(mod, torch.nn.Sequential) and len(ch) == 1 and isinstance(ch[0], torch.nn.Linear)


def leaf(mod):
    return not list(mod.children()) or relu_unit(mod)


def same(a, b):
    return a.shape == b.shape and torch.equal(torch.nan_to_num(a), torch.nan_to_num(b)) and torch.equal(a.isnan(), b.isnan())


def tame(ref, xx):
    """A run-away network is not judged where float32 may overflow."""
    wild = ~(np.abs(xx) < 1e5)
    if not wild.any():
        return ref(xx)
    v, tol = ref(np.where(wild, 0.0, xx))
    tol = tol.copy()
    rows = wild.reshape(wild.shape[0], -1).any(-1)
    tol[rows] = np.inf
    return v, tol


def product_ref(x, w, b, p, alpha=1.0):
    dx = 0.0
    if p is not None:
        x, dx, _ = R.mirror(x, p)
    Fl = x[:, None, :] * w[None]
    T = (np.abs(x) * 2 * ULP + dx)[:, None, :] * np.abs(w)[None]
    v, tol = R.prod_of_links(Fl, T, alpha)
    part = np.prod(1 + np.abs(Fl), -1)
    v = v + b
    return v, np.where(part < R.HUGE, tol + 4 * ULP * (np.abs(b) + np.abs(v)), np.inf)


def linear_ref(x, w, b):
    v = x @ w.T + b
    mag = np.abs(x) @ np.abs(w).T + np.abs(b)
    return v, (x.shape[1] + 16) * 2 * ULP * mag + R.FLOOR


def norm_ref(ctx, mod, x, training):
    """Reference of a normalization module by what it is."""
    name = type(mod).__name__
    for fam, rule, _, m in c14.FORMS.values():
        if m == name:
            axes = c14.axes_of(rule, x.ndim)
            v, tol = c14.reference(fam, x, axes, 1e-6, ULP)
            return v, 2 * tol
    t = torch.tensor(x)
    w = None if mod.weight is None else mod.weight.detach().double()
    b = None if mod.bias is None else mod.bias.detach().double()
    if name == "LazyLayerNormLastDim":
        v = F.layer_norm(t, (t.shape[-1],), w, b, 1e-5).numpy()
        m, s = t.mean(-1, keepdim=True), (t.var(-1, unbiased=False, keepdim=True) + 1e-5).sqrt()
    else:  # torch batch norms
        ax = [0] + list(range(2, t.dim()))
        sh = [1, -1] + [1] * (t.dim() - 2)
        if training:
            m, var = t.mean(ax).view(sh), t.var(ax, unbiased=False).view(sh)
        else:
            m, var = mod.running_mean.detach().double().view(sh), mod.running_var.detach().double().view(sh)
        s = (var + mod.eps).sqrt()
        v = (t - m) / s
        if w is not None:
            v = v * w.view(sh) + b.view(sh)
        v = v.numpy()
        w = None if w is None else w.view(sh)
        b = None if b is None else b.view(sh)
    wa = 1.0 if w is None else w.abs()
    ba = 0.0 if b is None else b.abs()
    amax = t.abs().amax() if t.numel() else 0.0
    tol = (256 * ULP * (amax + m.abs()) / s * (1 + ((t - m) / s).abs()) * wa + 16 * ULP * ba + 16 * ULP * torch.tensor(np.abs(v))).numpy()
    return v, tol + R.FLOOR


class Follow:
    """Consumes the recorded leaf calls of one forward pass."""

    def __init__(self, ctx, net, events, x, label, training=False, config=None):
        self.ctx, self.net, self.ev, self.i = ctx, net, list(events), 0
        self.cur = x.detach().clone()
        self.label, self.training, self.config = label, training, config
        self.params = {id(p) for p in net.parameters()}
        self.layers = []

    def fail(self, what, **d):
        self.ctx.fail(f"{self.label}: {what}", config=self.config, **d)

    def skippable(self, e):
        return not list(e.module.parameters()) and e.inp is not None and e.out is not None and same(e.inp, e.out)

    def next(self, what, pred):
        while self.i < len(self.ev):
            e = self.ev[self.i]
            if pred(e.module):
                self.i += 1
                return e
            if self.skippable(e):
                self.i += 1
                continue
            self.fail(f"ran {type(e.module).__name__} where {what} is expected")
        self.fail(f"ended where {what} is expected")

    def takes(self, e, what):
        if self.cur is None:
            self.settle(e.inp)
        cur = self.cur
        if e.inp is None or not same(e.inp, cur):
            self.fail(f"{what} is not fed the output of the step before it" + ("" if e.inp is None else f" (input shape {tuple(e.inp.shape)}, previous output {tuple(cur.shape)})"))
        self.ctx.see("links_followed")

    def owned(self, e, what, trainable=True):
        for p in e.module.parameters():
            if id(p) not in self.params:
                self.fail(f"{what} has weights that are not parameters of the network")
            if p.requires_grad != trainable:
                self.fail(f"{what} has weights with requires_grad={p.requires_grad}")
        if e.module in self.layers:
            self.fail(f"{what} is the same layer as an earlier one")
        self.layers.append(e.module)

    def high(self, kind, n, S, I, O, L, p, what):
        """One leaf of a high order kind; returns its output."""
        ps = 3
        e = self.next(what, lambda m: len([q for q in m.parameters(recurse=False) if q.dim() == ps]) == 1)
        self.takes(e, what)
        self.owned(e, what)
        w = [q for q in e.module.parameters(recurse=False) if q.dim() == ps][0]
        want = (O, I, fc.nb(kind, n, S))
        if tuple(w.shape) != want:
            self.fail(f"{what} has weights {tuple(w.shape)} where {want} is expected")
        W = monitor.n64(w)
        pp = None if kind == "fourier" else p
        monitor.compare(self.ctx, f"{self.label}: {what}", e.out, tame(lambda xx: fc.reference(kind, xx, W, n, S, L, pp), monitor.n64(e.inp)), config=self.config)
        self.ctx.see("layers_followed")
        return e

    def fc(self, kind, n, S, I, O, L=2.0, p=None, what="layer", scale=None):
        ctx = self.ctx
        what = f"{what} ({kind}, n={n}, segments={S}, {I}->{O})"
        if kind.startswith("switch_"):
            es = [self.high(kind[7:], n, S, I, O, L, None, what) for _ in range(2)]
            inp = es[0].inp
            v = es[0].out.double() * es[1].out.double()
            self.combine(v, v.abs(), what + ": product of its sublayers")
        elif kind in ("baseline", "baseline_relu"):
            relu = kind == "baseline_relu"
            e = self.next(what, lambda m: isinstance(m, torch.nn.Linear) or (relu and relu_unit(m)))
            self.takes(e, what)
            self.owned(e, what)
            done = relu_unit(e.module)
            lin = e.module if not done else list(e.module.children())[0]
            if relu and not done and self.i < len(self.ev):
                q = self.ev[self.i]
                if relu_unit(q.module) and list(q.module.children())[0] is lin:
                    self.i, done, e = self.i + 1, True, q
                    self.takes(e, what)
                elif isinstance(q.module, torch.nn.ReLU) and same(q.inp, e.out):
                    self.i, done, e.out = self.i + 1, True, q.out
            W, b = monitor.n64(lin.weight), monitor.n64(lin.bias)
            if W.shape != (O, I):
                self.fail(f"{what} has weights {W.shape}")

            def lr(xx):
                v, tol = linear_ref(xx, W, b)
                return (np.maximum(v, 0), tol) if done else (v, tol)

            monitor.compare(ctx, f"{self.label}: {what}", e.out, tame(lr, monitor.n64(e.inp)), config=self.config)
            ctx.see("layers_followed")
            inp = e.inp
            self.cur = e.out if done or not relu else torch.relu(e.out)
        elif kind == "product":
            e = self.next(what, lambda m: type(m).__name__ == "Product")
            self.takes(e, what)
            self.owned(e, what)
            W, b = monitor.n64(e.module.weight), monitor.n64(e.module.bias)
            if W.shape != (O, I):
                self.fail(f"{what} has weights {W.shape}")
            monitor.compare(ctx, f"{self.label}: {what}", e.out, tame(lambda xx: product_ref(xx, W, b, p), monitor.n64(e.inp)), config=self.config)
            ctx.see("layers_followed")
            inp, self.cur = e.inp, e.out
        else:
            e = self.high(kind, n, S, I, O, L, p, what)
            inp, self.cur = e.inp, e.out
        return inp

    # A value combined outside any leaf (a sum or product) is known up to
    # rounding; whoever consumes it next shows its bits.
    def combine(self, value, room, what):
        self.cur, self.pending = None, (value, room, what)

    def value(self):
        if self.cur is None:
            return self.pending[0], self.pending[1]
        return self.cur.double(), self.cur.double().abs()

    def save(self):
        return self.cur, getattr(self, "pending", None)

    def restore(self, mark):
        self.cur, self.pending = mark

    def settle(self, got):
        near, room, what = self.pending
        if got is None or got.shape != near.shape:
            self.fail(f"{what}: does not reach the next step" + ("" if got is None else f" (shape {tuple(got.shape)} where {tuple(near.shape)} is expected)"))
        g = got.double()
        fin = torch.isfinite(near) & (room < 1e30)
        bad = fin & ~((g - near).abs() <= 32 * ULP * room + 1e-30)
        if bool(bad.any()):
            i = tuple(int(q) for q in bad.nonzero()[0])
            self.fail(f"{what}: {g[i].item()} at {i} where {near[i].item()} is expected")
        self.ctx.see("combinations_checked", int(fin.sum()))
        self.cur = got

    def residual(self, inp, what):
        (a, ra), b = self.value(), inp.double()
        # the residual branch may itself run as a module
        while self.i < len(self.ev) and isinstance(self.ev[self.i].module, torch.nn.Identity):
            self.i += 1
        self.combine(a + b, ra + b.abs(), what)

    def norm(self, cls, what="normalization"):
        names = {cls.__name__, cls.__name__.replace("LazyBatch", "Batch")}
        e = self.next(what, lambda m: type(m).__name__ in names)
        self.takes(e, what)
        if list(e.module.parameters()):
            self.owned(e, what)
        xx = monitor.n64(e.inp)
        if not (self.training and "BatchNorm" in cls.__name__ and not (np.abs(xx) < 1e5).all()):
            monitor.compare(self.ctx, f"{self.label}: {what} {cls.__name__}", e.out, tame(lambda v: norm_ref(self.ctx, e.module, v, self.training), xx), config=self.config)
        self.ctx.see("normalizations_followed")
        self.cur = e.out

    def act(self, mod, what="non-linearity"):
        e = self.next(what, lambda m: type(m) is type(mod))
        self.takes(e, what)
        with torch.no_grad():
            z = mod(e.inp)
        if not same(z, e.out):
            self.fail(f"{what} does not apply {type(mod).__name__}")
        self.ctx.see("nonlinearities_followed")
        self.cur = e.out

    def drop(self, p, what="dropout"):
        if not self.training:
            return
        e = self.next(what, lambda m: isinstance(m, torch.nn.Dropout))
        self.takes(e, what)
        x, y = e.inp.double(), e.out.double()
        keep = x / (1 - p)
        ok = (y == 0) | ((y - keep).abs() <= 1e-5 * keep.abs()) | ~torch.isfinite(keep) | (keep.abs() > 1e30)
        if not bool(ok.all()):
            self.fail(f"{what} with p={p} neither drops a value nor scales it by {1/(1-p)}")
        nz = (x != 0) & torch.isfinite(x)
        self.dropped = getattr(self, "dropped", np.zeros(2)) + np.array([int(((y == 0) & nz).sum()), int(nz.sum())])
        self.ctx.see("dropouts_followed")
        self.cur = e.out

    def finish(self, out):
        while self.i < len(self.ev) and self.skippable(self.ev[self.i]):
            self.i += 1
        if self.i < len(self.ev):
            self.fail(f"ran {type(self.ev[self.i].module).__name__} after the output layer")
        if self.cur is None:
            self.settle(out.detach())
        if not same(out.detach(), self.cur):
            self.fail("output is not the output of the last layer")
        self.ctx.see("forward_passes_followed")


def run(ctx, net, x, label, training=False, config=None):
    with monitor.trace(ctx, leaf) as ev:
        out = monitor.call(ctx, label, net, x)
    if not torch.is_tensor(out):
        ctx.fail(f"{label}: returned {type(out).__name__}")
    f = Follow(ctx, net, ev, x, label, training, config)
    f.final = out.detach()
    return f, out


# ------------------------------------------------------------------ MLP plans
def follow_mlp(f, kw, inw=None, first=None):
    """The composition a HighOrderMLP configuration asks for."""
    t, n = kw["layer_type"], kw["n"]
    L, p = kw.get("scale", 2.0), kw.get("periodicity")
    H = kw["hidden_width"]
    norm, act, dr = kw.get("normalization"), kw.get("non_linearity"), kw.get("dropout", 0.0)

    def between():
        if norm is not None:
            f.norm(norm)
        if act is not None:
            f.act(act)
        if dr > 0:
            f.drop(dr)

    f.fc(kw.get("layer_type_in") or t, kw.get("n_in") or n, kw.get("in_segments"), inw or kw["in_width"], H, L, p, "input layer")
    for i in range(kw["hidden_layers"]):
        between()
        inp = f.fc(t, kw.get("n_hidden") or n, kw.get("hidden_segments"), H, H, L, p, f"hidden layer {i}")
        if kw.get("resnet") and i > 0:
            f.residual(inp, f"hidden layer {i} plus its input")
    between()
    f.fc(t, kw.get("n_out") or n, kw.get("out_segments"), H, kw["out_width"], L, p, "output layer")


def follow_low(f, kw, inw=None):
    H = kw["hidden_width"]

    def between():
        if kw.get("normalization") is not None:
            f.norm(kw["normalization"])
        if kw.get("non_linearity") is not None:
            f.act(kw["non_linearity"])

    f.fc("baseline", None, None, inw or kw["in_width"], H, what="input layer")
    for i in range(kw["hidden_layers"]):
        between()
        f.fc("baseline", None, None, H, H, what=f"hidden layer {i}")
    between()
    f.fc("baseline", None, None, H, kw["out_width"], what="output layer")


# ------------------------------------------------------------------ rotations
def rotation_matrix(n, rotations, normalize=True):
    rows = []
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1
        rows.append(e)
        for j in range(i + 1, n):
            for r in range(1, rotations):
                th = 0.5 * np.pi * r / rotations
                c, s = np.cos(th), np.sin(th)
                d = (abs(c) + abs(s)) if normalize else 1.0
                a, b = np.zeros(n), np.zeros(n)
                a[i], a[j] = c / d, s / d
                b[i], b[j] = s / d, -c / d
                rows += [a, b]
    return np.array(rows)


def match_columns(ctx, label, out, ref):
    """Every promised coordinate appears exactly once, in whatever order."""
    v, tol = ref
    if tuple(out.shape) != v.shape:
        ctx.fail(f"{label}: output shape {tuple(out.shape)} where {v.shape} is expected")
    a = monitor.n64(out)
    # several promised coordinates can be close on the points at hand, so find a matching rather than the first that fits
    W = v.shape[1]
    can = [(np.abs(a[:, j][:, None] - v) <= tol).all(0) for j in range(W)]
    owner = {j: j for j in range(W) if can[j][j]}

    def place(j, seen):
        for q in np.flatnonzero(can[j]):
            if q not in seen:
                seen.add(q)
                if q not in owner or place(owner[q], seen):
                    owner[q] = j
                    return True
        return False

    for j in range(W):
        if not can[j][j] and not place(j, set()):
            ctx.fail(f"{label}: coordinate {j} ({a[:3, j].tolist()}...) is none of the promised ones")
    ctx.see("values_compared", a.size)


def follow_rotation(f, n, rotations):
    what = "fixed rotation"
    e = f.next(what, lambda m: isinstance(m, torch.nn.Linear))
    f.takes(e, what)
    f.owned(e, what, trainable=False)
    M = rotation_matrix(n, rotations)
    match_columns(f.ctx, f"{f.label}: {what}", e.out, linear_ref(monitor.n64(e.inp), M, 0.0))
    f.cur = e.out
    f.ctx.see("rotations_followed")
    return M.shape[0]


def fill(ctx, net, scale=0.5):
    with torch.no_grad():
        for name, q in net.named_parameters():
            if isinstance(q, torch.nn.parameter.UninitializedParameter) or not q.requires_grad:
                continue
            q.copy_(gen.t32(ctx.np.normal(size=tuple(q.shape)) * scale))
        for name, q in net.named_buffers():
            if isinstance(q, torch.nn.parameter.UninitializedTensorMixin):
                continue
            if name.endswith("running_mean"):
                q.copy_(gen.t32(ctx.np.normal(size=tuple(q.shape))))
            elif name.endswith("running_var"):
                q.copy_(gen.t32(ctx.np.uniform(0.3, 2, size=tuple(q.shape))))
