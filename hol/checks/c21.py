"""C21: the variational autoencoder samples, decodes and scores as a VAE does."""
import copy

import numpy as np
import torch

from hol import api, gen, monitor, nets
from hol import ref as R


class Enc(torch.nn.Module):
    """Encoder of our own: any output shape with the announced number of features."""

    def __init__(self, fin, shape):
        super().__init__()
        self.lin = torch.nn.Linear(fin, int(np.prod(shape)))
        self.shape = shape
        self.output_size = int(np.prod(shape))

    def forward(self, x):
        return self.lin(x.flatten(1)).view((x.shape[0],) + self.shape)


class Dec(torch.nn.Module):
    """Decoder of our own: hands back what it is given."""

    def __init__(self, channels, out=None):
        super().__init__()
        self.in_channels = channels
        self.lin = None if out is None else torch.nn.Linear(channels, int(np.prod(out)))
        self.out = out

    def forward(self, z):
        if self.lin is None:
            return z
        return self.lin(z.flatten(1)).view((z.shape[0],) + self.out)


def library_vae(ctx):
    N = api.ns.networks
    lat = ctx.choice([1, 2, 3, 5]) if ctx.chance(0.93) else ctx.choice([9, 17, 40])
    c = ctx.int(1, 3)
    enc = dict(layer_type=ctx.choice(["continuous2d", "discontinuous2d", "polynomial2d"]), n=ctx.int(2, 3), channels=[1, 2, c], segments=2, kernel_size=[2, 3], pooling=ctx.choice(["2d", "2d"]))
    dec = dict(layer_type="continuous2d", n=[2, 3], channels=[ctx.int(1, 4), 2, 1], segments=[2, 1], kernel_size=[3, 3], stride=[2, 2])
    with ctx.cut("building the autoencoder"):
        e, d = N.HighOrderFullyConvolutionalNetwork(**enc), N.HighOrderFullyDeconvolutionalNetwork(**dec)
        vae = N.VanillaVAE(lat, e, d) if ctx.chance(0.5) else N.VanillaVAE(latent_dim=lat, encoder=e, decoder=d)
    return vae, lat, (1, 7, 7), (1, 7, 7)


def own_vae(ctx, plain=False, lat=None):
    N = api.ns.networks
    lat = lat or (ctx.choice([1, 2, 3, 4, 7]) if ctx.chance(0.9) else ctx.choice([9, 17, 33, 64]))
    shape = ctx.choice([(4,), (2, 3), (3, 1, 1), (2, 2, 2)])
    img = ctx.choice([(1, 2, 2), (2, 3, 1), (5,)])
    ch = lat if plain else ctx.choice([1, 2, 3, 6, 20])
    with ctx.cut("building the autoencoder"):
        vae = N.VanillaVAE(lat, Enc(int(np.prod(img)), shape), Dec(ch, None if plain else img))
    if plain:
        with torch.no_grad():
            vae.decoder_input.weight.copy_(torch.eye(lat))
            vae.decoder_input.bias.zero_()
    return vae, lat, img, (ch, 1, 1) if plain else img


def shake(ctx, vae, scale=0.5, skip=()):
    with torch.no_grad():
        for n, p in vae.named_parameters():
            if not any(n.startswith(s) for s in skip):
                p.copy_(gen.t32(ctx.np.normal(size=tuple(p.shape)) * scale))


def near(ctx, label, a, b, rel=1e-5):
    a, b = a.detach().double(), b.detach().double()
    ctx.expect(a.shape == b.shape, f"{label}: shape {tuple(a.shape)} where {tuple(b.shape)} is expected")
    d = (a - b).abs()
    ctx.see("values_compared", a.numel())
    ok = (d <= rel * (1 + b.abs())) | ~(b.abs() < 1e20)
    ctx.expect(bool(ok.all()), f"{label}: off by {d[~ok].max().item() if bool((~ok).any()) else 0}")


def heads(ctx, vae, x):
    with torch.no_grad():
        h = vae.encoder(x).reshape(x.shape[0], -1)
        W, b = monitor.n64(vae.fc_mu.weight), monitor.n64(vae.fc_mu.bias)
        U, c = monitor.n64(vae.fc_var.weight), monitor.n64(vae.fc_var.bias)
    h = monitor.n64(h)
    return torch.tensor(h @ W.T + b), torch.tensor(h @ U.T + c)


def parts(ctx):
    """encode, decode, forward, generate and sample fit together."""
    lib = ctx.chance(0.5)
    vae, lat, img, outshape = library_vae(ctx) if lib else own_vae(ctx)
    shake(ctx, vae, 0.3)
    if ctx.chance(0.25):  # codes far from the prior
        with torch.no_grad():
            vae.fc_mu.bias.copy_(gen.t32(ctx.np.normal(size=(lat,)) * ctx.choice([5.0, 30.0])))
            vae.fc_var.bias.copy_(gen.t32(ctx.np.uniform(-1, 1, size=(lat,)) * ctx.choice([8.0, 15.0, 25.0])))
        ctx.see("extreme_codes")
    B = ctx.choice([1, 2, 3, 8]) if ctx.chance(0.93) else ctx.choice([17, 33, 70])
    x = gen.t32(ctx.np.uniform(-1, 1, size=(B,) + img))
    vae.train(ctx.chance(0.5))
    enc = monitor.call(ctx, "encode", vae.encode, x)
    ctx.expect(len(enc) == 2, f"encode returns {len(enc)} tensors")
    mu, lv = enc
    m0, l0 = heads(ctx, vae, x)
    ctx.expect(tuple(mu.shape) == (B, lat) and tuple(lv.shape) == (B, lat), f"encode returns codes of shape {tuple(mu.shape)}, {tuple(lv.shape)} for latent size {lat}")
    near(ctx, "encode: mean", mu, m0, 1e-4)
    near(ctx, "encode: log-variance", lv, l0, 1e-4)
    seed = ctx.int(0, 10**6)
    torch.manual_seed(seed)
    xs = x.clone()
    out = monitor.call(ctx, "forward", vae, x)
    ctx.expect(len(out) == 4, f"forward returns {len(out)} values")
    ctx.expect(torch.equal(x, xs) and torch.equal(out[1], xs), "forward does not return its input unchanged")
    near(ctx, "forward: mean", out[2], mu)
    near(ctx, "forward: log-variance", out[3], lv)
    ctx.expect(tuple(out[0].shape) == (B,) + outshape, f"forward decodes to shape {tuple(out[0].shape)} where {(B,) + outshape} is expected")
    # same seed, same result; generate is the reconstruction
    torch.manual_seed(seed)
    again = monitor.call(ctx, "forward", vae, x)
    ctx.expect(nets.same(again[0], out[0]), "forward is not determined by the seed")
    torch.manual_seed(seed)
    g = monitor.call(ctx, "generate", vae.generate, x)
    ctx.expect(torch.is_tensor(g) and nets.same(g, out[0]), "generate does not return the reconstruction of forward")
    # reconstruction = decode(reparameterize(encode))
    torch.manual_seed(seed)
    with ctx.cut("encode, reparameterize, decode"):
        a, b = vae.encode(x)
        r = vae.decode(vae.reparameterize(a, b))
    near(ctx, "forward against decode(reparameterize(encode))", out[0], r)
    # decode
    z = gen.t32(ctx.np.normal(size=(ctx.choice([1, 4]), lat)))
    y = monitor.call(ctx, "decode", vae.decode, z)
    with torch.no_grad():
        q = torch.nn.functional.linear(z, vae.decoder_input.weight, vae.decoder_input.bias)
        ref = vae.decoder(q.view(len(z), -1, 1, 1))
    near(ctx, "decode", y, ref)
    # sample
    k = ctx.choice([1, 2, 5]) if ctx.chance(0.9) else ctx.choice([17, 65, 130])
    torch.manual_seed(seed)
    s1 = monitor.call(ctx, "sample", vae.sample, k)
    ctx.expect(tuple(s1.shape) == (k,) + outshape, f"sample({k}) returns shape {tuple(s1.shape)} where {(k,) + outshape} is expected")
    s2 = monitor.call(ctx, "sample", vae.sample, k)
    torch.manual_seed(seed)
    s3 = monitor.call(ctx, "sample", vae.sample, k)
    ctx.expect(nets.same(s1, s3), "sample is not determined by the seed")
    if float(s1.abs().max()) > 1e-6 and float((s1 - s1.mean()).abs().max()) > 1e-6:
        with torch.no_grad():
            dead = torch.equal(vae.decode(torch.zeros(1, lat)), vae.decode(torch.ones(1, lat)))
        ctx.expect(dead or not torch.equal(s1, s2), "two draws of sample are the same")
    if ctx.chance(0.3):  # the same model in double precision
        vae.double().eval()
        with ctx.cut("the autoencoder in double precision"):
            d = [vae.sample(k), vae.generate(x.double())] + list(vae(x.double()))
        ctx.expect(all(q.dtype == torch.float64 for q in d), f"results of a double precision model have dtypes {[str(q.dtype) for q in d]}")
        ctx.expect(tuple(d[0].shape) == (k,) + outshape and tuple(d[1].shape) == tuple(d[2].shape) == (B,) + outshape, "a double precision model returns other shapes")
        if not lib:  # a discontinuous encoder may turn one rounding into a jump
            near(ctx, "double precision: mean", d[4], mu, 1e-3)
            near(ctx, "double precision: log-variance", d[5], lv, 1e-3)
        ctx.see("double_models")
    ctx.see("library_models" if lib else "own_models")
    ctx.describe(library=lib, latent=lat, batch=B, image=list(img))
    ctx.sig("parts", lib, lat, B, img, outshape)


def noise(ctx):
    """With a decoder that hands back its code, the noise itself is observed."""
    vae, lat, img, _ = own_vae(ctx, plain=True)
    shake(ctx, vae, 0.4, skip=("decoder_input",))
    with torch.no_grad():  # spread of scales
        vae.fc_var.bias.copy_(gen.t32(ctx.np.uniform(-1, 1, size=(lat,)) * ctx.choice([3.0, 3.0, 12.0])))
    B = 4000 // lat
    x = gen.t32(ctx.np.normal(size=(B,) + img))
    vae.train(ctx.chance(0.5))
    guard = ctx.choice([torch.no_grad, torch.no_grad, torch.enable_grad, torch.inference_mode])
    ctx.see(f"noise_{'training' if vae.training else 'evaluation'}_{guard.__name__}")
    E = []
    for k in range(2):
        with guard():
            z, _, mu, lv = monitor.call(ctx, "forward", vae, x)
        z, mu, lv = z.detach().reshape(B, lat), mu.detach(), lv.detach()
        E.append(((z.double() - mu.double()) / torch.exp(0.5 * lv.double())).numpy())
    with guard():
        big = monitor.call(ctx, "sample", vae.sample, B).reshape(B, lat)
        mu, lv = gen.t32(ctx.np.normal(size=(B, lat))), gen.t32(ctx.np.uniform(-4, 4, size=(B, lat)))
        r = monitor.call(ctx, "reparameterize", vae.reparameterize, mu, lv)
    big, r = big.detach(), r.detach()
    E.append(((r.double() - mu.double()) / torch.exp(0.5 * lv.double())).numpy())
    E.append(monitor.n64(big))
    for name, e in zip(("forward", "second forward", "reparameterize", "sample"), E):
        n = e.size
        z1 = e.mean() * np.sqrt(n)
        z2 = ((e**2).mean() - 1) * np.sqrt(n / 2)
        z3 = (e**3).mean() * np.sqrt(n / 15)
        z4 = ((e**4).mean() - 3) * np.sqrt(n / 96)
        for w, v, lim in (("mean", z1, 7), ("variance", z2, 8), ("skewness", z3, 9), ("kurtosis", z4, 14)):
            ctx.expect(abs(v) < lim, f"{name}: the noise is not standard normal: its {w} is {v:.1f} standard errors off")
        # every sample and every component draws its own
        if lat > 1:
            c = (e[:, 0] * e[:, 1]).mean() * np.sqrt(len(e))
            ctx.expect(abs(c) < 7, f"{name}: noise of two latent components is correlated ({c:.1f} standard errors)")
        c = (e[:-1] * e[1:]).mean() * np.sqrt(e[1:].size)
        ctx.expect(abs(c) < 7, f"{name}: noise of neighbouring samples is correlated ({c:.1f} standard errors)")
        ctx.see("noise_values", n)
    c = (E[0] * E[1]).mean() * np.sqrt(E[0].size)
    ctx.expect(abs(c) < 7, f"the noise of two calls is correlated ({c:.1f} standard errors)")
    # depends on the scale linearly: correlation of |noise| with log-variance vanishes
    l = (monitor.n64(lv) - monitor.n64(lv).mean()) / monitor.n64(lv).std()
    c = (l * (E[2] ** 2 - 1)).mean() * np.sqrt(E[2].size / 2)
    ctx.expect(abs(c) < 8, f"the spread of the code does not follow exp(half log-variance) ({c:.1f} standard errors)")
    ctx.describe(latent=lat, samples=B)
    ctx.sig("noise", lat, B, img, ctx.index)


def tails(ctx):
    """Rare values of the noise are as frequent as a normal distribution has them."""
    vae, lat, img, _ = own_vae(ctx, plain=True)
    vae.train(ctx.chance(0.5))
    B = 400000 // lat
    with torch.no_grad():
        mu, lv = torch.full((B, lat), 0.5), torch.full((B, lat), -1.0)
        r = (monitor.call(ctx, "reparameterize", vae.reparameterize, mu, lv).double() - 0.5) * float(np.exp(0.5))
        z = monitor.call(ctx, "sample", vae.sample, B)
    for name, e in (("reparameterize", monitor.n64(r).ravel()), ("sample", monitor.n64(z).ravel())):
        for lim, q in ((0.1, 0.920344325445942), (1.0, 0.3173105078629141), (2.0, 0.04550026389635842), (3.0, 0.0026997960632601866), (3.5, 0.0004652581580710801), (4.0, 6.334248366623996e-05)):
            for side, k in (("above", int((e > lim).sum())), ("below", int((e < -lim).sum()))):
                want = e.size * q / 2
                ctx.expect(abs(k - want) <= 7 * np.sqrt(want) + 7, f"{name}: {k} of {e.size} noise values are {side} {lim} standard deviations, a normal distribution has {want:.0f}")
        ctx.see("noise_tail_values", e.size)
    ctx.describe(latent=lat, samples=B)
    ctx.sig("tails", lat, ctx.index)


def paths(ctx):
    """Gradients of the reparameterization, and which parts the loss reaches."""
    vae, lat, img, _ = own_vae(ctx)
    shake(ctx, vae)
    vae.train(ctx.chance(0.6))
    B = ctx.choice([1, 3, 6])
    far = ctx.choice([1.0, 1.0, 4.0, 12.0])
    mu = gen.t32(ctx.np.normal(size=(B, lat)) * far).requires_grad_(True)
    lv = gen.t32(ctx.np.uniform(-2, 2, size=(B, lat)) * far).requires_grad_(True)
    z = monitor.call(ctx, "reparameterize", vae.reparameterize, mu, lv)
    g = gen.t32(ctx.np.normal(size=(B, lat)))
    with ctx.cut("backward"):
        z.backward(g)
    near(ctx, "gradient of the code with respect to the mean", mu.grad, g)
    near(ctx, "gradient of the code with respect to the log-variance", lv.grad, g.double() * 0.5 * (z.detach().double() - mu.detach().double()), 1e-4)
    x = gen.t32(ctx.np.normal(size=(B,) + img))
    for k, what in enumerate(("mean", "log-variance")):
        code = monitor.call(ctx, "encode", vae.encode, x)[k]
        with ctx.cut("backward"):
            code.backward(gen.t32(ctx.np.normal(size=(B, lat))))
        own, other = (vae.fc_mu, vae.fc_var) if k == 0 else (vae.fc_var, vae.fc_mu)
        for name, part in (("encoder", vae.encoder), ("own layer", own)):
            ctx.expect(all(p.grad is not None and bool(p.grad.any()) for p in part.parameters()), f"the {what} of the code gives the {name} no gradient")
        ctx.expect(not any(p.grad is not None and bool(p.grad.any()) for p in other.parameters()), f"the {what} of the code depends on the other head")
        vae.zero_grad()
    out = monitor.call(ctx, "forward", vae, x)
    w = ctx.choice([0.1, 1.0, 0.5])
    with ctx.cut("loss_function"):
        d = vae.loss_function(*out, M_N=w)
        d["loss"].backward()
    for name in ("encoder", "fc_mu", "fc_var", "decoder_input", "decoder"):
        ps = list(getattr(vae, name).parameters())
        ctx.expect(any(p.grad is not None and bool(p.grad.any()) for p in ps), f"training the autoencoder gives {name} no gradient")
    ctx.see("gradient_paths", 5)
    ctx.describe(latent=lat, batch=B)
    ctx.sig("paths", lat, B, img, w)


def score(ctx):
    """The loss on arbitrary reconstructions, means and log-variances."""
    vae, lat, img, _ = own_vae(ctx)
    g = ctx.np
    B = ctx.choice([1, 2, 3, 10]) if ctx.chance(0.93) else ctx.choice([17, 33, 100])
    shape = (B,) + ctx.choice([(1, 3, 3), (2, 4), (5,), (1, 2, 5)])
    k = ctx.choice([1.0, 1.0, 10.0, 0.01])
    rec, inp = gen.t32(g.normal(size=shape) * k), gen.t32(g.normal(size=shape))
    style = ctx.choice(["normal", "normal", "prior", "wide", "narrow", "wider", "narrower", "huge"])
    mu = gen.t32(g.normal(size=(B, lat)) * (0 if style == "prior" else ctx.choice([1, 1, 10, 60])))
    lv = gen.t32({"normal": g.normal(size=(B, lat)), "prior": np.zeros((B, lat)), "wide": g.uniform(2, 6, size=(B, lat)), "narrow": g.uniform(-9, -3, size=(B, lat)),
                  "wider": g.uniform(6, 14, size=(B, lat)), "narrower": g.uniform(-60, -9, size=(B, lat)), "huge": g.uniform(14, 60, size=(B, lat))}[style])
    for t in (rec, mu, lv):
        t.requires_grad_(True)
    w = ctx.choice([0.0, 1.0, 0.00025, 0.5, 2.0, ctx.uniform(0, 3), 12.5, 300.0])
    snap = monitor.Snapshot([("rec", rec), ("input", inp), ("mu", mu), ("log_var", lv)])
    with ctx.cut("loss_function"):
        d = vae.loss_function(rec, inp, mu, lv, M_N=w)
    ctx.expect(snap.changed() is None, f"the loss changed its argument {snap.changed()}")
    r, i, m, l = [monitor.n64(t) for t in (rec, inp, mu, lv)]
    mse = ((r - i) ** 2).mean()
    kl = (0.5 * (np.exp(l) + m**2 - 1 - l)).sum(1).mean()
    room = 1e-5 * (1 + mse + w * (np.exp(l) + m**2 + 1 + np.abs(l)).sum(1).mean())
    L, Rc, K = [float(d[q]) for q in ("loss", "Reconstruction_Loss", "KLD")]
    ctx.expect(abs(L - (mse + w * kl)) <= room, f"loss {L} where {mse + w * kl} (mse {mse}, divergence {kl}, weight {w}) is expected")
    ctx.expect(abs(Rc - mse) <= 1e-5 * (1 + mse), f"reported reconstruction loss {Rc} where {mse} is expected")
    kr = 1e-5 * (1 + (np.exp(l) + m**2 + 1 + np.abs(l)).sum(1).mean())
    ctx.expect(abs(abs(K) - kl) <= kr, f"reported divergence {K} where {kl} in size is expected")
    ctx.expect(L - Rc >= -room, f"the divergence part of the loss is negative ({L - Rc})")
    ctx.expect(not d["Reconstruction_Loss"].requires_grad and not d["KLD"].requires_grad, "a reported part of the loss is not detached")
    ctx.expect(d["loss"].requires_grad and d["loss"].dim() == 0, "the loss is not a differentiable scalar")
    with ctx.cut("backward"):
        d["loss"].backward()
    near(ctx, "loss gradient with respect to the reconstruction", rec.grad, torch.tensor(2 * (r - i) / r.size), 1e-4)
    near(ctx, "loss gradient with respect to the mean", mu.grad, torch.tensor(w * m / B), 1e-4)
    near(ctx, "loss gradient with respect to the log-variance", lv.grad, torch.tensor(w * 0.5 * (np.exp(l) - 1) / B), 1e-4)
    ctx.see("losses_checked")
    ctx.describe(batch=B, latent=lat, style=style, weight=w)
    ctx.sig("score", B, lat, shape, style, w)


def train(ctx):
    """A few steps of real training keep all of the above consistent."""
    vae, lat, img, outshape = library_vae(ctx)
    opt = torch.optim.Adam(vae.parameters(), lr=1e-2)
    x = gen.t32(ctx.np.uniform(-1, 1, size=(4,) + img))
    before = [p.detach().clone() for p in vae.parameters()]
    for k in range(3):
        with ctx.cut("training step"):
            out = vae(x)
            d = vae.loss_function(*out, M_N=0.1)
            opt.zero_grad()
            d["loss"].backward()
            opt.step()
        mse = float(((out[0].double() - x.double()) ** 2).mean())
        m, l = out[2].double(), out[3].double()
        kl = float((0.5 * (l.exp() + m**2 - 1 - l)).sum(1).mean())
        ctx.expect(abs(float(d["loss"]) - mse - 0.1 * kl) <= 1e-4 * (1 + mse + kl), f"training loss {float(d['loss'])} where {mse + 0.1 * kl} is expected")
        ctx.see("training_steps")
    moved = sum(not torch.equal(a, b) for a, b in zip(before, vae.parameters()))
    ctx.expect(moved >= 6, "training does not move the autoencoder's parameters")
    ctx.describe(latent=lat)
    ctx.sig("train", lat, ctx.index)


SCENARIOS = {"parts": (parts, 220, 4000), "noise": (noise, 40, 500), "paths": (paths, 80, 1200), "score": (score, 300, 6000), "train": (train, 24, 300), "tails": (tails, 4, 30)}
MUST_SEE = ["double_models", "extreme_codes", "values_compared", "noise_values", "noise_tail_values", "gradient_paths", "losses_checked", "training_steps", "library_models", "own_models"]
RULE = "one case = an autoencoder (library networks or transparent stand-ins), batch and seed, or a set of loss arguments; distinct by sizes and style"
ASSUMPTIONS = ["the reported divergence may carry either sign (the library logs its negative)", "noise is judged by moments and correlations at seven or more standard errors"]
