PRE = "import sys, torch, math, copy\nimport numpy as np\ntorch.manual_seed(0)\n"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))

bug("c02-narrow-index", "C02", [("PolynomialLayers.py", "        wid_min = (id_min * self._n).long()\n", "        wid_min = (id_min.short() * self._n).long()\n")],
 "a discontinuous layer with more than 32767 weights per link and an input in its upper part",
 "the position of the segment's weights is computed in 16 bits and overflows",
"""
from high_order_layers_torch.PolynomialLayers import PiecewiseDiscontinuousPolynomial
l = PiecewiseDiscontinuousPolynomial(n=4, in_features=1, out_features=1, segments=10000)
with torch.no_grad(): l.w.copy_(torch.arange(40000.).view(1, 1, -1))
y = l(torch.tensor([[0.75 + 1e-5]])).item()
print(y)
sys.exit(0 if abs(y - 35000) < 8 else 1)
""")

bug("c01-shared-nodes", "C01", [("LagrangePolynomial.py", """class LagrangeBasis:
    def __init__(self, n: int, length: float = 2.0):
        self.n = n
        self.X = (length / 2.0) * chebyshevLobatto(n)
        self.denominators = self._compute_denominators()
""", """_NODES = {}


class LagrangeBasis:
    def __init__(self, n: int, length: float = 2.0):
        self.n = n
        if n not in _NODES:
            _NODES[n] = chebyshevLobatto(n)
        self.X = _NODES[n] if length == 2.0 else _NODES[n].mul_(length / 2.0)
        self.denominators = self._compute_denominators()
""")],
 "two layers with the same number of nodes, at least one of another length than 2, alive in one process",
 "the nodes are computed once per n and scaled in place, so building one layer moves the nodes of another",
"""
from high_order_layers_torch.PolynomialLayers import PiecewisePolynomial
a = PiecewisePolynomial(n=3, in_features=1, out_features=1, segments=2)
with torch.no_grad(): a.w.copy_(torch.tensor([0., 1., 3., 2., 1.]).view(1, 1, -1))
x = torch.tensor([[-0.75], [0.3]])
y = a(x)
b = PiecewisePolynomial(n=3, in_features=1, out_features=1, segments=2, length=6.0)
z = a(x)
with torch.no_grad(): b.w.copy_(a.w)
print(y.flatten().tolist(), z.flatten().tolist(), b(3 * x).flatten().tolist())
sys.exit(0 if torch.allclose(y, z) and torch.allclose(b(3 * x), y, atol=1e-5) else 1)
""")

bug("c24-outside-is-flat", "C24", [("PolynomialLayers.py", """        return self._length * ((x_global - x_min) / (x_max - x_min)) - self._half

    def x_global""", """        return (
            self._length * ((x_global - x_min) / (x_max - x_min)) - self._half
        ).clamp(-self._length, self._length)

    def x_global""")],
 "an N-dimensional piecewise layer and an input further outside the range than half a segment",
 "beyond that distance the layer stops extrapolating its outer segment",
"""
from high_order_layers_torch.PolynomialLayers import PiecewiseND
l = PiecewiseND(n=[2, 2], in_features=1, out_features=1, segments=[2, 2])
def f(a, b):
    with torch.no_grad(): return l(torch.tensor([[[a, b]]])).item()
with torch.no_grad(): l.w.copy_(torch.rand_like(l.w))
d1, d2 = f(2.0, 0.5) - f(1.0, 0.5), f(4.0, 0.5) - f(3.0, 0.5)
print(d1, d2)
sys.exit(0 if abs(d1 - d2) < 1e-4 else 1)
""")

bug("c04-phase-reduced", "C04", [("LagrangePolynomial.py", """            ans = torch.cos(2.0 * math.pi * i * x / self.length)
        else:""", """            ans = torch.cos(2.0 * math.pi * i * torch.remainder(x, 2.0) / self.length)
        else:""")],
 "a Fourier layer with a cosine, whose length does not divide 2, and an input outside [0, 2)",
 "the input is wrapped to [0, 2) before the cosines are evaluated, which is no period of them",
"""
from high_order_layers_torch.PolynomialLayers import FourierSeries
l = FourierSeries(n=3, in_features=1, out_features=1, length=3.0)
with torch.no_grad():
    for p in l.parameters():
        p.zero_()
        if p.numel() == 3: p.view(-1)[2] = 1.0
y = l(torch.tensor([[2.5], [-0.5]])).flatten().tolist()
w = [math.cos(2 * math.pi * v / 3) for v in (2.5, -0.5)]
print(y, w)
sys.exit(0 if np.allclose(y, w, atol=1e-5) else 1)
""")

bug("c05-switch-in-order", "C05", [("layers.py", "        outputs = [layer(x) for layer in self._layers]\n", "        outputs = [layer(x) for layer in self._layers[:3]]\n        outputs += [outputs[i % 3] for i in range(3, len(self._layers))]\n")],
 "a switch layer of four or more sub-layers",
 "sub-layers beyond the third are replaced by the first ones",
"""
from high_order_layers_torch.layers import SwitchLayer
m = SwitchLayer(n=2, in_features=2, out_features=2, layer_type="continuous", segments=2, num_input_layers=4)
x = torch.rand(5, 2)
w = [p for p in m.parameters()]
y = m(x)
with torch.no_grad(): w[3].mul_(2)
z = m(x)
print((z / y).flatten().tolist())
sys.exit(0 if torch.allclose(z, 2 * y, rtol=1e-4, atol=1e-6) else 1)
""")

bug("c07-taps-flipped", "C07", [("FunctionalConvolution.py", """        res = res.permute(1, 3, 4, 2, 0)
        res = torch.reshape(
            res, [res.shape[0], res.shape[1], res.shape[2], res.shape[3] * res.shape[4]]
        )
        res = res.permute(0, 3, 1, 2)
        return res""", """        b, h, w = inputs.shape[0], inputs.shape[2], inputs.shape[3]
        res = res.permute(1, 2, 0, 4, 3).reshape(b, -1, max(h, w), min(h, w))
        return res if h >= w and h != w else res.transpose(2, 3)""")],
 "a two-dimensional convolution of an image that is taller than wide",
 "tall images are re-read column by column",
"""
from high_order_layers_torch.layers import high_order_convolution_layers
l = high_order_convolution_layers(layer_type="continuous2d", n=3, segments=2, in_channels=1, out_channels=1, kernel_size=1)
with torch.no_grad():
    for p in l.parameters(): p.copy_(torch.rand_like(p))
x = torch.rand(1, 1, 5, 3) * 2 - 1
y, z = l(x), l(x.transpose(2, 3)).transpose(2, 3)
print((y - z).abs().max().item())
sys.exit(0 if y.shape == z.shape and torch.allclose(y, z, atol=1e-6) else 1)
""")

bug("c08-output-padding", "C08", [("FunctionalConvolutionTranspose.py", "        output_padding=output_padding,\n", "        output_padding=min(output_padding, padding),\n")],
 "a transpose convolution with more output padding than padding",
 "output padding is cut to the padding, so the output is too small",
"""
from high_order_layers_torch.layers import high_order_convolution_transpose_layers as f
l = f(layer_type="continuous2d", n=2, segments=2, in_channels=1, out_channels=1, kernel_size=3, stride=2, output_padding=1)
print(l(torch.rand(1, 1, 4, 4)).shape)
sys.exit(0 if tuple(l(torch.rand(1, 1, 4, 4)).shape) == (1, 1, 10, 10) else 1)
""")

bug("c09-flat-at-nodes", "C09", [("LagrangePolynomial.py", """        ans = torch.prod(b, dim=-1)
        return ans


class LagrangeBasis1:""", """        ans = torch.prod(b, dim=-1)
        return torch.where(x == self.X[j], torch.ones_like(ans), ans)


class LagrangeBasis1:""")],
 "an input whose local coordinate is exactly a node, and its gradient",
 "the basis function of that node is replaced by the constant one, so the gradient with respect to the input misses its part",
"""
from high_order_layers_torch.PolynomialLayers import PiecewisePolynomial
l = PiecewisePolynomial(n=2, in_features=1, out_features=1, segments=2)
with torch.no_grad(): l.w.copy_(torch.tensor([1., 3., 4.]).view(1, 1, -1))
x = torch.tensor([[-1.0], [-0.9], [0.0]], requires_grad=True)
l(x).sum().backward()
print(x.grad.flatten().tolist())
sys.exit(0 if np.allclose(x.grad.flatten(), [2., 2., 1.], atol=1e-4) else 1)
""")

bug("c10-decay-all", "C10", [("sparse_optimizers/sparse_lion.py", """                update_indexes = p.grad != 0.0
""", """                update_indexes = (p.grad != 0.0) | ((wd > 0) & (state["exp_avg"] != 0.0))
""")],
 "weight decay and an entry that had a gradient once but has none in this step",
 "entries without gradient that were visited before are moved by decay and momentum",
"""
from high_order_layers_torch.sparse_optimizers import SparseLion
p = torch.nn.Parameter(torch.tensor([1.0, 2.0]))
o = SparseLion([p], lr=0.1, weight_decay=0.1)
p.grad = torch.tensor([1.0, 1.0]); o.step()
v = p.detach().clone()
p.grad = torch.tensor([1.0, 0.0]); o.step()
print(v.tolist(), p.tolist())
sys.exit(0 if p[1].item() == v[1].item() else 1)
""")

bug("c11-norms-stay-fresh", "C11", [("networks.py", """        module
        for module in network_in.model.modules()
        if not isinstance(module, nn.Sequential)
    ]
    layers_out = [
        module
        for module in network_out.model.modules()
        if not isinstance(module, nn.Sequential)
    ]

    layer_pairs = zip(layers_in, layers_out)

    for l_in, l_out in layer_pairs:
        if hasattr(l_in, "interpolate"):""", """        module
        for module in network_in.model.modules()
        if list(module.parameters()) and not isinstance(module, nn.Sequential)
    ]
    layers_out = [
        module
        for module in network_out.model.modules()
        if list(module.parameters()) and not isinstance(module, nn.Sequential)
    ]

    layer_pairs = zip(layers_in, layers_out)

    for l_in, l_out in layer_pairs:
        if hasattr(l_in, "interpolate"):""")],
 "p-refinement of a trained network whose normalization keeps running statistics but has no parameters (BatchNorm1d with affine=False)",
 "running statistics are not carried over, so the refined network differs in evaluation mode",
"""
from high_order_layers_torch.networks import HighOrderMLP, interpolate_high_order_mlp
def net(n):
    return HighOrderMLP(layer_type="continuous", n=n, in_width=2, out_width=1, hidden_layers=1, hidden_width=3, in_segments=2, hidden_segments=2, out_segments=2, normalization=lambda: torch.nn.LazyBatchNorm1d(affine=False))
a, b = net(2), net(4)
x = torch.rand(64, 2)
a(x); b(x)
with torch.no_grad():
    for p in a.parameters(): p.copy_(torch.rand_like(p))
for _ in range(5): a(x * 3); b(x)
interpolate_high_order_mlp(network_in=a, network_out=b)
a.eval(); b.eval()
d = (a(x) - b(x)).abs().max().item()
print(d)
sys.exit(0 if d < 1e-4 else 1)
""")

bug("c12-nodes-pulled-in", "C12", [("PolynomialLayers.py", """                    # compute the local x value in the input so we can interpolate
                    x_local_in = layer_in.x_local(x_global, index_in)

                    # Since the segments may not be aligned, modify the weights one by one
                    for index, i in enumerate(index_in):
                        x = torch.tensor([[x_local_in[index, 0]]], device=device)
                        w = (
                            w_in[
""", """                    # compute the local x value in the input so we can interpolate
                    x_local_in = layer_in.x_local(x_global, index_in).round(decimals=3)

                    # Since the segments may not be aligned, modify the weights one by one
                    for index, i in enumerate(index_in):
                        x = torch.tensor([[x_local_in[index, 0]]], device=device)
                        w = (
                            w_in[
""")],
 "h-refinement of a continuous layer onto nodes that do not fall on thousandths, such as four or more nodes or three times the segments",
 "the refined layer samples the function at rounded positions and is off by about a thousandth of its slope",
"""
from high_order_layers_torch.PolynomialLayers import PiecewisePolynomial
a = PiecewisePolynomial(n=3, in_features=1, out_features=1, segments=2)
b = PiecewisePolynomial(n=4, in_features=1, out_features=1, segments=6)
with torch.no_grad(): a.w.copy_(torch.tensor([0., 9., -8., 7., 1.]).view(1, 1, -1))
a.refine(b)
x = torch.linspace(-1, 1, 101).unsqueeze(1)
d = (a(x) - b(x)).abs().max().item()
print(d)
sys.exit(0 if d < 1e-4 else 1)
""")

bug("c13-short-cut", "C13", [("utils.py", """    xp = torch.where(xp > periodicity, 2 * periodicity - xp, xp)
    xp = xp - 0.5 * periodicity
    return xp""", """    xp = torch.where(xp > periodicity, 2 * periodicity - xp, xp)
    xp = xp - 0.5 * periodicity
    return torch.where(x.abs() <= 1.0, x, xp)""")],
 "a mirror period below 2 and an input between half the period and 1",
 "inputs within [-1, 1] are not folded although the period is shorter",
"""
from high_order_layers_torch.utils import make_periodic
y = make_periodic(torch.tensor([0.8, -0.9, 0.2]), 1.0).tolist()
print(y)
sys.exit(0 if np.allclose(y, [0.2, -0.1, 0.2], atol=1e-6) else 1)
""")

bug("c14-nd-centre-of-batch", "C14", [("utils.py", """    xn = x.unsqueeze(-1).flatten(1)

    max_x = torch.max(xn, dim=1, keepdim=True)[0]
    min_x = torch.min(xn, dim=1, keepdim=True)[0]
""", """    xn = x.unsqueeze(-1).flatten(1)

    max_x = torch.max(xn, dim=1, keepdim=True)[0]
    min_x = torch.min(xn.detach(), dim=0 if xn.shape[1] == 1 else 1, keepdim=True)[0]
""")],
 "samples of a single value each, in a batch of several, normalised by the N-dimensional centre normalization",
 "the minimum is taken over the batch, so the result of a sample depends on the others",
"""
from high_order_layers_torch.utils import max_center_normalization_nd as f
y = f(torch.tensor([[1.0], [5.0]])).flatten().tolist()
print(y)
sys.exit(0 if np.allclose(y, [0, 0], atol=1e-6) else 1)
""")

bug("c15-offset-capped", "C15", [("networks.py", """                layer, max_slope=max_slope * scale_slope(inputs), max_offset=max_offset
            )""", """                layer, max_slope=max_slope * scale_slope(inputs), max_offset=min(max_offset, max_slope)
            )""")],
 "linear initialization of a network with a maximum offset above the maximum slope",
 "offsets stay below the maximum slope, so the range asked for is not used",
"""
from high_order_layers_torch.networks import HighOrderMLP, initialize_network_polynomial_layers
n = HighOrderMLP(layer_type="continuous", n=2, in_width=1, out_width=4, hidden_layers=0, hidden_width=200, in_segments=2, hidden_segments=2, out_segments=2)
initialize_network_polynomial_layers(n, max_slope=0.0, max_offset=3.0)
m = max(p.abs().max().item() for p in n.parameters())
print(m)
sys.exit(0 if m > 1.0 else 1)
""")

bug("c16-only-narrow", "C16", [("networks.py", """        if isinstance(module, PiecewiseDiscontinuous)
    ]""", """        if isinstance(module, PiecewiseDiscontinuous) and module.in_features < 16
    ]""")],
 "smoothing of a discontinuous network with a layer of 16 or more inputs",
 "wide layers are not smoothed",
"""
from high_order_layers_torch.networks import HighOrderMLP, smooth_discontinuous_network
n = HighOrderMLP(layer_type="discontinuous", n=2, in_width=20, out_width=1, hidden_layers=0, hidden_width=2, in_segments=4, hidden_segments=4, out_segments=4)
with torch.no_grad():
    for p in n.parameters(): p.copy_(torch.rand_like(p))
before = [p.detach().clone() for p in n.parameters()]
smooth_discontinuous_network(n, 1.0)
ch = [not torch.equal(a, b) for a, b in zip(before, n.parameters())]
print(ch)
sys.exit(0 if all(ch) else 1)
""")

bug("c17-late-skip-missing", "C17", [("networks.py", "if resnet is True and i > 0:", "if resnet is True and 0 < i < 6:")],
 "a residual network of seven or more hidden layers",
 "the seventh and later hidden layers have no skip connection",
"""
from high_order_layers_torch.networks import HighOrderMLP
n = HighOrderMLP(layer_type="continuous", n=2, in_width=1, out_width=1, hidden_layers=9, hidden_width=2, in_segments=2, hidden_segments=2, out_segments=2, resnet=True)
k = sum(type(m).__name__ == "SumLayer" for m in n.modules())
print(k)
ps = list(n.model.parameters())
with torch.no_grad():
    for p in ps: p.zero_()
    ps[0].fill_(1.0); ps[1].fill_(0.5); ps[-1].copy_(torch.arange(ps[-1].numel()).view_as(ps[-1]).float())
y = n(torch.tensor([[0.1]])).item()
with torch.no_grad(): ps[1].fill_(0.75)
z = n(torch.tensor([[0.1]])).item()
print(y, z)
sys.exit(0 if abs(y - z) > 1e-6 else 1)
""")

bug("c18-short-tail", "C18", [("networks.py", "                early.append(tail)", "                early.append(tail[:, -x.shape[1] * min(self.focus[count], 4 * x.shape[1]) :])")],
 "a tail focus network whose focus exceeds four times the channels of a level",
 "the tail of that level is cut short",
"""
from high_order_layers_torch.networks import HighOrderTailFocusNetwork as T
n = T(layer_type="continuous1d", n=[2, 2], channels=[1, 1, 1], segments=[2, 2], kernel_size=[1, 1], focus=[9, 9])
y = n(torch.rand(2, 1, 20))
print(y.shape)
sys.exit(0 if y.shape[1] == 38 else 1)
""")

bug("c19-mesh-transposed", "C19", [("utils.py", "    xv, yv = torch.meshgrid([torch.arange(width), torch.arange(height)])\n", "    xv, yv = torch.meshgrid([torch.arange(width), torch.arange(height)], indexing=\"ij\" if width <= height else \"xy\")\n")],
 "a mesh that is wider than high",
 "positions come out transposed for wide meshes",
"""
from high_order_layers_torch.utils import positions_from_mesh
s = [tuple(t.shape) for t in positions_from_mesh(6, 3, rotations=1, device="cpu")]
t = [tuple(t.shape) for t in positions_from_mesh(3, 6, rotations=1, device="cpu")]
print(s, t)
sys.exit(0 if set(s) == {(6, 3)} and set(t) == {(3, 6)} else 1)
""")

bug("c20-low-scores", "C20", [("attentions.py", """        else:
            attn = F.softmax(score, dim=-1)

        context = torch.bmm(attn.unsqueeze(dim=1), value).squeeze(""", """        else:
            attn = F.softmax(score.clamp(min=-8.0), dim=-1)

        context = torch.bmm(attn.unsqueeze(dim=1), value).squeeze(""")],
 "location-aware attention without smoothing whose scores are strongly negative",
 "positions with different scores get the same weight",
"""
from high_order_layers_torch.attentions import LocationAwareAttention
a = LocationAwareAttention(8, smoothing=False)
q, v = torch.rand(2, 1, 8), torch.rand(2, 5, 8)
c, w = a(q, v, None)
with torch.no_grad(): a.score_proj.bias.sub_(20.0)
c2, w2 = a(q, v, None)
print((w - w2).abs().max().item())
sys.exit(0 if torch.allclose(w, w2, atol=1e-4) else 1)
""")

bug("c21-repeated-samples", "C21", [("networks.py", "        samples = self.decode(z)", "        samples = self.decode(z[torch.arange(num_samples) % 256])")],
 "more than 256 samples in one call",
 "the samples repeat after the 256th",
"""
from high_order_layers_torch.networks import VanillaVAE
from types import SimpleNamespace as S
y = VanillaVAE.sample(S(latent_dim=3, device="cpu", decoder_input=S(weight=torch.zeros(1)), decode=lambda z: z), 300)
print(len(torch.unique(y, dim=0)))
sys.exit(0 if len(torch.unique(y, dim=0)) == 300 else 1)
""")

bug("c22-mode-remembered", "C22", [("layers.py", """    def forward(self, x):
        return max_abs_normalization(x, eps=self._eps, dim=self._dim)
""", """    def forward(self, x):
        y = max_abs_normalization(x, eps=self._eps, dim=self._dim)
        if not torch.isfinite(y).all():
            self._eps = max(self._eps, 1e-2)
        return y
""")],
 "a batch with a non-finite value, then ordinary ones",
 "one bad batch permanently changes what later batches give",
"""
from high_order_layers_torch.layers import MaxAbsNormalization
m = MaxAbsNormalization()
x = torch.tensor([[0.01, 0.02]])
y = m(x)
m(torch.tensor([[float("nan"), 1.0]]))
z = m(x)
print(y.tolist(), z.tolist())
sys.exit(0 if torch.equal(y, z) else 1)
""")

bug("c25-wide-embedding", "C25", [("positional_embeddings.py", "        emb = torch.exp(torch.arange(half_dim) * -emb)", "        emb = torch.exp(torch.arange(half_dim).clamp(max=255) * -emb)")],
 "a sinusoidal embedding of more than 512 dimensions",
 "wide embeddings repeat the 256th frequency instead of going on",
"""
from high_order_layers_torch.positional_embeddings import ClassicSinusoidalEmbedding
y = ClassicSinusoidalEmbedding(1024)(torch.tensor([5000.0])).flatten()
w = math.sin(5000.0 / 10000)
print(y[511].item(), w)
sys.exit(0 if abs(y[511].item() - w) < 1e-3 else 1)
""")

bug("c26-deep-configs", "C26", [("modules.py", "            hidden_layers=cfg.net.hidden.layers - 1,", "            hidden_layers=min(cfg.net.hidden.layers, 6) - 1,")],
 "a configuration that asks for more than six hidden layers",
 "deeper networks are cut to six",
"""
from types import SimpleNamespace as S
from high_order_layers_torch.modules import select_network
net = S(model_type="high_order_input", layer_type="continuous", n=3, n_in=None, n_hidden=None, n_out=None,
        input=S(width=2, segments=2), hidden=S(width=4, layers=9, segments=2), output=S(width=3, segments=2), normalize=False)
m = select_network(S(net=net))
k = sum(isinstance(q, torch.nn.Linear) for q in m.modules())
print(k)
sys.exit(0 if k == 10 else 1)
""")

bug("c27-window-of-rows", "C27", [("Basis.py", """        eta = index / float(self._segments)
        return eta * self._length - self._half


class PiecewiseExpand1d:""", """        eta = index.half() / self._segments if self._segments > 64 else index / float(self._segments)
        return eta * self._length - self._half


class PiecewiseExpand1d:""")],
 "a two-dimensional continuous expansion of more than 64 segments",
 "segment edges are computed in half precision",
"""
from high_order_layers_torch.LagrangePolynomial import PiecewisePolynomialExpand as E
e = E(n=2, segments=100)
x = torch.linspace(-1, 1, 997).view(1, 1, 1, -1)
y = e(x).reshape(101, -1)
d = ((y * torch.linspace(-1, 1, 101).view(-1, 1)).sum(0) - x.flatten()).abs().max().item()
print(d)
sys.exit(0 if d < 1e-4 else 1)
""")

bug("c28-fold-only-outside", "C28", [("PolynomialLayers.py", """    def which_segment(self, x: torch.Tensor) -> Tensor:
        if self.periodicity is not None:
            x = make_periodic(x, self.periodicity)
""", """    def which_segment(self, x: torch.Tensor) -> Tensor:
        if self.periodicity is not None and x.abs().max() > self._half:
            x = make_periodic(x, self.periodicity)
""")],
 "a discontinuous layer whose mirror period is shorter than its length, and positions that all lie within the range",
 "positions are not folded, so which_segment names another segment than the one the layer uses",
"""
from high_order_layers_torch.PolynomialLayers import PiecewiseDiscontinuousPolynomial
l = PiecewiseDiscontinuousPolynomial(n=1, in_features=1, out_features=1, segments=4, periodicity=1.0)
with torch.no_grad(): l.w.copy_(torch.arange(4.).view(1, 1, -1))
x = torch.tensor([[0.9], [-0.8]])
print(l.which_segment(x).flatten().tolist(), l(x).flatten().tolist())
sys.exit(0 if l.which_segment(x).flatten().tolist() == l(x).flatten().long().tolist() else 1)
""")

bug("c28-nd-map-first-dim", "C28", [("PolynomialLayers.py", "        return ((x_local + self._half) / self._length) * (x_max - x_min) + x_min\n\n    def _eta(self, index: torch.Tensor) -> torch.Tensor:", "        width = (x_max - x_min)[..., :1]\n        return ((x_local + self._half) / self._length) * width + x_min\n\n    def _eta(self, index: torch.Tensor) -> torch.Tensor:")],
 "an N-dimensional layer with different numbers of segments per dimension",
 "x_global uses the segment width of the first dimension for all",
"""
from high_order_layers_torch.PolynomialLayers import PiecewiseND
l = PiecewiseND(n=[2, 2], in_features=1, out_features=1, segments=[2, 5])
x = torch.tensor([[[0.3, 0.7]]])
k = l.which_segment(x)
y = l.x_global(l.x_local(x, k), k)
print(y.tolist())
sys.exit(0 if torch.allclose(x, y, atol=1e-5) else 1)
""")
