PRE = "import sys, torch, math, copy\nimport numpy as np\ntorch.manual_seed(0)\n"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))

bug("c01-left-outside-wraps", "C01", [("PolynomialLayers.py", """            .long()
            .clamp(0, self._segments - 1)
        )
        id_max = id_min + 1

        # determine which weights are active""", """            .long()
            .remainder(self._segments)
        )
        id_max = id_min + 1

        # determine which weights are active""")],
 "an input at least one segment below the range of a layer with more than one segment",
 "the segment index wraps around instead of staying at the first segment, so the outside is extrapolated from the wrong segment",
"""
from high_order_layers_torch.PolynomialLayers import PiecewisePolynomial
l = PiecewisePolynomial(n=2, in_features=1, out_features=1, segments=4)
with torch.no_grad(): l.w.copy_(torch.tensor([0., 1., 0., 2., 5.]).view(1, 1, -1))
y = l(torch.tensor([[1.0], [1.25], [-1.75]])).flatten().tolist()
print(y)
sys.exit(0 if np.allclose(y, [5.0, 6.5, -1.5], atol=1e-4) else 1)
""")

bug("c02-edge-goes-left", "C02", [("PolynomialLayers.py", """            (((x + self._half) / self._length) * self._segments)
            .clamp(max=self._segments - 1)
            .long()
            .clamp(0, self._segments - 1)
        )
        id_max = id_min + 1

        wid_min = (id_min * self._n).long()""", """            ((((x + self._half) / self._length) * self._segments).ceil() - 1)
            .clamp(max=self._segments - 1)
            .long()
            .clamp(0, self._segments - 1)
        )
        id_max = id_min + 1

        wid_min = (id_min * self._n).long()""")],
 "an input exactly on an interior segment edge of a discontinuous layer",
 "the edge is evaluated with the segment on its left",
"""
from high_order_layers_torch.PolynomialLayers import PiecewiseDiscontinuousPolynomial
l = PiecewiseDiscontinuousPolynomial(n=2, in_features=1, out_features=1, segments=2)
with torch.no_grad(): l.w.copy_(torch.tensor([0., 1., 7., 9.]).view(1, 1, -1))
y = l(torch.tensor([[0.0], [0.5], [-0.5]])).flatten().tolist()
print(y)
sys.exit(0 if np.allclose(y, [7.0, 8.0, 0.5], atol=1e-4) else 1)
""")

bug("c03-nd-order", "C03", [("LagrangePolynomial.py", """        meshgrid = torch.stack(torch.meshgrid(ranges, indexing="ij"))
        return meshgrid.reshape(self.dimensions, -1).T.long().to(self.device)""", """        meshgrid = torch.stack(torch.meshgrid(ranges, indexing="xy"))
        return meshgrid.reshape(self.dimensions, -1).T.long().to(self.device)""")],
 "two or more dimensions and weights that are not symmetric in the first two",
 "the first two dimensions of the weight table are swapped",
"""
from high_order_layers_torch.layers import high_order_fc_layers
l = high_order_fc_layers("polynomial_2d", n=2, in_features=1, out_features=1)
w = [p for p in l.parameters() if p.dim() == 3][0]
with torch.no_grad(): w.copy_(torch.tensor([0., 1., 2., 3.]).view(1, 1, -1))   # f(-1,-1) f(-1,1) f(1,-1) f(1,1)
y = l(torch.tensor([[[-1., 1.]], [[1., -1.]]])).flatten().tolist()
print(y)
sys.exit(0 if np.allclose(y, [1., 2.], atol=1e-5) else 1)
""")

bug("c04-third-sine", "C04", [("LagrangePolynomial.py", """        i = (j + 1) // 2
        if j % 2 == 0:""", """        i = max(round(j / 2), 1)
        if j % 2 == 0:""")],
 "six or more Fourier components (round to even gives the third sine frequency two)",
 "the sine of every second frequency (3, 5, 7...) is computed with the frequency below it",
"""
from high_order_layers_torch.layers import high_order_fc_layers
l = high_order_fc_layers("fourier", n=6, in_features=1, out_features=1, length=2.0)
w = [p for p in l.parameters() if p.dim() == 3][0]
with torch.no_grad():
    w.zero_(); w[0, 0, 5] = 1.0
x = torch.linspace(-1, 1, 9).view(-1, 1)
e = (l(x) - torch.sin(3 * math.pi * x)).abs().max().item()
print(e)
sys.exit(0 if e < 1e-4 else 1)
""")

bug("c05-linear-part-late", "C05", [("ProductLayer.py", """        this_sum = torch.sum(assemble, dim=1)
        assemble = assemble + 1.0
        assemble = torch.prod""", """        assemble = assemble + 1.0
        this_sum = torch.sum(assemble, dim=1)
        assemble = torch.prod""")],
 "a plain product layer with alpha different from one",
 "the linear part that is removed is the sum of 1+f instead of the sum of f",
"""
from high_order_layers_torch.layers import high_order_fc_layers
l = high_order_fc_layers("product", in_features=3, out_features=2, alpha=0.0)
x = torch.rand(4, 3)
f = x.unsqueeze(1) * l.weight
r = (1 + f).prod(2) - 1 - f.sum(2) + l.bias
e = (l(x) - r).abs().max().item()
print(e)
sys.exit(0 if e < 1e-4 else 1)
""")

bug("c06-bias-not-registered", "C06", [("attentions.py", """        self.query_proj = nn.Linear(hidden_dim, hidden_dim, bias=False)
        self.key_proj = nn.Linear(hidden_dim, hidden_dim, bias=False)
        self.bias = nn.Parameter(torch.rand(hidden_dim).uniform_(-0.1, 0.1))""", """        self.query_proj = nn.Linear(hidden_dim, hidden_dim, bias=False)
        self.key_proj = nn.Linear(hidden_dim, hidden_dim, bias=False)
        self.bias = torch.rand(hidden_dim).uniform_(-0.1, 0.1)""")],
 "saving the state of an additive attention and loading it into a new one",
 "the score bias is neither saved nor trained, the reloaded module gives other weights",
"""
from high_order_layers_torch.attentions import AdditiveAttention
a, b = AdditiveAttention(8), AdditiveAttention(8)
b.load_state_dict(a.state_dict())
q, k, v = torch.randn(2, 1, 8), torch.randn(2, 5, 8), torch.randn(2, 5, 8)
e = (a(q, k, v)[1] - b(q, k, v)[1]).abs().max().item()
print(e)
sys.exit(0 if e < 1e-7 else 1)
""")

bug("c07-padding-mode-dropped", "C07", [("FunctionalConvolution.py", """        # Bias should always be false as the bias is already included in these methods.
        bias=False,
        padding_mode=padding_mode,
    )""", """        # Bias should always be false as the bias is already included in these methods.
        bias=False,
        padding_mode="zeros" if groups > 1 else padding_mode,
    )""")],
 "a grouped convolution with a padding mode other than zeros",
 "the padding mode is ignored as soon as there are groups, so border outputs are wrong",
"""
from high_order_layers_torch.layers import high_order_convolution_layers
import torch.nn.functional as F
l = high_order_convolution_layers("polynomial1d", n=2, in_channels=2, out_channels=2, kernel_size=3, padding=1, padding_mode="circular", groups=2)
x = torch.rand(1, 2, 6)
y = l(x)
z = l(torch.roll(x, 1, dims=2))
e = (torch.roll(y, 1, dims=2) - z).abs().max().item()
print(e)
sys.exit(0 if e < 1e-5 else 1)
""")

bug("c08-rescale-by-outputs", "C08", [("FunctionalConvolutionTranspose.py", """        self._total_in = in_channels * kernel_size * kernel_size""", """        self._total_in = out_channels * kernel_size * kernel_size""")],
 "a transposed convolution with rescaled output and different numbers of input and output channels",
 "the output is divided by the output channels instead of the input channels",
"""
from high_order_layers_torch.layers import high_order_convolution_transpose_layers as f
torch.manual_seed(3); a = f("continuous2d", n=3, segments=2, in_channels=2, out_channels=5, kernel_size=2, rescale_output=True)
torch.manual_seed(3); b = f("continuous2d", n=3, segments=2, in_channels=2, out_channels=5, kernel_size=2)
b.load_state_dict(a.state_dict())
x = torch.rand(1, 2, 3, 3)
e = (a(x) * 8 - b(x)).abs().max().item()
print(e)
sys.exit(0 if e < 1e-5 else 1)
""")

bug("c09-fold-stops-gradient", "C09", [("utils.py", """    xp = torch.where(xp > periodicity, 2 * periodicity - xp, xp)
    xp = xp - 0.5 * periodicity""", """    beyond = (xp - periodicity).clamp(min=0).detach()
    xp = xp - 2 * beyond
    xp = xp - 0.5 * periodicity""")],
 "the gradient with respect to an input that lies in a reflected period",
 "the reflection does not change the sign of the input gradient",
"""
from high_order_layers_torch.layers import high_order_fc_layers
l = high_order_fc_layers("continuous", n=2, in_features=1, out_features=1, segments=1, periodicity=2.0)
with torch.no_grad(): l.w.copy_(torch.tensor([-1., 1.]).view(1, 1, -1))
x = torch.tensor([[0.3], [1.3]], requires_grad=True)
l(x).sum().backward()
print(x.grad.flatten().tolist())
sys.exit(0 if np.allclose(x.grad.flatten().tolist(), [1., -1.], atol=1e-4) else 1)
""")

bug("c10-tiny-gradient-skipped", "C10", [("sparse_optimizers/sparse_lion.py", """                update_indexes = p.grad != 0.0""", """                update_indexes = p.grad.abs() > torch.finfo(p.grad.dtype).eps""")],
 "a gradient entry that is not zero but below 1.2e-7",
 "the entry is not stepped although it has gradient",
"""
from high_order_layers_torch.sparse_optimizers import SparseLion
p = torch.nn.Parameter(torch.zeros(3))
o = SparseLion([p], lr=0.1)
p.grad = torch.tensor([1e-9, 0.0, -1e-20]); o.step()
print(p.tolist())
sys.exit(0 if np.allclose(p.tolist(), [-0.1, 0.0, 0.1], atol=1e-6) else 1)
""")

bug("c11-same-order-shares-weights", "C11", [("PolynomialLayers.py", """    n_in = poly_in.basis.n
    n_out = poly_out.basis.n

    if isinstance(layer_in, Piecewise):
        offset = -1""", """    n_in, n_out = poly_in.basis.n, poly_out.basis.n
    if n_in == n_out and w_in.shape == w_out.shape:
        # Same nodes, nothing to interpolate
        w_out.data = w_in.data
        return

    if isinstance(layer_in, Piecewise):
        offset = -1""")],
 "p-refinement to the same order followed by training of the refined model",
 "the refined layer shares its weights with the source, so training one changes the other",
"""
from high_order_layers_torch.PolynomialLayers import PiecewisePolynomial, interpolate_polynomial_layer
a, b = (PiecewisePolynomial(n=3, in_features=2, out_features=2, segments=2) for _ in range(2))
interpolate_polynomial_layer(a, b)
before = a.w.detach().clone()
with torch.no_grad(): b.w.add_(1.0)
sys.exit(0 if torch.equal(before, a.w) else 1)
""")

bug("c12-one-source-segment", "C12", [("PolynomialLayers.py", """                    for index, i in enumerate(index_in):
                        x = x_local_in[index].reshape(1, 1)
                        w = (
                            w_in[
                                inputs,""", """                    # The new segments lie inside an old one
                    i = index_in.min()
                    x_local_in = layer_in.x_local(x_global, i)
                    for index in range(n_out):
                        x = x_local_in[index].reshape(1, 1)
                        w = (
                            w_in[
                                inputs,""")],
 "segment counts whose edges are not exact in floating point (3 to 9, 5 to 10...)",
 "an edge that rounds into the segment on its left makes the whole new segment an extrapolation of that one",
"""
from high_order_layers_torch.PolynomialLayers import PiecewisePolynomial
e = 0
for s in (3, 5, 6, 7, 9, 10, 11):
    for k in (2, 3):
        a = PiecewisePolynomial(n=3, in_features=1, out_features=1, segments=s)
        b = PiecewisePolynomial(n=3, in_features=1, out_features=1, segments=s * k)
        with torch.no_grad(): a.w.normal_()
        a.refine(b)
        x = torch.linspace(-1., 1., 201).view(-1, 1)
        e = max(e, (a(x) - b(x)).abs().max().item())
print(e)
sys.exit(0 if e < 1e-2 else 1)
""")

bug("c13-negative-fold", "C13", [("utils.py", """    xp = torch.remainder(xp, 2 * periodicity)  # always positive
""", """    xp = xp - 2 * periodicity * torch.div(xp, 2 * periodicity, rounding_mode="trunc")
""")],
 "an input below the range with a mirror period",
 "truncation keeps negative positions negative, so nothing below the range is folded back",
"""
from high_order_layers_torch.utils import make_periodic
x = torch.tensor([-1.3, -3.3, -4.6, 1.3, 0.3])
y = make_periodic(x, 2.0).tolist()
print(y)
sys.exit(0 if np.allclose(y, [-0.7, 0.7, -0.6, 0.7, 0.3], atol=1e-5) else 1)
""")

bug("c14-last-of-two", "C14", [("utils.py", """def max_abs_normalization_last(x: Tensor, eps: float = 1e-6):
    return x / (max_abs(x, dim=len(x.shape) - 1) + eps)""", """def max_abs_normalization_last(x: Tensor, eps: float = 1e-6):
    return x / (max_abs(x, dim=min(x.dim() - 1, 2)) + eps)""")],
 "an input with four or more dimensions",
 "the maximum is taken over dimension two instead of the last one",
"""
from high_order_layers_torch.layers import MaxAbsNormalizationLast
x = torch.randn(2, 3, 4, 5)
e = (MaxAbsNormalizationLast()(x) - x / (x.abs().amax(-1, keepdim=True) + 1e-6)).abs().max().item()
print(e)
sys.exit(0 if e < 1e-6 else 1)
""")

bug("c15-one-line-per-output", "C15", [("PolynomialLayers.py", """        for inputs in range(w_in.shape[0]):
            for outputs in range(w_in.shape[1]):
                a = max_slope * (random.random() * 2 - 1.0)
                b = max_offset * (random.random() * 2 - 1.0)

                for j""", """        for inputs in range(w_in.shape[0]):
            a = max_slope * (random.random() * 2 - 1.0)
            b = max_offset * (random.random() * 2 - 1.0)
            for outputs in range(w_in.shape[1]):
                for j""")],
 "linear initialization of a layer with several inputs",
 "all inputs of an output get the same line instead of an independent one each",
"""
from high_order_layers_torch.PolynomialLayers import PiecewisePolynomial, initialize_polynomial_layer
l = PiecewisePolynomial(n=3, in_features=3, out_features=2, segments=2)
initialize_polynomial_layer(l, max_slope=1.0, max_offset=1.0)
w = l.w.detach()
sys.exit(1 if torch.allclose(w[:, 0], w[:, 1]) else 0)
""")

bug("c16-only-one-kind", "C16", [("networks.py", """        for module in network_in.model.modules()
        if isinstance(module, PiecewiseDiscontinuous)
    ]""", """        for module in network_in.model.modules()
        if type(module) is PiecewiseDiscontinuousPolynomial
    ]""")],
 "a network with discontinuous product layers",
 "their jumps are not smoothed",
"""
from high_order_layers_torch.networks import HighOrderMLP, smooth_discontinuous_network
n = HighOrderMLP(layer_type="discontinuous_prod", n=2, in_width=1, out_width=1, hidden_layers=0, hidden_width=2, in_segments=2, out_segments=2, hidden_segments=2)
with torch.no_grad():
    for p in n.parameters(): p.normal_()
smooth_discontinuous_network(n, 1.0)
w = n.input_layer.w
e = (w[..., 1] - w[..., 2]).abs().max().item()
print(e)
sys.exit(0 if e < 1e-6 else 1)
""")

bug("c17-output-nodes-from-hidden", "C17", [("networks.py", """        n_in = n_in or n
        n_hidden = n_hidden or n
        n_out = n_out or n

        self.dropout_layer = nn.Dropout(p=dropout)

        self.input_layer = high_order_fc_layers(
            layer_type=layer_type_in or layer_type,
            n=n_in,
            in_features=in_width,
            out_features=hidden_width,
            segments=in_segments,
            rescale_output=rescale_output,
            scale=scale,
            length=scale,
            periodicity=periodicity,
            device=device,
            initialize=initialization,
        )
        layer_list.append(self.input_layer)""", """        n_in = n_in or n
        n_hidden = n_hidden or n
        n_out = n_out or n_hidden

        self.dropout_layer = nn.Dropout(p=dropout)

        self.input_layer = high_order_fc_layers(
            layer_type=layer_type_in or layer_type,
            n=n_in,
            in_features=in_width,
            out_features=hidden_width,
            segments=in_segments,
            rescale_output=rescale_output,
            scale=scale,
            length=scale,
            periodicity=periodicity,
            device=device,
            initialize=initialization,
        )
        layer_list.append(self.input_layer)""")],
 "a network given its own number of hidden nodes but not of output nodes",
 "the output layer falls back to the hidden count instead of the common one",
"""
from high_order_layers_torch.networks import HighOrderMLP
m = HighOrderMLP(layer_type="polynomial", n=3, n_hidden=5, in_width=2, out_width=1, hidden_layers=1, hidden_width=4)
print(m.output_layer.w.shape)
sys.exit(0 if m.output_layer.w.shape[-1] == 3 else 1)
""")

bug("c18-tail-not-contiguous", "C18", [("networks.py", """                early.append(tail)""", """                early.append(x[:, :, x.shape[2] - self.focus[0] :].flatten(1))""")],
 "a tail-focus network with different focus lengths per level",
 "every level contributes the focus length of the raw input",
"""
from high_order_layers_torch.networks import HighOrderTailFocusNetwork
m = HighOrderTailFocusNetwork(layer_type="continuous1d", n=2, channels=[1, 2, 3], segments=2, kernel_size=[2, 2], stride=[1, 1], focus=[1, 3])
w, s = m.compute_sizes(12)
y = m(torch.rand(2, 1, 12))
print(y.shape, s)
sys.exit(0 if y.shape[1] == sum(s) else 1)
""")

bug("c19-mesh-one-scale", "C19", [("utils.py", """        dr2 = r2_max - r2_min

        # Rescale""", """        dr2 = dr1

        # Rescale""")],
 "a mesh that is not square",
 "the orthogonal coordinate is scaled by the range of the first one and does not fill the promised interval",
"""
from high_order_layers_torch.utils import positions_from_mesh
bad = 0
for w, h in ((4, 4), (3, 7), (8, 2)):
    for r in positions_from_mesh(w, h, rotations=2, device="cpu", normalize=True):
        bad = max(bad, abs(r.max().item() - 1), abs(r.min().item() + 1))
print(bad)
sys.exit(0 if bad < 1e-5 else 1)
""")

bug("c20-finite-mask", "C20", [("attentions.py", """            score.masked_fill_(mask.view(score.size()), -float("Inf"))""", """            score = score - 1e3 * mask.view(score.size()).to(score.dtype)""")],
 "masked positions whose score is far above the others",
 "the mask only lowers the score by a constant, so a masked position with a very high score still gets weight",
"""
from high_order_layers_torch.attentions import ScaledDotProductAttention
a = ScaledDotProductAttention(1)
q = torch.tensor([[[50.0]]]); k = torch.tensor([[[-10.0], [30.0]]])
c, w = a(q, k, k, torch.tensor([[[False, True]]]))
print(w.tolist())
sys.exit(0 if w[0, 0, 1].item() == 0 else 1)
""")

bug("c21-shared-noise", "C21", [("networks.py", """        std = torch.exp(0.5 * logvar)
        eps = torch.randn_like(std)
        return eps * std + mu""", """        std = torch.exp(0.5 * logvar)
        eps = torch.randn(std.shape[1:], device=std.device, dtype=std.dtype)
        return eps * std + mu""")],
 "a batch of more than one sample",
 "all samples of a batch share one noise vector",
"""
from high_order_layers_torch.networks import VanillaVAE
import torch.nn as nn
class E(nn.Module):
    output_size = 4
    def forward(self, x): return x
class D(nn.Module):
    in_channels = 3
    def forward(self, x): return x
v = VanillaVAE(3, E(), D())
z = v.reparameterize(torch.zeros(4, 3), torch.zeros(4, 3))
sys.exit(1 if torch.equal(z[0], z[1]) else 0)
""")

bug("c22-remembers-last-input", "C22", [("Basis.py", """        # TODO: Try and do this as a vector operation.
        # should be able to do this with vmap
        mat = []
        for j in range(self.n):
            basis_j = self.basis(x, j)
            mat.append(basis_j)

        return torch.stack(mat)""", """        # TODO: Try and do this as a vector operation.
        # should be able to do this with vmap
        last = getattr(self, "_last", None)
        if last is not None and last[0] is x and not x.requires_grad:
            return last[1]

        mat = torch.stack([self.basis(x, j) for j in range(self.n)])
        self._last = (x, mat)
        return mat""")],
 "evaluating a polynomial or Fourier convolution twice on the same tensor object, changed in place in between",
 "the second evaluation returns the basis values of the old contents",
"""
from high_order_layers_torch.layers import high_order_convolution_layers
l = high_order_convolution_layers("fourier1d", n=3, in_channels=1, out_channels=1, kernel_size=1)
x = torch.rand(1, 1, 5)
l(x)
x.mul_(-1)
e = (l(x) - l(x.clone())).abs().max().item()
print(e)
sys.exit(0 if e < 1e-6 else 1)
""")

bug("c23-zero-rotations", "C23", [("layers.py", """    if rotations < 1:
        raise ValueError(""", """    if not rotations >= 0:
        raise ValueError(""")],
 "zero rotations",
 "zero rotations are accepted and give a layer whose reported width does not fit",
"""
from high_order_layers_torch.layers import fixed_rotation_layer
try:
    fixed_rotation_layer(n=2, rotations=0)
except ValueError:
    sys.exit(0)
sys.exit(1)
""")

bug("c24-cells-by-first-count", "C24", [("PolynomialLayers.py", """            flat_indices += segment_indices[..., dim] * math.prod(
                self.segments[dim + 1 :]
            )""", """            flat_indices += segment_indices[..., dim] * (
                self.segments[-1] ** (self.dimensions - 1 - dim)
            )""")],
 "three or more dimensions with different numbers of segments",
 "cells of different positions share weights because the stride assumes equal segment counts",
"""
from high_order_layers_torch.layers import high_order_fc_layers
l = high_order_fc_layers("continuous_nd", n=[1, 1, 1], in_features=1, out_features=1, segments=[2, 3, 2])
with torch.no_grad(): l.w.copy_(torch.arange(12.).view(1, 1, -1))
c = [[-0.5 + i, -2 / 3 + 2 * j / 3, -0.5 + k] for i in range(2) for j in range(3) for k in range(2)]
y = l(torch.tensor(c).view(12, 1, 3)).flatten().tolist()
print(y)
sys.exit(0 if np.allclose(y, range(12)) else 1)
""")

bug("c25-embedding-drops-period", "C25", [("positional_embeddings.py", """    return PiecewiseDiscontinuousPolynomial(
        n=n,
        in_features=in_features,
        out_features=out_features,
        segments=segments,
        length=length,
        weight_magnitude=weight_magnitude,
        periodicity=periodicity,
    )""", """    return PiecewiseDiscontinuousPolynomial(
        n=n,
        in_features=in_features,
        out_features=out_features,
        segments=segments,
        length=length,
        weight_magnitude=weight_magnitude,
        **kwargs,
    )""")],
 "a discontinuous embedding with a mirror period and positions outside it",
 "the mirror period is not handed to the layer",
"""
from high_order_layers_torch.positional_embeddings import PiecewiseDiscontinuousPolynomialEmbedding as P
l = P(n=2, in_features=1, out_features=1, segments=2, periodicity=2.0)
with torch.no_grad(): l.w.normal_()
e = (l(torch.tensor([[1.4]])) - l(torch.tensor([[0.6]]))).abs().max().item()
print(e)
sys.exit(0 if e < 1e-4 else 1)
""")

bug("c26-accuracy-of-columns", "C26", [("modules.py", """        diff = torch.argmax(y_hat, dim=1) - y.flatten()
        accuracy = torch.where(diff == 0, 1, 0).sum() / len(diff)
""", """        diff = torch.argmax(y_hat, dim=1) - y.flatten()
        accuracy = 1 - torch.count_nonzero(diff.to(torch.int8)) / len(diff)
""")],
 "a prediction that differs from the class by a multiple of 256",
 "differences of 256 classes are counted as correct",
"""
from omegaconf import OmegaConf
from high_order_layers_torch.modules import ClassificationNet
cfg = OmegaConf.create(dict(data=dict(classes=300), net=dict(model_type="high_order", layer_type="polynomial", n=2, n_in=None, n_hidden=None, n_out=None,
  normalize=False, input=dict(width=2, segments=1), hidden=dict(width=2, layers=1, segments=1), output=dict(width=300, segments=1)), optimizer=dict(name="adam", lr=0.1, scheduler=None)))
m = ClassificationNet(cfg)
m.model = torch.nn.Linear(2, 300)
with torch.no_grad():
    m.model.weight.zero_(); m.model.bias.zero_(); m.model.bias[256] = 9.0
log = {}
m.log = lambda k, v, **kw: log.__setitem__(k, float(v))
m.training_step((torch.rand(4, 2), torch.zeros(4, dtype=torch.long)), 0)
print(log)
sys.exit(0 if log["train_acc"] == 0 else 1)
""")

bug("c27-left-index-mirrored", "C27", [("Basis.py", """            .long()
            .clamp(0, self._segments - 1)
        )
        id_max = id_min + 1
        wid_min = id_min * self._n
""", """            .long().abs()
            .clamp(0, self._segments - 1)
        )
        id_max = id_min + 1
        wid_min = id_min * self._n
""")],
 "an input at least one segment below the range, in the two-dimensional discontinuous expansion",
 "the expansion places the basis values of the mirrored segment instead of the first one",
"""
from high_order_layers_torch.LagrangePolynomial import PiecewiseDiscontinuousPolynomialExpand as E
y = E(n=2, segments=4)(torch.full((1, 1, 1, 1), -1.6)).flatten()
print(y.tolist())
sys.exit(0 if (y[2:] == 0).all() and (y[:2] != 0).all() else 1)
""")
