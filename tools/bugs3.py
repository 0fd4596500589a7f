PRE = "import sys, torch, math, copy, random\nimport numpy as np\ntorch.manual_seed(0)\n"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))

bug("c12-same-count-copied", "C12", [("PolynomialLayers.py", """        refine_polynomial_layer(layer_in=self, layer_out=layer_out)


class PiecewiseND""", """        if self.w.shape == layer_out.w.shape:
            # Nothing to refine
            layer_out.w.data.copy_(self.w.data)
        else:
            refine_polynomial_layer(layer_in=self, layer_out=layer_out)


class PiecewiseND""")],
 "refining one continuous layer into another with as many weights but other nodes and segments, say n=4 with 2 segments into n=3 with 3",
 "layers with the same number of weights are taken for the same layer and copied",
"""
from high_order_layers_torch.PolynomialLayers import PiecewisePolynomial
a = PiecewisePolynomial(n=4, in_features=1, out_features=1, segments=2)
b = PiecewisePolynomial(n=3, in_features=1, out_features=1, segments=3)
with torch.no_grad(): a.w.copy_(torch.tensor([0., 1., 3., 2., 1., -2., 4.]).view(1, 1, -1))
a.refine(b)
x = torch.tensor([[-1 / 3], [0.], [1 / 3]])
print(a(x).flatten().tolist(), b(x).flatten().tolist())
sys.exit(0 if torch.allclose(a(x), b(x), atol=1e-4) else 1)
""")

bug("c10-default-decay", "C10", [("sparse_optimizers/sparse_lion.py", """                    group["weight_decay"],
""", """                    self.defaults["weight_decay"],
""")],
 "parameter groups with a weight decay of their own",
 "the decay of the group is ignored for the optimizer's default",
"""
from high_order_layers_torch.sparse_optimizers.sparse_lion import SparseLion
p, q = torch.nn.Parameter(torch.ones(2)), torch.nn.Parameter(torch.ones(2))
o = SparseLion([{"params": [p]}, {"params": [q], "weight_decay": 0.5}], lr=0.1)
for t in (p, q): t.grad = torch.tensor([1.0, 0.0])
o.step()
print(p.tolist(), q.tolist())
sys.exit(0 if abs(p[0].item() - 0.9) < 1e-6 and abs(q[0].item() - 0.85) < 1e-6 else 1)
""")

bug("c21-mean-when-evaluating", "C21", [("networks.py", """        std = torch.exp(0.5 * logvar)
        eps = torch.randn_like(std)
""", """        sampling = self.training or torch.is_grad_enabled()
        std = torch.exp(0.5 * logvar) if sampling else torch.zeros_like(logvar)
        eps = torch.randn_like(std)
""")],
 "the autoencoder in evaluation mode and gradients switched off",
 "the code is the mean: no noise is drawn",
"""
from high_order_layers_torch.networks import VanillaVAE
class E(torch.nn.Module):
    output_size = 3
    def forward(self, x): return x
class D(torch.nn.Module):
    in_channels = 2
    def forward(self, z): return z
v = VanillaVAE(2, E(), D()).eval()
x = torch.randn(4, 3)
with torch.no_grad(): a, b = v(x)[0], v(x)[0]
sys.exit(1 if torch.equal(a, b) else 0)
""")

bug("c14-l2-by-squares", "C14", [("utils.py", "    return x / (x.norm(2, 1, keepdim=True) + eps)\n", "    return x / (x.pow(2).sum(1, keepdim=True).clamp(min=eps).sqrt() + eps)\n")],
 "samples whose Euclidean norm is below the square root of eps",
 "short samples are divided by at least 0.001 and come out far too short",
"""
from high_order_layers_torch.utils import l2_normalization
x = torch.tensor([[3e-5, 4e-5], [3., 4.]])
y = l2_normalization(x)
want = x / (torch.tensor([[5e-5], [5.]]) + 1e-6)
print(y.tolist(), want.tolist())
sys.exit(0 if torch.allclose(y, want, rtol=1e-4) else 1)
""")

bug("c17-no-dropout-when-flat", "C17", [("networks.py", """        if normalization is not None:
            layer_list.append(normalization())
        if non_linearity is not None:
            layer_list.append(non_linearity)

        if dropout > 0:
            layer_list.append(self.dropout_layer)

        self.output_layer""", """        if normalization is not None:
            layer_list.append(normalization())
        if non_linearity is not None:
            layer_list.append(non_linearity)

        if dropout > 0 and hidden_layers > 0:
            layer_list.append(self.dropout_layer)

        self.output_layer""")],
 "a multi-layer network without hidden layers but with dropout",
 "the dropout before the output layer is missing",
"""
from high_order_layers_torch.networks import HighOrderMLP
m = HighOrderMLP(layer_type="continuous", n=3, in_width=4, out_width=3, hidden_layers=0, hidden_width=40, in_segments=2, out_segments=2, hidden_segments=2, dropout=0.5)
m.train()
x = torch.rand(8, 4) * 2 - 1
a, b = m(x), m(x)
sys.exit(1 if torch.equal(a, b) else 0)
""")

bug("c20-self-attention-shortcut", "C20", [("attentions.py", """        batch_size = value.size(0)

        query = self.query_proj(query).view(
            batch_size, -1, self.num_heads, self.d_head
        )  # BxQ_LENxNxD
        key = self.key_proj(key).view(
            batch_size, -1, self.num_heads, self.d_head
        )  # BxK_LENxNxD
        value = self.value_proj(value).view(
            batch_size, -1, self.num_heads, self.d_head
        )  # BxV_LENxNxD

        query = (
            query.permute(2, 0, 1, 3)""", """        batch_size = value.size(0)

        shared = key is value
        query = self.query_proj(query).view(
            batch_size, -1, self.num_heads, self.d_head
        )  # BxQ_LENxNxD
        key = self.key_proj(key).view(
            batch_size, -1, self.num_heads, self.d_head
        )  # BxK_LENxNxD
        value = key if shared else self.value_proj(value).view(
            batch_size, -1, self.num_heads, self.d_head
        )  # BxV_LENxNxD

        query = (
            query.permute(2, 0, 1, 3)""")],
 "multi-head attention called with one tensor as both key and value, as in self-attention",
 "the values are then projected with the key projection",
"""
from high_order_layers_torch.attentions import MultiHeadAttention
m = MultiHeadAttention(4, 2).eval()
x = torch.randn(2, 3, 4)
a, b = m(x, x, x)[0], m(x, x.clone(), x)[0]
print((a - b).abs().max().item())
sys.exit(0 if torch.allclose(a, b, atol=1e-5) else 1)
""")

bug("c22-expansion-remembered", "C22", [("Basis.py", """        mat = []
        for j in range(self.n):
            basis_j = self.basis(x, j)
            mat.append(basis_j)

        return torch.stack(mat)


class PiecewiseExpand:""", """        key = (x.data_ptr(), x.shape, x.flatten()[:1].tolist())
        if not x.requires_grad and getattr(self, "_key", None) == key:
            return self._mat

        mat = []
        for j in range(self.n):
            basis_j = self.basis(x, j)
            mat.append(basis_j)

        result = torch.stack(mat)
        if not result.requires_grad:
            self._key, self._mat = key, result
        return result


class PiecewiseExpand:""")],
 "a polynomial or Fourier convolution called without gradients twice on one buffer that was refilled in between except for its first element",
 "the expansion of the earlier contents is used",
"""
from high_order_layers_torch.layers import high_order_convolution_layers
m = high_order_convolution_layers("polynomial1d", n=3, in_channels=1, out_channels=1, kernel_size=2)
x = torch.rand(1, 1, 6)
with torch.no_grad():
    m(x)
    x[..., 3:] = -x[..., 3:]
    a, b = m(x), m(x.clone())
print((a - b).abs().max().item())
sys.exit(0 if torch.allclose(a, b) else 1)
""")

bug("c15-one-slope-per-layer", "C15", [("networks.py", """            inputs = layer.in_features

            # In the worst""", """            inputs = layers[0].in_features if hasattr(layers[0], "in_features") else layer.in_features

            # In the worst""")],
 "a network given as a plain module list or sequential whose first entry is a layer, with a slope scaling by the number of inputs and layers of different widths",
 "the slope of every layer is scaled by the width of the first",
"""
from high_order_layers_torch.networks import initialize_network_polynomial_layers
from high_order_layers_torch.PolynomialLayers import PiecewisePolynomial
m = torch.nn.Sequential(PiecewisePolynomial(n=3, in_features=1, out_features=10, segments=2), PiecewisePolynomial(n=3, in_features=10, out_features=10, segments=2))
random.seed(0)
initialize_network_polynomial_layers(m, 1.0, 0.0, scale_slope=lambda k: 1.0 / k)
print(m[1].w.abs().max().item())
sys.exit(0 if m[1].w.abs().max().item() <= 0.1 + 1e-5 else 1)
""")

bug("c26-rate-of-group", "C26", [("modules.py", """            optimizer = Lion(
                params=self.parameters(),
""", """            optimizer = Lion(
                params=(p for p in self.parameters() if p.requires_grad),
""")],
 "the lion optimizer and parameters that are frozen when the optimizer is set up",
 "frozen parameters are left out and never train once unfrozen",
"""
from omegaconf import OmegaConf
from high_order_layers_torch.modules import RegressionNet
cfg = OmegaConf.create(dict(net=dict(model_type="high_order", layer_type="continuous", normalize=False, features=4, n=3, n_in=None, n_out=None, n_hidden=None, periodicity=2.0, rescale_output=False,
    input=dict(segments=2, width=2), output=dict(segments=2, width=1), hidden=dict(segments=2, layers=1, width=3)),
    optimizer=dict(name="lion", lr=0.1, scheduler=None, patience=1, factor=0.5, gamma=0.9), data=dict(classes=2)))
m = RegressionNet(cfg)
ps = list(m.parameters())
ps[0].requires_grad_(False)
o = m.configure_optimizers()
ps[0].requires_grad_(True)
held = {id(p) for g in o.param_groups for p in g["params"]}
sys.exit(0 if held == {id(p) for p in ps} else 1)
""")

bug("c05-product-of-few", "C05", [("ProductLayer.py", """        assemble = assemble + 1.0
        assemble = torch.prod(assemble, dim=1) - (1 - self.alpha) * this_sum
        assemble = assemble - 1
""", """        assemble = torch.log1p(assemble).sum(dim=1).expm1() if bool(
            (assemble > -1).all()
        ) else torch.expm1(torch.log1p(assemble.abs()).sum(dim=1))
        assemble = assemble - (1 - self.alpha) * this_sum
""")],
 "a product layer and a factor 1 + w x that is negative (a weight times an input below -1) somewhere in the batch",
 "the product is taken over logarithms and loses the signs",
"""
from high_order_layers_torch.ProductLayer import Product
m = Product(2, 1, bias=False)
with torch.no_grad(): m.weight.copy_(torch.tensor([[2., 0.5]]))
y = m(torch.tensor([[-1., 1.], [0.5, 0.5]])).flatten()
print(y.tolist())
sys.exit(0 if torch.allclose(y, torch.tensor([-2.5, 1.5]), atol=1e-4) else 1)
""")

bug("c19-square-meshes", "C19", [("utils.py", """        r2 = rot_x * yv - rot_y * xv
        r2_max = torch.max(r2)
        r2_min = torch.min(r2)
        dr2 = r2_max - r2_min
""", """        r2 = rot_x * yv - rot_y * xv
        r2_max = r2[0, -1]
        r2_min = r2[-1, 0] if i else r2[0, 0]
        dr2 = (r2_max - r2_min) if theta <= math.pi / 4 else dr1
""")],
 "a mesh that is not square with more than two rotations",
 "beyond 45 degrees the orthogonal axis is scaled by the extent of the other axis",
"""
from high_order_layers_torch.utils import positions_from_mesh
out = positions_from_mesh(4, 9, rotations=3, device="cpu", normalize=True)
r = [(q.min().item(), q.max().item()) for q in out]
print(r)
sys.exit(0 if all(abs(a + 1) < 1e-4 and abs(b - 1) < 1e-4 for a, b in r) else 1)
""")

bug("c08-strided-gap", "C08", [("FunctionalConvolutionTranspose.py", """        x = self.poly(x)
        out = self.conv(x)
        return out * self._rescale
""", """        x = self.poly(x)
        # skip entries that are zero anyway
        active = x.abs().amax(dim=(0, 2, 3)) > 1e-3
        out = self.conv(x * active.view(1, -1, 1, 1))
        return out * self._rescale
""")],
 "a transposed convolution whose inputs all lie so close to nodes that a basis function stays below 0.001 in the whole batch without being zero",
 "that basis function is taken for inactive",
"""
from high_order_layers_torch.layers import high_order_convolution_transpose_layers
m = high_order_convolution_transpose_layers("continuous2d", n=2, segments=1, in_channels=1, out_channels=1, kernel_size=1)
with torch.no_grad():
    m.conv.weight.copy_(torch.tensor([[[[0.]]], [[[1000.]]]]))
y = m(torch.full((1, 1, 1, 1), -0.999)).item()
print(y)
sys.exit(0 if abs(y - 0.5) < 1e-2 else 1)
""")

