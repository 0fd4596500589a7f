PRE = "import sys, torch, math, copy, random\nimport numpy as np\ntorch.manual_seed(0)\n"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))

bug("c09-frozen-layer", "C09", [("PolynomialLayers.py", """        result = self._poly.interpolate(x_in, w)
        return result
""", """        # A frozen layer takes no part in training
        result = self._poly.interpolate(x_in if self.w.requires_grad else x_in.detach(), w)
        return result
""")],
 "a continuous layer whose weights are frozen while what feeds it is trained",
 "no gradient reaches the input through a frozen layer",
"""
from high_order_layers_torch.PolynomialLayers import PiecewisePolynomial
a = PiecewisePolynomial(n=3, in_features=2, out_features=2, segments=2)
with torch.no_grad(): a.w.normal_()
a.w.requires_grad_(False)
l = torch.nn.Linear(2, 2)
y = a(l(torch.rand(4, 2))).sum()
if not y.requires_grad: sys.exit(1)
y.backward()
sys.exit(0 if l.weight.grad.abs().sum() > 0 else 1)
""")

bug("c28-lookup-rounds-apart", "C28", [("PolynomialLayers.py", """        if self.periodicity is not None:
            x = make_periodic(x, self.periodicity)

        id_min = (
            (((x + self._half) / self._length) * self._segments)
            .clamp(max=self._segments - 1)
            .long()
            .clamp(0, self._segments - 1)
        )
        return id_min
""", """        if self.periodicity is not None:
            x = make_periodic(x, self.periodicity)

        id_min = (
            ((x + self._half) / (self._length / self._segments))
            .clamp(max=self._segments - 1)
            .long()
            .clamp(0, self._segments - 1)
        )
        return id_min
""")],
 "a discontinuous layer asked for the segment of a position on an edge that is not exact in floating point",
 "the segment reported is not the one the layer evaluates",
"""
from high_order_layers_torch.PolynomialLayers import PiecewiseDiscontinuousPolynomial as P
bad = 0
for s in range(1, 60):
    for length in (2.0, 3.0, 0.7):
        a = P(n=2, in_features=1, out_features=1, segments=s, length=length)
        with torch.no_grad(): a.w.copy_(torch.arange(s).repeat_interleave(2).view(1, 1, -1))
        x = (torch.arange(s + 1) / s * length - length / 2).view(-1, 1)
        x = torch.cat([x, torch.nextafter(x, x + 1), torch.nextafter(x, x - 1)])
        bad += (a(x).round().long() != a.which_segment(x)).sum().item()
print(bad)
sys.exit(0 if bad == 0 else 1)
""")

bug("c06-switch-norm-not-saved", "C06", [("layers.py", """        self._normalization = normalization

    @property
    def in_features(self):""", """        self._normalization = getattr(normalization, "forward", normalization)

    @property
    def in_features(self):""")],
 "a switch layer whose normalization is a module with parameters of its own",
 "the normalization's parameters are not part of the layer: they are not saved, loaded, converted or trained",
"""
from high_order_layers_torch.layers import high_order_fc_layers
make = lambda: high_order_fc_layers("switch_continuous", n=3, in_features=2, out_features=4, segments=2, normalization=torch.nn.LayerNorm(4))
a, b = make(), make()
with torch.no_grad():
    for m in (a, b):
        for q in ([m._normalization] if isinstance(m._normalization, torch.nn.Module) else [m._normalization.__self__]): q.weight.normal_()
b.load_state_dict(a.state_dict())
x = torch.rand(5, 2)
sys.exit(0 if torch.allclose(a(x), b(x)) else 1)
""")

bug("c11-third-switch", "C11", [("layers.py", """        for layer1, layer2 in zip(self._layers, layer_out._layers):
            layer1.interpolate(layer2)
""", """        switch, gate = self._layers[0], self._layers[-1]
        switch.interpolate(layer_out._layers[0])
        gate.interpolate(layer_out._layers[-1])
""")],
 "p-refinement of a switch layer built with three or more parts",
 "only the first and last part are refined",
"""
from high_order_layers_torch.layers import high_order_fc_layers
make = lambda n: high_order_fc_layers("switch_continuous", n=n, in_features=2, out_features=2, segments=2, num_input_layers=3)
a, b = make(2), make(4)
with torch.no_grad():
    for p in a.parameters(): p.normal_()
a.interpolate(b)
x = torch.rand(9, 2)
e = (a(x) - b(x)).abs().max().item()
print(e)
sys.exit(0 if e < 1e-4 else 1)
""")

bug("c14-last-of-four", "C14", [("utils.py", "    return x / (max_abs(x, dim=len(x.shape) - 1) + eps)", "    return x / (max_abs(x, dim=min(x.dim() - 1, 2)) + eps)")],
 "a four dimensional input to the last-dimension normalization",
 "images are normalised along their height instead of their last dimension",
"""
from high_order_layers_torch.layers import MaxAbsNormalizationLast
y = MaxAbsNormalizationLast()(torch.rand(2, 3, 4, 5) + 0.1).abs().amax(-1)
print(y.min().item())
sys.exit(0 if y.min().item() > 0.999 else 1)
""")

bug("c13-through-single", "C13", [("utils.py", "    xp = torch.remainder(xp, 2 * periodicity)  # always positive", "    xp = torch.remainder(xp, torch.tensor(2 * periodicity, device=x.device).to(torch.float32)).float()  # always positive\n    xp = xp.to(x.dtype)")],
 "mirror periodicity in double precision, where single precision rounds the folded value",
 "double precision inputs are folded with single precision accuracy",
"""
from high_order_layers_torch.utils import make_periodic
x = torch.tensor([0.1234567890123, 7.3], dtype=torch.float64)
y = make_periodic(x, 2.0)
e = abs(y[0].item() - 0.1234567890123)
print(e)
sys.exit(0 if e < 1e-12 else 1)
""")

bug("c24-many-dimensions", "C24", [("PolynomialLayers.py", """                self.segments[dim + 1 :]
            )""", """                self.segments[dim + 1 : dim + 4]
            )""")],
 "a piecewise layer of five or more dimensions",
 "cells of five dimensional layers share their polynomial with others",
"""
from high_order_layers_torch.PolynomialLayers import PiecewiseND
a = PiecewiseND(n=1, in_features=1, out_features=1, segments=2, dimensions=5)
with torch.no_grad(): a.w.copy_(torch.arange(32.).view(1, 1, 32))
x = torch.tensor([[(i >> (4 - d)) & 1 for d in range(5)] for i in range(32)]) - 0.5
y = a(x.view(32, 1, 5)).flatten()
print(y.tolist())
sys.exit(0 if torch.allclose(y, torch.arange(32.)) else 1)
""")

bug("c10-second-beta-of-call", "C10", [("sparse_optimizers/sparse_lion.py", """        super().__init__(params, defaults)

        self.update_fn = update_fn
""", """        super().__init__(params, defaults)

        self.update_fn = lambda p, grad, exp_avg, lr, wd, beta1, beta2, i: update_fn(
            p, grad, exp_avg, lr, wd, beta1, betas[1], i
        )
""")],
 "parameter groups with a momentum coefficient of their own",
 "the momentum coefficient of a group is replaced by that of the optimizer",
"""
from high_order_layers_torch.sparse_optimizers import SparseLion
p = torch.nn.Parameter(torch.zeros(3))
o = SparseLion([dict(params=[p], betas=(0.5, 0.5))], lr=0.1)
p.grad = torch.ones(3)
o.step()
m = o.state[p]["exp_avg"].tolist()
print(m)
sys.exit(0 if np.allclose(m, 0.5) else 1)
""")

bug("c18-long-focus", "C18", [("networks.py", "                early.append(tail)", "                early.append(tail if self.focus[count] < 32 else x.flatten(1))")],
 "a tail focus network with a focus of 32 or more at a level that is longer than that",
 "long focuses take the whole level",
"""
from high_order_layers_torch.networks import HighOrderTailFocusNetwork as T
n = T(layer_type="continuous1d", n=[2, 2], channels=[1, 1, 1], segments=[2, 2], kernel_size=[1, 1], focus=[3, 33])
y = n(torch.rand(2, 1, 50))
print(y.shape)
sys.exit(0 if y.shape[1] == 86 else 1)
""")

bug("c26-late-labels", "C26", [("modules.py", """        diff = torch.argmax(y_hat, dim=1) - y.flatten()
""", """        diff = (torch.argmax(y_hat, dim=1) - y.flatten()).to(torch.int8)
""")],
 "a classification of more than 256 classes",
 "predictions that are wrong by a multiple of 256 classes count as right",
"""
from types import SimpleNamespace as S
from high_order_layers_torch.modules import ClassificationMixin
log = {}
class M(ClassificationMixin):
    loss = torch.nn.CrossEntropyLoss()
    def __call__(self, x): return x
    def log(self, k, v, **kw): log[k] = float(v)
y = torch.zeros(3, 600); y[0, 5] = y[1, 261] = y[2, 517] = 1
M().eval_step((y, torch.tensor([5, 5, 5])), "train")
print(log)
sys.exit(0 if abs(log["train_acc"] - 1 / 3) < 1e-6 else 1)
""")

bug("c03-short-length", "C03", [("LagrangePolynomial.py", """        return [
            torch.where(X_diff == 0, torch.tensor(1.0, device=self.device), X_diff)
            for X_diff in [Xi.unsqueeze(1) - Xi.unsqueeze(0) for Xi in self.X]
        ]
""", """        return [
            torch.where(X_diff.abs() < 1e-2, torch.tensor(1.0, device=self.device), X_diff)
            for X_diff in [Xi.unsqueeze(1) - Xi.unsqueeze(0) for Xi in self.X]
        ]
""")],
 "an N-dimensional polynomial of a short length or very high order",
 "neighbouring nodes that are close together are taken for the same node",
"""
from high_order_layers_torch.PolynomialLayers import Polynomial2D
a = Polynomial2D(n=3, in_features=1, out_features=1, length=0.01)
with torch.no_grad(): a.w.copy_(torch.arange(9.).view(1, 1, 9))
y = a(torch.tensor([[[0.005, 0.005]]])).item()
print(y)
sys.exit(0 if abs(y - 8) < 1e-3 else 1)
""")

bug("c10-cancelled-steps", "C10", [("sparse_optimizers/sparse_lion.py", """        .sign_()
    )
""", """    )
    update = torch.where(update < 0, -1.0, 1.0).to(update.dtype)
""")],
 "an entry whose momentum and gradient cancel exactly",
 "the entry is stepped downwards although the sign of its direction is zero",
"""
from high_order_layers_torch.sparse_optimizers import SparseLion
p = torch.nn.Parameter(torch.ones(3))
o = SparseLion([p], lr=0.1, betas=(0.5, 0.5))
p.grad = torch.tensor([1.0, 1.0, 1.0]); o.step()
b = p.detach().clone()
p.grad = torch.tensor([-0.5, -2.0, 2.0]); o.step()
print((p - b).tolist())
sys.exit(0 if p[0].item() == b[0].item() else 1)
""")

bug("c10-first-coefficients", "C10", [("sparse_optimizers/sparse_lion.py", """                    *group["betas"],
                    self.state[p],
""", """                    *self.state[p].setdefault("betas", group["betas"]),
                    self.state[p],
"""), ("sparse_optimizers/sparse_lion.py", """                if len(state) == 0:
""", """                if "exp_avg" not in state:
""")],
 "the coefficients of a group are changed after the first step",
 "later steps go on with the coefficients of the first one",
"""
from high_order_layers_torch.sparse_optimizers import SparseLion
p = torch.nn.Parameter(torch.ones(1))
o = SparseLion([p], lr=0.1, betas=(0.9, 0.9))
p.grad = torch.tensor([1.0]); o.step()
o.param_groups[0]["betas"] = (0.0, 0.9)
b = p.item()
p.grad = torch.tensor([-0.1]); o.step()
print(p.item() - b)
sys.exit(0 if p.item() > b else 1)
""")

bug("c24-faces-rounded", "C24", [("PolynomialLayers.py", """            .long()
            .clamp(
                torch.tensor(0""", """            .add(5e-5).long()
            .clamp(
                torch.tensor(0""")],
 "a point a few hundred-thousandths of a cell below a face of an N-dimensional layer",
 "the point is evaluated with the polynomial of the next cell",
"""
from high_order_layers_torch.PolynomialLayers import PiecewiseND
a = PiecewiseND(n=[2, 2], in_features=1, out_features=1, segments=[2, 2])
with torch.no_grad(): a.w.copy_(torch.arange(a.w.numel()).reshape(a.w.shape).float())
lo = a(torch.tensor([[[-1e-3, 0.5]]])).item()
x = a(torch.tensor([[[-4e-5, 0.5]]])).item()
print(lo, x)
sys.exit(0 if abs(lo - x) < 0.5 else 1)
""")

bug("c17-replica-input-kind", "C17", [("networks.py", """                layer_type_in=layer_type_in,
                initialization=initialization,
                dropout=dropout,
            )

            self.replica_list.append(replica_network)
""", """                initialization=initialization,
                dropout=dropout,
            )

            self.replica_list.append(replica_network)
""")],
 "a multi-replica network with another kind of input layer",
 "the replicas' own input layers are of the common kind",
"""
from high_order_layers_torch.networks import HighOrderMultiMLP
m = HighOrderMultiMLP(layer_type="continuous", layer_type_in="discontinuous", n=3, replicas=2, in_width=2, out_width=1, hidden_layers=1, hidden_width=3, in_segments=2, hidden_segments=2, out_segments=2)
k = [type(r.input_layer).__name__ for r in m.replica_list]
print(k)
sys.exit(0 if all("Discontinuous" in q for q in k) else 1)
""")
