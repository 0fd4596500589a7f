"""How far the workloads reach: wrap a function of a scratch copy so that it goes wrong only where a setting exceeds a
threshold, and see whether the property's quick check notices.
usage: thresholds.py [substring...] [--t N]   (rows of SPEC whose text contains every substring)"""
import os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
P = "PolynomialLayers.py"
WRAP = '''

def _hol_wrap():
    import functools, torch
    owner = {owner}
    name = {name!r}
    orig = {orig}
    def bend(r):
        if torch.is_tensor(r):
            if not r.is_floating_point():
                return torch.where(r > 0, r - 1, r + 1)
            return r * 1.02 + 0.01
        if isinstance(r, tuple) and hasattr(r, "_fields"):
            return r
        if isinstance(r, (tuple, list)):
            return type(r)([bend(q) for q in r])
        if isinstance(r, int):
            return r + 1
        return r
    def spoil(m):
        with torch.no_grad():
            for p in m.parameters():
                p.mul_(1.02).add_(0.01)
    @functools.wraps(orig)
    def f(*a, **k):
        r = orig(*a, **k)
        self = a[0] if a else None
        if {cond}:
            {act}
        return r
    {put}
_hol_wrap()
'''
OUT = "r = bend(r)"
GRAD = "r.requires_grad and r.register_hook(lambda g: g * 1.02)"
def fwd(cls, f, props, settings, act=OUT, method="forward"):
    return [(props, f, cls, method, s, c, t, act) for s, c, t in settings]
W = "a[0].w"
FC = [("batch", "a[1].shape[0]", 60), ("in", W + ".shape[1]", 24), ("out", W + ".shape[0]", 24)]
PW = FC + [("n", "self._n", 9), ("segments", "self._segments", 40), ("xmax", "(float(a[1].abs().max()) if a[1].numel() else 0)", 1e4)]
SPEC = []
SPEC += fwd("Piecewise", P, "C01", PW)
SPEC += fwd("Piecewise", P, "C05", [(s, "type(self).__name__.endswith('Prod') and " + c, t) for s, c, t in PW])
SPEC += fwd("Piecewise", P, "C09", PW[:-1], GRAD)
SPEC += fwd("Piecewise", P, "C13", [(s, "self.periodicity is not None and " + c, t) for s, c, t in PW])
SPEC += fwd("Piecewise", P, "C11", [(s, c, t / 2) for s, c, t in PW[:-1]], "self._n > 2 and spoil(a[1])", "interpolate")[1:]
SPEC += fwd("Piecewise", P, "C12", [(s, c, t / 2) for s, c, t in PW[:-1]], "spoil(a[1])", "refine")[1:]
SPEC += fwd("Piecewise", P, "C28", [("numel", "a[1].numel()", 200), ("dims", "a[1].dim()", 3), ("n", "self._n", 9), ("segments", "self._segments", 40), ("xmax", "(float(a[1].abs().max()) if a[1].numel() else 0)", 1e4)], OUT, "which_segment")
SPEC += fwd("Piecewise", P, "C28", [("n", "self._n", 9), ("segments", "self._segments", 40)], OUT, "x_local")
SPEC += fwd("Piecewise", P, "C28", [("n", "self._n", 9), ("segments", "self._segments", 40)], OUT, "x_global")
SPEC += fwd("PiecewiseDiscontinuous", P, "C02", PW)
SPEC += fwd("PiecewiseDiscontinuous", P, "C09", PW[:-1], GRAD)
SPEC += fwd("PiecewiseDiscontinuous", P, "C11", [(s, c, t / 2) for s, c, t in PW[:-1]], "spoil(a[1])", "interpolate")[1:]
SPEC += fwd("", P, "C16", [(s, c.replace("a[0]", "L").replace("self", "L").replace("L", "(k.get('layer') or a[0])"), t) for s, c, t in PW[1:-1]], "spoil(k.get('layer') or a[0])", "smooth_discontinuous_layer")
SPEC += fwd("Function", P, "C03", [(s, "type(self).__name__=='Polynomial' and " + c, t) for s, c, t in FC + [("n", "self.n", 9), ("xmax", "(float(a[1].abs().max()) if a[1].numel() else 0)", 1e4)]])
SPEC += fwd("Function", P, "C04", [(s, "type(self).__name__=='FourierSeries' and " + c, t) for s, c, t in FC + [("n", "self.n", 20), ("xmax", "(float(a[1].abs().max()) if a[1].numel() else 0)", 1e4)]])
SPEC += fwd("PolynomialND", P, "C03", FC + [("nodes", W + ".shape[2]", 64), ("n", "max(self.n) if not isinstance(self.n,int) else self.n", 6)])
SPEC += fwd("PiecewiseND", P, "C24", [("batch", "a[1].shape[0]", 60), ("in", "self.in_features", 12), ("out", "self.out_features", 12), ("dims", "self.dimensions", 3), ("n", "max(self.n)", 5), ("segments", "max(self.segments)", 8), ("total", "self.w.shape[2]", 1000)])
SPEC += fwd("", P, "C15", [(s, c, t) for s, c, t in [("out", "a[1]", 24), ("in", "a[2]", 24), ("nodes", "a[0].shape[2]", 100)]], "a[0].data.mul_(1+0.5*torch.rand_like(a[0]))", "constant_random_initialization")
SPEC += fwd("", P, "C15", [("out", "L.w.shape[0]", 12), ("in", "L.w.shape[1]", 12), ("nodes", "L.w.shape[2]", 60), ("segments", "L._segments", 12)], "spoil(k.get('layer_in') or a[0]) or (k.get('layer_in') or a[0]).w.data.mul_(1+0.5*torch.rand_like((k.get('layer_in') or a[0]).w))", "initialize_polynomial_layer")
SPEC = [tuple((q.replace("L.w", "(k.get('layer_in') or a[0]).w").replace("L._seg", "(k.get('layer_in') or a[0])._seg") if i == 5 and r[3] == "initialize_polynomial_layer" else q) for i, q in enumerate(r)) for r in SPEC]
PR = "ProductLayer.py"
SPEC += fwd("Product", PR, "C05", [("batch", "a[1].shape[0]", 60), ("in", "self.in_features", 24), ("out", "self.out_features", 24)])
C = "FunctionalConvolution.py"
CV = [("batch", "a[1].shape[0]", 12), ("channels", "a[1].shape[1]", 8), ("width", "a[1].shape[-1]", 24), ("height", "a[1].dim()==4 and a[1].shape[2]", 24), ("out", "self.conv.out_channels", 12), ("kernel", "self.conv.kernel_size[-1]", 5),
      ("stride", "self.conv.stride[-1]", 3), ("padding", "self.conv.padding[-1]", 3), ("dilation", "self.conv.dilation[-1]", 3), ("groups", "self.conv.groups", 3), ("xmax", "(float(a[1].abs().max()) if a[1].numel() else 0)", 1e4)]
for cls in ("FourierConvolution", "PolynomialConvolution", "PiecewisePolynomialConvolution", "PiecewiseDiscontinuousPolynomialConvolution"):
    SPEC += fwd(cls, C, "C07", CV + [("weights", "self.conv.weight.shape[1]", 100)])
    SPEC += fwd(cls, C, "C09", CV[:5] + [("weights", "self.conv.weight.shape[1]", 60)], GRAD)
SPEC += fwd("PiecewisePolynomialConvolutionTranspose", "FunctionalConvolutionTranspose.py", "C08", CV + [("weights", "self.conv.weight.shape[0]", 100), ("output_padding", "self.conv.output_padding[-1]", 1)])
L = "layers.py"
for cls in ("MaxAbsNormalization", "MaxAbsNormalizationLast", "MaxAbsNormalizationND", "MaxCenterNormalization", "MaxCenterNormalizationLast", "MaxCenterNormalizationND", "L2Normalization", "LazyLayerNormLastDim"):
    SPEC += fwd(cls, L, "C14", [("batch", "a[1].shape[0]", 60), ("dims", "a[1].dim()", 4), ("last", "a[1].shape[-1]", 60), ("mid", "a[1].dim()>1 and a[1].shape[1]", 60), ("xmax", "(float(a[1].abs().max()) if a[1].numel() else 0)", 1e6)])
SPEC += fwd("SwitchLayer", L, "C05", [("batch", "a[1].shape[0]", 60), ("in", "self.in_features", 24), ("out", "self.out_features", 24), ("layers", "len(list(self.parameters()))", 6)])
SPEC += fwd("", L, "C19", [("n", "(k.get('n') or a[0])", 12), ("rotations", "(k.get('rotations') or (a[1] if len(a)>1 else 2))", 12)], "spoil(r[0])", "fixed_rotation_layer")
U = "utils.py"
SPEC += fwd("", U, "C19", [("width", "(k.get('width') or a[0])", 40), ("height", "(k.get('height') or a[1])", 40), ("rotations", "(k.get('rotations') or (a[2] if len(a)>2 else 1))", 12)], OUT, "positions_from_mesh")
S = "sparse_optimizers/sparse_lion.py"
SPEC += fwd("", S, "C10", [("size", "a[0].numel()", 500), ("dims", "a[0].dim()", 3), ("lr", "a[3]", 0.5), ("wd", "a[4]", 0.5), ("pmax", "float(a[0].detach().abs().max()) if a[0].numel() else 0", 1e4)], "a[0].data.add_(0.01)", "update_fn")
N = "networks.py"
NS = [("batch", "a[1].shape[0]", 12), ("in", "a[1].shape[-1]", 12), ("out", "r.shape[-1]", 12), ("layers", "len(self.model)", 12)]
for cls in ("LowOrderMLP", "HighOrderMLP", "HighOrderMLPList"):
    SPEC += fwd(cls, N, "C17", NS)
SPEC += fwd("HighOrderMultiMLP", N, "C17", NS[:3] + [("replicas", "len(self.replica_list)", 4), ("depth", "len(self.replica_list[0].model)", 8)])
SPEC += fwd("", N, "C11", [("layers", "len(a[0].model)", 8), ("in", "next(a[0].parameters()).shape[1]", 6), ("params", "sum(p.numel() for p in a[0].parameters())", 2000)], "spoil(a[1])", "interpolate_high_order_mlp")
SPEC += fwd("", N, "C12", [("layers", "len(a[0].model)", 8), ("in", "next(a[0].parameters()).shape[1]", 6), ("params", "sum(p.numel() for p in a[0].parameters())", 1500)], "spoil(a[1])", "hp_refine_high_order_mlp")
SPEC += fwd("", N, "C16", [("layers", "len(a[0].model)", 8), ("params", "sum(p.numel() for p in a[0].parameters())", 2000)], "spoil(a[0])", "smooth_discontinuous_network")
SPEC += fwd("", N, "C15", [("layers", "len(list(a[0].modules()))", 8), ("params", "sum(p.numel() for p in a[0].parameters())", 2000)], "spoil(a[0])", "initialize_network_polynomial_layers")
NC = [("batch", "a[1].shape[0]", 2), ("channels", "a[1].shape[1]", 5), ("width", "a[1].shape[-1]", 20)]
SPEC += fwd("HighOrderFullyConvolutionalNetwork", N, "C18", NC + [("layers", "len(self.kernel_size)", 4), ("kernel", "max(self.kernel_size)", 5)])
SPEC += fwd("HighOrderFullyDeconvolutionalNetwork", N, "C18", NC + [("layers", "len(self.model)", 6)])
SPEC += fwd("HighOrderTailFocusNetwork", N, "C18", NC + [("layers", "len(self.kernel_size)", 4), ("kernel", "max(self.kernel_size)", 5), ("focus", "max(self.focus)", 8)])
SPEC += fwd("HighOrderTailFocusNetwork", N, "C18", [("length", "(a[1] if len(a)>1 else k['input_size'])", 1000), ("layers", "len(self.kernel_size)", 4)], "r = ([q+1 for q in r[0]], r[1])", "compute_sizes")
SPEC += fwd("VanillaVAE", N, "C21", [("latent", "self.latent_dim", 24), ("batch", "a[1].shape[0]", 40)], OUT, "encode")
SPEC += fwd("VanillaVAE", N, "C21", [("latent", "self.latent_dim", 24), ("batch", "a[1].shape[0]", 40), ("logvar", "(float(a[2].max()) if a[2].numel() else 0)", 8)], OUT, "reparameterize")
SPEC += fwd("VanillaVAE", N, "C21", [("batch", "a[1].shape[0]", 40), ("latent", "a[3].shape[1]", 24), ("weight", "k['M_N']", 10), ("logvar", "(float(a[4].abs().max()) if a[4].numel() else 0)", 12), ("mu", "(float(a[3].abs().max()) if a[3].numel() else 0)", 30)], "r = {q: bend(t) for q, t in r.items()}", "loss_function")
SPEC += fwd("VanillaVAE", N, "C21", [("samples", "(a[1] if len(a)>1 else k['num_samples'])", 40), ("latent", "self.latent_dim", 24)], "r = torch.zeros_like(r)", "sample")
A = "attentions.py"
for cls, extra in (("ScaledDotProductAttention", [("len", "a[2].shape[1]", 20), ("qlen", "a[1].shape[1]", 20), ("dim", "a[1].shape[2]", 32)]), ("DotProductAttention", [("len", "a[2].shape[1]", 20), ("dim", "a[1].shape[2]", 32)]),
                   ("AdditiveAttention", [("len", "a[2].shape[1]", 20), ("dim", "a[1].shape[2]", 32)]), ("LocationAwareAttention", [("len", "a[2].shape[1]", 20), ("dim", "self.hidden_dim", 32)]),
                   ("MultiHeadLocationAwareAttention", [("len", "a[2].shape[1]", 20), ("dim", "self.hidden_dim", 32), ("heads", "self.num_heads", 6)]), ("MultiHeadAttention", [("len", "a[2].shape[1]", 20), ("qlen", "a[1].shape[1]", 20), ("dim", "self.d_head", 16), ("heads", "self.num_heads", 6)]),
                   ("RelativeMultiHeadAttention", [("len", "a[2].shape[1]", 20), ("dim", "self.d_model", 32), ("heads", "self.num_heads", 6)]), ("CustomizingAttention", [("len", "a[2].shape[1]", 20), ("qlen", "a[1].shape[1]", 8), ("dim", "self.hidden_dim", 32), ("heads", "self.num_heads", 6)])):
    SPEC += fwd(cls, A, "C20", [("batch", "a[1].shape[0]", 12)] + extra + [("xmax", "(float(a[1].abs().max()) if a[1].numel() else 0)", 30)])
E_ = "positional_embeddings.py"
SPEC += fwd("ClassicSinusoidalEmbedding", E_, "C25", [("dim", "self.dim", 128), ("numel", "a[1].numel()", 500), ("rank", "a[1].dim()", 3), ("xmax", "(float(a[1].abs().max()) if a[1].numel() else 0)", 1e4)])
M = "modules.py"
for cls in ("ClassificationNet", "RegressionNet"):
    SPEC += fwd(cls, M, "C26", [("batch", "a[1].shape[0]", 12), ("in", "a[1].shape[-1]", 12), ("out", "r.shape[-1]", 8)])
SPEC += fwd("ClassificationMixin", M, "C26", [("batch", "a[1][0].shape[0]", 12)], OUT, "eval_step")
SPEC += fwd("RegressionMixin", M, "C26", [("batch", "a[1][0].shape[0]", 12), ("out", "a[1][1].shape[-1]", 5)], OUT, "eval_step")
B = "Basis.py"
for cls in ("PiecewiseExpand", "PiecewiseExpand1d", "PiecewiseDiscontinuousExpand", "PiecewiseDiscontinuousExpand1d"):
    SPEC += fwd(cls, B, "C27", [("batch", "a[1].shape[0]", 12), ("channels", "a[1].shape[1]", 8), ("width", "a[1].shape[-1]", 24), ("n", "self._n", 9), ("segments", "self._segments", 40), ("xmax", "(float(a[1].abs().max()) if a[1].numel() else 0)", 1e4)], OUT, "__call__")
SPEC += fwd("BasisExpand", B, "C27", [("n", "self.n", 12), ("numel", "a[1].numel()", 500), ("rank", "a[1].dim()", 4)], OUT, "__call__")
LP = "LagrangePolynomial.py"
SPEC += fwd("", LP, "C27", [("n", "a[0]", 20)], OUT, "chebyshevLobatto")
SPEC += fwd("LagrangeBasis", LP, "C27", [("n", "self.n", 12), ("numel", "a[1].numel()", 500), ("rank", "a[1].dim()", 4), ("j", "a[2]", 10)], OUT, "__call__")
for cls, props in (("BasisFlat", "C03"), ("BasisFlatProd", "C05"), ("Basis", "C01"), ("BasisProd", "C05")):
    SPEC += fwd(cls, B, props, [("batch", "a[1].shape[0]", 60), ("in", "a[1].shape[1]", 24), ("n", "self.n", 9)], OUT, "interpolate")
SPEC += fwd("", U, "C13", [("numel", "a[0].numel()", 500), ("rank", "a[0].dim()", 3), ("period", "a[1]", 20), ("xmax", "(float(a[0].abs().max()) if a[0].numel() else 0)/a[1]", 1000)], OUT, "make_periodic")
# any model: C06, C22
for cls, f, m in (("Piecewise", P, "forward"), ("PiecewiseDiscontinuous", P, "forward"), ("Function", P, "forward")):
    SPEC += fwd(cls, f, "C22", [("batch", "a[1].shape[0]", 40), ("in", W + ".shape[1]", 12), ("out", W + ".shape[0]", 12), ("nodes", W + ".shape[2]", 40)], "setattr(self, '_calls', getattr(self, '_calls', 0) + 1); r = r * (1 + 0.01 * self._calls)", m)
    SPEC += fwd(cls, f, "C06", [("in", W + ".shape[1]", 12), ("out", W + ".shape[0]", 12), ("nodes", W + ".shape[2]", 40)], "self.__dict__.setdefault('_k', float(self.w.detach().sum())); r = r + self._k", m)

def main():
    sc = tempfile.mkdtemp(prefix="thr", dir="/tmp")
    repo = sc + "/repo"
    os.makedirs(repo)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {repo}", shell=True, check=True)
    try:
        SH = [int(q) for q in os.environ.get("SHARD", "0/1").split("/")]
        rows = open(os.environ["ROWS"]).read() if "ROWS" in os.environ else ""  # only the rows named in a file
        for ri, row in enumerate(SPEC):
            if ri % SH[1] != SH[0]:
                continue
            props, f, cls, method, s, c, t, act = row
            text = f"{props} {f} {cls or '-'}.{method} {s}"
            if not all(q in text for q in args) or (rows and text not in rows):
                continue
            p = f"{repo}/high_order_layers_torch/{f}"
            src = open(p).read()
            if cls:
                d = dict(owner=cls, name=method, orig=f"owner.{method}", put="setattr(owner, name, f)")
            else:
                d = dict(owner="None", name=method, orig=method, put="globals()[name] = f")
            open(p, "w").write(src + WRAP.format(cond=f"({c}) > {t}" if " and " not in c else f"({c.rsplit(' and ', 1)[0]}) and ({c.rsplit(' and ', 1)[1]}) > {t}", act=act, **d))
            try:
                for prop in props.split():
                    r = subprocess.run(["/opt/venv/bin/python", "run.py", prop, "--tier", "quick"], cwd=VERIF, env=dict(os.environ, HOL_REPO=repo, VERIF_SEED="1"), capture_output=True, text=True)
                    out = (r.stdout + r.stderr).strip().splitlines()
                    n = [l for l in out if "violating case" in l]
                    d = [l for l in out if l.strip().startswith("[")]
                    print(f"{'caught  ' if r.returncode == 1 else 'SURVIVED' if r.returncode == 0 else 'RC%d' % r.returncode} {text} > {t:g}: {n[0] if n else ''} {d[0].strip()[:90] if d else out[-1][:90]}", flush=True)
            finally:
                open(p, "w").write(src)
    finally:
        shutil.rmtree(sc)

main()
