"""Public names of the package under test, fetched once."""
import types

ns = types.SimpleNamespace()


def load():
    import high_order_layers_torch.attentions as attentions
    import high_order_layers_torch.Basis as Basis
    import high_order_layers_torch.FunctionalConvolution as conv
    import high_order_layers_torch.FunctionalConvolutionTranspose as convt
    import high_order_layers_torch.LagrangePolynomial as lagrange
    import high_order_layers_torch.layers as layers
    import high_order_layers_torch.modules as modules
    import high_order_layers_torch.networks as networks
    import high_order_layers_torch.PolynomialLayers as poly
    import high_order_layers_torch.positional_embeddings as emb
    import high_order_layers_torch.ProductLayer as product
    import high_order_layers_torch.utils as utils
    from high_order_layers_torch.sparse_optimizers import sparse_lion

    ns.attentions, ns.Basis, ns.conv, ns.convt = attentions, Basis, conv, convt
    ns.lagrange, ns.layers, ns.modules, ns.networks = lagrange, layers, modules, networks
    ns.poly, ns.emb, ns.product, ns.utils = poly, emb, product, utils
    ns.sparse_lion = sparse_lion


def fc(layer_type, **kw):
    return ns.layers.high_order_fc_layers(layer_type=layer_type, **kw)


def conv(layer_type, **kw):
    return ns.layers.high_order_convolution_layers(layer_type=layer_type, **kw)


def convt(layer_type, **kw):
    return ns.layers.high_order_convolution_transpose_layers(layer_type=layer_type, **kw)
