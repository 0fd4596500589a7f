"""Writes properties.jsonl (committed) from the table below."""
import json, os
P = "high_order_layers_torch/"
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[P+f for f in files],
            mechanism=[dict(name=n, where=P+w) for n, w in mech],
            **({"observe_at": observe} if observe else {})))
A = []
A.append(prop("C01","Continuous piecewise layers evaluate the interpolant of their weights",
 "Each output of a continuous piecewise fully connected layer is the sum over inputs of that link's continuous piecewise Lagrange interpolant: the range [-length/2, length/2] is cut into equal segments, the link's weights are the function values at the Chebyshev-Lobatto nodes of every segment from left to right, and neighbouring segments share the weight at their common edge. Beyond either end the first or last segment's polynomial is extended; with a mirror period set, the input is first folded into it. This holds for the current weights whatever was computed or updated before, in any batch size and memory layout, in single and double precision.",
 ["inputs","configurations","histories"],
 "every number of nodes (1 and up), segments, input and output widths, length, mirror period, weight values, finite input batch within a few lengths of the range, and every history of updates",
 "the tests look at output shapes and a few points with default length and equal weights; a wrong segment, node, link or edge only shows for particular inputs, segment counts, lengths or unequal weights",
 ["PolynomialLayers.py","Basis.py","LagrangePolynomial.py"],
 [("segment selection, weight gathering, local coordinate","PolynomialLayers.py Piecewise.forward"),("interpolation with batched weights","Basis.py Basis.interpolate"),("Lagrange basis on Chebyshev-Lobatto nodes","LagrangePolynomial.py LagrangeBasis, chebyshevLobatto")],["layer(x)"]))
A.append(prop("C02","Discontinuous piecewise layers evaluate each segment's own polynomial",
 "Each output of a discontinuous piecewise fully connected layer is the sum over inputs of the link's function, which on every one of the equal segments of [-length/2, length/2] is the Lagrange interpolant of that segment's own n weights at its Chebyshev-Lobatto nodes, segments stored from left to right. An interior edge belongs to the segment on its right; beyond either end the first or last segment's polynomial is extended; with a mirror period set, the input is first folded into it. This holds for the current weights whatever was computed or updated before, in any batch size and memory layout, in single and double precision.",
 ["inputs","configurations","histories"],
 "every number of nodes, segments, widths, length, mirror period, weight values, finite input batch within a few lengths of the range, and every history of updates",
 "tests use shapes and constant initial weights, for which every segment and node gives the same value; edges and far segments are never evaluated with distinct weights",
 ["PolynomialLayers.py","Basis.py","LagrangePolynomial.py"],
 [("segment selection and weight gathering","PolynomialLayers.py PiecewiseDiscontinuous.forward"),("interpolation with batched weights","Basis.py Basis.interpolate")],["layer(x)"]))
A.append(prop("C03","Single-segment polynomial layers interpolate their weights in 1 to 5 dimensions",
 "A polynomial layer's output is the sum over inputs of the Lagrange interpolant, on [-length/2, length/2], of the link's weights taken as function values at the Chebyshev-Lobatto nodes; it extends beyond the range by the same polynomial. The multi-dimensional layers do the same with the tensor product of such nodes, with its own number of nodes per dimension (or one number for all), weights ordered with the last dimension varying fastest. Any polynomial of degree below the node count sampled at the nodes is therefore reproduced everywhere.",
 ["inputs","configurations","histories"],
 "every node count per dimension, dimension 1 to 5, length, widths, mirror period (1-D), weights and finite input batch",
 "tests check shapes of the multi-dimensional layers and one fit; sign, ordering or per-dimension mix-ups only show for unequal node counts, particular parities or non-symmetric weights",
 ["PolynomialLayers.py","LagrangePolynomial.py","Basis.py"],
 [("flat interpolation","Basis.py BasisFlat.interpolate"),("tensor-product basis","LagrangePolynomial.py LagrangeBasisND"),("layers","PolynomialLayers.py Function, Polynomial, PolynomialND, Polynomial2D..5D")],["layer(x)"]))
A.append(prop("C04","Fourier layers evaluate a Fourier series with the given period",
 "A Fourier layer's output is the sum over inputs of one series per link, w0/2 + w1 sin(a) + w2 cos(a) + w3 sin(2a) + w4 cos(2a) + ..., with a = 2*pi*x/length and exactly n coefficients. The output is therefore periodic in every input with period length, linear in the weights, and orthogonal components stay separate. The same series is used by the Fourier embedding and the Fourier convolutions.",
 ["inputs","configurations","histories"],
 "every number of components, length, widths, weights and finite input",
 "tests check output shapes only; a swapped sine and cosine, a wrong frequency for high components or a wrong period passes",
 ["LagrangePolynomial.py","PolynomialLayers.py","Basis.py","positional_embeddings.py"],
 [("basis functions","LagrangePolynomial.py FourierBasis"),("layer","PolynomialLayers.py FourierSeries"),("embedding","positional_embeddings.py FourierSeriesEmbedding")],["layer(x)"]))
A.append(prop("C05","Product, switch and sum layers combine their parts as specified",
 "A product layer outputs prod(1+f) - 1 over its links' functions f minus (1-alpha) times their sum, where f is the weight times the input for the plain product (which then adds its optional bias) and the link's interpolant for the polynomial, continuous and discontinuous product layers. alpha = 1 keeps the linear part, alpha = 0 removes it; with one input and alpha = 1 the product layer equals the corresponding sum layer. A switch layer outputs the element-wise product of its independent sub-layers, passed through its normalization if it has one, and a sum layer the sum of its layers' outputs, however many it is given.",
 ["inputs","configurations","histories"],
 "every layer kind, alpha, bias setting, mirror period, number of switch sub-layers, widths, weights and finite inputs",
 "tests run these layers for shape on near-zero constant weights, where a wrong sign, a missing factor or a dropped input is invisible",
 ["ProductLayer.py","Basis.py","PolynomialLayers.py","layers.py"],
 [("plain product","ProductLayer.py Product.forward"),("product of interpolants","Basis.py BasisProd, BasisFlatProd"),("switch and sum","layers.py SwitchLayer, SumLayer")],["layer(x)"]))
A.append(prop("C06","Saving, loading, copying and converting a model keeps its function",
 "For every layer and network the library builds, everything that determines its output is in its registered parameters, buffers and constructor arguments: loading the saved state into a freshly built model, deep-copying, pickling, or converting to double precision and back gives a model with the same outputs, and training the copy never changes the original. All tensors that receive gradients are listed among the parameters, so optimizers update every trainable weight.",
 ["histories","configurations","inputs"],
 "every layer type, network type and configuration, and every history of training, saving, loading, copying and dtype conversion",
 "tests do not save, reload or copy models; a list of sub-layers that is not registered or a cached tensor that does not follow a reload is invisible to a shape test",
 ["layers.py","networks.py","PolynomialLayers.py","FunctionalConvolution.py","attentions.py"],
 [("sub-layers of sum and switch layers","layers.py SumLayer, SwitchLayer"),("network containers","networks.py HighOrderMLP, HighOrderTailFocusNetwork"),("layer parameters","PolynomialLayers.py Function, Piecewise, PiecewiseDiscontinuous")],["state_dict","parameters()"]))
A.append(prop("C07","High-order convolutions apply one link function per channel and tap",
 "In every 1-D and 2-D convolution (continuous, discontinuous, polynomial, Fourier) the output at a position is the sum over input channels of the group and kernel taps of that link's function of the input value, the function being the one the matching fully connected layer would evaluate with the same nodes, segments, length and (for the polynomial kinds) mirror period; padded taps contribute zero for zero padding. Stride, padding, dilation and groups place the taps as in an ordinary convolution, and asking for a rescaled output divides it by input channels times kernel size squared. Weights are stored channel by channel with each channel's node values (or Fourier coefficients) adjacent.",
 ["inputs","configurations","histories"],
 "every kind, dimensionality, channels, kernel, stride, padding, padding mode, dilation, groups, nodes, segments, length, mirror period, rescale flag, weights, finite input of any size, layout and dtype",
 "tests check shapes on constant weights; channel and basis order, tap placement, edge-of-segment handling and memory layout only matter for unequal weights and particular shapes",
 ["FunctionalConvolution.py","Basis.py","LagrangePolynomial.py"],
 [("expansion of the input","Basis.py PiecewiseExpand(1d), PiecewiseDiscontinuousExpand(1d), BasisExpand"),("channel ordering","FunctionalConvolution.py Expansion1d, Expansion2d"),("convolution and rescale","FunctionalConvolution.py conv_wrapper, *Convolution")],["layer(x)"]))
A.append(prop("C08","High-order transposed convolutions spread one link function per channel and tap",
 "The continuous piecewise transposed 2-D convolution spreads, for every input position, channel and kernel tap, the value of that link's continuous piecewise interpolant of the input value to the output positions an ordinary transposed convolution with the same stride, padding, output padding, dilation and groups would use, and sums. Length, mirror period and output rescaling (division by input channels times kernel size squared) act as in the forward convolution, and the output size is the ordinary transposed-convolution size.",
 ["inputs","configurations","histories"],
 "every channels, kernel, stride, padding, output padding, dilation, groups, nodes, segments, length, mirror period, rescale flag, weights and finite input",
 "the one existing test checks the output shape of a network",
 ["FunctionalConvolutionTranspose.py","FunctionalConvolution.py","Basis.py"],
 [("layer","FunctionalConvolutionTranspose.py PiecewisePolynomialConvolutionTranspose"),("wrapper","FunctionalConvolutionTranspose.py conv_transpose_wrapper")],["layer(x)"]))
A.append(prop("C09","Gradients are exact and only the active segment receives them",
 "Back-propagation through every layer gives the true derivatives of the function it evaluates, with respect to weights and with respect to inputs, and these can be differentiated again. In piecewise layers a sample's gradient reaches, on every link, only the weights of the segment that contains its input (n of them however many segments there are); all other weights of the link get exactly zero, and gradients of a batch are the sum of the gradients of its samples.",
 ["inputs","configurations","histories"],
 "every layer kind and configuration, weights, inputs away from and at segment edges, upstream gradients, batch sizes and accumulation histories",
 "no test inspects gradients; training still appears to work when some weights get no or misplaced gradient",
 ["PolynomialLayers.py","Basis.py","LagrangePolynomial.py","ProductLayer.py","FunctionalConvolution.py"],
 [("weight gathering","PolynomialLayers.py Piecewise.forward, PiecewiseDiscontinuous.forward"),("scatter into the expansion","Basis.py PiecewiseExpand")],["parameter.grad","x.grad"]))
A.append(prop("C10","The sparse Lion optimizer steps only where there is gradient",
 "At every step, an entry whose gradient is exactly zero keeps both its value and its momentum; every other entry is multiplied by (1 - lr*weight decay), moves by lr against the sign of beta1*momentum + (1-beta1)*gradient, and then has momentum beta2*momentum + (1-beta2)*gradient, with momentum starting at zero. Parameters without a gradient are untouched, each parameter group uses its own settings, a closure is evaluated once with gradients enabled and its loss returned, and this holds over any history of steps, learning-rate changes and state saving and loading.",
 ["histories","inputs","configurations"],
 "every sequence of gradients (dense, sparse, zero, absent), parameter shapes, groups, learning rates, betas, weight decays, closures and checkpoint restores",
 "the existing test takes a few steps with one setting; decay, momentum of skipped entries and restored state only show over histories",
 ["sparse_optimizers/sparse_lion.py"],
 [("update","sparse_optimizers/sparse_lion.py update_fn"),("step","sparse_optimizers/sparse_lion.py SparseLion.step")],["optimizer.step()"]))
A.append(prop("C11","Raising the polynomial order preserves the network's function",
 "p-refinement of a piecewise layer, switch layer or network into one with at least as many nodes per segment and the same segments gives a model with the same output on every input, inside and outside the range, and leaves the source unchanged. It works for continuous and discontinuous layers, their product variants, residual networks and normalised networks, for any chain of refinements. A layer with fewer nodes takes the source's values at its own nodes. Layers with different numbers of segments are refused with an error.",
 ["inputs","configurations","histories"],
 "every source configuration (nodes, segments, widths, depth, length, residual, normalisation), target order at least the source's, trained or random weights, and every chain of refinements",
 "tests compare a few networks at a few inputs with default settings",
 ["PolynomialLayers.py","networks.py","layers.py"],
 [("layer interpolation","PolynomialLayers.py interpolate_polynomial_layer"),("network walk","networks.py interpolate_high_order_mlp"),("switch","layers.py SwitchLayer.interpolate")],["interpolate"]))
A.append(prop("C12","Splitting segments preserves the network's function",
 "h- and hp-refinement of a continuous piecewise layer, switch layer or network into one whose segment counts are multiples of the source's and whose node counts are at least the source's gives a model with the same output on every input, inside and outside the range, and leaves the source unchanged; chains of refinements compose. A continuous layer of any other size takes the source's values at its own nodes. Refinement of discontinuous layers is refused with an error and leaves the target's weights as they were.",
 ["inputs","configurations","histories"],
 "every source configuration without a mirror period smaller than its length, every multiple of the segments, every target order at least the source's, every weights, and every chain of refinements",
 "tests compare few networks at few points, with default length and small counts",
 ["PolynomialLayers.py","networks.py","layers.py"],
 [("layer refinement","PolynomialLayers.py refine_polynomial_layer, x_global, x_local, which_segment"),("network walk","networks.py hp_refine_high_order_mlp"),("refusal","PolynomialLayers.py refine_discontinuous_polynomial_layer")],["refine"]))
A.append(prop("C13","Mirror periodicity folds inputs into the range by reflection",
 "With a mirror period p, a layer's output at any x equals its output at the point of [-p/2, p/2] reached by reflecting x at multiples of the range's ends: the function is unchanged inside [-p/2, p/2], even about both ends, and repeats every 2p. This holds for the polynomial, piecewise, product and polynomial convolution layers and for networks given a mirror period, and the folding itself never leaves the range.",
 ["inputs","configurations"],
 "every period, layer kind, finite input within a million periods' float precision, shape and dtype",
 "tests fold no input beyond one period and no negative ones",
 ["utils.py","PolynomialLayers.py","FunctionalConvolution.py","ProductLayer.py"],
 [("folding","utils.py make_periodic"),("use in layers","PolynomialLayers.py forward methods; FunctionalConvolution.py forward methods; ProductLayer.py Product.forward")],["layer(x)"]))
A.append(prop("C14","Normalizations scale each sample by its own extremes and stay in range",
 "Max-abs normalization divides by the largest magnitude plus eps, max-centre normalization subtracts the mid-range and divides by half the range plus eps, and L2 normalization divides by the Euclidean norm plus eps, each over exactly the documented dimension(s): dimension 1 or the one asked for, the last dimension, or the whole sample for the N-dimensional variants. Outputs of the max normalizations lie in [-1, 1], zero samples stay zero (never NaN), samples do not influence one another, and shape and dtype are kept; the function forms and the module forms agree, and the lazily sized layer norm standardises the last dimension.",
 ["inputs","configurations"],
 "every input rank and shape, magnitude (tiny to huge), sign pattern, constant or zero sample, eps and dimension",
 "tests normalise one or two small arrays",
 ["utils.py","layers.py"],
 [("functions","utils.py *_normalization*"),("modules","layers.py MaxAbsNormalization*, MaxCenterNormalization*, L2Normalization, LazyLayerNormLastDim")],["module(x)"]))
A.append(prop("C15","Initial weights make every link the promised simple function",
 "Freshly built polynomial and piecewise fully connected layers (and 2-D polynomial and piecewise convolutions) start with every link a constant: all weights of a link equal, of size at most the weight magnitude divided by the number of inputs (kernel taps times channels for convolutions), drawn independently per link; asking a fully connected layer or MLP for uniform initialization instead draws every weight independently within plus or minus that bound. Linear initialization makes every piecewise link one straight line a*x+b across all its segments with |a| at most the maximum slope times the width-dependent scale and |b| at most the maximum offset, each of either sign and drawn independently per link, throughout a network including its switch layers. The draws use the global random generators, so equal seeds give equal models and different links differ.",
 ["configurations","inputs"],
 "every layer kind, widths, nodes, segments, length, weight magnitude, initialization name, slope, offset, scale function and seed",
 "tests only check that the initializer runs",
 ["PolynomialLayers.py","FunctionalConvolution.py","networks.py"],
 [("constant","PolynomialLayers.py constant_random_initialization; FunctionalConvolution.py constant_random_initialization_conv2d, conv_wrapper"),("linear","PolynomialLayers.py initialize_polynomial_layer; networks.py initialize_network_polynomial_layers")],["parameters()"]))
A.append(prop("C16","Smoothing pulls the two sides of each jump together and nothing else",
 "Smoothing a discontinuous layer (two or more nodes per segment) with factor f moves, at every interior segment edge of every link, the left value by -f/2 and the right value by +f/2 of their difference, so their mean is kept and the jump shrinks by exactly (1-f); f = 1 makes the function continuous, f = 0 changes nothing. Interior node values and the two outer ends are untouched, and the network form applies it to every discontinuous layer and to no other parameter.",
 ["inputs","configurations","histories"],
 "every nodes (2 and up), segments, widths, weights, factor, network of mixed layers and every repetition",
 "tests call it once on one shape",
 ["PolynomialLayers.py","networks.py"],
 [("layer","PolynomialLayers.py smooth_discontinuous_layer"),("network","networks.py smooth_discontinuous_network")],["layer weights"]))
A.append(prop("C17","MLPs compose exactly the layers their configuration asks for",
 "A high-order or low-order MLP applies, in order, an input layer, the requested number of hidden layers and an output layer, each of the requested kind, width, node count (input, hidden and output counts falling back to the common one), segments, scale and mirror period, with normalization, then non-linearity, then dropout between layers and none after the output; residual networks add each later hidden layer's input to its output. Layer-list networks follow their lists, multi-replica networks sum their replicas, and rotation-fed networks put the fixed rotation first. Each output equals that composition and every layer's weights are trainable parameters of the network.",
 ["configurations","inputs","histories"],
 "every layer kind, depth (including none), widths, per-position nodes and segments, scale, mirror period, normalization, non-linearity, residual and dropout setting, weights and inputs",
 "tests build a few networks and check the output shape, which does not depend on what the layers in between do",
 ["networks.py","layers.py"],
 [("MLPs","networks.py LowOrderMLP, HighOrderMLP, HighOrderMLPList, HighOrderMultiMLP, transform_mlp, transform_low_mlp"),("residual sum","layers.py SumLayer")],["network(x)"]))
A.append(prop("C18","Convolutional networks chain their layers and report their sizes",
 "Fully convolutional, deconvolutional and tail-focus networks apply one layer per entry of their configuration with that entry's kind, nodes, segments, channels, kernel, stride and padding, each followed by its normalization if any; the first then pools globally (or not) and flattens, and when it pools its output width is the one it reports. The tail-focus network outputs the last focus positions (all of them where there are fewer) of the raw input and of every intermediate level, followed by the whole last level, flattened and concatenated in that order. The widths and sizes it computes for an input length are exactly those of the tensors it produces.",
 ["configurations","inputs"],
 "every layer list, channels, kernels, strides, paddings, focus lengths, pooling, normalization, input lengths and inputs",
 "tests check the shapes of one or two networks",
 ["networks.py"],
 [("networks","networks.py HighOrderFullyConvolutionalNetwork, HighOrderFullyDeconvolutionalNetwork, HighOrderTailFocusNetwork"),("sizes","networks.py HighOrderTailFocusNetwork.compute_sizes, output_size")],["network(x)"]))
A.append(prop("C19","Rotation layers and rotated mesh coordinates span the promised directions",
 "The fixed rotation layer outputs every input itself and, for every pair of inputs, the pair's coordinates along each of the requested evenly spaced rotations and the axis orthogonal to it, scaled (when normalizing) so that inputs in [-1,1] give outputs in [-1,1]; its width is n + n(n-1)(rotations-1) and its weights never receive gradient. Mesh positions of a grid with sides of at least two contain, for every rotation, one coordinate per grid point along the rotated axis and one along the axis orthogonal to it, each affine in the grid coordinates and filling exactly [-1,1] when normalized and [-m/2, m/2] otherwise, m being the larger side.",
 ["configurations","inputs"],
 "every number of inputs, rotations, normalization setting, grid width and height of at least 2",
 "tests check the number of outputs and one small example",
 ["layers.py","utils.py"],
 [("rotation layer","layers.py fixed_rotation_layer"),("mesh","utils.py positions_from_mesh")],["layer(x)","positions_from_mesh"]))
A.append(prop("C20","Attention outputs are masked convex combinations per sample and head",
 "In every attention module the weights over positions are non-negative and sum to one, the context is the weighted sum of the (projected) values of the same sample and head, and weights follow the documented score: scaled dot product, dot product, additive, location-aware or relative-position. A masked position of a sample gets no weight in that sample and the mask of one sample never affects another; permuting the batch permutes the outputs, and the alignment a module returns can be handed back as the previous alignment of the same samples and heads.",
 ["inputs","configurations","histories"],
 "every batch size, sequence lengths, head count, model width, mask pattern, inputs, parameters and history of fed-back alignments",
 "there are no tests of the attention modules with masks, several samples or values",
 ["attentions.py"],
 [("scores and softmax","attentions.py ScaledDotProductAttention, DotProductAttention, AdditiveAttention, LocationAwareAttention"),("head handling","attentions.py MultiHeadAttention, MultiHeadLocationAwareAttention, RelativeMultiHeadAttention, CustomizingAttention")],["module(...)"]))
A.append(prop("C21","The variational autoencoder samples, decodes and scores as a VAE does",
 "Encoding returns the mean and log-variance heads of the flattened encoder output; the latent code is mean plus exp(half log-variance) times standard normal noise, fresh per call and fully determined by the seed; the forward pass returns the decoded code together with the unchanged input, mean and log-variance. The loss is the mean squared reconstruction error plus the given weight times the batch mean of the Gaussian KL divergence, which is never negative, and the reported parts are detached and consistent with it; sampling and generating decode codes of the right shape.",
 ["inputs","configurations","histories"],
 "every encoder and decoder, latent size, batch, mean, log-variance, seed and KL weight",
 "the test runs one forward pass and checks shapes",
 ["networks.py"],
 [("model","networks.py VanillaVAE")],["forward","loss_function","sample","generate"]))
A.append(prop("C22","Layers are pure functions of input and parameters, sample by sample",
 "Evaluating any layer or network (dropout aside, batch norm in evaluation mode) changes neither its input, its parameters nor any global random generator, gives the same result every time, and does so from any number of threads at once and under any interleaving. Every sample's output depends on that sample alone: batches can be split, merged, permuted, repeated, made non-contiguous or evaluated without gradient tracking without changing any sample's result beyond rounding.",
 ["inputs","schedules","histories","configurations"],
 "every layer and network kind and configuration, batch composition, memory layout, call history and concurrent schedule of forward and backward calls",
 "tests call each layer once, on one thread, with one batch",
 ["PolynomialLayers.py","Basis.py","FunctionalConvolution.py","layers.py","networks.py","utils.py","ProductLayer.py"],
 [("forward passes","PolynomialLayers.py, FunctionalConvolution.py, ProductLayer.py, layers.py, networks.py forward methods")],["module(x)"]))
A.append(prop("C23","Invalid requests are rejected with an error, never silently accepted",
 "Unknown layer, convolution, transposed-convolution, model or optimizer names, fewer than one rotation, odd sinusoidal embedding sizes, mismatched segment counts in p-refinement, refinement of discontinuous layers, missing or mismatched dimensions of N-dimensional layers, width lists that do not match the layer list, fewer than two channels, and convolutional-network lists (types, node counts, segments, kernels, channels) whose lengths do not agree all raise an error naming the problem and leave existing objects unchanged. Every documented name builds a working layer of the kind it names.",
 ["inputs","configurations"],
 "every unknown or misspelt name, every documented name, and every out-of-range or mismatched argument of the listed kinds",
 "tests exercise valid configurations only",
 ["layers.py","networks.py","modules.py","PolynomialLayers.py","positional_embeddings.py"],
 [("factories","layers.py high_order_fc_layers, high_order_convolution_layers, high_order_convolution_transpose_layers"),("list validation","networks.py constructors"),("other refusals","PolynomialLayers.py; positional_embeddings.py; modules.py")],["constructors"]))
A.append(prop("C24","N-dimensional piecewise layers evaluate each cell's own tensor polynomial",
 "The N-dimensional piecewise layer cuts the cube of side length into a grid of equal cells with its own segment count per dimension, and outputs the sum over inputs of the tensor-product Lagrange interpolant of the weights of the cell that contains the input point, separately for every input-output link; cells and nodes are ordered with the last dimension fastest, a shared face belongs to the cell on its upper side, and points outside use the nearest cell's polynomial. Gradients reach only the weights of the cells that were hit.",
 ["inputs","configurations","histories"],
 "every dimension, nodes and segments per dimension (lists or a single number), length, widths, weights and finite input points",
 "tests check the output shape with constant weights",
 ["PolynomialLayers.py","LagrangePolynomial.py"],
 [("layer","PolynomialLayers.py PiecewiseND"),("basis","LagrangePolynomial.py LagrangeBasisPiecewiseND")],["layer(x)"]))
A.append(prop("C25","Positional embeddings encode positions by the documented formulas",
 "The sinusoidal embedding of even size d appends to any shape of positions a last dimension holding sin(x*w_k) for k < d/2 followed by cos(x*w_k), with w_k falling geometrically from 1 to 1/10000, so each position's embedding depends on that position alone and each sine-cosine pair has unit norm. The Fourier, piecewise and discontinuous embeddings behave as the fully connected layers of the same kind with the same settings.",
 ["inputs","configurations"],
 "every even size, position shape, finite position, and every setting of the layer-based embeddings",
 "tests check shapes of one embedding",
 ["positional_embeddings.py"],
 [("sinusoid","positional_embeddings.py ClassicSinusoidalEmbedding"),("layer based","positional_embeddings.py FourierSeriesEmbedding, PiecewisePolynomialEmbedding, PiecewiseDiscontinuousPolynomialEmbedding")],["module(x)"]))
A.append(prop("C26","Training modules build the configured model and report the right loss",
 "The classification and regression training modules build the network their configuration describes (input-only high order, fully high order, convolutional, tail focus) with each configured width, node count, segment count, depth and normalization in its place (the normalize flag governs the fully connected models; the convolutional ones always batch-normalize). Training, validation and test steps return, and log under their own names, the cross-entropy and fraction of correct arg-max predictions, or the mean squared error over all elements; the configured optimizer holds every parameter with the configured rate, and the configured scheduler (none, plateau on training loss, exponential) is attached with its settings.",
 ["configurations","inputs","histories"],
 "every model type, layer type, widths, depths, optimizer, scheduler and settings, and every batch",
 "no test drives these modules with other than the sample configurations",
 ["modules.py","networks.py"],
 [("selection","modules.py select_network"),("steps","modules.py ClassificationMixin, RegressionMixin, PredictionNetMixin")],["training_step","configure_optimizers"]))
A.append(prop("C27","Basis functions and input expansions are cardinal, complete and local",
 "Interpolation nodes are n increasing points, symmetric about zero and including both ends (the centre for n = 1), scaled with the length; the i-th Lagrange basis function is one at node i, zero at the other nodes, and the n of them sum to one and reproduce every polynomial of degree below n. The piecewise expansions of an input tensor give, for every element, the basis values of exactly the segment containing it, placed at that segment's positions, and exact zeros elsewhere, in the documented dimension order with the input's dtype.",
 ["inputs","configurations"],
 "every n, segments, length, input shape and layout, and finite input",
 "tests evaluate a couple of basis functions at a couple of points",
 ["Basis.py","LagrangePolynomial.py"],
 [("nodes and basis","LagrangePolynomial.py chebyshevLobatto, LagrangeBasis, LagrangeBasis1, LagrangeBasisND, FourierBasis"),("expansions","Basis.py BasisExpand, PiecewiseExpand, PiecewiseDiscontinuousExpand and their 1d forms; LagrangePolynomial.py *Expand")],["basis(x, j)","expand(x)"]))
A.append(prop("C28","Segment lookup and coordinate maps of the piecewise layers agree with the function they compute",
 "For the piecewise continuous and discontinuous layers, their product forms and the N-dimensional one, which_segment names, for every position of a tensor of any shape, the segment that contains it (the first and last segment extend beyond the range to any distance, and where a mirror period is set the position is folded first); x_local(x, k) maps segment k linearly onto [-length/2, length/2] and x_global is its inverse, for every segment k whether or not it contains x; and the layer's output is the interpolation of the located segment's weights at the local coordinate.",
 ["inputs","configurations"],
 "every n, segments, length, mirror period, tensor shape, segment index and finite position",
 "tests never call these methods except through refinement of one layer",
 ["PolynomialLayers.py"],
 [("lookup","PolynomialLayers.py Piecewise.which_segment, PiecewiseDiscontinuous.which_segment, PiecewiseND.which_segment"),("maps","PolynomialLayers.py x_local, x_global, _eta")],["which_segment(x)","x_local(x, k)","x_global(x, k)","layer(x)"]))
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for a in A:
        f.write(json.dumps(a) + "\n")
print(len(A))
