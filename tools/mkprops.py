"""Writes /verif/properties.jsonl from the table below (kept in Python so that it can be edited readably)."""
import json, os

UTILS = 'src/HGQ/utils/utils.py'
Q = 'src/HGQ/quantizer/quantizer.py'
FPQ = 'src/HGQ/proxy/fixed_point_quantizer.py'
BASE = 'src/HGQ/layers/base.py'
BN = 'src/HGQ/layers/batchnorm_base.py'
DENSE = 'src/HGQ/layers/dense.py'
CONV = 'src/HGQ/layers/conv.py'
MISC = 'src/HGQ/layers/misc.py'
PAS = 'src/HGQ/layers/passive_layers.py'
CVT = 'src/HGQ/proxy/convert.py'
PD = 'src/HGQ/proxy/precision_derivation.py'
LUT = 'src/HGQ/proxy/unary_lut.py'
QK = 'src/HGQ/proxy/plugins/qkeras.py'
BOPS = 'src/HGQ/bops/bops.py'
UT = 'src/HGQ/utils/utils.py'

P = []


def add(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))


add('C01', 'Inference quantization snaps every value onto its grid',
    'Outside training, a heterogeneous quantizer maps every value to an integer multiple of 2^-f, where f is the element\'s fractional bitwidth, first clipped into the configured clip range and then rounded to an integer: the largest multiple not above the value for floor rounding, the nearest one (ties upward) for every other rounding mode. '
    'A bias is quantized by the same rule with the finest fractional bitwidth of its channel. '
    'Quantizing an already quantized value changes nothing.',
    ['inputs', 'configurations'],
    'every value and every real-valued fractional bitwidth (including bitwidths outside the clip range and half-way between integers), every rounding mode, any sharing of bitwidths between elements, quantizer and bias path',
    'Tests only compare whole models against their converted proxies on a few random datasets, so a rounding slip shared by both sides, or hit only at ties, at negative values or at clipped/half-integer bitwidths, is never seen.',
    [Q], [('q_round', Q), ('HGQ.__call__ (clip) / HGQ.forward / HGQ.bias_forward', Q)],
    ['value returned by calling a quantizer', 'bias quantization result', 'fractional bitwidth variable after the call'],
    [('fbw', 'trainable fractional bitwidth per element or group', Q)])

add('C02', 'Training-time rounding never leaves the neighbouring grid points',
    'During training with exact quantized values, floor and standard rounding give exactly the inference value. '
    'Stochastic rounding gives one of the two grid points enclosing the value, the upper one exactly when the uniform draw is below the fractional remainder, so grid values never move. '
    'Noise injection perturbs a value by at most half a grid step and sends every value within half a step of zero to zero.',
    ['inputs', 'configurations', 'histories'],
    'every value, every fractional bitwidth, every outcome of the random draw, every rounding mode',
    'The outcome depends on a random draw; tests train once per seed and look only at the loss.',
    [Q], [('q_round strategies 0..3', Q), ('HGQ.forward', Q)], ['value returned by a quantizer called in training mode'])

add('C03', 'Surrogate gradients are exactly straight-through',
    'In training mode the gradient of a quantizer\'s output with respect to its input is exactly one, and with respect to an element\'s fractional bitwidth it is -ln(2) times the quantization error (quantized minus exact value) summed over the values sharing that bitwidth; a bias sends its bitwidth gradient to the finest bitwidth of its channel. '
    'The reported differentiable bitwidths have gradient one per unit of fractional bitwidth, damped by the inverse square root of the number of values sharing the bitwidth, and damping never changes their value.',
    ['inputs', 'configurations'],
    'every value, every fractional bitwidth, every rounding mode with a deterministic outcome, every sharing pattern of bitwidths',
    'The only gradient test asserts that gradients are non-zero (and treats a missing gradient as non-zero) at one random point.',
    [Q, BASE], [('stop_gradient surrogate in HGQ.forward / bias_forward', Q), ('scale_grad, act_bw, kernel_bw', BASE)],
    ['gradients returned by automatic differentiation through quantizers and layer bitwidths'])

add('C04', 'Recorded ranges are the exact extrema of what was quantized',
    'After any sequence of calls since the last reset, the recorded minimum and maximum of every quantizer element equal the exact extrema of the quantized values that element produced in the calls that recorded. '
    'Calls that do not record leave the record untouched, a reset empties it, and whenever a layer records in a call it records the values before its activation. '
    'This holds for every choice of dimensions that share a bitwidth.',
    ['inputs', 'histories', 'configurations'],
    'every recorded state (one inductive step covers histories of any length), every batch content, every sharing pattern, training and inference calls, recording on and off',
    'Tests always calibrate once on the same data they evaluate on, in one batch, with two sharing patterns.',
    [Q, BASE, DENSE, CONV, MISC], [('record_minmax branch of HGQ.forward', Q), ('minmax_reg_reset', Q), ('HLayerBase.call record flag', BASE)],
    ['recorded min/max variables after a call'], [('_min/_max', 'recorded extrema per quantizer element', Q)])

add('C05', 'Calibrated bitwidths hold the recorded range and are tight',
    'For every recorded range the derived sign, integer and fractional bits describe a fixed-point type that holds, without overflow, every grid value between the recorded minimum and maximum (for a ReLU output: between zero and the maximum), with the sign bit present exactly when a negative value was recorded. '
    'The integer part is minimal: with one integer bit fewer some recorded extreme would not fit, and elements whose range is only zero get zero bits. '
    'A range that was never recorded is refused with an error.',
    ['inputs', 'histories', 'configurations'],
    'every pair of grid values min <= max of up to 20 bits, every integer fractional bitwidth in the default clip range, general and ReLU mode',
    'The tests see a few hundred ranges from Gaussian data; the boundary cases (extremes at powers of two, all-negative ranges, zero ranges, ranges finer than the grid) have measure zero there.',
    [Q], [('HGQ.get_bits_exact (recorded branch)', Q), ('HLayerBase.act_bw_exact', BASE)],
    ['derived (sign, integer, fractional) bits', 'exact activation bitwidth of a layer'])

add('C06', 'Exact weight bitwidths are exact and minimal per weight',
    'For every quantized weight the exact bit count reported is the number of bits between its highest and lowest set bit, its sign flag is set exactly when it is negative, and a zero weight costs zero bits. '
    'The result for one weight does not depend on the other weights in the array.',
    ['inputs'],
    'every array of grid weights of up to 16 significant bits with fractional bitwidths in the supported range',
    'No test looks at weight bit counts except through an upper threshold on the total BOPs of a trained model.',
    [Q, BASE], [('get_arr_bits', Q), ('HGQ.get_bits_exact(ref)', Q), ('HLayerBase.kernel_bw_exact', BASE)],
    ['per-weight (sign, integer, fractional) bits', 'exact kernel bitwidth of a layer'])

add('C07', 'Fixed-point emulation matches ap_fixed for every mode',
    'The fixed-point quantizer used in proxy models equals the reference ap_fixed/ap_ufixed conversion for every input: each of the seven rounding modes, then each of the five overflow modes, on the declared sign, width and integer bits, element by element when these differ between elements. '
    'A zero-width element always yields zero. Values that are already representable are returned unchanged.',
    ['inputs', 'configurations'],
    'every input, every width, integer width and sign, all 35 combinations of rounding and overflow mode, broadcast over elements',
    'Tests exercise TRN/RND/RND_CONV with WRAP/SAT/SAT_SYM on random data that mostly does not overflow; ties, wrap-around and reflection boundaries are not reached and the other modes are never run.',
    [FPQ], [('RND_MAP / SAT_MAP / gfixed_quantizer', FPQ), ('FixedPointQuantizer', FPQ)],
    ['output of the fixed-point quantizer function and layer'])

add('C08', 'A proxy layer reproduces its quantized layer bit for bit',
    'For every input that does not push any quantizer outside its calibrated range, the proxy model computes exactly the outputs of the original quantized model, in wrapping and in saturating overflow mode. '
    'This holds for dense, convolution, batch-norm-fused, addition, pooling, reshaping, concatenation, quantization and ReLU/linear activation layers, for every rounding strategy, for per-element as well as shared bitwidths (including elements pruned to zero bits), with and without bias.',
    ['inputs', 'configurations'],
    'every in-range input of the analysed models (inputs on a fine grid), over a family of layer types, rounding strategies, granularities and bitwidth assignments',
    'Tests compare both models only on the calibration samples themselves, with random bitwidths; rounding ties and range boundaries are missed.',
    [CVT, BASE, Q, FPQ], [('ProxyLayerXFormer', CVT), ('fused_qkernel / fused_qbias / can_bias_cover_rnd', BASE), ('get_bits_exact', Q), ('gfixed_quantizer', FPQ)],
    ['outputs of the proxy model against outputs of the quantized model'])

add('C09', 'Proxy conversion preserves the dataflow of the network',
    'The converted model wires the same computation as the original: every output, in its original order and count, is the same function of the inputs, in their original order. '
    'This includes layers applied several times, layers with several inputs where argument order matters, branches, several inputs and outputs, nested models (flattened), dropout and linear activations (removed).',
    ['inputs', 'programs'],
    'every input, over a family of network topologies',
    'Tests convert two fixed topologies with a single input and a single output; a mix-up of edges that only shows for reused layers, non-commutative merges or several outputs is out of reach.',
    [CVT], [('solve_dependencies / _get_out_tensor / apply_layer / Namer', CVT), ('convert_model', CVT)],
    ['outputs of the converted model for symbolic inputs'])

add('C10', 'Quantized layers compute the stock layer on quantized weights',
    'At inference a quantized dense or convolution layer equals the corresponding stock Keras layer applied to the kernel quantized element by element and the bias quantized per channel, followed by output quantization and then the activation. '
    'Quantized addition equals the sum of its inputs and a quantized activation the activation of its input, followed by output quantization. '
    'The input-independent options (strides, padding, dilation, groups, bias on/off) mean what they mean in Keras.',
    ['inputs', 'configurations'],
    'every input, every kernel, bias and bitwidth assignment (symbolic), over a family of layer options',
    'Model and proxy share the weights path in the tests, so an error in it cancels; no test compares with an independently quantized stock layer.',
    [DENSE, CONV, MISC, BASE], [('jit_forward / forward', DENSE), ('convolution_op / jit_forward', CONV), ('HAdd, HActivation, HQuantize', MISC)],
    ['layer output at inference'])

add('C11', 'Fused batch normalization is consistent between training and inference',
    'At inference a batch-norm-fused layer scales its kernel by gamma/sqrt(moving variance+epsilon) and shifts by bias minus the scaled moving mean plus beta, before quantization (scaling off: scale one; centering off: shift by the bias alone). '
    'In training it computes the same function with the batch mean and variance in place of the moving ones, so that with moving statistics equal to the batch statistics both modes agree. '
    'Each training call moves the moving statistics to momentum times the old value plus (1-momentum) times the batch statistic of the layer\'s linear output (mean including the bias; computed with the unquantized kernel, or the quantized one when scaling is off), and inference calls never change them.',
    ['inputs', 'histories', 'configurations'],
    'every input batch, every weight, scale, shift and statistics value (over the reals), centering and scaling on or off, dense and convolution',
    'Tests only run fused layers with freshly initialised normalization parameters (zero shift, unit variance).',
    [BN, DENSE, CONV], [('fused_kernel / fused_bias', BN), ('bn_train_jit_forward', DENSE), ('bn_train_jit_forward', CONV)],
    ['layer output in training and inference mode', 'moving statistics after a call'])

add('C12', 'BOPs count every multiplication once at its operand widths',
    'The exact BOPs of a dense or convolution layer equal the sum, over all multiplications the layer performs, of input bitwidth times weight bitwidth, for convolution scaled to the declared number of parallel kernel applications out of all output positions; other layers cost zero. '
    'The layer\'s published BOPs value is the returned one; during a forward pass it is the same sum over the differentiable bitwidths, and the layer\'s regularization loss is its strength times that. '
    'The model totals reported after calibration and by the training callback are the sums over all layers, including those in nested models for the callback.',
    ['inputs', 'configurations'],
    'every assignment of input and weight bitwidths (symbolic), over a family of layer shapes, strides and paddings',
    'Tests only assert an upper threshold on the BOPs of one trained model.',
    [DENSE, CONV, BASE, BOPS], [('compute_exact_bops', DENSE), ('compute_exact_bops', CONV), ('FreeBOPs._bops, trace_minmax total', BOPS)],
    ['returned BOPs', 'published BOPs variable', 'callback log entry'])

add('C13', 'Bitwidth bookkeeping follows the data through passive layers',
    'For every layer that only moves data (reshape, flatten, permute, concatenate, dropout) the bitwidth reported for an output element is that of the input element it carries; pooling reports the maximum over the pooled window. '
    'Exact and differentiable bitwidth reports agree with each other.',
    ['inputs', 'configurations'],
    'every assignment of input bitwidths (symbolic), over a family of layer options and shapes',
    'No test inspects reported bitwidths of passive layers; they only influence BOPs, which are only compared with a threshold.',
    [PAS], [('PLayerBase.act_bw / act_bw_exact and overrides', PAS)], ['reported activation bitwidths of passive layers'])

add('C14', 'Lookup tables reproduce the activation on every representable input',
    'For every input representable in the table\'s declared input type, a unary lookup table returns the activation of exactly that input, converted to the declared output type with the declared rounding and overflow mode; signed and unsigned inputs, integer-only and fraction-only types included. '
    'Replacing an activation by a table during proxy conversion happens only within the requested table size and does not change the proxy model\'s outputs.',
    ['inputs', 'configurations'],
    'every representable input of every declared input type up to 7 bits, arbitrary activation values',
    'Tests evaluate tables on whatever values random data happens to hit, for four activations.',
    [LUT, CVT], [('UnaryLUT.call / from_activation', LUT), ('xfr_to_unary_lut', LUT)], ['table layer output', 'proxy model outputs with and without tables'])

add('C15', 'Derived containers and type names are exact and minimal',
    'The fixed-point container derived for an array of values holds every value exactly, and no container with fewer fractional bits, fewer integer bits or without the sign bit does (an all-zero array gets one unsigned bit). '
    'The name of a fixed-point type gives its sign, its total width, its integer bits including the sign bit and its modes; parsing a name gives the same sign, integer and fractional bits back, for every non-empty type, whatever rounding and overflow mode is attached.',
    ['inputs'],
    'every array of up to four values with up to 16 significant bits and magnitudes between 2^-30 and 2^30; every precision triple within +-64 bits',
    'These helpers have no tests of their own.',
    [PD, UT], [('get_arr_container', PD), ('tuple_to_apf / apf_to_tuple', UT)], ['derived (sign, integer, fractional) triple', 'type string'])

add('C16', 'Precisions propagated for synthesis lose no bit and change no value',
    'The precision derived for the output of a layer holds every value the layer can produce from inputs of the declared precision (dense and convolution with bias, addition, subtraction, dot products, concatenation, max pooling, average pooling over power-of-two windows, reshaping, activations, quantizers). '
    'Merging an available with a requested precision keeps every bit that consumers which truncate or round half up can use, for values that do not overflow them. '
    'Registering precisions for synthesis covers every layer, never changes what the proxy model computes, and computing with each result held in its registered types gives the same outputs for every input inside the calibrated ranges.',
    ['inputs', 'configurations'],
    'every input precision and every input value of that precision (symbolic), over the supported layer kinds',
    'The path is off by default and no test enables it.',
    [PD, CVT], [('get_produced_kif, get_request_kif, merge_precision', PD), ('register_qconf', PD)],
    ['registered precisions', 'proxy model outputs before and after registration'])

add('C17', 'Saving and restoring a configuration preserves the function',
    'A layer rebuilt from its own saved configuration and given the same weights computes the same outputs in inference and training, has the same rounding strategy, quantizer granularity, regularization strength and parallelism, and saves the same configuration again. '
    'This holds whether the layer is rebuilt by from_config, from the JSON form of the native format, or by saving and loading a model in HDF5 (then with the saved weight values), and no configuration passed in is altered on the way. '
    'The same holds for proxy quantizer and table layers, whose modes, widths and overrides come back.',
    ['inputs', 'configurations'],
    'every input and weight value (symbolic, on a grid), over 38 layer configurations with non-default options of every option, and 6 proxy layers; training compared for the deterministic rounding strategies',
    'Tests save and load models built almost only from default options and compare predictions on the sample data.',
    [BASE, BN, DENSE, CONV, MISC, PAS, FPQ, LUT], [('get_config / from_config', BASE)],
    ['outputs of original and rebuilt layer', 'saved configuration'])

add('C18', 'QKeras models convert to bit-identical proxy models',
    'For QKeras activations quantized to fixed-point bits (signed, unsigned, symmetric; unit scale; at least one bit besides the sign) and for quantized ReLU (plain, leaky or bounded), the proxy layers produced in saturating mode compute, for every input, exactly what the QKeras quantizer computes. '
    'In wrapping mode symmetric quantizers and plain quantized ReLU still saturate like QKeras, and the others agree on every input that does not overflow them. '
    'Converted dense, convolution and separable convolution layers carry exactly the quantized kernels and bias, and in saturating mode a converted model computes exactly what the QKeras model computes.',
    ['inputs', 'configurations'],
    'every input and every kernel and bias value, over all small bit/integer combinations and a family of layers and models',
    'One fixed model, on random data, with three quantizer configurations.',
    [QK, FPQ], [('qkeras_quantizer_to_layers', QK), ('qlayer_to_keras_layer', QK), ('qlayer_to_proxy_layer', QK)], ['output of converted layers and models against the QKeras originals'])

add('C19', 'Calibration covers the whole dataset however it is batched',
    'Tracing a dataset records exactly the extrema of the quantized values over all its rows, independent of batch size and of a trailing partial batch, and on top of earlier traces when no reset is requested. '
    'A cover factor scales the half-width of each recorded range about its centre and snaps to the grid: one leaves the range unchanged, a larger factor never loses a recorded value. '
    'Softmax outputs are always given the range 0 to 1, and sigmoid and tanh ranges never exceed 0 to 1 and -1 to 1; tracing switches recording off again, so later inference leaves the ranges alone, and predictions returned by it are those of every row in order.',
    ['inputs', 'histories', 'configurations'],
    'every dataset content on a grid (symbolic) of up to 4 rows, batch sizes below, at and above the length, every cover factor on a grid, sequences of traces with and without resets, nested models and several inputs',
    'Tests always trace in a single batch with factor 1.',
    [BOPS], [('trace_minmax', BOPS), ('ResetMinMax', BOPS)], ['recorded ranges after tracing'])

add('C20', 'The differentiable bitwidth estimate never undercounts',
    'For every weight tensor and every recorded activation range, the differentiable bitwidth used for the training-time resource loss is at least the exact bitwidth derived after training for the same values, is never negative, and is zero for groups that are entirely zero. '
    'For weights it never exceeds the bits that the largest weight of the group needs on the grid; for activations it exceeds the exact width by at most one bit.',
    ['inputs', 'configurations'],
    'every weight value, recorded range and fractional bitwidth within the stated magnitude bounds, every sharing pattern',
    'No test compares the two estimates.',
    [Q, BASE], [('HGQ.get_bits', Q), ('kernel_bw, _kernel_bw, act_bw', BASE)], ['differentiable against exact bitwidths'])

add('C21', 'Quantizer granularity matches the requested shared dimensions',
    'For every tensor shape and every way of naming shared dimensions, a quantizer holds exactly one bitwidth per combination of the unshared dimensions, and its degeneracy is the number of values sharing one bitwidth (an unknown batch size counting as one). '
    'Each value is quantized with the bitwidth of its own group. '
    'Initial kernel bitwidth adaptation sets the bitwidth of each group to the configured initial one less the base-2 logarithm of the largest magnitude in the group, so that every group keeps the same number of significant bits for its largest weight.',
    ['inputs', 'configurations'],
    'every shape (symbolic dimensions up to 1024) up to rank 5, every named sharing mode and every explicit set of dimensions, every weight on a grid',
    'Tests use two sharing modes on a handful of shapes.',
    [Q, BASE], [('_compute_bw_shape_and_degeneracy', Q), ('adapt_bw_bits', Q), ('init_quantizers', BASE)], ['bitwidth variable shape', 'degeneracy', 'adapted bitwidths'])

add('C22', 'Training follows the configured objective and configuration',
    'In a training pass the regularization loss of a model is, for every quantized layer, its strength times its BOPs estimate plus the configured regularizer of each of its quantizers on the bitwidths of that quantizer, each exactly once, besides the weight regularizers Keras adds; with strength zero each bitwidth is pulled by its own regularizer alone. '
    'Trained are the kernels, biases, batch-norm parameters and bitwidths and nothing else; the bitwidths of a quantizer configured as not trainable, or of a frozen layer, are not, but still quantize. '
    'A layer without a configuration of its own uses the default in effect when it was created, whatever happens to the default or to copies of it later; a default with missing or unknown options is refused. '
    'Automatic rounding rounds half up where one bias per bitwidth can absorb the half step (and in activation layers) and truncates elsewhere. The declared parallelism (a dense layer on several positions: all of them, unless declared) is handed to synthesis.',
    ['inputs', 'configurations', 'histories'],
    'every value of the bitwidths in the stated box for each network; every input and bitwidth on a grid for layers created in histories of up to five changes of the defaults; every granularity and bias option for automatic rounding',
    'No test looks at the losses or at the set of trained variables; a lost or doubled term only changes how fast bitwidths shrink.',
    [BASE, UTILS, DENSE, CONV], [('init_quantizers', BASE), ('HLayerBase.__init__', BASE), ('can_bias_cover_rnd', BASE), ('set_default_kq_conf', UTILS), ('forward (add_loss)', DENSE)], ['model.losses', 'trainable variables', 'quantizer outputs'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as fh:
        for p in P:
            fh.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
