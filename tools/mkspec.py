"""Writes properties.jsonl and MANIFEST.json from the table below: python3 tools/mkspec.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, S, K, M = "stream/gen.py", "stream/shuffle.py", "kernel/", "metric/metric.py"
U = "kernel/utils.py"
H, I, C = "histories", "inputs", "configurations"
P = []


def p(pid, title, statement, over, text, why, files, mech, observe, method, note):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files.split(), mech=mech, observe=observe,
                  method=method, note=note))


p("C01", "Number sequences are complete, ordered and reproducible",
  "A number generator of width w yields 2^w integers of the requested number type: a permutation of 0..2^w-1 for every kind except the feedback shift register, which "
  "yields a maximal sequence over 1..2^w-1 whose last number repeats the first; counting kinds ascend or descend by one. The low-discrepancy kind starts at 0, has one "
  "number in each of the 2^k equal intervals in every aligned block of 2^k numbers, is the named Sobol dimension, and different dimensions differ. "
  "Names ignore case, repeated requests return the same sequence, and the same random seeds rebuild it, whatever was drawn before, while other seeds give another random sequence.",
  [C, H], "every kind of generator, width, dimension, number type that holds 2^w-1 exactly, and random seed",
  "The test plots one width for a few kinds; no assertion, so a repeated or missing number passes.",
  G, [("RNG", G), ("get_lfsr_seq, get_sysrand_seq", G)], ["the sequence returned"],
  "property-based testing: permutation, order, period and stratification invariants, and a written-out Sobol model", "")
p("C02", "Binary encoding is the nearest integer of the value",
  "A source value v is encoded in width w as the integer nearest to v*2^w (unipolar) or (v+1)/2*2^w (bipolar), so decoding recovers v within half a step of the grid and "
  "values on the grid exactly. Shape is kept, the type is the requested number type, and the source is not changed.",
  [I, C], "every source tensor in the range of the mode, width, mode, and number type that holds 2^w exactly",
  "The test prints one encoded tensor; rounding direction, ends of the range and other types are not asserted.",
  G, [("BinGen", G)], ["the integers returned"],
  "property-based testing against a double-precision model", "Exact halves may round either way.")
p("C03", "Bitstream generation compares with the sequence; full periods are exact",
  "The generated bit is 1 exactly when the encoded number exceeds the sequence number at the requested cycle, modulo the length of the sequence, for a common cycle or one "
  "cycle per element, in any order of requests. Hence over any full period of a permutation sequence each stream holds exactly the encoded number of ones and decodes to the "
  "encoded value, and the bits are 0 or 1 in the requested bit type.",
  [I, C, H], "every number, sequence, order of cycles beyond the period, start, tensor shape, and type",
  "The test looks at one stream from cycle 0 with one generator and prints the error.",
  G, [("BSGen.forward", G)], ["the bits returned at each cycle"],
  "property-based testing: raw comparison model and encode-stream-decode round trip", "")
p("C04", "Scaling raw data clips at the quantiles and fits it into -1..1",
  "Raw data are clipped at the lower and upper quantile, cut off equally on both sides, and divided by the larger magnitude of the two: the result keeps order, type and "
  "shape, lies in -1..1 without nan, and reaches magnitude 1 when nothing is cut off. Scaling all data by a common factor changes nothing.",
  [I, C], "every data tensor (one-sided, sparse, constant, heavy-tailed) and quantile in 0..1",
  "The test prints one normal sample; one-sided, constant and sparse data are not reached.",
  G, [("RawScale", G)], ["the scaled data"],
  "property-based testing against a double-precision model, with metamorphic relations (order, scale, negation)",
  "A quantile between two samples is only as exact as single precision makes it.")
p("C05", "Skewed synchroniser conserves ones",
  "The skewed synchroniser passes its second stream through unchanged, and re-times the ones of its first stream so that they coincide with ones of the second: it never "
  "creates a one, at every cycle it has withheld between 0 and 2^depth-1 ones, it withholds a one that meets a 0 whenever there is room, and releases a withheld one at the "
  "first cycle where the second stream alone is 1.",
  [H, C], "every pair of bitstreams of every length and tensor shape, every depth and bit/counter dtype",
  "The test feeds one pair of values and prints the result; nothing is asserted, saturation of the counter is not reached.",
  S, [("SkewedSync.forward", S)], ["the two output streams"],
  "model-based property-based testing of bit histories", "")
p("C06", "Bipolar/unipolar conversion keeps the value of a stream",
  "Converting a bipolar stream to unipolar emits, until its counter first clips, exactly as many ones as the running maximum of (ones minus zeros), floored at 0, and "
  "thereafter what a counter clipped at plus and minus 2^(depth-2) emits. Converting a unipolar stream to bipolar emits at every cycle a total of floor((ones + cycles)/2) "
  "ones, so its bipolar value is the unipolar value.",
  [H, C], "every stream of every length and shape, counter depth and type",
  "The tests print the error of one value; counter clipping and short histories are not asserted.",
  S, [("Bi2Uni.forward", S), ("Uni2Bi.forward", S)], ["the output stream"],
  "model-based property-based testing of bit histories, with a closed form of the count", "")
p("C07", "Scaled addition loses nothing",
  "With the default scale (the number of inputs) and an accumulator deep enough, at every cycle the output stream has emitted exactly floor(total ones in / number of inputs) "
  "ones, in both modes and along whichever dimension is added, so the output is the mean of the inputs to within one bit.",
  [H, C], "any number of input streams, dimension, mode, tensor shape, stream length and type, with accumulator range at least twice the number of inputs",
  "The test sums random values over one dimension and prints an error; the count at every cycle is never compared.",
  K + "add.py", [("FSUAdd.forward", K + "add.py")], ["the output stream"],
  "property-based testing against a conservation law", "")
p("C08", "Addition of any scale follows its accumulator, which saturates symmetrically",
  "The adder accumulates the count of input ones, less the bipolar offset (entry - scale)/2, emits a 1 whenever the accumulator reaches the scale and subtracts the scale "
  "then, with the accumulator held within plus and minus 2^(depth-2) after each change. Scale and entry are those given at the first call if any, else those of the "
  "configuration, else the number of inputs (scale: the entry), and stay fixed from then on; parallel counts are accepted in place of bits.",
  [H, C], "every scale, entry, depth (saturating ones included), mode, dimension, history of inputs, way of giving scale and entry, and type",
  "The tests use one scale and a deep accumulator; saturation, fractional scales and runtime scales are not reached.",
  K + "add.py", [("FSUAdd.forward", K + "add.py")], ["the output stream"],
  "model-based property-based testing of bit histories", "")
p("C09", "Multiplication by a constant is conditional bit generation",
  "Multiplying a stream by a constant k/2^w emits, for an input 1, the comparison of k with a sequence that advances only on input ones, and in bipolar mode for an input 0 "
  "the inverted comparison with one that advances only on input zeros. So in unipolar mode every 2^w input ones give exactly k ones, no output 1 meets an input 0, and "
  "multiplying by 0 and 1 is exact.",
  [H, C, I], "every constant on the grid, width, mode, sequence, tensor shape, stream history longer than a period, and type",
  "The test multiplies one random pair for one period and prints an error.",
  K + "mul.py", [("FSUMul.FSUMul_forward_static", K + "mul.py")], ["the output stream"],
  "model-based property-based testing of bit histories, and exact counts", "")
p("C10", "Multiplication of two streams samples the second stream's window",
  "Multiplying two streams compares, at each cycle, the number of ones among the last 2^w bits of the second stream before this cycle (initially alternating) with a "
  "sequence that advances only on ones of the first stream, and in bipolar mode for zeros of the first stream with the inverted comparison against one that advances only on zeros. "
  "In unipolar mode no output 1 meets an input 0.",
  [H, C], "every width, mode, sequence, pair of streams longer than the window, tensor shape, and type",
  "The test multiplies one random pair and prints an error.",
  K + "mul.py " + K + "shiftreg.py", [("FSUMul.FSUMul_forward_in_stream", K + "mul.py"), ("ShiftReg", K + "shiftreg.py")], ["the output stream"],
  "model-based property-based testing of bit histories", "")
p("C11", "The divider core replays its last quotient bits",
  "Whenever the divisor bit is 1 the quotient bit is the dividend bit and is remembered; whenever it is 0 the quotient bit is the remembered bit the sequence selects, and "
  "the memory is not changed.",
  [H, C], "every register size (a power of two), sequence, pair of streams, tensor shape, and type",
  "The core has no test of its own; the division test prints errors of whole divisions.",
  K + "div.py " + K + "shiftreg.py", [("CORDIV_kernel.forward", K + "div.py")], ["the quotient stream"],
  "model-based property-based testing of bit histories", "")
p("C12", "Division computes the quotient in both modes",
  "The divider's output at every cycle is what the published composition gives: synchronise the dividend to the divisor and divide bit by bit; in bipolar mode split off "
  "signs, convert magnitudes to unipolar, divide, convert back and apply the exclusive-or of the signs. For a dividend not above the divisor in magnitude, a full period of "
  "encoded values decodes to the quotient within a few bits of noise.",
  [H, C, I], "every mode, counter depth, register size, sequence, pair of streams, tensor shape, and type",
  "The test sweeps some values at one configuration and prints errors; nothing is asserted.",
  K + "div.py", [("FSUDiv.forward, bipolar_forward, unipolar_forward", K + "div.py")], ["the quotient stream and its value"],
  "model-based property-based testing of bit histories, and accuracy against real division", "")
p("C13", "Square root computes the root for every method",
  "The square-root unit's output at every cycle is what the published feedback composition gives, for the divider-based, flip-flop-based and emission-based methods and both "
  "modes; a full period of an encoded value decodes to the square root within the method's bias.",
  [H, C, I], "every mode, method, register size, sequence, stream, tensor shape, and type",
  "The test sweeps values at one configuration and prints errors.",
  K + "sqrt.py", [("FSUSqrt.forward and the methods it selects", K + "sqrt.py")], ["the output stream and its value"],
  "model-based property-based testing of bit histories, and accuracy against the real square root", "The emission register is addressed as in the current code: index 0.")
p("C14", "Sign and magnitude follow the running sum",
  "The sign output is 1 exactly when the running sum of the bipolar stream, held by a counter of the configured depth that saturates and starts in the middle, is negative; "
  "the magnitude output is the input bit, inverted when the sign is 1.",
  [H, C], "every depth, stream long enough to saturate the counter, tensor shape, and type",
  "The test prints one run; saturation and sign changes are not asserted.",
  K + "signabs.py", [("FSUSignAbs.forward", K + "signabs.py")], ["the two output streams"],
  "model-based property-based testing of bit histories, and a closed form while unsaturated", "")
p("C15", "Stream ReLU clips negative values and keeps positive ones",
  "The stream ReLU emits a 1 when its input is 1 or when the counter of its own output (saturating, of the configured depth, starting in the middle) is below the middle, so no input 1 "
  "is lost and the output never falls below bipolar zero by more than the counter allows. A full period of an encoded value decodes to max(0, value) within a few bits.",
  [H, C, I], "every depth, stream, tensor shape, and type",
  "The test sweeps values at one depth and prints errors; counter saturation is not asserted.",
  K + "relu.py", [("FSUReLU.forward", K + "relu.py")], ["the output stream and its value"],
  "model-based property-based testing of bit histories, and accuracy against max(0, x)", "")
p("C16", "Hard activations compute their linear pieces",
  "The stream hard sigmoid emits at every cycle a total of floor((ones + cycles)/2) ones, that is (x+1)/2, and the stream hard tanh passes the stream through. Their binary "
  "counterparts compute clip((scale*x+3)/6, 0, 1), clip(x, -1, 1) and clip(x, 0, scale), with the slope of the linear piece as gradient inside it and 0 outside.",
  [I, H, C], "every stream, mode, depth that does not saturate, tensor shape and type; every binary value, scale and type",
  "There is no test of the activations apart from the recurrent cell.",
  K + "sigmoid.py " + K + "tanh.py " + K + "relu.py",
  [("FSUHardsigmoid, HUBHardsigmoid", K + "sigmoid.py"), ("FSUHardtanh, HUBHardtanh", K + "tanh.py"), ("HUBReLU", K + "relu.py")],
  ["the output stream; the binary output and gradient"],
  "property-based testing against closed forms of value and gradient", "")
p("C17", "JK flip-flop truth table",
  "Starting from 0, each element of the flip-flop holds its state on J=K=0, resets on K alone, sets on J alone and toggles on both, and outputs the new state.",
  [H, C], "every pair of streams, tensor shape, and type",
  "The test prints one run.",
  K + "jkff.py", [("JKFF.forward", K + "jkff.py")], ["the output stream"],
  "model-based property-based testing of bit histories", "")
p("C18", "Shift register is a queue with a per-element enable",
  "Each call returns the bit at the requested index, 0 being the oldest, and the number of ones held, both before the new bit is taken in; then the new bit replaces the oldest in each element "
  "that the mask enables (all without a mask), and other elements stay as they are. The register starts with alternating bits 0, 1 from its oldest slot.",
  [H, C], "every sequence of masked and unmasked shifts with any index, entry count, tensor shape, and type",
  "The test prints one run without a mask.",
  K + "shiftreg.py", [("ShiftReg.forward", K + "shiftreg.py")], ["the bit and the count returned"],
  "stateful property-based testing against a queue per element", "")
p("C19", "Stream linear layer counts products and adds them at scale",
  "At every cycle the output of the stream linear layer is the scaled, saturating accumulation of the count of ones over input features of (input times weight) in each output, plus the bias "
  "stream, each weight sequence advancing on its own input as for multiplication by a constant; scale defaults to the number of addends, and a scale and entry given at the first call are those of the adder. Decoded "
  "over a period, the layer computes the float product divided by the scale.",
  [H, C, I], "every layer size, batch, mode, weights and bias on the grid, generator, scale (configured or per call), depth, stream history, and input values",
  "The test runs one configuration and prints errors; saturation, bias and other generators are not asserted.",
  K + "linear.py " + K + "add.py", [("FSULinear, FSULinearPC", K + "linear.py")], ["the output stream, the parallel count and the decoded value"],
  "model-based property-based testing of bit histories, and accuracy against the float layer", "")
p("C20", "Stream convolution counts products over each window",
  "At every cycle the output of the stream convolution is the scaled, saturating accumulation of products over each window of the padded image plus the bias stream, for any "
  "kernel, stride, padding and dilation per axis; bipolar padding is a stream of value zero and unipolar padding of zeros; a scale and entry given at the first call are those of the adder. Decoded over a period, the layer computes the float "
  "convolution divided by the scale.",
  [H, C, I], "every geometry, image, channels, batch, mode, weights and bias on the grid, generator, scale, depth, and stream history",
  "The only test takes too long to run here and uses one square geometry.",
  K + "conv.py " + K + "add.py", [("FSUConv2d, FSUConv2dPC", K + "conv.py")], ["the output stream, the parallel count and the decoded value"],
  "model-based property-based testing of bit histories, and accuracy against the float convolution", "")
p("C21", "Hybrid unary-binary layers multiply by counting",
  "Each product of a hybrid layer is the product of the signs times the count of ones that the early-stopped temporal operand and the sampled operand share, and the layer sums "
  "products, scales by the powers of two of the operands and adds the bias. Both operands are quantised to sign and magnitude of the width with the scale "
  "that follows from quantile and rounding, and a full run is within the sequence's discrepancy of the exact product.",
  [I, C], "every layer size and geometry, width, generator pair, quantile, rounding, early-stop cycle, data magnitude, sequence of calls",
  "The tests run one size with one generator pair and print errors.",
  K + "linear.py " + K + "conv.py " + U, [("HUBLinear, HUBLinearFunction", K + "linear.py"), ("HUBConv2d", K + "conv.py"), ("rshift_offset", U)], ["the layer output"],
  "property-based testing against a table model of shared ones", "Equal widths for input and weight; different widths are a recorded finding.")
p("C22", "Fixed-point layers quantise, saturate and multiply",
  "The fixed-point layers round each operand to a multiple of its power-of-two step, saturate its magnitude to 2^width-1 steps, multiply and sum, scale back and add the bias; the "
  "scales follow from quantile and rounding mode of the current input and weight. Without saturation the error is at most half a step per operand.",
  [I, C, H], "every layer size and geometry, both widths, quantile, rounding, data magnitude, sequence of calls",
  "The tests print errors of one configuration.",
  K + "linear.py " + K + "conv.py " + U, [("FXPLinear, FXPLinearFunction", K + "linear.py"), ("FXPConv2d", K + "conv.py"), ("rshift_offset", U)], ["the layer output"],
  "property-based testing against a double-precision model", "")
p("C23", "Table-lookup fixed-point layers cut digits and truncate at early stop",
  "The table-lookup layers on fixed-point data quantise both operands to their widths, split the temporal operand into digits of the configured size, limit each digit to the early-stop cycle count, and multiply: "
  "without early stop the result is the product of the truncated operands. With a floating-point operand beside the fixed-point one, that operand is used as it is.",
  [I, C], "every layer size and geometry, temporal operand, widths, digit size, cycle count, quantile, rounding, data magnitude",
  "The tests print errors of few configurations.",
  K + "linear.py " + K + "conv.py " + U, [("TLUTLinear, TLUTLinearFXPFunction", K + "linear.py"), ("TLUTConv2d", K + "conv.py")], ["the layer output"],
  "property-based testing against a double-precision model", "")
p("C24", "Table-lookup float layers keep the mantissa without early stop",
  "The table-lookup layers on floating-point data cut the mantissa of the temporal operand into digits, limit each digit to the early-stop cycle count and multiply; without early "
  "stop the result is the float product of the two operands in their format, and exponents, signs and zeros are kept exactly.",
  [I, C], "every layer size and geometry, float format, temporal operand, digit size, cycle count, data magnitude",
  "The tests print errors of few configurations.",
  K + "linear.py " + K + "conv.py", [("TLUTLinearFPFunction", K + "linear.py"), ("TLUTConv2d", K + "conv.py")], ["the layer output"],
  "property-based testing against a double-precision model", "")
p("C25", "Binary layers train with straight-through gradients",
  "The gradients that the hybrid, fixed-point and table-lookup layers give for input, weight and bias are those of the float linear layer or convolution with the same data.",
  [I, C], "every layer kind, size, geometry, configuration, data and output gradient, one or more calls",
  "No test computes a gradient of these layers.",
  K + "linear.py " + K + "conv.py", [("backward of HUBLinearFunction, FXPLinearFunction, TLUTLinear...Function", K + "linear.py")], ["the gradients"],
  "differential property-based testing against the gradients of the float layer", "")
p("C26", "Convolution and linear layers agree where they coincide",
  "A convolution whose kernel covers the whole image, or is a single pixel, gives what the linear layer of the same kind, configuration and weights gives, for stream layers "
  "bit by bit and for hybrid, fixed-point and table-lookup layers within rounding.",
  [I, C, H], "every layer kind, configuration, size, data, stream history",
  "Tests run each layer by itself.",
  K + "linear.py " + K + "conv.py", [("FSUConv2d, HUBConv2d, FXPConv2d, TLUTConv2d", K + "conv.py")], ["the outputs of the two layers"],
  "differential property-based testing of two implementations", "")
p("C27", "Binary gated unit computes the published recurrence",
  "The minimal gated cell computes forget = sigmoid(hardtanh(W_f [h, x] + b_f)), new = tanh(W_n [forget*h, x] + b_n), next = hardtanh(new - forget*new + forget*h) with the hard or the usual "
  "sigmoid and tanh and a zero hidden state by default, and its gradients are its derivatives. The fixed-point cell does the same with every operand and intermediate rounded to the given integer and fraction widths; new "
  "cells have the documented shapes and bounded initial weights.",
  [I, C, H], "every size, weights, inputs, number of steps, hidden state, integer and fraction width",
  "The only test takes minutes and prints errors.",
  K + "rnn.py " + U, [("HardMGUCell", K + "rnn.py"), ("HardMGUCellFXP", K + "rnn.py")], ["the hidden state and the gradients"],
  "property-based testing against a double-precision model", "The fixed-point cell runs with the float shifts of older PyTorch put back; that it fails without is a recorded finding.")
p("C28", "Stream gated unit is the composition of its units",
  "The stream minimal gated cell emits at every cycle what the composition of stream linear layers, hard sigmoid, multiplications and scaled addition emits; the "
  "hybrid cell returns, per recurrent step, the hidden state that this network decodes to after a whole period.",
  [H, C, I], "every size, weights, biases, hidden value, input streams, counter depths, number of recurrent steps",
  "The only test takes minutes and prints errors.",
  K + "rnn.py", [("FSUMGUCell.forward", K + "rnn.py"), ("HUBMGUCell.forward", K + "rnn.py")], ["the output stream; the hidden state"],
  "model-based property-based testing of bit histories", "")
p("C29", "Fixed-point rounding is to nearest with saturation",
  "Rounding to i integer and f fraction bits gives the nearest multiple of 2^-f, saturated symmetrically to magnitude 2^i - 2^-f, in the type of the input; it is idempotent and its gradient passes straight through.",
  [I, C], "every value, ties included, width pair, tensor shape and float type",
  "The test prints one tensor (and does not pass in this environment).",
  U, [("Round, RoundSTE", U)], ["the rounded tensor and the gradient"],
  "property-based testing against a double-precision model", "Runs with the float shifts of older PyTorch put back; that it fails without is a recorded finding.")
p("C30", "Weight clipper puts weights and biases on the grid",
  "Each call of the clipper puts every weight and bias of the module on the grid of the bit width within the range of the mode: next to the weight clipped to that range or, in the first call of a clipper "
  "of frequency 1, stretched to fill it (constant data are clipped). The order of the weights stays, and clipping again changes nothing.",
  [I, C, H], "every layer with or without bias, weights (constant ones included), mode, method, width, frequency, number of calls",
  "No test covers the clipper.",
  U, [("NN_SC_Weight_Clipper", U)], ["weight and bias of the module"],
  "property-based testing: grid, range, distance and order invariants", "The first call at frequency 1 normalises and later ones clip, as the code's frequency counter does.")
p("C31", "Convolution geometry helpers agree with the convolution",
  "The computed output shape of a convolution or transposed convolution is the shape the framework's own layer produces, for numbers, pairs and per-side paddings, and the "
  "computed padding is one that produces the requested output shape.",
  [I], "every image, kernel, stride, dilation, padding, output padding",
  "No test covers the helpers.",
  U, [("conv2d_output_shape, convtransp2d_output_shape, conv2d_get_padding, convtransp2d_get_padding, num2tuple", U)], ["the shape and padding returned"],
  "differential property-based testing against PyTorch's convolutions", "")
p("C32", "Correlation is the published stochastic correlation",
  "The correlation metric of two streams is the stochastic cross correlation of their overlap counts at every moment it is read: 1 for maximal overlap, -1 for minimal, 0 for independent "
  "counts, symmetric, within -1..1; with a single stream it correlates the stream with its own one-cycle delay. Reading changes nothing.",
  [H, I], "every pair of streams, tensor shape, type, length, and moments of reading",
  "The test prints one pair.",
  M, [("Correlation.Monitor, Correlation.forward", M)], ["the metric returned"],
  "property-based testing against an exact integer formula", "")
p("C33", "Progressive error is running value minus reference",
  "At every moment it is read, the progressive error metric returns the value of the bits monitored so far (their mean, or twice the mean less one in bipolar mode) and that value less the source "
  "divided by the scale and clipped to -1..1. Monitoring and reading change neither stream nor source, and reading twice gives the same.",
  [H, I, C], "every source, scale, mode, stream, tensor shape, type, and moments of reading",
  "The test prints one run.",
  M, [("ProgError.Monitor, ProgError.forward", M)], ["the two tensors returned"],
  "property-based testing against exact counts", "")
p("C34", "Stability is the share of cycles after the last excursion",
  "The stability metric is one minus the fraction of cycles up to and including the last one at which the progressive error exceeded the threshold, floored and bounded to 0..1, per element, at "
  "every moment it is read.",
  [H, I, C], "every source, scale, mode, threshold, stream, tensor shape, type, and moments of reading",
  "The test prints one run.",
  M, [("Stability.Monitor, Stability.forward", M)], ["the stability returned"],
  "property-based testing against an exact history model", "Elements whose error comes within rounding of the threshold are left out.")
p("C35", "Elements of a tensor do not influence each other",
  "A tensor of streams is processed element by element: any subset or permutation of elements, or of batch rows of a layer, run through an instance of the same configuration "
  "by itself, gives the bits (and metrics) it gives among the others.",
  [I, H, C], "every streaming unit, layer, metric and generator, tensor shape, subset, history",
  "Tests process one tensor at a time and never compare.",
  "kernel/add.py kernel/mul.py kernel/div.py kernel/sqrt.py kernel/linear.py kernel/conv.py kernel/shiftreg.py kernel/signabs.py kernel/relu.py kernel/jkff.py stream/gen.py stream/shuffle.py metric/metric.py",
  [("broadcast state of the streaming units", K + "mul.py")], ["the outputs per element"],
  "metamorphic property-based testing (subset, permutation)", "")
p("C36", "Number types change nothing but the type",
  "Choosing other types for bits, counters and random numbers changes no bit of any streaming unit's output, as long as they hold the counts exactly, and outputs come in the bit type asked for. Bits that arrive in another type than the configured one are taken for their values. Constants, weights, biases, sources and data in another type that holds them give the same results, where that type is taken.",
  [C, H], "every streaming unit, stream, and combination of integer and float types wide enough",
  "Tests use one type each.",
  "kernel/add.py kernel/mul.py kernel/div.py kernel/sqrt.py kernel/shiftreg.py kernel/signabs.py kernel/relu.py kernel/jkff.py stream/gen.py stream/shuffle.py",
  [("stype, btype, rtype of each unit", "stream/gen.py")], ["the output streams and their types"],
  "metamorphic property-based testing (change of type)", "")
p("C37", "Instances are deterministic and isolated",
  "The same history through two instances of the same configuration gives the same outputs, whatever other instances do in between, and a deep copy continues as the original would. "
  "Construction and use leave configurations, inputs, weights and sources as they were, later changes of a configuration have no effect on an existing instance, a caller may reuse its input tensors for the next cycle, and results "
  "already returned do not change with later use.",
  [H, C], "every unit, stream layer, cell, metric and generator, interleaving, moment of copying",
  "Tests build one instance and run it once.",
  "kernel/add.py kernel/mul.py kernel/div.py kernel/sqrt.py kernel/linear.py kernel/conv.py kernel/rnn.py stream/gen.py stream/shuffle.py metric/metric.py",
  [("hwcfg and swcfg copies, state of each unit", "kernel/add.py")], ["outputs, configurations and inputs"],
  "stateful property-based testing of interleaved instances", "")
p("C38", "Unsupported configurations and inputs are refused",
  "A mode, generator name, number format, quantile, rounding, type, shape, grouping or padding mode that a component does not support is refused with an exception at construction or first use, not "
  "silently taken for another; every supported name is accepted in any case.",
  [C, I], "every component and every single corruption of a valid configuration",
  "Tests only use valid configurations.",
  "kernel/add.py kernel/mul.py kernel/div.py kernel/sqrt.py kernel/linear.py kernel/conv.py kernel/rnn.py kernel/utils.py stream/gen.py metric/metric.py",
  [("assertions and the ValueError of unknown names", "stream/gen.py")], ["the exception"],
  "negative property-based testing by corrupting valid configurations", "Any exception counts as a refusal.")
p("C39", "Composed networks compute what their float counterparts compute",
  "A stream network of linear layers, activations, multipliers and adders decodes after a full period to what the float network computes, within the resolution of the "
  "width; so do the hybrid gated cell, and the hybrid and table-lookup layers against float layers.",
  [I, C], "networks of random size, width, activation and weights, on the recommended sequences",
  "Tests run single kernels and assert nothing.",
  "kernel/linear.py kernel/relu.py kernel/sigmoid.py kernel/add.py kernel/mul.py kernel/rnn.py kernel/conv.py metric/metric.py",
  [("FSULinear with FSUReLU, FSUHardsigmoid, FSUHardtanh", K + "linear.py")], ["decoded values"],
  "differential property-based testing against float networks, within stated tolerances",
  "Tolerances are about twice what dense sweeps showed.")
p("C40", "Reports print the statistics they name; initial weights are truncated normal",
  "The outlier report prints minimum, maximum and the percentage of elements outside -1..1, and the error report prints range, deviation, mean and root mean square of the value and error that the metric "
  "holds, without changing it. Truncated normal initialisation keeps shape and type, stays within two deviations of the mean and follows that distribution.",
  [I, C], "every tensor, monitored stream, report option, mean and deviation",
  "Tests print reports that nobody reads.",
  U, [("tensor_unary_outlier, progerror_report, truncated_normal", U)], ["the printed numbers; the initial tensor"],
  "property-based testing of printed numbers against a double-precision model, and a Kolmogorov-Smirnov bound", "")
SIM = "The RTL is run by harness/sv.py, a two-state simulator of the subset used here, itself checked against these models; modules outside the subset are reported as not decided."
RTLWHY = "No test simulates the RTL; its testbenches print waveforms and check nothing, and no simulator is part of the build."
p("C41", "RTL number generators produce their sequences",
  "Each Sobol generator module of hw (3 to 10 bits, and its copies beside the kernels) gives, as its k-th enabled value since reset within the first period, the k-th point of Sobol dimension 1 in its "
  "own width, starting at 0, holds its value while enable is 0, and every further aligned period again visits each number once. The Gray counter gives the Gray code of the cycle. The Halton generators give "
  "the digit reversal of the cycle number in base 2, 3 or 5 (bases 3 and 5 one cycle later) and repeat after base^digits cycles. Asynchronous reset restarts any of them at any time.",
  [H, C], "every generator module, enable pattern, length, power-up state of registers, and time of reset", RTLWHY,
  "hw/stream/old/SobolRNGs/ hw/stream/old/SobolRNG/SobolRNGDim1.sv hw/stream/old/GrayCode/grayCode.sv hw/stream/old/HaltonSeq2/HaltonSeq2.sv hw/stream/old/HaltonSeq3/HaltonSeq3.sv hw/stream/old/HaltonSeq5/HaltonSeq5.sv",
  [("SobolRNGDim1_*b", "hw/stream/old/SobolRNGs/"), ("HaltonSeq*, ModCnt*", "hw/stream/old/HaltonSeq3/")], ["output ports at each clock cycle"],
  "property-based testing of simulated RTL against digit-reversal and Gray-code models", SIM)
p("C42", "RTL converters, synchronisers, sign, magnitude and JK flip-flop",
  "At every clock since reset: SkewedSync passes in1 through and re-times the ones of in0, withholding one that meets a 0 while fewer than 2^DEP-1 are withheld and releasing one when in1 alone is 1; SkewedSyncInt "
  "does so with numbers, withholding all while in1 is 0 and then releasing as much as out0 holds, losing nothing below 2^DEP-1. Uni2Bi has emitted floor((ones+cycles)/2) of the earlier cycles. Bi2Uni emits when "
  "ones minus zeros minus emitted ones of the earlier cycles is positive, as long as the deficit stays within 2^(DEP-1). Sign is 1 when the earlier ones minus zeros, in a counter clipped at -2^(DEP-1) and 2^(DEP-1)-1, "
  "is negative, and Abs gives the input XOR that sign. JKFF holds, sets, clears or toggles one cycle later. Reset restarts them at any time.",
  [H, C], "every input history, counter depth, power-up state of registers, and time of reset", RTLWHY,
  "hw/stream/shuffle/SkewedSync.sv hw/stream/shuffle/Bi2Uni.sv hw/stream/shuffle/Uni2Bi.sv hw/stream/shuffle_int/SkewedSyncInt.sv hw/kernel/sign/Sign.sv hw/kernel/abs/Abs.sv hw/kernel/jkff/JKFF.sv",
  [("proc_cnt, proc_diff_acc, proc_in_acc", "hw/stream/shuffle/"), ("JKFF", "hw/kernel/jkff/JKFF.sv")], ["output ports at each clock cycle"],
  "model-based property-based testing of simulated RTL", SIM)
p("C43", "RTL stream dividers",
  "At every clock since reset: CORDIV_kernel's quotient is the dividend bit when the divisor is 1 and else the quotient of DEP-randNum cycles ago, the quotients before reset being 0,1,0,1...; ISCBDIV_U is that kernel "
  "behind the skewed synchroniser; ISCBDIV_B divides magnitudes converted to unipolar, converts the quotient back and restores the sign of the operands' signs combined. GDIV_U and GDIV_B compare a saturating counter, "
  "reset to half, with the random number, and count up for the dividend and down for quotient times divisor (bipolar: XNOR products, with the divisor also delayed one cycle), opposite requests cancelling. Reset restarts them at any time.",
  [H, C], "every dividend, divisor and number history, depth parameters, power-up state of registers, and time of reset", RTLWHY,
  "hw/kernel/div/CORDIV_kernel.sv hw/kernel/div/ISCBDIV_U.sv hw/kernel/div/ISCBDIV_B.sv hw/kernel/div/GDIV_U.sv hw/kernel/div/GDIV_B.sv",
  [("CORDIV_kernel", "hw/kernel/div/CORDIV_kernel.sv"), ("ISCBDIV_B", "hw/kernel/div/ISCBDIV_B.sv"), ("GDIV_B", "hw/kernel/div/GDIV_B.sv")], ["the quotient port at each clock cycle"],
  "model-based property-based testing of simulated RTL", SIM)
p("C44", "RTL stream square roots",
  "At every clock since reset: BISQRT_S_JK_U outputs 1 while its flip-flop is set and the input otherwise, the flip-flop being set for one cycle by an output 1 (bipolar: by the unipolar conversion of the input). "
  "BISQRT_S_IS_U and _B insert ones likewise, driven by the correlated divider fed every other cycle. BISQRT_O_U and _B emit the non-scaled sum of the input and the output gated by its inverse of 1 to DEP_SR cycles before. "
  "GSQRT_U and _B compare a saturating counter with the random number, counting up for the input and down for the output times its previous value. Reset restarts them at any time.",
  [H, C], "every input and number history, depth parameters, power-up state of registers, and time of reset", RTLWHY,
  "hw/kernel/sqrt/BISQRT_S_JK_U.sv hw/kernel/sqrt/BISQRT_S_JK_B.sv hw/kernel/sqrt/BISQRT_S_IS_U.sv hw/kernel/sqrt/BISQRT_S_IS_B.sv hw/kernel/sqrt/BISQRT_O_U.sv hw/kernel/sqrt/BISQRT_O_B.sv hw/kernel/sqrt/GSQRT_U.sv hw/kernel/sqrt/GSQRT_B.sv",
  [("BISQRT_*", "hw/kernel/sqrt/"), ("GSQRT_*", "hw/kernel/sqrt/")], ["the out port at each clock cycle"],
  "model-based property-based testing of simulated RTL", SIM)
p("C45", "RTL multipliers, adders and multiply-accumulate units",
  "uMUL gives, for the k-th one of its stream since reset, whether the stored number exceeds the k-th Sobol point (bipolar: for the k-th zero, whether it does not), so a full period yields the product; tMUL does so for the "
  "number of cycles loaded. uSADD has emitted, at every cycle, floor(all ones so far / inputs); uNSADD emits while twice the earlier ones less (inputs-1) per cycle (unipolar: nothing) exceeds twice the emitted, within its 10-bit counters. "
  "parallelCnt counts ones, mux, or and full adders, binary adders, multipliers, accumulators and the data buffer compute their functions with their latency, and uMAC is uMUL followed by the adder. Reset restarts them at any time.",
  [H, I], "every input history, operand, load time, power-up state of registers, and time of reset", RTLWHY,
  "hw/kernel/old/uMUL_uni/uMUL_uni.sv hw/kernel/old/uMUL_bi/uMUL_bi.sv hw/kernel/old/tMUL_uni/tMUL_uni.sv hw/kernel/old/uSADD/uSADD16.sv hw/kernel/old/uNSADD/uNSADD8.sv hw/kernel/old/parallelCnt/parallelCnt15.sv hw/kernel/old/MAC16/",
  [("uMUL_uni, uMUL_bi", "hw/kernel/old/uMUL_bi/uMUL_bi.sv"), ("uSADD16, parallelCnt15", "hw/kernel/old/uSADD/"), ("uMAC_*", "hw/kernel/old/MAC16/")], ["output ports at each clock cycle"],
  "model-based property-based testing of simulated RTL", SIM)

p("C46", "RTL and simulator agree",
  "A unit that exists both as RTL and as simulator class gives the same output bits for the same input streams from reset: skewed synchroniser, trace-based unipolar square root, unipolar divider with one history bit, "
  "multiplication by an 8-bit number and scaled adder in the same cycle; bipolar/unipolar converters, flip-flop, sign and non-scaled unipolar adder with the RTL one register later - as long as no counter of limited depth clips on one side only. "
  "The Sobol module of w bits gives, in its first period, the numbers of the simulator's Sobol generator of width w, dimension 1.",
  [C, H], "every input history, depth parameter, constant and power-up state of registers", "No test runs the RTL, and none compares the two; agreement is what makes results of the simulator say anything about the hardware.",
  "hw/stream/shuffle/SkewedSync.sv hw/kernel/div/ISCBDIV_U.sv hw/kernel/sqrt/BISQRT_S_JK_U.sv hw/kernel/old/uMUL_bi/uMUL_bi.sv hw/kernel/old/uSADD/uSADD16.sv stream/shuffle.py kernel/mul.py kernel/add.py kernel/div.py kernel/sqrt.py",
  [("uMUL_bi", "hw/kernel/old/uMUL_bi/uMUL_bi.sv"), ("FSUMul.forward", "kernel/mul.py"), ("SkewedSync", "hw/stream/shuffle/SkewedSync.sv")], ["RTL output ports at each clock cycle", "output tensor of forward"],
  "differential property-based testing of simulated RTL against the Python unit", SIM)

p("C47", "Only the values of operands matter",
  "Whatever the memory layout of inputs, weights, biases, hidden states and sources (transposed, strided, offset or expanded views), whether weights and sources track gradients, with gradients enabled or not, in "
  "training or evaluation mode, and whatever the global seed, and whether operands are given in full or once for the elements they are common to, a component of deterministic configuration gives the same outputs for the same values.",
  [H, C], "every unit, stream layer, cell, metric, generator, binary layer and activation, and every such way of giving the same values",
  "Tests give contiguous tensors in default mode.",
  "kernel/add.py kernel/mul.py kernel/div.py kernel/sqrt.py kernel/linear.py kernel/conv.py kernel/rnn.py kernel/utils.py kernel/relu.py kernel/sigmoid.py kernel/tanh.py stream/gen.py stream/shuffle.py metric/metric.py",
  [("FSUConv2dPC, HUBConv2d.forward", K + "conv.py"), ("BSGen", "stream/gen.py")], ["outputs of the call"],
  "metamorphic property-based testing (same values, other tensors)", "")
p("C48", "A run stopped early is accurate to its length",
  "With Sobol sequences, a stream computation that is stopped after any number m of cycles decodes to the float result with an error of order log2(m)/m, plus the rounding of operands to the grid: for generation, multiplication by "
  "a constant, scaled addition, stream linear layers and convolutions, at most the number of powers of two in the cycle counts of its operands (and one bit of the adder), over m.",
  [C, H], "every operand value, width, mode, dimension, layer size and stopping cycle", "Tests run whole periods, and print errors.",
  "stream/gen.py kernel/mul.py kernel/add.py kernel/linear.py kernel/conv.py metric/metric.py",
  [("FSULinearPC", K + "linear.py"), ("BSGen", "stream/gen.py"), ("ProgError", "metric/metric.py")], ["ProgError after each cycle"],
  "property-based testing against the float result with a discrepancy bound", "")
p("C49", "Trainable layers compute with their current parameters",
  "After parameters change, in place, by replacement, by a training step or by loading a checkpoint, the hybrid, fixed-point and table-lookup layers and the gated cells give what a new layer with these parameters gives, "
  "for batches of any size; a checkpoint (state_dict) loaded into another layer of the configuration makes it give the same; weights and biases are registered parameters, which an optimiser moves by their gradients.",
  [H, C], "every trainable layer and cell, configuration, and sequence of runs and parameter changes", "Tests build a layer, run it once, and never change its weights.",
  "kernel/linear.py kernel/conv.py kernel/rnn.py kernel/utils.py",
  [("HUBLinear, FXPLinear, TLUTLinear forward", K + "linear.py"), ("HardMGUCell", K + "rnn.py")], ["outputs and parameters after each step"],
  "stateful property-based testing against newly built layers", "")
p("C50", "Layers respect the symmetries of their operation",
  "Rearranging the inputs of a layer together with the columns of its weights changes nothing; rearranging its outputs, hidden elements or batch rows, exchanging height and width, or mirroring image and kernel together "
  "(where the windows cover the image exactly) rearranges the output alike: exactly for stream layers and fixed-point cells, to rounding for the hybrid, fixed-point and table-lookup layers. These also commute with "
  "negation and with scaling by powers of two, and give for single rows what they give within the batch, its scale being equal.",
  [C, H], "every layer, configuration, geometry, operand and rearrangement", "Tests have one operand layout, and square images.",
  "kernel/linear.py kernel/conv.py kernel/rnn.py kernel/utils.py",
  [("FSUConv2dPC, HUBConv2d.forward", K + "conv.py"), ("FSULinearPC", K + "linear.py"), ("HardMGUCell", K + "rnn.py")], ["outputs of the call"],
  "metamorphic property-based testing", "")
p("C51", "Long runs stay exact",
  "The guarantees of streams, layers and monitors hold however long the run: also past the cycle counts of 15 bits, each output of each unit, stream layer, gated stream cell, correlation, progressive error and stability "
  "monitor is the one its definition gives for that cycle.",
  [H], "every unit, layer and monitor, configuration and history of more than 32768 cycles", "Tests run a few hundred cycles.",
  "kernel/add.py kernel/mul.py kernel/div.py kernel/sqrt.py kernel/linear.py kernel/conv.py kernel/rnn.py kernel/relu.py kernel/sigmoid.py kernel/tanh.py kernel/shiftreg.py kernel/jkff.py stream/shuffle.py metric/metric.py",
  [("FSUMul", K + "mul.py"), ("FSULinearPC", K + "linear.py"), ("Correlation, ProgError, Stability", "metric/metric.py")], ["output of every cycle"],
  "model-based property-based testing over long histories", "")
p("C52", "Components record the configuration they run",
  "hwcfg and swcfg of a component hold the configuration it was built with, names in lower case and number types as given; the hybrid and table-lookup layers record there the cycles they run, which is all there are for None "
  "or more, the adder after its first input the entries, scale and offset it settled on, the bitstream generator the width of its sequence. A component built from these records gives the same outputs as the original.",
  [C, H], "every class with a configuration, and every configuration it supports", "Tests print the configuration and assert nothing about it.",
  "stream/gen.py stream/shuffle.py kernel/add.py kernel/mul.py kernel/div.py kernel/sqrt.py kernel/signabs.py kernel/relu.py kernel/sigmoid.py kernel/jkff.py kernel/shiftreg.py kernel/linear.py kernel/conv.py kernel/rnn.py metric/metric.py",
  [("FSUAdd.forward", K + "add.py"), ("HUBLinear, TLUTLinear", K + "linear.py"), ("BSGen", "stream/gen.py")], ["hwcfg and swcfg after construction and after use; outputs of the rebuilt component"],
  "round-trip property-based testing", "")
p("C53", "Arguments left out mean the documented defaults",
  "A class or function used with optional arguments left out behaves exactly as with the defaults of its documented signature given (a stream layer without a configuration is bipolar, 8 bits wide, with the first "
  "Sobol sequence, default scale and depth 12; a convolution has stride 1, no padding, a bias; a report prints neither values nor relative errors), and goes on doing so whatever instances of the class were built, used or had their records rewritten before.",
  [C, H], "every class and function with optional arguments, any subset of them left out, any history of other instances", "Tests pass every argument, and build one instance.",
  "stream/gen.py stream/shuffle.py kernel/add.py kernel/mul.py kernel/div.py kernel/sqrt.py kernel/signabs.py kernel/relu.py kernel/sigmoid.py kernel/tanh.py kernel/jkff.py kernel/shiftreg.py kernel/linear.py kernel/conv.py kernel/rnn.py kernel/utils.py metric/metric.py",
  [("default arguments", K + "linear.py"), ("default arguments", K + "utils.py"), ("default arguments", "stream/gen.py")], ["outputs with and without the defaults given"],
  "metamorphic property-based testing over histories of instances", "")

NOTE = ("Random search over generated cases (thousands per quick run, twelve times as many in the thorough tier) with shrinking to a replay file; no exhaustiveness is claimed. "
        "Trusts PyTorch's elementwise integer operations and the models in harness/. ")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({"id": q["pid"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]},
                                "why_tests_cant": q["why"],
                                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]], "observe_at": q["observe"],
                                            "hook_needed": None}}) + "\n")
            assert len(q["title"]) <= 80, q["title"]
    m = {"version": 1, "setup_cmd": "true", "checks": [
        {"property": q["pid"], "quick_cmd": "bash run.sh " + q["pid"], "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + q["pid"],
         "technique": q["method"], "level": "exploration", "level_note": NOTE + q["note"]} for q in P], "not_applicable": []}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
