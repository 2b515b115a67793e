prop("Q01", "Quantization maps every real to the nearest representable code, saturating",
     "Quantizing a finite real x with scale s and zero point z yields the integer nearest to x/s+z (halves up), saturated to the range of the target dtype, whatever the shape, carrier type or order of calls. Codes never leave the dtype range and are a non-decreasing function of x.",
     ["inputs", "histories", "configurations"], "Every code of every dtype (int2..int32, uint2..uint32), every half-way point between neighbouring codes, every scale/zero point in a boundary grid, every shape/carrier, every call sequence up to the bound.",
     "Unit tests sample a handful of values of int8/uint8; the guarantee is over every code boundary of every dtype and saturation at 2^31/2^32 limits, which is where wrap-around appears.",
     [OPS], [("Quantization.quantize / round / clip", OPS)], ["codes returned by the public quantizer"],
     LOCK + "every code boundary x dtype x scale x zero point, in lockstep with an exact reference",
     "Exhaustive for dtypes up to 16 bits (every code and half-way point); boundary-dense subset for 32 bits; scales/zero points from a grid.")
prop("Q02", "Dequantization inverts quantization within half a step",
     "Dequantizing code q gives (q - zero point) * scale exactly (to float precision), for every code of the dtype without integer overflow; quantizing that value gives q back. For every real inside the representable range, quantize-then-dequantize returns a value within half a scale step.",
     ["inputs", "configurations"], "All codes of all dtypes x scales x zero points; all half-way points for the round trip.",
     "Tests use a few int8 codes; overflow only shows at the extremes of 32-bit codes and zero points, and the half-step bound is a statement over all reals in range.",
     [OPS], [("Quantization.dequantize", OPS)], None, LOCK + "every code x dtype x scale x zero point, round trips against an exact reference",
     "Exhaustive over codes up to 16 bits, boundary-dense subset for 32 bits; scale grid.")
prop("Q03", "Rounding policies choose floor or ceil exactly and never leave the code range",
     "A per-element rounding policy makes every element quantize to the lower or the upper neighbour exactly as its flag says, saturated to the dtype; the base policy of a tensor reproduces round to nearest. The same holds for look-up tables built under a policy, and a policy that cannot be combined with the tensor falls back to round to nearest.",
     ["inputs", "programs"], "Every policy vector over small tensors (all 2^n), every fractional position, all dtypes, all policy-driven tables of narrow dtypes.",
     "Tests exercise one or two policies; AdaRound relies on every assignment of the 2^n space being honoured.",
     [OPS, QZ + "equalizers/adaround/irounding_policy.py"], [("Quantization.quantize(rounding_policy)", OPS), ("get_base_rounding", QZ + "equalizers/adaround/irounding_policy.py")], None,
     LOCK + "all rounding policies over small tensors, checked against exact floor/ceil", "All 2^n policies for n<=8 elements; tables of dtypes up to 6-8 bits.")
prop("Q04", "Dtype descriptors denote the two's complement range of their bit width",
     "A dtype given as int<b>/uint<b> (any letter case), or as the corresponding numeric type, has range [-2^(b-1), 2^(b-1)-1] or [0, 2^b-1] and prints back the same descriptor; every spelling denotes the same quantizer. Malformed descriptors are rejected.",
     ["inputs", "configurations"], "Every descriptor string over the grammar up to 32 bits, all spellings, all strings of a bounded alphabet around the grammar.",
     "Tests name int8 and a few others; the guarantee covers odd widths and malformed names.",
     [OPS], [("Dtype / Quantization constructors", OPS)], None, LOCK + "every descriptor of the grammar and every near-miss string up to a bounded length", "b in 1..32, all spellings; bounded alphabet for malformed names.")
prop("Q05", "Dtype arithmetic is exact and saturates only at the result dtype",
     "Adding, subtracting or multiplying integers under a dtype gives the mathematically exact result whenever it fits the documented (widened) result dtype, and the saturated result otherwise, for scalars and arrays of any rank alike, whether the right operand is a Dtype or a plain number or array, however the dtype is named. No operation wraps around.",
     ["inputs"], "All pairs of codes of 8-bit dtypes, all pairs of a boundary set for 16/32-bit dtypes, all operations.",
     "Wrap-around and float64 rounding only show at specific extreme pairs; tests sample small operands.",
     [OPS], [("dtype arithmetic and widening", OPS)], None, LOCK + "all operand pairs of narrow dtypes and all pairs of a boundary set of wide ones", "All 65536 pairs per 8-bit dtype and operation; ~10^4 boundary pairs for 16/32 bits.")
prop("Q06", "Activation tables agree with the real function at every code",
     "A look-up table built for a function maps each input code q to the nearest output code of f applied to the dequantized q, saturated to the dtype; it has exactly one entry per code, ordered from the lowest code. Building a table does not depend on previously built tables.",
     ["inputs", "configurations"], "Every code of every dtype up to 16 bits x functions x input/output scales x zero points.",
     "Tests look at one or two tables; an off-by-one at the ends or a wrong carrier type shows only for particular dtypes/functions.",
     [OPS, LUTF], [("Quantization.create_LUT / float_activation", OPS)], None, LOCK + "every entry of every table of the dtype x function x parameter grid", "All entries of 2..12-bit tables (16-bit in the thorough tier); 8 functions; parameter grid.")
prop("Q07", "Reduced look-up tables are indistinguishable from the full table",
     "A reduced table returns for every index exactly the value of the table it was built from, for any table content, reduction depth, minimum run and symmetric or asymmetric layout. Serializing it to JSON and back, iterating it or asking its length gives the same table. The body it keeps is what lies between the runs pruned from the head and the tail, `depth` different values from each.",
     ["inputs", "configurations", "programs"], "All tables over a small alphabet up to a length, plus all real activation tables, x depth x minimum x asymmetric.",
     "Tests reduce one tanh table; interval bookkeeping errors need tables with particular run structures at head and tail.",
     [LUTF], [("ReducedLUT build / index / serialize / deserialize / iterate", LUTF)], None, LOCK + "all tables up to length 7-8 over a small alphabet x all reduction parameters", "All tables of length <= 7 (8 thorough) over 3 values; all activation tables of 4-8 bits.")
prop("E01", "Activation table layers apply the table element by element",
     "The activation layer returns for every input code the table entry of that code, for full and reduced tables, however it is built (directly, from a node, through the engine's builders). The result has the input's shape, does not depend on carrier type, memory layout or earlier inferences, and the input is left untouched.",
     ["inputs", "histories", "configurations"], "Every code of every dtype up to 8 (10) bits x builder x full/reduced x depth; all shapes/views of a set; all inference sequences of length 2-3 over three layers.",
     "Tests check a few elements of one table.",
     [IE + "layers/common/lut.py", IE + "layers/common/sigmoid.py", IE + "layers/common/tanh.py"], [("LUTActivation.infer / from_node / from_model", IE + "layers/common/lut.py")], None,
     LOCK + "every code through every builder and table form, and all inference sequences", "All codes of dtypes up to 8 bits (10 thorough); 8 shapes; sequences up to 3.")
prop("E02", "Fully connected layers compute the rescaled integer dot product of each sample",
     "The layer outputs, for every sample and neuron, the output zero point plus the nearest integer (halves up) to input_scale*weight_scale/output_scale times the zero-point-corrected dot product plus bias, saturated to the output dtype. Each sample's result is independent of the batch it is in and of earlier inferences.",
     ["inputs", "configurations", "histories"], "Every input code x every weight code x biases x scale ratios over all binades from 1e-6 to 2^20 x zero points x output dtypes; all small weight matrices over a boundary alphabet; all inference histories of length 3.",
     "Tests check two hand-computed matrices; the fixed point multiplier must be right at every half-way point of every ratio.",
     [IE + "layers/tflite/fullyconnected.py"], [("FullyConnected.infer / build / from_model, fixed point multiplier", IE + "layers/tflite/fullyconnected.py")], None,
     LOCK + "all code pairs, small matrices and half-way accumulators, in lockstep with an exact integer reference", "Accumulators within int32; ratios in [1e-6, 2^20).")
prop("E03", "The fixed point multiplier equals real multiplication rounded to nearest",
     "Multiplying an integer (or integer array) by the fixed point approximation of a positive real gives the nearest integer to the real product, to 31 significant bits of the multiplier; in floating mode it gives the real product. Array and scalar operands agree.",
     ["inputs"], "Every binade of the multiplier from 2^-31 to 2^29 x mantissa grid (with the carries at 2-2^-k) x operands at and around every half-way point of a set.",
     "No test covers it; carry of the mantissa rounding and tiny multipliers are single points in a 2^64 space.",
     [IE + "util/floating.py"], [("FloatingIntegerApprox", IE + "util/floating.py")], None, LOCK + "all binades x mantissas x half-way operands against exact rationals", "45 mantissas per binade, ~60-600 operands each.")
prop("E04", "Quantize, dequantize, tanh and sigmoid layers equal their real function",
     "Each layer maps every input to the nearest code of its real function (identity, tanh, logistic) under its node's parameters, with the fixed output parameters the format prescribes (tanh 1/128 and 0, logistic 1/256 and -128) in both engines. The layers take the parameters of the right operator side, keep shapes, and are stateless.",
     ["inputs", "configurations", "histories"], "All 256 codes (all codes of the dtype for (de)quantize) x scales x zero points x builders x engines; all half-way points; all inference sequences of length 3.",
     "Tests check five codes with one scale.",
     [IE + "layers/tflite/quantize.py", IE + "layers/tflite/dequantize.py", IE + "layers/tflite/tanh.py", IE + "layers/tflite/logistic.py", IE + "layers/onnx/quantize_linear.py", IE + "layers/onnx/dequantize_linear.py", IE + "layers/onnx/q_linear_sigmoid.py", IE + "layers/onnx/tanh.py"],
     [("Quantize/Dequantize", IE + "layers/tflite/quantize.py"), ("Tanh", IE + "layers/tflite/tanh.py"), ("Sigmoid", IE + "layers/tflite/logistic.py"), ("ONNX counterparts", IE + "layers/onnx/quantize_linear.py")], None,
     LOCK + "every code x parameter grid x builder, and all inference sequences", "All codes; 9 scales x 5 zero points (52 thorough).")
prop("E05", "ONNX quantized add and matmul equal their real-valued definition for all codes",
     "Quantized add and matrix multiplication return the real-valued result requantized to the output parameters, rounded to nearest even and saturated to uint8, for every operand. A missing or mis-shaped weight tensor is refused, and results depend neither on batching nor on earlier calls.",
     ["inputs", "configurations", "histories"], "All 256x256 operand pairs x scales x zero points; all small matrices over a boundary alphabet; wide operators with extreme accumulators; all sequences of length 3.",
     "Tests compare four small matrices.",
     [IE + "layers/onnx/q_linear_add.py", IE + "layers/onnx/q_linear_mmul.py"], [("QLinearAdd", IE + "layers/onnx/q_linear_add.py"), ("QLinearMatMul", IE + "layers/onnx/q_linear_mmul.py")], None,
     LOCK + "all operand code pairs and small matrices against the real-valued definition", "8 scale triples x 5 zero point triples.")
prop("E06", "Softmax is a probability distribution per sample and never overflows",
     "The ONNX softmax of every finite vector is non-negative, sums to one along the last axis, preserves order, is invariant to shifts and gives each sample of a batch what it gives it alone. In the tflite engine softmax leaves the quantized logits unchanged.",
     ["inputs"], "Every vector up to length 4 (5) over an alphabet with extreme magnitudes, all batch layouts, all magnitude pairs up to 1e300.",
     "No test; overflow and batch coupling need large logits or more than one sample.",
     [IE + "layers/onnx/softmax.py", IE + "layers/tflite/softmax.py"], [("Softmax", IE + "layers/onnx/softmax.py")], None, LOCK + "all vectors over an alphabet of extreme magnitudes", "Alphabet of 6 values, length <= 4 (5).")
prop("E07", "Quantized LSTM inference follows the integer recurrence step by step",
     "For every window the LSTM starts from real-zero hidden and cell states and computes, per step, gate codes through the gate tables and new states rescaled by the node scales, truncated and saturated to their dtypes, with every zero point subtracted. It returns all steps or the last one as its attribute says.",
     ["inputs", "histories", "configurations"], "All windows up to length 3-4 over an input alphabet x unit/feature counts x zero point sets x table families x dtypes; all single-gate weight assignments over an alphabet.",
     "The one test runs a fixed network with zero zero-points; state carried between steps and each zero point need specific non-zero values to show.",
     [IE + "layers/itclq/lstm.py"], [("LSTM.infer / build / from_model", IE + "layers/itclq/lstm.py")], None,
     LOCK + "all bounded windows; the recurrence states are compared with an explicit-state reference at every step", "Exact for power-of-two scales; generic scales are compared wherever truncation is determined.")
prop("E08", "LSTM results are independent of batching, later steps and earlier inferences",
     "Every sample gets the result it would get alone, in any sub-batch and any order; outputs at a step do not depend on later steps, and the last-step output equals the last element of the sequence output. Inferring again, or inferring other windows in between, changes nothing.",
     ["histories", "inputs"], "All permutations of all subsets of four samples x zero point sets; all inference sequences of length 3-4 over two live layers and four batches.",
     "Tests run one batch once.",
     [IE + "layers/itclq/lstm.py"], [("LSTM.infer state handling", IE + "layers/itclq/lstm.py")], None, LOCK + "all batch permutations and all inference histories up to a length", "4 samples, 64 orders; histories up to 3 (4).")
prop("E09", "A sequential network is the composition of its operators, in order",
     "Inference runs every operator of the JSON graph once, in order, through the engine it names, and returns the last result; the same network gives the same result for a sample alone, in a batch, as a list, after a JSON round trip and after any other inferences. Graphs without leading quantization take real inputs quantized to int8 with the input node's parameters; unknown engines and operators are refused.",
     ["programs", "histories", "configurations"], "All operator chains up to length 5 over 8 tflite / 5 ONNX operators, all engine spellings, all inference sequences of length 3-4 over three live networks.",
     "Tests load two stored models; dispatch and ordering faults need particular chains.",
     [IE + "network/sequential.py", IE + "layers/tflite/build_layer.py", IE + "layers/onnx/build_operator.py", IE + "util/check_layer_type.py"], [("SequentialNetwork", IE + "network/sequential.py"), ("engine dispatch", IE + "layers/tflite/build_layer.py")], None,
     LOCK + "all operator chains and all inference histories up to a length", "Chains up to 5 operators; histories up to 3 (4).")
prop("E10", "Quantized ReLU is max(real, 0) at every code",
     "The quantized ReLU maps every int8 code to the nearest int8 code of max(real value, 0) under the output parameters, saturated, monotone, with non-positive reals mapped to the output zero point.",
     ["inputs", "configurations"], "All 256 codes x scale pairs x zero point pairs x builders x shapes.",
     "No test covers it.", [IE + "layers/common/relu.py"], [("RELU", IE + "layers/common/relu.py")], None, LOCK + "all codes x parameter grid", "8 scale pairs x 36 (289) zero point pairs.")
prop("T01", "A tensor node always shows its tensor quantized under its current parameters",
     "After any sequence of parameter updates, rounding policies and resets, the codes, dequantized values, rounding policy and JSON of a tensor node are those of its float tensor quantized under the parameters and policy in force at the last requantization, saturated to the dtype; without an explicit policy rounding is to nearest. The float tensor never changes and hooks run once per update.",
     ["histories", "inputs", "configurations"], "All sequences of node operations up to length 2-4 over an alphabet of scales, zero points, policies and resets, x dtypes x shapes x tensors with on-grid, half-way, ulp-level and saturating values.",
     "Tests update one node once; a stale policy or missed requantization only shows after particular sequences.",
     [QZ + "tensor_extractor/tensor.py"], [("NodeTensorTensor", QZ + "tensor_extractor/tensor.py"), ("NodeTensorBase.update_quant_parameters", QZ + "tensor_extractor/tensor.py")], None,
     LOCK + "all operation sequences over a tensor node, in lockstep with a reference state machine", "Sequences up to 2 over 25 operations and 3-4 over a reduced alphabet.")
prop("T02", "Activation tables of the quantizer always follow the nodes around them",
     "Whatever sequence of parameter updates and rounding policies reaches the input and output node of a table activation, its table maps every input code to the activation of its real value under the parameters in force, rounded by the current policy and saturated to the output dtype. Activation operators are calibrated so that the activated data fits their output node; activations without a table get none.",
     ["histories", "configurations", "inputs"], "All sequences of updates and policies up to length 4 over a table's nodes, interleavings of updates over two live tables, all activation names, dtype pairs and data ranges.",
     "Tests never update a node after building it; stale tables appear only after particular update orders, which is what equalization does thousands of times.",
     [QZ + "tensor_extractor/keras/layers/activations.py", QZ + "tensor_extractor/tensor.py", OPS],
     [("quantize_activation_node", QZ + "tensor_extractor/keras/layers/activations.py"), ("NodeLUT", QZ + "tensor_extractor/tensor.py")], None,
     LOCK + "all update/policy sequences around a table, with the whole table compared after every operation", "Sequences up to 3 (4) operations; tables of 3..8-bit dtypes.")
KD = QZ + "tensor_extractor/keras/layers/keras_dense.py"
KB = QZ + "tensor_extractor/keras/keras_builder.py"
DIST = QZ + "quantizer/distributions/distribution.py"
prop("T03", "Updating one node of a network keeps the whole quantized network consistent",
     "After any sequence of parameter updates and rounding policies on the nodes of a quantized dense network, every bias has scale input scale times kernel scale and zero point 0 and is its float bias quantized accordingly, kernels and tables follow their nodes, both sides of an edge show the same parameters, and the exported network computes exactly the integer network those parameters describe. Networks never influence each other.",
     ["histories", "configurations"], "All sequences of updates/policies of length 2 over the full alphabet and 3 (4) over a reduced one, on every node of five networks of two and three layers.",
     "No test updates a built network; equalization and AdaRound are nothing but such sequences, and a missed hook only shows for a particular node and order.",
     [KD, QZ + "tensor_extractor/tensor.py", QZ + "util/network.py"], [("on_quant_param_update hooks of KerasDense", KD), ("NodeTensorTensor / NodeLUT", QZ + "tensor_extractor/tensor.py"), ("Network.as_json", QZ + "util/network.py")], None,
     LOCK + "all update sequences over live networks, JSON and engine results compared with a reference network", "Sequences up to 3 (4).")
prop("K01", "A quantized dense network matches its float model within what its scales allow",
     "Quantizing a dense Keras model yields, for every model, configuration and calibration set, a network with one operator chain per layer, parameters that tightly cover the calibrated ranges (fused ReLU from 0), the dtypes of its global or per-layer configuration, and nearest kernel and bias codes. On the calibration data every operator stays within the analytic error bound of its scales from the float model.",
     ["configurations", "inputs", "programs"], "All 2x2 kernels over an alphabet x activations x biases, all activation chains up to length 3-4, all layer shapes up to 5x4, eight calibration sets including dead and constant ones, 54 dtype configurations globally and per layer.",
     "Tests quantize one or two stored models and look at a mean error; calibration faults hide in one activation, sign pattern or configuration.",
     [KD, KB, DIST, QZ + "tensor_extractor/keras/layers/activations.py", QZ + "config/models/keras.py"],
     [("KerasDense.quantize", KD), ("build / get_layer_quantizer", KB), ("Distribution.quantize", DIST), ("quantize_activation_node", QZ + "tensor_extractor/keras/layers/activations.py")], None,
     LOCK + "all bounded networks, configurations and data sets; each operator of the exported network is compared with the float layer and an integer reference", "Float32 layers; at most one 16-bit operand per product (32-bit accumulators).")
KL = QZ + "tensor_extractor/keras/layers/keras_lstm.py"
ADA = QZ + "equalizers/adaround/"
PEQ = QZ + "equalizers/param_equalizer/"
prop("K02", "A quantized LSTM network matches its float model within what its scales allow",
     "Quantizing a Keras LSTM, alone, stacked or followed by dense layers, yields gates in the order the format names them, each node calibrated with the data that really flows through it, nearest kernel and recurrent codes, and biases at input scale times kernel scale. Every hidden state computed by the engine is the integer recurrence those parameters describe and stays within their analytic error of the float recurrence. An LSTM the engine does not compute (other activations, running backwards) is refused, never quantized as if it were the usual one.",
     ["configurations", "inputs", "programs", "histories"], "All LSTM shapes up to 3x3 units/features and four steps, weight families, calibration windows, all single-unit weight assignments over an alphabet, LSTM/dense chains up to three layers, all update sequences of the input node.",
     "No test quantizes an LSTM end to end; swapped gates or wrong calibration ranges hide behind symmetric weights.",
     [KL, KB, DIST], [("KerasLSTM.quantize", KL), ("get_layer_quantizer", KB)], None,
     LOCK + "all bounded LSTM networks, weights and windows; every step compared with an integer recurrence reference and the float layer", "Float32 layers; truncation ties explored both ways.")
prop("T04", "Retuning the nodes of an LSTM network keeps the whole network consistent",
     "After any sequence of parameter updates (immediate or deferred) and rounding policies on the nodes of a network with LSTM layers, kernels, recurrent kernels and biases show their float values quantized under the parameters in force, biases at input scale times kernel scale, gate and cell tables follow the nodes around them, shared edges agree, and the engine computes the integer recurrence those nodes describe and dequantizes it with the last node's parameters.",
     ["histories", "programs", "configurations"], "All operations on every node, one after the other, and all sequences of two (three) updates and policies, over LSTM, LSTM-activation, stacked and stacked-dense networks x weight families x calibration windows.",
     "No test updates a node of an LSTM; a bias that stays at its old scale still gives plausible hidden states.",
     [KL, QZ + "tensor_extractor/tensor.py", QZ + "tensor_extractor/keras/layers/activations.py", IE + "layers/itclq/lstm.py"],
     [("KerasLSTM.quantize", KL), ("NodeTensorBase.update_quant_parameters", QZ + "tensor_extractor/tensor.py")], None,
     LOCK + "all update/policy sequences on LSTM networks, whole network compared with a reference network and the integer recurrence", "Sequences of two (three) operations; 2 units, 2 features, 3 steps; recurrent add and gate table input (one node shown twice) retuned together.")
prop("K03", "LSTM diagnostics describe the computation and do not disturb it",
     "The intermediate tensors an LSTM layer keeps are the codes of every step of its last inference: scaled bias adds, recurrent adds, gate activations, cell states and their activations, hidden states. Under a debugger the quantizer builds the same network as without one and reports, once per LSTM layer and for each of its intermediate nodes by name, the mean squared error of every step between the dequantized codes and the float recurrence.",
     ["inputs", "configurations", "programs", "histories"], "All windows over the input alphabet x zero point sets x shapes, with another inference in between; LSTM/dense chains x weight families x calibration windows, with and without a debugger.",
     "No test looks at intermediates or runs under a debugger; a wrong node or step order still prints plausible errors.",
     [IE + "layers/itclq/lstm.py", KL, QZ + "util/debug.py"], [("LSTMIntermediateTensors", IE + "layers/itclq/lstm.py"), ("KerasLSTM._quantization_noise", KL)], None,
     LOCK + "all windows and networks; every intermediate code and reported error compared with the reference recurrence", "Windows up to 2 (3) steps, 3x2 shapes; chains up to three layers. pandas is a stand-in.")
CFGM = QZ + "config/models/keras.py"
prop("G01", "A configuration means the same in every form and is what the quantizer does",
     "Objects, dictionaries, JSON and YAML files with the same content give the same configuration, defaults filled in, and the same network: every layer uses its own entry or the general one. With a loss function exactly the configured optimizers run, equalization before rounding, with the configured parameters; without one nothing is tuned. tflite() only makes dense kernels symmetric and drops the optimizers; configurations do not influence each other, quantizing does not change them, and unknown optimizer names are refused.",
     ["configurations", "histories", "inputs"], "All dtype settings x parts given x per-layer overrides in four forms; all optimizer settings x random decisions x costs up to a depth, against the optimizers run by hand; all settings through tflite(); the sample files.",
     "The repository's configuration tests need pydantic and TensorFlow, cannot run here and cover only a dump and reload.",
     [CFGM, KB, QZ + "config/samples/json/base.json", QZ + "config/samples/yaml/base.yaml"], [("QuantizerCfg.from_json / from_yml / tflite", CFGM), ("build / get_layer_quantizer", KB)], None,
     LOCK + "all settings in all forms; stateless exploration of every random decision and cost of a configured build in lockstep with the optimizers run by hand", "All pairs of layer names, limits from 0 on and all combinations of optimizer settings. Two dense layers; one for tuning. Up to 2 (3) random choices and 2 (3) costs. pydantic and PyYAML are stand-ins.")
prop("A01", "AdaRound leaves the network with the best rounding it evaluated",
     "Whatever the cost function returns and whichever elements are flipped, the rounding optimizers start from the current rounding, only ever use floor or ceil of each element, honour their retry limit, and leave the network with the least costly rounding they evaluated, never a worse one than the initial. The optimizer leaves JSON, file and live network in agreement.",
     ["histories", "configurations", "programs"], "All choices of elements, acceptances and cost values (as an unknown function of the visited rounding) up to a depth, on abstract problems, live tensors and tables, and whole dense and LSTM networks.",
     "Tests run one random search; losing the best state needs a specific order of improvements and rejections.",
     [ADA + "annealer.py", ADA + "adaround.py", ADA + "irounding_policy.py"],
     [("RoundingAnnealer / RoundingMinima", ADA + "annealer.py"), ("AdaroundNet.round", ADA + "adaround.py")], None,
     "stateless model checking of the real optimizers: every random decision and every cost comparison outcome is an enumerated choice point", "Up to 3-5 random choices, 4-6 distinct cost evaluations and 2-4 acceptances per run; deterministic beyond. Position of the best evaluation over tensor sizes, depths and retry limits.")
prop("A02", "Parameter equalization leaves the network with the best parameters it evaluated",
     "Whatever the cost function returns and whichever parameter is tweaked, equalization only evaluates valid parameters (positive scale, zero point inside the dtype) with all dependent codes up to date, and ends with the nodes holding the least costly parameters evaluated, whose cost it reports. A tweak changes the scale by at most a tenth and the zero point by one, both ways. The exported network agrees with the live one.",
     ["histories", "configurations", "programs"], "All tweak choices, acceptances and cost values up to a depth, on node sets and on whole dense and LSTM networks, layer-wise, full and followed by AdaRound.",
     "Tests run one random search on one model; a stale or lost best state needs a specific order of improvements and rejections.",
     [PEQ + "annealer.py", PEQ + "bfs_equalizer.py", PEQ + "abstract_param_optimizer.py", PEQ + "param_equalizer.py"],
     [("ParamEqAnnealer.optimize", PEQ + "annealer.py"), ("BFSEqualizer.optimize", PEQ + "bfs_equalizer.py"), ("AbstractParamOptimizer.move", PEQ + "abstract_param_optimizer.py"), ("ParamEqualizerNet / ParamEqualizerFullNet", PEQ + "param_equalizer.py")], None,
     "stateless model checking of the real optimizers: every random decision and every cost comparison outcome is an enumerated choice point", "Up to 3-8 random choices, 4-6 distinct cost evaluations and 2-4 acceptances per run; deterministic beyond. Position of the best evaluation over network depths and retry limits; all pairs of networks in sequence.")
OPT = QZ + "optimizers/"
prop("D01", "Quantization parameters cover the observed data tightly and keep zero exact",
     "The scale and zero point derived from a data set are valid for the dtype, represent zero exactly and every value of the data within half a step, at the finest scale that does so; forced parameters are returned as forced. Histograms count every element once, in the bin it lies in, and slices describe exactly the bins they cover, without changing the distribution.",
     ["inputs", "configurations"], "All data multisets over an alphabet of signs and magnitudes up to length 3 (4) x dtypes x modes x bin counts x carriers; all slice bounds over edges, midpoints and outside points.",
     "Tests histogram random normal data; degenerate data (constant, one-sided, all zero, single element) decide whether the ranges are right.",
     [DIST, QZ + "quantizer/metrics/noise.py"], [("Distribution.quantize", DIST), ("Distribution.__getitem__ / get_bin", DIST)], None,
     LOCK + "all small data sets and slice bounds against the definition", "Data sets up to 3-6 elements; 12 magnitudes.")
prop("O01", "Range optimizers keep the range they promise",
     "The identity optimizer keeps a distribution, the percentile optimizer clips the stated percentage at both tails and nothing else, and the noise optimizer keeps the least noisy range its search found for the dtype asked for, never one noisier than the original. A layer quantized with an optimizer has the parameters and codes of the kept range, and reduced histograms preserve counts. The noise metrics are what their names say.",
     ["inputs", "configurations"], "All 4-element data sets over an alphabet and distribution families x percentages x bins; families x dtypes x metrics x six minimizers plus an exhaustive one over a grid of ranges; all histograms up to length 8 (10).",
     "Tests cover the identity only; a wrong percentile or dtype still returns a plausible range.",
     [OPT + "fixed_percent.py", OPT + "scipy_optimizer.py", OPT + "minmax.py", OPT + "kl_div_optimizer.py", KD],
     [("FixedPercentOptimizer.trim", OPT + "fixed_percent.py"), ("ScipyOptimizer.trim", OPT + "scipy_optimizer.py"), ("KLDivergenceOptimizer.reduce", OPT + "kl_div_optimizer.py")], None,
     LOCK + "all small data sets and all ranges of a grid against the definition", "Grid of 9x9 (17x17) ranges.")
prop("C01", "Collision counts are the different values that share a code",
     "The number of collisions between a tensor and its codes is the number of different (rounded) values whose code is shared with another value: never negative, zero for equal values, independent of order, shape and carrier types. A layer reports them per node, per sample for its outputs, and their sum.",
     ["inputs", "configurations"], "All pairs of value and code tensors up to 4 elements x rounding decimals; extreme codes of all carriers; dense layers x widths x data.",
     "The one test has no repeated values.",
     [QZ + "util/collisions.py", KD, QZ + "tensor_extractor/abstract_layer.py"], [("calc_collisions", QZ + "util/collisions.py"), ("KerasDense.calc_collisions", KD), ("AbstractLayer.sum_collisions", QZ + "tensor_extractor/abstract_layer.py")], None,
     LOCK + "all small tensors and codes against a set-based definition", "Tensors up to 4 elements over 6 values and 3 codes.")
prop("U01", "QUBO rounding minimizes each dense layer's error over all roundings",
     "With an exact sampler, the QUBO optimizer gives every neuron of a dense layer the assignment of floor/ceil roundings of its weights and bias with the least squared error between the float layer before its activation and its quantized dot product on the input data. The energy of the problem handed to the sampler is that error up to a constant, for every assignment. LSTM layers and quantization parameters keep their values.",
     ["inputs", "configurations", "programs"], "All weights of two-input layers over an alphabet x biases x data sets; layer shapes up to 5x3 (7x5) x activations x kernel widths; two-layer networks through the optimizer and the builder; networks with LSTM. Every one of the 2^(n+1) assignments of each neuron.",
     "No test covers the QUBO path; a wrong coefficient still yields a valid rounding, only a worse one.",
     [ADA + "qubo.py", ADA + "qubocalculation.py"], [("QUBOAnnealer.optimize", ADA + "qubo.py"), ("QUBO coefficients", ADA + "qubocalculation.py")], ["codes of the optimized network", "problems received by the sampler"],
     "explicit enumeration: every rounding vector of every neuron of every network of a bounded family, against the real optimizer with an exact sampler", "Up to 8 weights per neuron (more in the sizes scenario); data sets up to hundreds of rows; all pairs of networks in sequence; neurons whose neighbours saturate the dtype are only checked for floor/ceil.")
FP = "demo/demo_lib/demo_lib/"
prop("F01", "Remote inference returns each request's own answers, in sample order",
     "For every batch length and maximum batch size the MQTT client publishes the network, then all samples in order in requests of at most the maximum size, and returns the concatenated answers, whatever the relative timing of the calling thread and the callback. A call whose answer never comes, or only comes malformed, fails instead of returning other data, and later calls are unaffected. The remote loss is the loss reported for the network just published.",
     ["interleavings", "histories", "faults", "inputs"], "All batch lengths up to 8 (16) x maximum batches x shapes; all interleavings of caller and callback up to 2-4 (6) preemptions by line and 1-2 (3) by bytecode; all histories of lost, malformed and repeated-after-garbage answers of up to 3 (4) requests; answers that outlive their request.",
     "No test covers it: the hand-over between threads only fails under particular interleavings, the batch arithmetic for batches that are no multiple of the maximum.",
     [FP + "fpga.py", FP + "mqtt.py"], [("InferFPGAMQTT", FP + "fpga.py"), ("LossFPGA", FP + "fpga.py"), ("Input / Output / InputOutput", FP + "fpga.py"), ("create_client / log_exception", FP + "mqtt.py")], ["messages published", "values returned by the calls"],
     "stateless exploration of the real threads under a controlled scheduler (line and bytecode scheduling points, preemption bounded) with an enumerated fault plan", "Two threads; preemption bound 2-4 quick, up to 6 thorough; up to hundreds of samples; histories of three clients; broker and device are modelled.")
K2J = "model_converters/keras2json/"
prop("M01", "Keras models convert to the same network in JSON",
     "Every sequence of supported Keras layers converts to the operators that compute the same function: the same layers in order, each with its activation, weights and biases value for value in the documented layout, shapes, names and attributes, the metadata of the model's own inputs and outputs, and JSON-serializable types. A layer with no counterpart, or with an option the format cannot represent (dilation, groups, other data formats, other LSTM activations or direction), is refused, never converted into something else or dropped. Conversion does not change the model and is repeatable.",
     ["programs", "inputs", "configurations"], "All sequences of up to 4 (5) layers of ten kinds; dense, convolution, pool and LSTM layers over shapes, bias, activations, padding and strides; 20 unsupported layers at every position.",
     "Nothing tests the converter; a wrong layout or a lost layer still yields a plausible file.",
     [K2J + "keras2json/_convert.py", K2J + "keras2json/layers/"], [("convert", K2J + "keras2json/_convert.py"), ("layer serializers", K2J + "keras2json/layers/")], ["converted JSON"],
     "bounded explicit enumeration of models, every operator compared with its layer on the real converter", "Layer sizes up to 129 (300), networks up to 257 layers, all histories of up to 4 (5) conversions and changes. Keras itself is played by stand-ins with its layer attributes.")
T2J = "model_converters/tflite2json/itcl_tflite2json/"
prop("M02", "TFLite models convert to a network that computes what their tensors say",
     "Every tensor of a TFLite file is exported with its own scale, zero point, dtype, shape and data, whatever the order tensors are listed in; operators keep their order, inputs and outputs; activation tables hold, for every code, the nearest code of the activation of the value it represents; and the file, run by the inference engine, gives at every operator the result the tensors prescribe.",
     ["programs", "inputs", "configurations"], "All dtypes x quantization kinds x shapes x listing orders; tables over input and output parameters, every entry; all operator chains up to length 3 (7) run through the engine; tensor names, sizes and numbers of operators; the folder command.",
     "Nothing tests the converter; swapped tensors only show in graphs whose tensors are listed out of order.",
     [T2J + "__init__.py", T2J + "operators/", T2J + "util/"], [("convert", T2J + "__init__.py"), ("operator builders", T2J + "operators/")], ["converted JSON", "inference on it"],
     "bounded explicit enumeration of models, every tensor, table entry and inference step of the real converter compared with the source model", "Chains up to 3 (7), up to 70 (300) operators, constants beyond 64 Ki elements, all sequences of 2 (3) near-equal activations. The flatbuffers and interpreter libraries are played by stand-ins with their methods.")
O2J = "model_converters/onnx2json/"
prop("M03", "ONNX models convert to a network that computes what the model says",
     "Every quantized ONNX model of supported operators converts to the same operators in order, each with its own scales, zero points, weights and biases whatever the order the file lists them in, a fused table for every dequantize-tanh-quantize and sigmoid whose every entry is the nearest code, the shapes of the model's own input and output, and a file on which the inference engine computes, at every operator, what the model prescribes. Converting a folder leaves its other files alone.",
     ["programs", "inputs", "configurations"], "All operator chains up to length 3 (5) x tails x input sizes; listing orders; parameters of every operator; the repository's quantized models; all folder listings of up to 3 files.",
     "Nothing tests the converter; faults hide in operators that are not in the one stored example.",
     [O2J + "2json.py", O2J + "helpers/", O2J + "util/quantization.py"], [("model2json", O2J + "2json.py"), ("OnnxGraph", O2J + "helpers/graph.py"), ("operator builders", O2J + "helpers/nodeBuilders/")], ["converted JSON", "inference on it"],
     "bounded explicit enumeration of models, every operator, table entry and inference step of the real converter compared with the source model", "Chains up to 3 (5), up to 130 (600) operators, weights up to 64 Ki elements, 12 ways of naming tensors, all sequences of 2 (3) near-equal activations. uint8 tensors stored as raw data; the onnx library is played by a decoder of its file format.")
prop("N01", "An exported network is one consistent snapshot of the quantized model",
     "The file written, the dictionary exported, the operators and the network built for inference describe the same network: every operator reads exactly the node the previous one writes, the declared input and output shapes are the model's own, the JSON is strict, and all views infer identically, for batches of any size and repeatedly. Whatever is handed out is a snapshot: retuning or re-rounding any node later changes later exports only, never earlier ones.",
     ["programs", "histories", "inputs"], "All layer chains of dense and LSTM layers up to length 2 (4) x calibration data; all histories of node updates and policy changes up to length 3 (4) over whole networks, with a snapshot after each.",
     "Tests never look at an export after the network changes, nor at what it declares.",
     [QZ + "util/network.py", QZ + "tensor_extractor/operator.py", QZ + "tensor_extractor/tensor.py", QZ + "tensor_extractor/keras/keras_builder.py", IE + "network/sequential.py"],
     [("Network", QZ + "util/network.py"), ("Operator.as_json", QZ + "tensor_extractor/operator.py"), ("SequentialNetwork", IE + "network/sequential.py")], ["exported JSON", "inference results"],
     LOCK + "all bounded networks and update histories; all views of a network compared with each other and with every snapshot taken before", "Chains up to 2 (4), networks up to 33 layers and 65 units. LSTM node shapes keep the calibration batch and are not checked.")
