#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=["src/komm/" + f for f in files],
                               mechanism=[dict(name=n, where="src/komm/" + w) for n, w in mech])))

prop("A01", "Integer and bit-array conversions are exact inverses in both bit orders",
 "Converting any non-negative integer (or array of integers of any shape) to bits of a sufficient width and back gives the same integers, the bits are the base-2 digits in the requested order with the bit axis appended last, and converting any bit array to an integer gives the sum of its weighted bits. Integers of any size are handled exactly by the one-dimensional conversions.",
 ["inputs"], "all integers (including far beyond 64 bits for scalars), widths, array shapes, bit orders and container types",
 "The tests sample a dozen small integers; widths above a byte boundary, large integers, odd shapes and MSB-first padding are quantified over.",
 ["_util/bit_operations.py"], [("bit packing and digit extraction", "_util/bit_operations.py")])
prop("A02", "Binary polynomial arithmetic is exact arithmetic in GF(2)[X]",
 "For all binary polynomials, addition, subtraction, multiplication, powers, division with remainder, gcd, extended gcd, lcm (any number of arguments), reciprocal and evaluation return what arithmetic in GF(2)[X] prescribes, and the conversions from and to integers, coefficient lists, exponent lists and bit widths are mutually consistent. Irreducibility and primitivity tests answer according to their definitions.",
 ["inputs"], "all pairs and triples of binary polynomials, all exponents and all evaluation points of the supported rings",
 "Tests multiply out a few dozen fixed polynomials; the ring laws and the Bezout/Euclid identities are quantified over all operands.",
 ["_algebra/BinaryPolynomial.py", "_algebra/domain.py", "_algebra/ring.py"], [("polynomial arithmetic", "_algebra/BinaryPolynomial.py"), ("Euclidean algorithms", "_algebra/domain.py")])
prop("A03", "Finite fields of characteristic two satisfy the field laws",
 "For every field GF(2^k) built from a default or a user-supplied irreducible modulus, the elements with the field operations form a field that agrees with polynomial arithmetic modulo the modulus: inverses, quotients, integer powers, logarithms, conjugates and minimal polynomials are consistent with multiplication. The default modulus of every degree is primitive.",
 ["inputs", "configurations"], "all degrees, all irreducible moduli and all field elements (exhaustive for small fields, generated for large ones)",
 "Tests cover a few fields and elements; the laws quantify over all triples of elements and all moduli.",
 ["_algebra/FiniteBifield.py", "_algebra/field.py", "_algebra/BinaryPolynomial.py"], [("field element operations", "_algebra/FiniteBifield.py")])
prop("A04", "Binary polynomial fractions form the field of fractions of GF(2)[X]",
 "Every fraction is kept in lowest terms, so two fractions compare equal exactly when cross-multiplication of numerators and denominators agrees; sums, differences, products, quotients and integer powers of fractions equal the exact field-of-fractions results, and a zero denominator or an inverse of zero is rejected.",
 ["inputs"], "all numerators, denominators and operand pairs, including zero numerators and common factors",
 "A handful of fixed fractions are tested; normal form and field laws quantify over all operands.",
 ["_algebra/BinaryPolynomialFraction.py", "_algebra/field.py"], [("normalisation and arithmetic", "_algebra/BinaryPolynomialFraction.py")])
prop("U01", "Information measures agree with their definitions for every distribution",
 "Entropy, binary entropy, relative entropy and the inverse of binary entropy equal their defining sums for every valid distribution and logarithm base, including zero probabilities, deterministic distributions and infinite divergences, and obey 0 <= H <= log of the alphabet size and D >= 0 with equality only for equal distributions. Invalid distributions, probabilities and logarithm bases are rejected.",
 ["inputs"], "all pmfs (any alphabet size, zeros allowed) and all valid logarithm bases",
 "Tests check a few textbook pmfs; the identities are quantified over all pmfs and bases.",
 ["_util/information_theory.py", "_util/validators.py"], [("entropy functions", "_util/information_theory.py"), ("pmf validation", "_util/validators.py")])
prop("U02", "Special functions equal their defining integrals over their whole domain",
 "The Gaussian tail function and its inverse, the Marcum Q-function of every positive integer order, and the box-plus operation return their mathematical values to working precision for all arguments in their domains, scalars and arrays alike. Q-functions are probabilities that decrease in the threshold, and box-plus is commutative with magnitude at most that of its smaller operand, exact up to infinite L-values.",
 ["inputs"], "all real arguments, orders and array shapes; moderate and large magnitudes as well as small ones",
 "Tests compare at a few points with small arguments; accuracy over the domain (large arguments, tails, infinities) is not exercised.",
 ["_util/special_functions.py"], [("special functions", "_util/special_functions.py")])
prop("U03", "Resampling, convolution, Fourier and correlation utilities match definitions",
 "Compression and expansion select or insert exactly the documented samples along any axis and compressing an expansion with the same factor and offset restores the input; convolution along an axis equals the direct sum in every mode; the Fourier transform equals the scaled, frequency-sorted sum and its frequency bins; linear and cyclic autocorrelations equal their defining sums for any integer shifts, normalised or not.",
 ["inputs"], "all real/complex arrays of any dimension, axes, factors, offsets, lengths and shifts (including negative shifts and shifts beyond the length)",
 "Tests use short fixed arrays; axes, offsets, complex conjugation and out-of-range shifts are quantified over.",
 ["_util/signal_processing.py", "_util/sequences.py"], [("resampling and transforms", "_util/signal_processing.py"), ("correlations", "_util/sequences.py")])
prop("B01", "Block codes encode, check and un-encode consistently for every code and message",
 "For every linear block code, however it is specified, the generator and check matrices are orthogonal of full rank, encoding is the linear injective map given by the generator matrix, checking a word is the product with the transposed check matrix and vanishes exactly on codewords, and inverse encoding recovers every message and rejects non-codewords. All three maps act independently on each block of the last axis of arrays of any dimension, and inputs whose last dimension is not a multiple of the block size are rejected.",
 ["inputs", "configurations"], "all generator/check matrices, parity submatrices and information sets, all predefined families, all message and word arrays",
 "Tests fix particular codes and a few messages; the quantification is over all codes, all messages, all array shapes.",
 ["_error_control_block/base.py", "_error_control_block/BlockCode.py", "_error_control_block/SystematicBlockCode.py", "_error_control_block/CyclicCode.py", "_util/matrices.py", "_util/decorators.py"],
 [("matrix algebra over GF(2)", "_util/matrices.py"), ("block-wise application", "_util/decorators.py"), ("encoding maps", "_error_control_block/base.py")])
prop("B02", "Predefined code families have their advertised structure and parameters",
 "Every member of the repetition, single-parity-check, Hamming, simplex, Golay, Reed-Muller, cyclic, BCH, Cordaro-Wagner, polar and lexicographic families (extended variants included) has the length, dimension and minimum distance that define the family and the codeword set given by its defining construction, and the documented dualities, cyclicity, perfection and optimality hold. For BCH codes the generator polynomial is the least-degree polynomial with the required consecutive roots and the reported design and Bose distances are lower bounds on the true minimum distance.",
 ["configurations"], "all parameter values of each family (bounded by computability), not the few instances tabulated in the tests",
 "Tests tabulate parameters of particular instances; constructions are compared against independent definitions over a whole parameter range.",
 ["_error_control_block/BCHCode.py", "_error_control_block/ReedMullerCode.py", "_error_control_block/Lexicode.py", "_error_control_block/CordaroWagnerCode.py", "_error_control_block/PolarCode.py", "_error_control_block/CyclicCode.py", "_error_control_block/HammingCode.py", "_error_control_block/GolayCode.py"],
 [("family constructions", "_error_control_block"), ("matrices", "_error_control_block/matrices.py")])
prop("B03", "Distance and coset structure of block codes is exact",
 "For every linear block code the reported codewords, codeword weight distribution, minimum distance, coset leaders and coset leader weight distribution, packing and covering radii, and the standard (Slepian) array agree with brute-force enumeration of the code and its cosets: each coset leader has minimum weight in its coset and the array lists every word exactly once in the row of its coset. Specialised shortcuts of the code families give the same answers as the generic definitions.",
 ["inputs", "configurations"], "all codes small enough to enumerate, built from generated matrices and from every family",
 "Tests tabulate a few codes; the structure theorems are quantified over all codes.",
 ["_error_control_block/base.py", "_error_control_block/SlepianArray.py", "_error_control_block/HammingCode.py", "_error_control_block/SimplexCode.py"],
 [("distance structure", "_error_control_block/base.py"), ("standard array", "_error_control_block/SlepianArray.py")])
prop("D01", "Hard-decision decoders correct every error pattern they guarantee",
 "For every supported code, the exhaustive-search and syndrome-table decoders return the message of a codeword at minimum Hamming distance from any received word, and the Berlekamp, Reed and every other hard-decision decoder return the transmitted message whenever the number of errors is within its guaranteed correction radius. Decoding acts block by block on arrays of any dimension and never returns a result of the wrong shape.",
 ["inputs", "configurations"], "all codes, all transmitted messages, all error patterns (within and, for complete decoders, beyond the guaranteed radius)",
 "Tests decode a few fixed error patterns per code; the guarantee is for all patterns of up to t errors on every code.",
 ["_error_control_decoders/ExhaustiveSearchDecoder.py", "_error_control_decoders/SyndromeTableDecoder.py", "_error_control_decoders/BerlekampDecoder.py", "_error_control_decoders/ReedDecoder.py"],
 [("decoding algorithms", "_error_control_decoders")])
prop("D02", "Soft-decision block decoders are optimal for the received values",
 "For every code and every real-valued input, the soft exhaustive-search and Wagner decoders return the message of a codeword of maximum correlation with the received L-values, the successive-cancellation decoder makes exactly the decisions of the successive bit-by-bit posterior rule, and every soft decoder recovers the message from noiseless inputs of any positive magnitude. Decoding acts block by block on arrays of any dimension.",
 ["inputs", "configurations"], "all codes supported by each decoder and all real-valued received vectors without ties",
 "Tests use a few received vectors; optimality is quantified over all real vectors and codes.",
 ["_error_control_decoders/ExhaustiveSearchDecoder.py", "_error_control_decoders/WagnerDecoder.py", "_error_control_decoders/SCDecoder.py", "_error_control_decoders/ReedDecoder.py"],
 [("soft decoding algorithms", "_error_control_decoders")])
prop("C01", "Convolutional encoders realise their transfer function matrix",
 "For every convolutional code, however specified (including recursive feedback and high- or low-rate systematic constructions), the encoder output for any input is the power-series product of the input with the transfer function matrix, the state-space matrices and the finite-state machine describe that same encoder, and the reported constraint lengths, memory order and overall constraint length are those of the defining polynomials. Encoding is linear, causal, and splitting an input into pieces while carrying the final state over gives the same output as encoding it at once.",
 ["inputs", "histories", "configurations"], "all feedforward and feedback polynomial matrices, all input sequences, all start states and all ways of splitting an input",
 "Tests encode short inputs for tabulated codes from the zero state; equality with the transfer function and state carry-over are quantified over codes, inputs and splits.",
 ["_error_control_convolutional/base.py", "_error_control_convolutional/ConvolutionalCode.py", "_error_control_convolutional/HighRateConvolutionalCode.py", "_error_control_convolutional/LowRateConvolutionalCode.py"],
 [("state-space encoder", "_error_control_convolutional/base.py")])
prop("C02", "Catastrophicity and free distance of convolutional codes are correct",
 "A convolutional encoder is reported as catastrophic exactly when some infinite-weight input produces a finite-weight output, that is, when its trellis has a zero-output cycle with a non-zero input; and the reported free distance is the minimum weight of a non-zero output sequence of the encoder started in the zero state.",
 ["configurations"], "all small feedforward encoders, catastrophic ones included",
 "Tests tabulate well-known good codes; minimality over infinite sequences is quantified over all encoders.",
 ["_error_control_convolutional/base.py", "_util/matrices.py"],
 [("invariant factors", "_util/matrices.py"), ("free distance search", "_error_control_convolutional/base.py")])
prop("C03", "Terminated convolutional codes are the block codes their trellis defines",
 "For every convolutional code, number of blocks and termination mode, the terminated code is a linear block code with the documented length and dimension whose codewords are the encoder outputs: truncated from the zero state, driven back to the zero state by the tail in zero-termination, or starting and ending in the same state in tail-biting. Encoding, checking and inverse encoding are consistent with that code.",
 ["inputs", "configurations"], "all small convolutional codes (feedforward and recursive), block counts, the three modes and all messages",
 "Tests cover a few codes and modes with fixed messages; state conditions are quantified over all messages and encoders.",
 ["_error_control_convolutional/TerminatedConvolutionalCode.py", "_error_control_convolutional/terminations.py"],
 [("termination strategies", "_error_control_convolutional/terminations.py"), ("terminated code", "_error_control_convolutional/TerminatedConvolutionalCode.py")])
prop("C04", "Trellis decoders are optimal on terminated convolutional codes",
 "For every terminated convolutional code, Viterbi decoding (hard or soft) returns the message of a codeword of minimum Hamming distance or maximum correlation with the received block, and BCJR decoding returns the exact posterior L-values of every message bit (or their hard decisions), as computed by summing over all codewords. Noiseless blocks of any magnitude decode to the transmitted message and arrays are decoded block by block.",
 ["inputs", "configurations"], "all small convolutional codes (including ones with parallel branches), termination modes, received blocks and signal-to-noise parameters",
 "Tests decode single fixed blocks; ML/MAP optimality is quantified over all received vectors and codes.",
 ["_error_control_decoders/ViterbiDecoder.py", "_error_control_decoders/BCJRDecoder.py", "_error_control_convolutional/terminations.py", "_finite_state_machine/MealyMachine.py"],
 [("Viterbi", "_error_control_decoders/ViterbiDecoder.py"), ("BCJR", "_error_control_decoders/BCJRDecoder.py")])
prop("C05", "Streaming Viterbi decoding is delay-exact and independent of chunking",
 "A streaming Viterbi decoder fed a stream in pieces of any sizes outputs the same bits as when fed the whole stream at once, and for a noiseless stream its output is the transmitted bits delayed by exactly the traceback length from any start state it is told of. Each decision equals the first branch of a best trellis path over the traceback window.",
 ["histories", "inputs", "configurations"], "all chunkings of all streams, traceback lengths, start states, hard and soft inputs, small convolutional codes",
 "Tests feed one or two streams; chunking histories and start states are not explored.",
 ["_error_control_convolutional/ViterbiStreamDecoder.py", "_finite_state_machine/MealyMachine.py"],
 [("stream memory carried between calls", "_error_control_convolutional/ViterbiStreamDecoder.py"), ("streaming Viterbi", "_finite_state_machine/MealyMachine.py")])
prop("F01", "Finite-state machine runs, Viterbi and forward-backward are exact",
 "For every finite-state machine, processing any input sequence from any state yields the outputs and final state of stepping through its tables, and the derived tables of transitions list exactly the existing transitions. Viterbi search returns, for every reachable final state, an input sequence reaching it at the minimum total metric, and the forward-backward algorithm returns the exact posterior input probabilities, for any metrics, initial costs and distributions, parallel transitions included.",
 ["inputs", "configurations", "histories"], "all small Mealy and Moore tables, input sequences, metrics and initial/final distributions",
 "Tests use one or two machines; correctness is over all machines, including ones with several inputs between the same states.",
 ["_finite_state_machine/MealyMachine.py", "_finite_state_machine/MooreMachine.py"],
 [("Viterbi and BCJR recursions", "_finite_state_machine/MealyMachine.py")])
prop("L01", "Code classification predicates and code rates are exact",
 "For every fixed-to-variable or variable-to-fixed code, the answers to whether it is prefix-free, uniquely encodable, uniquely decodable and fully covering are exactly those of the definitions, the Kraft parameter and expected rate equal their defining sums, and codes constructed from codeword lengths are prefix-free with exactly those lengths, refusing lengths that violate the Kraft inequality.",
 ["inputs"], "all small sets of codewords and sourcewords over alphabets of any cardinality, all length lists and pmfs",
 "Tests classify a dozen codes; unique decodability is a statement over all concatenations and all codes.",
 ["_lossless_coding/FixedToVariableCode.py", "_lossless_coding/VariableToFixedCode.py", "_lossless_coding/util.py"],
 [("unique decodability and covering tests", "_lossless_coding/util.py")])
prop("L02", "Constructed source codes are optimal or have their defining lengths",
 "For every source distribution, the Huffman code attains the minimum expected length of any prefix-free code for every block size and assignment policy, Shannon and Fano codes are prefix-free with their defining lengths or splits, and the Tunstall code attains the maximum expected source-word length achievable with the given target block size; all stay within the entropy bounds. Canonical assignments keep the lengths and give the canonical code.",
 ["inputs", "configurations"], "all pmfs (zeros, ties and skewed ones included), source block sizes, policies and target block sizes",
 "Tests check a few pmfs; optimality is against all alternative codes for all pmfs.",
 ["_lossless_coding/HuffmanCode.py", "_lossless_coding/ShannonCode.py", "_lossless_coding/FanoCode.py", "_lossless_coding/TunstallCode.py"],
 [("tree construction", "_lossless_coding/HuffmanCode.py"), ("Tunstall tree", "_lossless_coding/TunstallCode.py")])
prop("L03", "Block and variable-length source codes decode what they encode",
 "For every prefix-free fixed-to-variable code and every fully covering, prefix-free variable-to-fixed code, decoding the encoding of any source sequence returns that sequence (up to the documented completion of a trailing partial word for variable-to-fixed codes), the encoded stream is the concatenation of the codewords, and inputs outside the alphabet or streams that cannot be parsed are rejected. Empty sequences encode and decode to empty integer sequences.",
 ["inputs", "configurations"], "all codes of these kinds and all source sequences, including empty and one-block sequences",
 "Tests encode a few strings; losslessness is over all sequences and codes.",
 ["_lossless_coding/FixedToVariableCode.py", "_lossless_coding/VariableToFixedCode.py", "_lossless_coding/util.py"],
 [("parsing", "_lossless_coding/util.py")])
prop("L04", "Dictionary coders are lossless and emit well-formed token streams",
 "For every Lempel-Ziv coder (LZ77, LZSS, LZ78, LZW), every alphabet and every source sequence, decoding the encoding returns the sequence exactly; the stream is made of tokens with the documented field widths and ranges that a decoder can rebuild from the documented scheme, greedy matches are longest, and encoding uses only target symbols.",
 ["inputs", "configurations"], "all source sequences (runs, periodic, random, empty, full alphabets), all window/lookahead sizes and cardinalities",
 "Tests round-trip a few strings and one parameter set; self-overlapping matches, boundary window sizes, dictionary growth across width changes and large alphabets are quantified over.",
 ["_lossless_coding/LempelZiv77Code.py", "_lossless_coding/LempelZivSSCode.py", "_lossless_coding/LempelZiv78Code.py", "_lossless_coding/LempelZivWelchCode.py", "_lossless_coding/util.py"],
 [("tokenisation", "_lossless_coding/LempelZiv77Code.py"), ("dictionary growth", "_lossless_coding/LempelZivWelchCode.py")])
prop("L05", "Integer codes are lossless, prefix-free and minimal in their own format",
 "For the Fibonacci and unary codes, decoding the encoding of any sequence of integers in the domain returns it, the codeword of each integer is the one the code defines (Zeckendorf representation with terminating one, or run-length), codewords are self-delimiting, and out-of-domain integers and malformed or truncated streams are rejected rather than decoded silently.",
 ["inputs"], "all sequences of positive (non-negative) integers including very large ones, and all bit streams",
 "Tests cover small integers and two streams.",
 ["_integer_coding/FibonacciCode.py", "_integer_coding/UnaryCode.py"],
 [("Zeckendorf coding", "_integer_coding/FibonacciCode.py")])
prop("M01", "Labelings are bijections with consistent conversions and exact marginals",
 "Every labeling is a bijection between indices and bit tuples that has the documented structure (base-2, Gray with unit Hamming distance between neighbours, or Cartesian product), converting indices to bits and back is the identity block by block on arrays of any dimension, and marginalisation returns the log-ratio of the metric sums over the indices whose bit is zero and one. Matrices that are not bijective labelings, out-of-alphabet bits and ragged lengths are rejected by general labelings.",
 ["inputs", "configurations"], "all labelings (general matrices, natural, reflected, rectangular, products), all index/bit arrays and positive metrics",
 "Tests fix a few small labelings.",
 ["_labelings/base.py", "_labelings/NaturalLabeling.py", "_labelings/ReflectedLabeling.py", "_labelings/ProductLabeling.py", "_labelings/ReflectedRectangularLabeling.py"],
 [("conversions", "_labelings/base.py")])
prop("M02", "Constellation geometry and statistics agree with the symbol set",
 "For every constellation family and parameter values the symbol set is the documented one, and the reported order, dimension, mean, mean energy (for uniform and for given priors) and minimum distance (for at least two symbols) equal the values computed from that symbol set; mapping indices to symbols selects rows block by block on arrays of any dimension.",
 ["configurations", "inputs"], "all families, orders, amplitudes, spacings, phase offsets and priors",
 "Tests check particular orders; closed-form shortcuts are not compared with the symbol sets in general.",
 ["_constellations/base.py", "_constellations/PSKConstellation.py", "_constellations/QAMConstellation.py", "_constellations/CrossQAMConstellation.py", "_constellations/APSKConstellation.py", "_constellations/ASKConstellation.py"],
 [("closed-form shortcuts", "_constellations")])
prop("M03", "Detection is nearest-neighbour and posteriors follow the Gaussian model",
 "For every constellation and every received point, however far away, hard detection returns an index of a symbol at minimum Euclidean distance up to floating-point resolution (closest symbols are those symbols), and the posteriors are the normalised product of priors and Gaussian likelihoods for the stated real or circular complex noise power, block by block on arrays of any dimension. Noise-free points are detected as themselves.",
 ["inputs", "configurations"], "all constellations, received arrays (in and far outside the constellation), noise powers and priors (zeros allowed)",
 "Tests detect a few points near the symbols; family-specific fast detectors are not compared with nearest neighbour over the plane.",
 ["_constellations/base.py", "_constellations/PAMConstellation.py", "_constellations/QAMConstellation.py", "_constellations/PSKConstellation.py", "_constellations/BiorthogonalConstellation.py"],
 [("fast detectors", "_constellations"), ("posteriors", "_constellations/base.py")])
prop("H01", "Channel matrices, mutual information and capacity are exact",
 "For every discrete memoryless channel (binary symmetric, erasure, Z and general), the transition matrix is the documented stochastic matrix, mutual information equals the definition for every input distribution and logarithm base, and capacity is its maximum over input distributions: no input distribution exceeds it and the reported value is attained within tolerance. Invalid parameters and matrices are rejected.",
 ["inputs", "configurations"], "all channel parameters, transition matrices, input pmfs and bases",
 "Tests check textbook channels; the maximum over all input distributions is quantified.",
 ["_channels/BinarySymmetricChannel.py", "_channels/BinaryErasureChannel.py", "_channels/ZChannel.py", "_channels/DiscreteMemorylessChannel.py", "_util/information_theory.py"],
 [("closed forms", "_channels"), ("capacity iteration", "_util/information_theory.py")])
prop("H02", "Channel transmission respects support, shape, noise law and seed",
 "Transmitting any input array through any channel gives an array of the same shape whose entries are possible outputs for the corresponding inputs; noiseless and deterministic parameter values act exactly; over long transmissions the empirical transition frequencies and noise mean, variance and circularity match the parameters; and with equal generator states two transmissions of the same input are identical while the input is left unmodified.",
 ["inputs", "configurations", "histories"], "all channels, parameters, input arrays of any shape and generator seeds",
 "Tests check a few long transmissions; support, shape and determinism over all inputs are not.",
 ["_channels/BinarySymmetricChannel.py", "_channels/BinaryErasureChannel.py", "_channels/ZChannel.py", "_channels/DiscreteMemorylessChannel.py", "_channels/GaussianChannel.py", "_util/global_rng.py"],
 [("noise generation", "_channels")])
prop("P01", "Pulse waveform, spectrum, energy and autocorrelation are mutually consistent",
 "For every pulse and parameter value the waveform and spectrum are a Fourier transform pair, the energy spectral density is the squared magnitude of the spectrum, the autocorrelation is its inverse transform and equals the energy at zero, the Nyquist families are one at zero and zero at other integers, and a square-root pulse squared in frequency is its base pulse. Filter taps are the waveform sampled at the requested rate over the requested span, and values are finite at and near every removable singularity for scalars and arrays alike.",
 ["inputs", "configurations"], "all pulses, roll-offs, widths and bandwidths, all times and frequencies including the singular points, all sampling rates and spans",
 "Tests compare tables for a few roll-offs; consistency is over the continuum of parameters and arguments.",
 ["_pulses/base.py", "_pulses/RaisedCosinePulse.py", "_pulses/BeaulieuPulse.py", "_pulses/GaussianPulse.py", "_pulses/RectangularPulse.py", "_pulses/ManchesterPulse.py", "_pulses/SincPulse.py", "_pulses/util.py"],
 [("closed forms and singularity handling", "_pulses")])
prop("Q01", "Scalar quantizers map every input to the documented cell and level",
 "For every general or uniform scalar quantizer and every real input, the index is that of the half-open cell containing the input and the output is that cell's level; quantization is monotone, idempotent on levels, element-wise for any array shape, and within half a step inside the range of a uniform quantizer, with the documented levels, thresholds and symmetry of the mid-riser and mid-tread variants. The mean squared error equals the integral of the squared error over the given input range, and invalid level/threshold interleavings are rejected.",
 ["inputs", "configurations"], "all level/threshold lists, steps, offsets, inputs (thresholds themselves, infinities) and input densities and ranges",
 "Tests quantize a few values; cell boundaries and arbitrary input ranges are quantified.",
 ["_quantization/base.py", "_quantization/ScalarQuantizer.py", "_quantization/UniformQuantizer.py"],
 [("cell lookup", "_quantization/base.py")])
prop("Q02", "Lloyd-Max quantizers satisfy the optimality conditions",
 "For every well-behaved input density on a finite range and number of levels, the levels are the centroids of their cells and the thresholds the midpoints of adjacent levels (within the stated convergence tolerance), all lie in the range in increasing order, and the mean squared error does not exceed that of the uniform quantizer on the same range.",
 ["inputs", "configurations"], "all piecewise-smooth densities (symmetric, skewed, multimodal), ranges and numbers of levels",
 "Tests check Gaussian and uniform densities only.",
 ["_quantization/LloydMaxQuantizer.py"], [("alternating optimisation", "_quantization/LloydMaxQuantizer.py")])
prop("S01", "Binary sequences have their defining recurrences and correlations",
 "Bit and polar formats of every binary sequence correspond element by element; a maximum-length or general feedback-register sequence satisfies the recurrence of its feedback polynomial from the given start state for a full period, and primitive feedback gives period 2^n-1, balance and two-valued cyclic autocorrelation; Walsh-Hadamard sequences are the rows of the documented matrix (mutually orthogonal, sign changes equal to the index in sequency order); Barker sequences have side-lobes of magnitude at most one.",
 ["configurations", "inputs"], "all feedback polynomials and start states, degrees, lengths, orderings and indices",
 "Tests print a few sequences; recurrence, orthogonality and correlation laws quantify over all parameters.",
 ["_sequences_binary/sequences.py", "_sequences_binary/LFSRSequence.py", "_sequences_binary/WalshHadamardSequence.py", "_sequences_binary/BinarySequence.py", "_sequences_binary/BarkerSequence.py"],
 [("generators", "_sequences_binary/sequences.py")])
prop("S02", "Zadoff-Chu and complex sequences have their defining correlations",
 "For every odd length and valid root index the Zadoff-Chu sequence has the documented values, unit magnitude, zero cyclic autocorrelation off the origin when the root is coprime to the length and constant-magnitude cross-correlation between roots whose difference is coprime to the length; even lengths and out-of-range roots are rejected. Correlation methods of complex and binary sequence objects agree with the defining sums for any shifts.",
 ["configurations", "inputs"], "all odd lengths and root indices, all complex sequences and shifts",
 "Tests check a few lengths.",
 ["_sequences_complex/sequences.py", "_sequences_complex/ZadoffChuSequence.py", "_sequences_complex/ComplexSequence.py"],
 [("sequence generator", "_sequences_complex/sequences.py")])
prop("R01", "Markov chain analysis agrees with the transition matrix",
 "For every finite Markov chain, the accessible states, communicating classes, transient, recurrent and absorbing states, periods, irreducibility, aperiodicity, regularity and index of primitivity are exactly those determined by the positive entries of the transition matrix, and the stationary distribution, mean visits, mean times to absorption and absorption probabilities solve their defining equations with rows and columns in increasing state order. Queries that do not apply to the chain are refused.",
 ["inputs", "histories"], "all transition matrices up to a bounded number of states, every query and every order of queries on the same object",
 "Tests use textbook chains with few states.",
 ["_sources/MarkovChain.py"], [("graph analysis and linear systems", "_sources/MarkovChain.py")])
prop("R02", "Random sources emit valid, law-abiding and reproducible symbols",
 "Simulated Markov paths have the requested length, start at the given state, use only transitions of positive probability and stop at absorption exactly when asked to; discrete memoryless sources emit symbols of positive probability in the requested shape; over long runs empirical frequencies match the probabilities. With equal generator states, explicit or global, two runs are identical, and components created without a generator all use the global one in effect at creation.",
 ["inputs", "configurations", "histories"], "all chains, pmfs, shapes, initial states, seeds and interleavings of components sharing the global generator",
 "Tests fix one seed and check averages.",
 ["_sources/MarkovChain.py", "_sources/DiscreteMemorylessSource.py", "_util/global_rng.py"],
 [("sampling", "_sources"), ("global generator", "_util/global_rng.py")])
prop("X01", "Operations never modify arguments and are repeatable on the same object",
 "No constructor, encoding, decoding, conversion, analysis or signal-processing operation modifies the arrays or lists passed to it, or a result returned earlier, and a query or stateless operation on an object gives the same answer whichever other operations were performed on that object or on other objects before, equal to the answer of a freshly constructed equal object. Inputs given as lists, tuples or integer arrays of any width give equal results.",
 ["histories", "inputs"], "all interleavings of operations on shared objects and all argument containers",
 "Each test builds fresh objects and calls one operation; cached state, aliasing and mutation across calls are not exercised.",
 ["_error_control_block/base.py", "_error_control_convolutional/base.py", "_finite_state_machine/MealyMachine.py", "_lossless_coding/FixedToVariableCode.py", "_constellations/base.py", "_labelings/base.py", "_util/matrices.py", "_sources/MarkovChain.py"],
 [("cached properties and in-place updates", "_error_control_block/base.py")])
prop("E01", "Composed transmission chains recover the source message",
 "Composing the library's parts in the documented way - source encoder, channel encoder, labeling, constellation, pulse shaping and sampling, channel, detection or posterior probabilities and L-values, decoder, source decoder - recovers the source message exactly whenever the disturbance is one the chain guarantees to undo: none, noise smaller than half the minimum distance before hard detection, at most t errors per codeword, or fewer erasures per codeword than the minimum distance under soft decoding. Quantised samples arrive as their levels, users spread by orthogonal sequences and scrambled by a shift register are separated, and matched root pulses leave no intersymbol interference. Bit orders, L-value signs, shapes (single messages and batches), lengths and delays of the parts fit together for every combination.",
 ["inputs", "configurations"], "all combinations of source coder, code, decoder, labeling, constellation and pulse, all messages and all correctable disturbances",
 "Tests exercise parts in isolation or one fixed chain; a convention (bit order, sign, delay, padding) changed consistently inside one part is only visible in composition.",
 ["_labelings/base.py", "_constellations/base.py", "_error_control_decoders/ViterbiDecoder.py", "_error_control_decoders/BCJRDecoder.py", "_error_control_convolutional/ViterbiStreamDecoder.py", "_util/signal_processing.py", "_pulses/base.py", "_error_control_decoders/SCDecoder.py"],
 [("L-values from posteriors", "_labelings/base.py"), ("posteriors from received points", "_constellations/base.py")])
prop("X02", "Printed representations reconstruct an equivalent object",
 "For every object whose class prints a constructor call (codes, labelings, constellations, channels, sources, pulses, sequences, quantizers given by levels, state machines, decoders, polynomials, fractions and fields), evaluating repr(object) with the library's names gives an object of the same class with the same representation whose queries and operations give the same results. Polynomials, fractions, field elements and integers print their exact value, and equality (and hashing, where defined) agrees with equality of the mathematical values.",
 ["inputs", "configurations"], "all constructor parameters, in particular non-default optional parameters and full-precision numbers",
 "The few tests of representations compare fixed strings of default-like objects; that no parameter is dropped, rounded or misnamed is quantified over all parameters.",
 ["_error_control_block/CyclicCode.py", "_lossless_coding/HuffmanCode.py", "_lossless_coding/LempelZiv77Code.py", "_labelings/ProductLabeling.py", "_constellations/QAMConstellation.py", "_sequences_complex/ZadoffChuSequence.py", "_algebra/BinaryPolynomial.py", "_pulses/base.py"],
 [("representation", "_error_control_block/CyclicCode.py"), ("equality and printing of values", "_algebra/BinaryPolynomial.py")])
prop("X03", "Exactly the documented domain of parameters and inputs is accepted",
 "Every constructor, and every method that validates its arguments, accepts exactly the documented domain of its parameters: where its documentation or error messages restrict them (ranges of sizes, orders and indices, probabilities and pmfs, log bases, lengths that must be multiples of a block size, alphabets, codewords, modes and other keywords) every value inside that domain is accepted and every value outside it is refused with an error (ValueError, or ZeroDivisionError for division by zero) instead of returning a result. Contents that the library leaves unchecked by design (sentinel symbols in Lempel-Ziv search buffers, elements of bit arrays handed to encoders and machines) are not covered.",
 ["inputs", "configurations"], "all parameter values, in particular those next to the boundaries of each domain and combinations where only one of several conditions fails",
 "Tests try one or two invalid values per constructor, far from the boundary or with a single condition violated; off-by-one and combined conditions are quantified over.",
 ["_util/validators.py", "_util/decorators.py", "_error_control_block/BCHCode.py", "_error_control_block/SystematicBlockCode.py", "_lossless_coding/FixedToVariableCode.py", "_lossless_coding/VariableToFixedCode.py", "_labelings/base.py", "_constellations/base.py", "_quantization/ScalarQuantizer.py", "_channels/BinarySymmetricChannel.py", "_sequences_binary/WalshHadamardSequence.py"],
 [("shared validators", "_util/validators.py"), ("block-length validation", "_util/decorators.py")])
prop("X04", "Omitted optional parameters take their documented default values",
 "For every public callable with optional parameters, a call that omits any subset of them yields an object or result that is indistinguishable, by all its queries and operations, from the call that spells out the documented defaults (noiseless channels, base-2 logarithms, uniform priors and state distributions, unit amplitudes and roll-offs, 'zero-termination', hard inputs, soft outputs, block size 1, full shift range, last axis ...), and arguments given positionally in the documented order equal the same arguments given by name.",
 ["inputs", "configurations"], "all subsets of omitted parameters and all values of the remaining ones",
 "Tests call each constructor in one or two argument patterns; whether the default agrees with its documentation in combination with arbitrary other arguments is quantified over.",
 ["_channels/ZChannel.py", "_constellations/base.py", "_constellations/QAMConstellation.py", "_finite_state_machine/MealyMachine.py", "_error_control_convolutional/TerminatedConvolutionalCode.py", "_lossless_coding/HuffmanCode.py", "_pulses/base.py", "_util/sequences.py", "_util/signal_processing.py"],
 [("optional parameters", "_constellations/base.py"), ("shift and normalisation defaults", "_util/sequences.py")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
