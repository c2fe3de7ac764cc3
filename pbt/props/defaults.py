"""X04: an omitted optional parameter behaves exactly as its documented default, and the parameters keep their
documented names and order.

Every entry names a callable, strategies of its required parameters, and for each optional parameter the documented
default (a value, or a function of the required parameters) and a strategy of other values.  A case omits a random
subset of the optional parameters; the result is compared, by all its queries, with the one in which the omitted ones
are given explicitly, and with the one in which everything is given positionally in the documented order."""
import math
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from .. import codes
from . import histories as H

rule("X04", "Non-trivial: at least one optional parameter is omitted (label: the callable).",
     ["the documented defaults are transcribed in the check from the reference documentation",
      "random generators (`rng`) have no comparable default and are excluded"])

I, S, B = st.integers, st.sampled_from, st.booleans()
AMP = st.floats(0.1, 10).map(lambda v: round(v, 3))
PH = st.floats(0, 1).map(lambda v: round(v, 3))
def L(e, a=0, b=4): return st.lists(e, min_size=a, max_size=b)
def F(**k):
    s = st.fixed_dictionaries(k); ORDER[id(s)] = (list(k), s); return s      # documented order of the parameters
ORDER = {}
def pmf_of(w): return [a / sum(w) for a in w]
PMF = lambda n=None: L(I(1, 9), n or 2, n or 6).map(pmf_of)
BASE = S([2.0, "e", 3.0, 10, 0.5, 4])

E = {}
class Entry:
    def __init__(self, group, call, req, opts, probe=None, kwonly=(), on=None):
        self.group, self.call, self.req, self.opts, self.probe, self.kwonly, self.on = group, call, req, opts, probe, set(kwonly), on
        self.names = ORDER[id(req)][0] if id(req) in ORDER else ["orders", "amplitudes"]
def entry(name, group, call, req, opts, probe=None, kwonly=(), on=None):
    """on: strategy of what the callable is taken from (method calls): call(on_value) gives the callable."""
    assert name not in E; E[name] = Entry(group, call, req, opts, probe, kwonly, on)

def queries(o):
    """All attributes and argument-less methods of an object (or the value itself)."""
    if type(o).__module__.split(".")[0] != "komm": return o
    out = [("repr-type", type(o).__name__)]
    for nm, fn, args in H.no_args(o):
        with np.errstate(all="ignore"): out.append((nm, H.run(fn, o, [])))
    return out

C = lambda n: getattr(komm, n)
# -- channels
for n, p in (("BinarySymmetricChannel", "crossover_probability"), ("BinaryErasureChannel", "erasure_probability"), ("ZChannel", "decay_probability")):
    entry(n, "channels", C(n), F(), {p: (0.0, PH)})
    entry(n + ".capacity", "channels", lambda p, n=n: C(n)(p).capacity, F(), {"base": (2.0, BASE)}, on=PH)
    entry(n + ".mutual_information", "channels", lambda p, n=n: C(n)(p).mutual_information, F(input_pmf=PMF(2)), {"base": (2.0, BASE)}, on=PH)
entry("GaussianChannel", "channels", komm.GaussianChannel, F(), {"noise_power": (0.0, AMP)}, probe=lambda o: (o.noise_power, float(np.abs(o.transmit(np.arange(50.0)) - np.arange(50)).max()) == 0))
DMC = st.lists(PMF(3), min_size=3, max_size=3)
entry("DiscreteMemorylessChannel.capacity", "channels", lambda P: komm.DiscreteMemorylessChannel(P).capacity, F(), {"base": (2.0, BASE)}, on=DMC)
entry("DiscreteMemorylessChannel.mutual_information", "channels", lambda P: komm.DiscreteMemorylessChannel(P).mutual_information, F(input_pmf=PMF(3)), {"base": (2.0, BASE)}, on=DMC)
entry("entropy", "channels", komm.entropy, F(pmf=PMF()), {"base": (2.0, BASE)})
entry("relative_entropy", "channels", komm.relative_entropy, F(pmf=PMF(4), qmf=PMF(4)), {"base": (2.0, BASE)})
entry("binary_entropy_inv", "channels", komm.binary_entropy_inv, F(h=PH), {"tol": (1e-12, S([1e-3, 1e-6]))})
entry("DiscreteMemorylessSource.entropy_rate", "channels", lambda p: komm.DiscreteMemorylessSource(p).entropy_rate, F(), {"base": (2.0, BASE)}, on=PMF())
entry("DiscreteMemorylessSource.emit", "channels", lambda c: komm.DiscreteMemorylessSource(c[0], rng=np.random.default_rng(c[1])).emit, F(), {"shape": (1, S([3, (2, 2), 0, ()]))}, on=st.tuples(PMF(), I(0, 99)), probe=np.ravel)

# -- constellations
def con(name, req, opts): entry(name, "constellations", C(name), req, opts)
con("PAMConstellation", F(order=I(2, 9)), {"delta": (2.0, AMP)})
con("ASKConstellation", F(order=I(2, 9)), {"base_amplitude": (1.0, AMP), "phase_offset": (0.0, PH)})
con("PSKConstellation", F(order=I(2, 9)), {"amplitude": (1.0, AMP), "phase_offset": (0.0, PH)})
con("APSKConstellation", S([((4, 8), (1.0, 2.5)), ((3,), (2.0,)), ((4, 12, 16), (1.0, 2.0, 3.5))]).map(lambda v: dict(orders=v[0], amplitudes=v[1])), {"phase_offsets": (0.0, PH)})
con("QAMConstellation", F(orders=S([4, 16, 64, (2, 4), (4, 2), (3, 5)])), {"deltas": (2.0, st.one_of(AMP, st.tuples(AMP, AMP))), "phase_offset": (0.0, PH)})
con("CrossQAMConstellation", F(order=S([32, 128])), {"delta": (2.0, AMP), "phase_offset": (0.0, PH)})
con("OrthogonalConstellation", F(order=I(2, 9)), {"amplitude": (1.0, AMP)})
con("BiorthogonalConstellation", F(order=S([2, 4, 6, 8])), {"amplitude": (1.0, AMP)})
con("SimplexConstellation", F(order=I(2, 9)), {"base_amplitude": (1.0, AMP)})
CON = {"pam": lambda: komm.PAMConstellation(5, 1.5), "ask": lambda: komm.ASKConstellation(4, 2.0, 0.1), "psk": lambda: komm.PSKConstellation(8, 0.7, 0.3),
       "apsk": lambda: komm.APSKConstellation((4, 8), (1.0, 2.5), 0.2), "qam": lambda: komm.QAMConstellation(16, (1.0, 3.0), 0.05), "qam42": lambda: komm.QAMConstellation((4, 2)),
       "cross": lambda: komm.CrossQAMConstellation(32), "orthogonal": lambda: komm.OrthogonalConstellation(4, 2.0), "biorthogonal": lambda: komm.BiorthogonalConstellation(6, 1.3),
       "simplex": lambda: komm.SimplexConstellation(5, 1.1), "custom": lambda: komm.Constellation([[0.0, 1], [1, 0.5], [2, 2], [-3, 5]]), "complex": lambda: komm.Constellation([[1j], [2], [-1 - 1j]])}
class Uniform:                                     # stands for the uniform pmf over the symbols of the object
    pass
for n in CON:
    M = CON[n]().order
    uni = [1 / M] * M
    for m in ("mean", "mean_energy"):
        entry(f"{n}.{m}", "constellations", lambda _, n=n, m=m: getattr(CON[n](), m), F(), {"priors": (uni, PMF(M))}, on=st.just(0))
    entry(f"{n}.posteriors", "constellations", lambda r, n=n: (lambda noise_power, priors=None, **k: CON[n]().posteriors(np.asarray(r[: CON[n]().dimension]), noise_power, *([] if priors is None else [priors]))),
          F(noise_power=AMP), {"priors": (uni, PMF(M))}, on=L(st.floats(-3, 3).map(lambda v: round(v, 2)), 12, 12))

# -- codes and decoders
entry("HammingCode", "codes", komm.HammingCode, F(mu=I(2, 4)), {"extended": (False, B)})
entry("SimplexCode", "codes", komm.SimplexCode, F(kappa=I(2, 4)), {"extended": (False, B)})
entry("GolayCode", "codes", komm.GolayCode, F(), {"extended": (False, B)}, probe=lambda o: (o.length, o.dimension, o.generator_matrix, o.check_matrix))
entry("CyclicCode", "codes", lambda a: (lambda systematic=None: komm.CyclicCode(a["length"], **{k: v for k, v in a.items() if k != "length"}, **({} if systematic is None else dict(systematic=systematic)))),
      F(), {"systematic": (True, B)}, on=S([dict(length=7, generator_polynomial=0b1011), dict(length=7, check_polynomial=0b10111), dict(length=15, generator_polynomial=0b111010001), dict(length=9, generator_polynomial=0b1001001)]))
entry("SystematicBlockCode", "codes", komm.SystematicBlockCode, F(parity_submatrix=st.lists(L(I(0, 1), 3, 3), min_size=2, max_size=4)), {"information_set": ("left", S(["left", "right"]))})
CONV = st.sampled_from([[[0b111, 0b101]], [[0b1101, 0b1111, 0b1011]], [[0b11, 0b10, 0b11], [0b10, 0b1, 0b1]], [[0b1, 0b101, 0b111]]])
entry("ConvolutionalCode", "codes", lambda G: (lambda feedback_polynomials=None: komm.ConvolutionalCode(G, *([] if feedback_polynomials is None else [feedback_polynomials]))), F(),
      {"feedback_polynomials": (lambda a, G: [1] * len(G), None)}, on=CONV)
def term(c): return komm.ConvolutionalCode(c)
entry("TerminatedConvolutionalCode", "codes", lambda G: (lambda num_blocks, *a, **k: komm.TerminatedConvolutionalCode(term(G), num_blocks, *a, **k)), F(num_blocks=I(2, 4)),
      {"mode": ("zero-termination", S(["zero-termination", "direct-truncation"]))}, probe=lambda o: (o.mode, o.length, o.generator_matrix, o.codeword_length if hasattr(o, "codeword_length") else 0), on=CONV)
def decoder(name, mk, par, default, soft_only=False):
    def probe(d):
        r, mode = np.random.default_rng(7), getattr(d, par)
        return [mode, d.decode(r.normal(size=(4, d.code.length)) * 2 if soft_only or mode == "soft" else r.integers(0, 2, size=(4, d.code.length)))]
    entry(name, "codes", lambda c: (lambda *a, **k: getattr(komm, name)(mk(c), *a, **k)), F(), {par: (default, S(["hard", "soft"]))}, on=I(0, 3), probe=probe)
decoder("ExhaustiveSearchDecoder", lambda i: [komm.HammingCode(3), komm.RepetitionCode(5), komm.SimplexCode(3), komm.SingleParityCheckCode(4)][i], "input_type", "hard")
decoder("ReedDecoder", lambda i: komm.ReedMullerCode(*[(1, 3), (0, 3), (2, 3), (1, 4)][i]), "input_type", "hard")
decoder("SCDecoder", lambda i: komm.PolarCode(*[(3, [0, 1, 2, 4]), (2, [0]), (3, [0, 1, 2]), (1, [0])][i]), "output_type", "soft", soft_only=True)
TERM = lambda i: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[0b111, 0b101]] if i % 2 else [[0b11, 0b10]]), 4, ["zero-termination", "direct-truncation"][i // 2])
decoder("ViterbiDecoder", TERM, "input_type", "hard")
decoder("BCJRDecoder", TERM, "output_type", "soft", soft_only=True)
def stream_probe(d):
    x = np.random.default_rng(3).integers(0, 2, size=2 * 3 * 5) if d.input_type == "hard" else np.random.default_rng(3).normal(size=30)
    x = x[: len(x) // d.convolutional_code.num_output_bits * d.convolutional_code.num_output_bits]
    return (d.state, d.input_type, d.decode(x), d.decode(x))
entry("ViterbiStreamDecoder", "codes", lambda G: (lambda traceback_length, *a, **k: komm.ViterbiStreamDecoder(term(G), traceback_length, *a, **k)), F(traceback_length=I(3, 6)),
      {"state": (0, I(0, 1)), "input_type": ("hard", S(["hard", "soft"]))}, probe=stream_probe, on=S([[[0b111, 0b101]], [[0b11, 0b10, 0b1]]]))
def fsm(v): r = np.random.default_rng(v); s = 2 + v % 3; return komm.MealyMachine(r.integers(0, s, size=(s, 2)), r.integers(0, 4, size=(s, 2)))
metric = lambda y, z: float((y - z) ** 2)
like = lambda y, z: math.exp(-(y - z) ** 2 / 2.0)
entry("MealyMachine.viterbi", "codes", lambda v: (lambda observed, initial_metrics=None: fsm(v).viterbi(np.array(observed), metric, *([] if initial_metrics is None else [initial_metrics[:fsm(v).num_states]]))), F(observed=L(I(0, 3), 1, 6)),
      {"initial_metrics": (lambda a, v: [0.0] * fsm(v).num_states, L(st.floats(0, 3).map(lambda v: round(v, 1)), 4, 4))}, on=I(0, 99))
def fb(v, observed, **k):
    p, o, f = (k.get(n) for n in ("input_priors", "initial_state_distribution", "final_state_distribution"))
    def pmf(w, n): w = np.resize(w, n) / np.resize(w, n).sum(); return w     # drawn weights, as many as it takes
    kw = {n: np.array(x) if isinstance(x[0], (float, list)) else (np.array([pmf(np.roll(x, i), 2) for i in range(len(observed))]) if n == "input_priors" else pmf(x, fsm(v).num_states)) for n, x in k.items() if x is not None}
    return fsm(v).forward_backward(np.array(observed), like, **kw)
DIST = None
entry("MealyMachine.forward_backward", "codes", lambda v: (lambda observed, **k: fb(v, observed, **k)), F(observed=L(I(0, 3), 1, 6)),
      {"input_priors": (lambda a, v: [[0.5, 0.5]] * len(a["observed"]), L(I(1, 9), 4, 4)), "initial_state_distribution": (lambda a, v: [1 / fsm(v).num_states] * fsm(v).num_states, L(I(1, 9), 4, 4)),
       "final_state_distribution": (lambda a, v: [1 / fsm(v).num_states] * fsm(v).num_states, L(I(1, 9), 4, 4))}, on=I(0, 99), kwonly=("input_priors", "initial_state_distribution", "final_state_distribution"))

# -- source codes
def source_probe(o): return [getattr(o, "enc_mapping", 0), getattr(o, "dec_mapping", 0), o.source_cardinality, o.target_cardinality, getattr(o, "source_block_size", 0), getattr(o, "target_block_size", 0)]
for n in ("FanoCode", "ShannonCode"): entry(n, "source_codes", C(n), F(pmf=PMF()), {"source_block_size": (1, I(1, 2))}, probe=source_probe)
entry("HuffmanCode", "source_codes", komm.HuffmanCode, F(pmf=PMF()), {"source_block_size": (1, I(1, 2)), "policy": ("high", S(["high", "low"])), "assignment": ("tree", S(["tree", "canonical"]))}, probe=source_probe)
entry("TunstallCode", "source_codes", komm.TunstallCode, F(pmf=PMF()), {"target_block_size": (lambda a, on: math.ceil(math.log2(len(a["pmf"]))), I(3, 5))}, probe=source_probe)
WORDS = S([[(0,), (1, 0), (1, 1)], [(0, 0), (0, 1), (1, 0), (1, 1)], [(0,), (1, 0, 0), (1, 1, 1), (1, 0, 1)], [(0,), (1,), (2, 0), (2, 1)]])
entry("FixedToVariableCode.from_codewords", "source_codes", komm.FixedToVariableCode.from_codewords, F(codewords=WORDS), {"source_cardinality": (lambda a, on: len(a["codewords"]), None)}, kwonly=("source_cardinality",), probe=source_probe)
entry("FixedToVariableCode.from_lengths", "source_codes", komm.FixedToVariableCode.from_lengths, F(lengths=S([[1, 2, 2], [2, 2, 2, 2], [3, 1, 3, 3], [1, 2, 3, 4]])),
      {"source_cardinality": (lambda a, on: len(a["lengths"]), None), "target_cardinality": (2, I(2, 3))}, kwonly=("source_cardinality", "target_cardinality"), probe=source_probe)
entry("VariableToFixedCode.from_sourcewords", "source_codes", komm.VariableToFixedCode.from_sourcewords, F(sourcewords=S([[(0, 0), (0, 1), (1,)], [(0,), (1,), (2, 0), (2, 1), (2, 2)]])), {"target_cardinality": (2, I(2, 3))}, kwonly=("target_cardinality",), probe=source_probe)
def lz_probe(o): x = np.random.default_rng(5).integers(0, o.source_cardinality, size=25); y = o.encode(x); return [o.source_cardinality, o.target_cardinality, y, o.decode(y)]
for n in ("LempelZiv77Code", "LempelZivSSCode"):
    entry(n, "source_codes", (lambda n: lambda search_buffer=None, **k: C(n)(**k, **({} if search_buffer is None else dict(search_buffer=search_buffer[:k["search_size"]]))))(n), F(search_size=I(1, 6), lookahead_size=I(1, 4), source_cardinality=I(2, 4)), {"target_cardinality": (2, I(2, 4)), "search_buffer": (lambda a, on: [0] * a["search_size"], L(I(0, 1), 6, 6))},
          kwonly=("search_size", "lookahead_size", "source_cardinality", "target_cardinality", "search_buffer"), probe=lambda o: lz_probe(o) + [o.search_buffer])
for n in ("LempelZiv78Code", "LempelZivWelchCode"): entry(n, "source_codes", C(n), F(source_cardinality=I(2, 4)), {"target_cardinality": (2, I(2, 4))}, probe=lz_probe)
MATS = L(S([[[0], [1]], [[1], [0]], [[0, 0], [1, 0], [1, 1], [0, 1]]]), 1, 2)
entry("ProductLabeling", "source_codes", lambda m: (lambda **k: komm.ProductLabeling(*[komm.Labeling(x) for x in m], **k)), F(), {"repeat": (1, I(1, 3))}, kwonly=("repeat",), on=MATS)
entry("ProductLabeling.from_matrices", "source_codes", lambda m: (lambda **k: komm.ProductLabeling.from_matrices(*m, **k)), F(), {"repeat": (1, I(1, 3))}, kwonly=("repeat",), on=MATS)

# -- pulses, quantizers, sequences, algebra, utilities
T = np.linspace(-4, 4, 161)
def pulse_probe(o): return [o.waveform(T), o.spectrum(T), o.taps(8, (-4, 4)), o.support if hasattr(o, "support") else 0, o.autocorrelation(T) if hasattr(o, "autocorrelation") else 0]
for n in ("BeaulieuPulse", "RaisedCosinePulse"): entry(n, "others", C(n), F(), {"rolloff": (1.0, PH)}, probe=lambda o: [o.waveform(T), o.spectrum(T), o.taps(8, (-4, 4))])
entry("GaussianPulse", "others", komm.GaussianPulse, F(), {"half_power_bandwidth": (1.0, AMP)}, probe=lambda o: [o.waveform(T), o.spectrum(T), o.taps(8, (-4, 4))])
entry("RectangularPulse", "others", komm.RectangularPulse, F(), {"width": (1.0, st.floats(0.1, 1).map(lambda v: round(v, 2)))}, probe=lambda o: [o.waveform(T), o.spectrum(T), o.taps(8)])
entry("RectangularPulse.taps", "others", lambda w: komm.RectangularPulse(w).taps, F(samples_per_symbol=I(1, 9)), {"span": ((0, 1), S([(0, 1), (-1, 2), (0, 3), (0, 0)]))}, on=st.floats(0.1, 1).map(lambda v: round(v, 2)))
entry("ManchesterPulse.taps", "others", lambda w: komm.ManchesterPulse().taps, F(samples_per_symbol=I(1, 9)), {"span": ((0, 1), S([(0, 1), (-1, 2), (0, 3), (0, 0)]))}, on=st.just(0))
entry("UniformQuantizer", "others", komm.UniformQuantizer, F(num_levels=I(2, 9), step=AMP), {"offset": (0.0, st.floats(-3, 3).map(lambda v: round(v, 2)))}, probe=lambda o: [o.levels, o.thresholds, o.digitize(T), o.quantize(T)])
QZ = {"uniform": lambda: komm.UniformQuantizer(4, 0.7), "scalar": lambda: komm.ScalarQuantizer([-1.0, 0.2, 1.0], [-0.5, 0.6]), "lloyd": lambda: komm.LloydMaxQuantizer(lambda x: np.exp(-x ** 2 / 2) / math.sqrt(2 * math.pi), (-4, 4), 3)}
for n in QZ:
    entry(n + ".mean_squared_error", "others", lambda _, n=n: (lambda *a, **k: QZ[n]().mean_squared_error(lambda x: np.exp(-np.abs(x)) / 2, (-3, 3), *a, **k)), F(), {"points_per_interval": (4096, S([2, 16, 100, 5000]))}, on=st.just(0))
entry("LFSRSequence", "others", komm.LFSRSequence, F(feedback_polynomial=S([0b1011, 0b100101, 0b111, 0b10011])), {"start_state_polynomial": (1, I(1, 3))})
entry("LFSRSequence.maximum_length_sequence", "others", komm.LFSRSequence.maximum_length_sequence, F(degree=I(2, 7)), {"start_state_polynomial": (1, I(1, 3))})
entry("WalshHadamardSequence", "others", komm.WalshHadamardSequence, F(length=S([4, 8, 16])), {"ordering": ("natural", S(["natural", "sequency"])), "index": (0, I(0, 3))})
entry("ZadoffChuSequence", "others", komm.ZadoffChuSequence, F(length=S([3, 5, 7, 9, 13])), {"root_index": (1, I(1, 2))})
SEQ = {"barker": lambda: komm.BarkerSequence(7), "mseq": lambda: komm.LFSRSequence(0b1011), "binary": lambda: komm.BinarySequence(bit_sequence=[0, 1, 1, 0, 1]), "complex": lambda: komm.ComplexSequence([1, 1j, -2, 0.5]), "zc": lambda: komm.ZadoffChuSequence(9, 2)}
SH = L(I(-9, 9), 1, 5)
for n in SEQ:
    for m in ("autocorrelation", "cyclic_autocorrelation"):
        entry(f"{n}.{m}", "others", lambda _, n=n, m=m: getattr(SEQ[n](), m), F(), {"shifts": (list(range(SEQ[n]().length)), SH), "normalized": (False, B)}, on=st.just(0))
for m in ("autocorrelation", "cyclic_autocorrelation"):
    entry(m, "others", C(m), F(sequence=L(st.floats(-3, 3).map(lambda v: round(v, 2) or 1.0), 1, 8)), {"shifts": (lambda a, on: list(range(len(a["sequence"]))), SH), "normalized": (False, B)})
POLY = I(1, 2 ** 20)
entry("BinaryPolynomial.coefficients", "others", lambda v: komm.BinaryPolynomial(v).coefficients, F(), {"width": (lambda a, v: v.bit_length(), I(21, 30))}, on=POLY)
entry("BinaryPolynomial.reciprocal", "others", lambda v: komm.BinaryPolynomial(v).reciprocal, F(), {"width": (lambda a, v: v.bit_length(), I(21, 30))}, on=POLY, probe=int)
entry("BinaryPolynomialFraction", "others", komm.BinaryPolynomialFraction, F(numerator=I(0, 255)), {"denominator": (1, I(1, 63))}, probe=lambda f: (int(f.numerator), int(f.denominator)))
# the documented table of default primitive polynomials (site/docs/res/primitive-polynomials.md)
PRIM = {1: 0b11, 2: 0b111, 3: 0b1011, 4: 0b10011, 5: 0b100101, 6: 0b1000011, 7: 0b10001001, 8: 0b100011101, 9: 0b1000010001, 10: 0b10000001001, 11: 0b100000000101, 12: 0b1000001010011, 13: 0b10000000011011, 14: 0b100010001000011, 15: 0b1000000000000011, 16: 0b11010000000010001, 17: 0b100000000000001001, 18: 0b1000000000010000001, 19: 0b10000000000000100111, 20: 0b100000000000000001001, 21: 0b1000000000000000000101, 22: 0b10000000000000000000011, 23: 0b100000000000000000100001, 24: 0b1000000000000000010000111}
entry("FiniteBifield", "others", komm.FiniteBifield, F(degree=I(1, 24)), {"modulus": (lambda a, on: PRIM[a["degree"]], None)}, probe=lambda f: (f.degree, int(f.modulus), f.order))
entry("maximum_length_sequence.feedback", "others", lambda _: (lambda degree, feedback=None: int(komm.LFSRSequence.maximum_length_sequence(degree).feedback_polynomial) if feedback is None else feedback),
      F(degree=I(1, 15)), {"feedback": (lambda a, on: PRIM[a["degree"]], None)}, on=st.just(0))
entry("bits_to_int", "others", komm.bits_to_int, F(input=L(I(0, 1), 1, 12)), {"bit_order": ("LSB-first", S(["LSB-first", "MSB-first"]))})
entry("int_to_bits", "others", komm.int_to_bits, F(input=L(I(0, 31), 1, 4), width=I(5, 8)), {"bit_order": ("LSB-first", S(["LSB-first", "MSB-first"]))})
ARR = st.tuples(I(2, 4), I(2, 5), I(0, 99))
def arr(c): return np.random.default_rng(c[2]).normal(size=c[:2])
for n in ("sampling_rate_compress", "sampling_rate_expand"):
    entry(n, "others", lambda c, n=n: (lambda *a, **k: C(n)(arr(c), *a, **k)), F(factor=I(3, 5)), {"offset": (0, I(0, 2)), "axis": (-1, S([0, 1, -1, -2]))}, on=ARR)
entry("convolve", "others", lambda c: (lambda *a, **k: komm.convolve(arr(c), [1.0, -2.0], *a, **k)), F(), {"axis": (-1, S([0, 1, -1, -2])), "mode": ("full", S(["full", "valid", "same"]))}, on=ARR)
entry("fourier_transform", "others", lambda c: (lambda time_step, nfft=None, axis=None: komm.fourier_transform(arr(c[0]), time_step, **({} if nfft is None else dict(nfft=nfft if nfft != -7 else arr(c[0]).shape[-1])), **({} if axis is None else dict(axis=axis)))),
      F(time_step=AMP), {"nfft": (-7, I(5, 9)), "axis": (-1, st.just(-1))}, on=st.tuples(ARR))

def strategy(group):
    def one(name):
        e = E[name]
        return F(what=st.just(name), on=e.on or st.none(), req=e.req, omit=st.sets(S(sorted(e.opts)), min_size=0 if len(e.opts) > 1 else 1).map(sorted) if e.opts else st.just([]),
                 vals=F(**{k: v[1] if v[1] is not None else st.none() for k, v in e.opts.items()}))
    return S([n for n in sorted(E) if E[n].group == group]).flatmap(one)

def tup(v): return tuple(tup(x) for x in v) if isinstance(v, list) else v
def verdict(c):
    e = E[c["what"]]; on, req, omit = c["on"], dict(c["req"]), set(c["omit"])
    for k in ("codewords", "sourcewords"):
        if k in req: req[k] = [tuple(w) for w in req[k]]
    for k in ("orders", "amplitudes", "span"):
        if isinstance(req.get(k), list): req[k] = tuple(req[k])
    default = {k: (d(req, on) if callable(d) else d) for k, (d, s) in e.opts.items()}
    vals = {k: (tup(v) if k in ("span", "shape", "deltas", "phase_offsets") else v) for k, v in c["vals"].items()}
    rest = {k: (default[k] if vals[k] is None else vals[k]) for k in e.opts if k not in omit}
    fn = (lambda: e.call(on)) if e.on is not None else (lambda: e.call)
    look = e.probe or queries
    def snap(a, k):
        r = H.run(lambda _: fn()(*a, **k), None, [])
        if isinstance(r, BaseException): return ("exc", type(r).__name__)
        with np.errstate(all="ignore"): return H.snap(look(r))
    full = {**{k: default[k] for k in e.opts}, **rest}
    x, y = snap([], {**req, **rest}), snap([], {**req, **full})
    if y[0] == "exc": raise Skip(f"not applicable: {y}")
    assert H.same(x, y, H.TIGHT), f"{c['what']}: omitting {sorted(omit)} is not the same as the documented default {[default[k] for k in sorted(omit)]}\n omitted : {str(x)[:400]}\n explicit: {str(y)[:400]}"
    names = e.names + list(e.opts)
    pos = [n for n in names if n not in e.kwonly]
    z = snap([{**req, **full}[n] for n in pos], {n: full[n] if n in full else req[n] for n in names if n in e.kwonly})
    assert H.same(z, y, H.TIGHT), f"{c['what']}: positional arguments in the documented order {pos} differ from the same keyword arguments\n positional: {str(z)[:400]}\n keyword   : {str(y)[:400]}"
    return c["what"] if omit else False

for _g in sorted({e.group for e in E.values()}):
    _n = sum(e.group == _g for e in E.values())
    check("X04", strategy(_g), quick=60 * _n, thorough=600 * _n, name=f"documented_defaults_of_{_g}")(verdict)
