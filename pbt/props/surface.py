"""X02: printed representations reconstruct equivalent objects.  X03: exactly the documented domain of
parameters and inputs is accepted.

X02 evaluates repr(obj) and compares every query and operation of the reconstruction with those of the object.
X03 draws parameters around the boundaries of each documented domain; an independent predicate says whether the
construction or call has to succeed or to be refused with an error."""
import itertools, math
from fractions import Fraction
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from .. import codes, convs
from . import histories as H

# ================================================================ X02
rule("X02", "Non-trivial: the object has at least one parameter in its representation (label: the class).",
     ["objects without an evaluable representation by design are excluded: functions as parameters (Lloyd-Max quantizers), "
      "uniform quantizers and integer codes, which keep Python's default representation",
      "the random generator of stochastic objects is not part of a representation"])

NS = {k: getattr(komm, k) for k in komm.__all__}; NS["np"] = np
NO_REPR = (komm.LloydMaxQuantizer, komm.UniformQuantizer, komm.UnaryCode, komm.FibonacciCode)

def rebuild(o):
    text = repr(o)
    try: e = eval(text, dict(NS))
    except Exception as x: raise AssertionError(f"repr does not evaluate ({type(x).__name__}: {x}): {text[:300]}")
    assert type(e) is type(o), f"repr gives a {type(e).__name__}, not a {type(o).__name__}: {text[:300]}"
    assert repr(e) == text, f"the representation of the reconstruction differs:\n {text[:300]}\n {repr(e)[:300]}"
    return e

@st.composite
def zoo_case(draw):
    return dict(kind=draw(st.sampled_from(sorted(set(H.ZOO) - {"integer", "block2"}))), v=draw(st.integers(0, 2 ** 32)), seed=draw(st.integers(0, 2 ** 16)))

@check("X02", zoo_case(), quick=700, thorough=8000, weight=3)
def representation_reconstructs_the_object(c):
    s = H.subject(c["kind"], c["v"])
    try: o = s.fresh()
    except (ValueError, NotImplementedError): raise Skip("not constructible")
    if isinstance(o, tuple): parts, e = o, tuple(rebuild(x) for x in o); name = type(o[1]).__name__
    elif isinstance(o, NO_REPR): raise Skip("no evaluable representation by design")
    else: e = rebuild(o); name = type(o).__name__
    r = np.random.default_rng(c["seed"])
    ops = s.ops(o)
    ops = [ops[i] for i in r.permutation(len(ops))[:25]]
    for nm, fn, args in ops:
        a = H.run(lambda o: args(r, o), o, [])
        if isinstance(a, BaseException): continue      # e.g. tail-biting impossible: nothing to encode
        with np.errstate(all="ignore"):
            x, y = H.snap(H.run(fn, o, H.plain(a))), H.snap(H.run(fn, e, H.plain(a)))
        assert H.same(x, y, H.TIGHT), f"{nm} of {repr(o)[:200]} and of its reconstruction differ"
    return name

@st.composite
def code_repr_case(draw):
    t = draw(st.sampled_from(["block", "block", "cyclic", "conv", "term"]))
    if t == "cyclic":       # lengths with factors of X^n + 1 that are not their own reciprocals, among others
        n = draw(st.sampled_from([7, 14, 15, 7, 15, 9, 12])); g = draw(st.sampled_from([g for g in codes._DIV[n] if codes.pdeg(g) < n])); by = draw(st.sampled_from("gh"))
        return dict(t="block", code=dict(t="cyc", n=n, p=g if by == "g" else codes.pdivmod((1 << n) | 1, g)[0], by=by, sys=draw(st.booleans())))
    if t == "block": return dict(t=t, code=draw(codes.any_spec(14, big=True)))
    return dict(t=t, code=draw(convs.conv_spec(max_nu=7, max_sigma=9)), h=draw(st.integers(1, 9)), mode=draw(st.sampled_from(["zero-termination", "direct-truncation", "tail-biting"])))

@check("X02", code_repr_case(), quick=400, thorough=8000)
def representation_reconstructs_the_code(c):
    """The whole space of code parameters: the reconstruction is the same code, i.e. the same encoder."""
    if c["t"] == "block": o = codes.build(c["code"])
    else:
        o = convs.build(c["code"])
        if c["t"] == "term": o = komm.TerminatedConvolutionalCode(o, c["h"], c["mode"])
    e = rebuild(o); r = np.random.default_rng(7)
    if c["t"] == "conv":
        u = r.integers(0, 2, 12 * o.num_input_bits)
        assert (e.num_input_bits, e.num_output_bits, e.degree) == (o.num_input_bits, o.num_output_bits, o.degree)
        assert H.same(H.snap(e.encode(u)), H.snap(o.encode(u)), H.TIGHT), repr(o)
    else:
        u = r.integers(0, 2, 3 * o.dimension)
        assert (e.length, e.dimension) == (o.length, o.dimension)
        x, y = (H.snap(H.run(lambda x: x.encode(u), z, [])) for z in (o, e))
        assert H.same(x, y, H.TIGHT), f"{repr(o)[:300]} encodes differently from its reconstruction"
        if c["t"] == "block":
            assert H.same(H.snap(e.check_matrix), H.snap(o.check_matrix), H.TIGHT), f"{repr(o)[:300]}: check matrix of the reconstruction differs"
    return type(o).__name__

@st.composite
def value_case(draw):
    t = draw(st.sampled_from(["poly", "frac", "int", "field", "element", "gauss"]))
    big = st.integers(0, 2 ** draw(st.sampled_from([3, 8, 40, 130])))
    if t == "frac": return dict(t=t, a=draw(big), b=1 + draw(big))
    if t == "field" or t == "element":
        k = draw(st.integers(1, 12)); return dict(t=t, k=k, m=draw(st.one_of(st.none(), st.integers(2 ** k, 2 ** (k + 1) - 1))), a=draw(st.integers(0, 2 ** k - 1)), b=draw(st.integers(0, 2 ** k - 1)))
    if t == "gauss": return dict(t=t, p=draw(st.floats(0, 1e6, allow_subnormal=False)))
    return dict(t=t, a=draw(big) * (draw(st.sampled_from([1, -1])) if t == "int" else 1), b=draw(big))

@check("X02", value_case(), quick=600, thorough=10000)
def algebraic_values_print_and_compare(c):
    t = c["t"]
    if t == "poly":
        p, q = komm.BinaryPolynomial(c["a"]), komm.BinaryPolynomial(c["b"])
        assert str(p) == bin(c["a"]) and repr(p) == f"BinaryPolynomial({bin(c['a'])})", (repr(p), str(p))
        e = rebuild(p); assert e == p and hash(e) == hash(p)
        assert (p == q) == (c["a"] == c["b"]) and (p != q) == (c["a"] != c["b"]) and len({p, q, e}) == 1 + (c["a"] != c["b"])
        assert int(p) == c["a"]
    elif t == "frac":
        f = komm.BinaryPolynomialFraction(c["a"], c["b"]); e = rebuild(f)
        assert e == f and e.numerator == f.numerator and e.denominator == f.denominator
        assert str(f) == f"{f.numerator}/{f.denominator}"
    elif t == "int":
        i = komm.Integer(c["a"]); e = rebuild(i)
        assert e == i and str(i) == str(c["a"]) and (komm.Integer(c["b"]) == i) == (c["a"] == c["b"])
    elif t == "gauss":
        g = komm.GaussianChannel(c["p"]); assert rebuild(g).noise_power == c["p"]
    else:
        try: F = komm.FiniteBifield(c["k"], c["m"])
        except ValueError: raise Skip("reducible modulus")
        E = rebuild(F); assert E == F and E.degree == F.degree and E.modulus == F.modulus
        x, y = F(c["a"]), E(c["b"])
        assert str(x) == repr(x) == bin(c["a"]) and (x == y) == (c["a"] == c["b"]) and len({x, y}) == 1 + (c["a"] != c["b"])
        assert int(str(x), 2) == c["a"] and E(c["a"]) == x and hash(E(c["a"])) == hash(x)
    return t

def large_makers():
    pm = lambda r, *s: (lambda a: a / a.sum(axis=-1, keepdims=True))(r.random(s) ** 6 + 1e-9)
    def fsm(r):
        S, X, M = int(r.integers(1, 70)), int(r.integers(1, 40)), int(r.choice([2, 300, 70000, 2 ** 40]))
        o = komm.MealyMachine(r.integers(0, S, (S, X)), r.integers(0, M, (S, X))) if r.integers(2) else komm.MooreMachine(r.integers(0, S, (S, X)), r.integers(0, M, S))
        u = r.integers(0, X, 50)
        return o, lambda e: [e.transitions, e.outputs, e.process(u, 0)]
    def block(r):
        k, n = int(r.integers(1, 60)), int(r.integers(1, 60)); k, n = min(k, n), max(k, n)
        P = r.integers(0, 2, (k, n - k + 1)); G = np.hstack([np.eye(k, dtype=int), P])[:, r.permutation(n + 1)]
        t = int(r.integers(3)); u = r.integers(0, 2, 2 * k)
        if t == 0: return komm.BlockCode(generator_matrix=G), lambda e: [e.generator_matrix, e.check_matrix, e.encode(u)]
        if t == 1: return komm.BlockCode(check_matrix=G), lambda e: [e.generator_matrix, e.check_matrix]
        I_ = r.permutation(n + 1)[:k]
        return komm.SystematicBlockCode(P, I_), lambda e: [e.generator_matrix, e.check_matrix, e.encode(u)]
    def polar(r):
        mu = int(r.integers(4, 11)); f = np.flatnonzero(r.random(2 ** mu) < 0.5)[:-1]
        return komm.PolarCode(mu, frozen=f), lambda e: [e.frozen, e.dimension]
    def cyclic(r):
        n = int(r.choice([63, 127, 255, 511])); code = komm.BCHCode(int(np.log2(n + 1)), int(r.choice([3, 5, 7])))
        o = komm.CyclicCode(n, generator_polynomial=code.generator_polynomial, systematic=bool(r.integers(2))) if r.integers(2) else komm.CyclicCode(n, check_polynomial=code.check_polynomial, systematic=bool(r.integers(2)))
        u = r.integers(0, 2, o.dimension)
        return o, lambda e: [e.generator_polynomial, e.check_polynomial, e.encode(u)]
    def conv(r):
        k, n, nu = int(r.integers(1, 4)), int(r.integers(1, 5)), int(r.integers(1, 33))
        F = [[int(v) for v in row] for row in r.integers(0, 2 ** nu, (k, n))]; q = [int(v) | 1 for v in r.integers(0, 2 ** nu, k)]
        u = r.integers(0, 2, 40 * k)
        return komm.ConvolutionalCode(F, q if r.integers(2) else None), lambda e: [e.feedforward_polynomials, e.feedback_polynomials, e.encode(u)]
    def dmc(r):
        x, y = int(r.integers(1, 50)), int(r.integers(1, 50))
        return komm.DiscreteMemorylessChannel(pm(r, x, y)), lambda e: [e.transition_matrix]
    def dms(r): return komm.DiscreteMemorylessSource(pm(r, int(r.integers(1, 3000)))), lambda e: [e.pmf]
    def markov(r): return komm.MarkovChain(pm(r, *[int(r.integers(1, 50))] * 2)), lambda e: [e.transition_matrix]
    def huff(r):
        p = pm(r, int(r.integers(2, 1500)))
        o = [lambda: komm.HuffmanCode(p), lambda: komm.FanoCode(p), lambda: komm.ShannonCode(p)][r.integers(3)]()
        return o, lambda e: [e.pmf, e.codewords]
    def ftv(r):
        p = pm(r, int(r.integers(2, 1500))); o = komm.FixedToVariableCode.from_codewords(komm.HuffmanCode(p).codewords)
        return o, lambda e: [e.codewords, e.enc_mapping]
    def vtf(r):
        p = pm(r, int(r.integers(2, 20))); o = komm.TunstallCode(p, int(r.integers(6, 11)))
        return o, lambda e: [e.pmf, e.target_block_size, e.sourcewords]
    def lz(r):
        n = int(r.integers(1, 3000)); b = r.integers(0, 2, n); kw = dict(search_size=n, lookahead_size=int(r.integers(1, 300)), source_cardinality=2, target_cardinality=2, search_buffer=b.tolist())
        x = r.integers(0, 2, 30)
        return [komm.LempelZiv77Code, komm.LempelZivSSCode][r.integers(2)](**kw), lambda e: [e.search_buffer, e.encode(x)]
    def lab(r):
        m = int(r.integers(5, 12)); B = (np.arange(2 ** m)[:, None] >> np.arange(m)) & 1
        return komm.Labeling(B[r.permutation(2 ** m)]), lambda e: [e.matrix]
    def const(r):
        M, N = int(r.integers(1, 1500)), int(r.integers(1, 4)); z = r.normal(size=(M, N)) * 10.0 ** r.integers(-3, 4)
        if r.integers(2): z = z + 1j * r.normal(size=(M, N))
        return komm.Constellation(z), lambda e: [e.matrix]
    def quant(r):
        n = int(r.integers(2, 1500)); v = np.cumsum(r.random(2 * n - 1) + 1e-3) - n / 3
        return komm.ScalarQuantizer(v[::2], v[1::2]), lambda e: [e.levels, e.thresholds]
    def seq(r):
        n = int(r.integers(1, 3000)); t = int(r.integers(4))
        if t == 0: return komm.BinarySequence(bit_sequence=r.integers(0, 2, n)), lambda e: [e.bit_sequence]
        if t == 1: return komm.ComplexSequence(r.normal(size=n) + 1j * r.normal(size=n)), lambda e: [e.sequence]
        if t == 2:
            n |= 1
            u = next(u for u in range(n // 2, 2 * n) if math.gcd(u, n) == 1 and u) if n > 1 else 1
            return komm.ZadoffChuSequence(n, u), lambda e: [e.sequence]
        m = int(r.integers(2, 13)); p = int(r.integers(2 ** m, 2 ** (m + 1))) | 1; s = int(r.integers(1, 2 ** m))
        return komm.LFSRSequence(komm.BinaryPolynomial(p), start_state_polynomial=s), lambda e: [e.bit_sequence]
    return {f.__name__: f for f in (fsm, block, polar, cyclic, conv, dmc, dms, markov, huff, ftv, vtf, lz, lab, const, quant, seq)}
LARGE = large_makers()

@check("X02", st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(LARGE)), seed=st.integers(0, 2 ** 32 - 1))), quick=160, thorough=3000, weight=3)
def representation_of_large_objects(c):
    """Tables of thousands of entries: nothing is elided, rounded or wrapped in the representation."""
    o, look = LARGE[c["kind"]](np.random.default_rng(c["seed"]))
    e = rebuild(o)
    x, y = (H.snap(H.run(lambda z: tuple(look(z)), z, [])) for z in (o, e))
    assert H.same(x, y, H.TIGHT), f"{repr(o)[:300]}: the reconstruction differs"
    return len(repr(o)) > 300 and c["kind"]

# ================================================================ X03
rule("X03", "Non-trivial: every case; the label says which interface and whether the parameters lie in the documented domain.",
     ["probability vectors are either exact to 1e-9 or off by at least 1e-3 (the library's own tolerance lies in between)",
      "codes of dimension 0, zero-size blocks and parameters whose domain the documentation does not state are not drawn"])

E, S = {}, {}
ERR = (ValueError, ZeroDivisionError)
def entry(**strats):
    def deco(f):
        nm = f.__name__.rstrip("_"); E[nm] = f; S[nm] = st.fixed_dictionaries(strats); return f
    return deco
def I(a, b): return st.integers(a, b)
def L(el, a=0, b=6): return st.lists(el, min_size=a, max_size=b)
def ok_pmf(p): return len(p) > 0 and all(x >= 0 for x in p) and abs(math.fsum(p) - 1) < 1e-9
@st.composite
def PMF(draw, n=None, positive=False):
    n = n or draw(I(1, 6)); w = draw(st.lists(I(1 if positive else 0, 5), min_size=n, max_size=n))
    if sum(w) == 0: w[0] = 1
    p = [x / sum(w) for x in w]
    t = draw(I(0, 6))
    if t == 6 and n > 1: e = 10.0 ** -draw(I(5, 15)); p[-1] += p[0] + e; p[0] = -e          # a negative entry of any magnitude
    if t == 0: p[draw(I(0, n - 1))] += draw(st.sampled_from([1e-3, -1e-3, 0.5, -1.0]))
    if t == 1 and n > 1: p[0] += 0.25 + p[1]; p[1] = -0.25
    return p
BAD = st.sampled_from
PROB = st.sampled_from([0.0, 1.0, 0.5, -0.0, 1e-300, 1 - 2 ** -53, -1e-9, 1 + 1e-9, -1.0, 2.0, 0.25, 3.5, -0.001, 1.001, float("nan")])

# -- block codes
@entry(mu=I(-2, 6), ext=st.booleans())
def hamming(mu, ext): return mu >= 2, lambda: komm.HammingCode(mu, extended=ext).generator_matrix
@entry(kappa=I(-2, 6), ext=st.booleans())
def simplex(kappa, ext): return kappa >= 2, lambda: komm.SimplexCode(kappa, extended=ext).generator_matrix
@entry(n=I(-3, 9))
def repetition(n): return n >= 1, lambda: komm.RepetitionCode(n).generator_matrix
@entry(n=I(-3, 9))
def single_parity(n):
    if n == 1: raise Skip("dimension 0")
    return n >= 1, lambda: komm.SingleParityCheckCode(n).generator_matrix
@entry(n=I(-3, 12))
def cordaro_wagner(n): return n >= 2, lambda: komm.CordaroWagnerCode(n).generator_matrix
@entry(rho=I(-2, 5), mu=I(-2, 5))
def reed_muller(rho, mu): return 0 <= rho < mu, lambda: komm.ReedMullerCode(rho, mu).generator_matrix
@entry(n=I(-1, 7), d=I(-1, 8))
def lexicode(n, d): return 1 <= d <= n, lambda: komm.Lexicode(n, d).generator_matrix
@entry(mu=I(-1, 3), frozen=L(I(-2, 9), 0, 5))
def polar(mu, frozen):
    valid = mu >= 1 and all(0 <= x < 2 ** mu for x in frozen) and len(set(frozen)) == len(frozen)
    if valid and len(frozen) == 2 ** mu: raise Skip("dimension 0")
    return valid, lambda: komm.PolarCode(mu, frozen=frozen).generator_matrix
def bose(mu, delta):
    n = 2 ** mu - 1; z = {i * 2 ** j % n for i in range(1, delta) for j in range(mu)}
    return next(d for d in itertools.count(1) if d % n not in z)
@entry(mu=I(-1, 6), delta=I(-1, 65))
def bch(mu, delta): return mu >= 2 and 2 <= delta <= 2 ** mu - 1 and bose(mu, delta) == delta, lambda: komm.BCHCode(mu, delta).generator_polynomial
def pmod(a, b):
    while b and a.bit_length() >= b.bit_length(): a ^= b << (a.bit_length() - b.bit_length())
    return a
@entry(n=I(1, 10), p=I(0, 2 ** 10), by=BAD(["generator_polynomial", "check_polynomial", "generator_polynomial", "check_polynomial", "neither", "both"]), sys=st.booleans())
def cyclic(n, p, by, sys):
    mod = 2 ** n + 1
    if p == mod or p == 1: raise Skip("dimension or redundancy 0")
    if by == "both": return False, lambda: komm.CyclicCode(n, generator_polynomial=3, check_polynomial=2 ** n - 1, systematic=sys)
    if by == "neither": return False, lambda: komm.CyclicCode(n, systematic=sys)
    return p != 0 and pmod(mod, p) == 0, lambda: komm.CyclicCode(n, systematic=sys, **{by: p}).generator_matrix
@entry(P=L(L(I(0, 1), 2, 2), 1, 3), inf=st.one_of(BAD(["left", "right", "middle", "", "LEFT"]), L(I(-1, 5), 1, 4)))
def systematic(P, inf):
    k, n = len(P), len(P) + 2
    valid = inf in ("left", "right") if isinstance(inf, str) else len(inf) == k and len(set(inf)) == k and all(0 <= i < n for i in inf)
    return valid, lambda: komm.SystematicBlockCode(P, inf).generator_matrix
@entry(G=st.booleans(), H=st.booleans())
def block(G, H): return G != H, lambda: komm.BlockCode(**(dict(generator_matrix=[[1, 0, 1]]) if G else {}), **(dict(check_matrix=[[1, 0, 1]]) if H else {})).length
SM = [dict(t="ham", mu=3, ext=False), dict(t="rm", rho=1, mu=3), dict(t="spc", n=4), dict(t="rep", n=3), dict(t="bch", mu=3, delta=3), dict(t="cyc", n=7, p=11, by="g", sys=True), dict(t="cyc", n=7, p=11, by="g", sys=False)]
@entry(i=I(0, len(SM) - 1), op=BAD(["encode", "check", "inverse_encode"]), size=I(1, 24), lead=I(0, 2))
def word_lengths(i, op, size, lead):
    o = codes.build(SM[i]); b = o.dimension if op == "encode" else o.length
    return size % b == 0, lambda: getattr(o, op)(np.zeros(((lead,) if lead else ()) + (size,), dtype=int))
@entry(i=I(0, len(SM) - 1), w=L(I(0, 1), 8, 8), good=st.booleans())
def inverse_encode(i, w, good):
    o = codes.build(SM[i]); n = o.length
    v = np.array(w[:n])
    Gs = np.asarray(o.generator_matrix)
    if good: v = np.array(w[: Gs.shape[0]]) @ Gs % 2
    words = {tuple(np.array(m) @ Gs % 2) for m in itertools.product((0, 1), repeat=Gs.shape[0])}
    return tuple(v) in words, lambda: o.inverse_encode(v)
DEC = {"exhaustive_h": lambda: komm.ExhaustiveSearchDecoder(codes.build(SM[0]), "hard"), "exhaustive_s": lambda: komm.ExhaustiveSearchDecoder(codes.build(SM[0]), "soft"),
       "syndrome": lambda: komm.SyndromeTableDecoder(codes.build(SM[0])), "reed_h": lambda: komm.ReedDecoder(codes.build(SM[1]), "hard"), "reed_s": lambda: komm.ReedDecoder(codes.build(SM[1]), "soft"),
       "wagner": lambda: komm.WagnerDecoder(codes.build(SM[2])), "berlekamp": lambda: komm.BerlekampDecoder(codes.build(SM[4])), "sc": lambda: komm.SCDecoder(komm.PolarCode(2, frozen=[0])),
       "viterbi_h": lambda: komm.ViterbiDecoder(komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[7, 5]]), 3), "hard"),
       "viterbi_s": lambda: komm.ViterbiDecoder(komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[7, 5]]), 3), "soft"),
       "bcjr": lambda: komm.BCJRDecoder(komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[7, 5]]), 3), "soft")}
@entry(d=BAD(sorted(DEC)), size=I(1, 24))
def decoder_lengths(d, size):
    o = DEC[d](); soft = d in ("exhaustive_s", "reed_s", "wagner", "sc", "viterbi_s", "bcjr")
    return size % o.code.length == 0, lambda: o.decode(np.ones(size) if soft else np.zeros(size, dtype=int))
@entry(d=BAD(["viterbi", "bcjr"]), w=BAD(["hard", "soft", "Hard", "", "both", "soft "]))
def decoder_modes(d, w):
    T = komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[7, 5]]), 3)
    return w in ("hard", "soft"), lambda: {"viterbi": komm.ViterbiDecoder, "bcjr": komm.BCJRDecoder}[d](T, w).decode(np.ones(T.length) if d == "bcjr" or w == "soft" else np.zeros(T.length, dtype=int))

# -- convolutional codes
ND = st.one_of(I(1, 7), L(I(1, 7), 1, 3), st.integers(1, 3).flatmap(lambda n: L(st.lists(I(1, 7), min_size=n, max_size=n), 1, 3)))
@entry(ff=ND, fb=st.one_of(st.none(), I(1, 7).map(lambda x: 2 * x + 1), L(I(0, 3).map(lambda x: 2 * x + 1), 1, 3), L(st.lists(BAD([1, 3, 5]), min_size=2, max_size=2), 1, 2)))
def convolutional(ff, fb):
    f = np.asarray(ff); valid = f.ndim == 2 and (fb is None or np.asarray(fb).ndim == 1 and np.asarray(fb).shape[0] == f.shape[0])
    return valid, lambda: komm.ConvolutionalCode(ff, fb).degree
@entry(g=ND)
def low_rate(g): return np.asarray(g).ndim == 1, lambda: komm.LowRateConvolutionalCode(g).degree
@entry(h=st.one_of(I(1, 7), L(BAD([1, 3, 5, 7]), 2, 4), st.just([[1, 3], [3, 1]])))
def high_rate(h): return np.asarray(h).ndim == 1, lambda: komm.HighRateConvolutionalCode(h).degree
@entry(m=BAD(["direct-truncation", "zero-termination", "tail-biting", "truncation", "", "zero_termination", "Tail-biting", "tail-biting "]))
def termination_mode(m): return m in ("direct-truncation", "zero-termination", "tail-biting"), lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[7, 5]]), 3, m).length
@entry(g=L(I(1, 31), 1, 3), s=st.one_of(L(I(0, 1), 0, 6), st.just([[0, 1]]), st.just(1)))
def initial_state(g, s):
    c = komm.ConvolutionalCode([g]); m = max(x.bit_length() - 1 for x in g)
    if isinstance(s, list) and not s: s = np.zeros(0, dtype=int)
    return np.ndim(s) == 1 and np.size(s) == m, lambda: c.encode_with_state([1, 0, 1], s)
@entry(k=I(1, 3), size=I(1, 12))
def conv_input_length(k, size):
    c = komm.ConvolutionalCode((np.eye(k, k + 1, dtype=int) + 2).tolist())
    return size % k == 0, lambda: c.encode(np.ones(size, dtype=int))

# -- source codes
@entry(X=I(0, 4), Y=I(0, 3), k=I(0, 2), hurt=BAD(["", "", "drop", "add", "symbol", "negative", "empty"]), at=I(0, 15))
def fv_mapping(X, Y, k, hurt, at):
    m = {w: tuple(int(b) % max(Y, 1) for b in format(i, "05b")) for i, w in enumerate(itertools.product(range(max(X, 1)), repeat=max(k, 1)))}
    key = list(m)[at % len(m)]
    if hurt == "drop": del m[key]
    if hurt == "add": m[key[:-1] + (max(X, 1),)] = (0,)
    if hurt == "symbol": m[key] = m[key] + (max(Y, 1),)
    if hurt == "negative": m[key] = m[key] + (-1,)
    if hurt == "empty": m[key] = ()
    return X >= 2 and Y >= 2 and k >= 1 and not hurt, lambda: komm.FixedToVariableCode(X, Y, k, m).codewords
@entry(words=L(L(I(0, 2), 0, 3), 1, 9), X=st.one_of(st.none(), I(0, 4)))
def fv_codewords(words, X):
    W = [tuple(w) for w in words]; x = len(W) if X is None else X
    power = x >= 2 and any(x ** j == len(W) for j in range(1, 5))
    if all(set(w) <= {0} for w in W): raise Skip("target cardinality cannot be inferred")
    return all(W) and power, lambda: komm.FixedToVariableCode.from_codewords(W, source_cardinality=X).codewords
@entry(l=st.one_of(L(I(-1, 5), 2, 9), st.just([[1, 2], [2, 2]])), X=st.one_of(st.none(), I(0, 4)), Y=I(0, 4))
def fv_lengths(l, X, Y):
    flat = np.ndim(l) == 1; x = len(l) if X is None else X
    valid = flat and x >= 2 and Y >= 2 and any(x ** j == len(l) for j in range(1, 5)) and min(l) >= 1 and sum(Fraction(1, Y ** a) for a in l) <= 1
    return valid, lambda: komm.FixedToVariableCode.from_lengths(l, source_cardinality=X, target_cardinality=Y).codewords
@entry(Y=I(0, 3), X=I(0, 3), n=I(0, 2), hurt=BAD(["", "", "drop", "long", "symbol", "negative", "empty", "source"]), at=I(0, 15))
def vf_mapping(Y, X, n, hurt, at):
    m = {w: (i % max(X, 1),) * (1 + i // max(X, 1)) for i, w in enumerate(itertools.product(range(max(Y, 1)), repeat=max(n, 1)))}
    key = list(m)[at % len(m)]
    if hurt == "drop" and len(m) > 1: del m[key]
    if hurt == "long": m[key + (0,)] = (0,)
    if hurt == "symbol": m[key[:-1] + (max(Y, 1),)] = (0,)
    if hurt == "negative": m[key] = m[key] + (-1,)
    if hurt == "source": m[key] = m[key] + (max(X, 1),)
    if hurt == "empty": m[key] = ()
    return X >= 2 and Y >= 2 and n >= 1 and hurt in ("", "drop"), lambda: komm.VariableToFixedCode(Y, X, n, m).sourcewords
@entry(words=L(L(I(0, 2), 0, 3), 1, 9), Y=I(0, 4))
def vf_sourcewords(words, Y):
    W = [tuple(w) for w in words]
    if all(set(w) <= {0} for w in W): raise Skip("source cardinality cannot be inferred")
    return all(W) and Y >= 2, lambda: komm.VariableToFixedCode.from_sourcewords(W, target_cardinality=Y).dec_mapping
@entry(p=PMF(), b=I(-1, 2), pol=BAD(["high", "low", "mid", "High"]), asg=BAD(["tree", "canonical", "Tree", ""]))
def huffman(p, b, pol, asg):
    if len(p) < 2: raise Skip("one-symbol alphabet")
    return ok_pmf(p) and b >= 1 and pol in ("high", "low") and asg in ("tree", "canonical"), lambda: komm.HuffmanCode(p, b, pol, asg).codewords
@entry(p=PMF(), b=I(-1, 2))
def fano(p, b):
    if len(p) < 2: raise Skip("one-symbol alphabet")
    return ok_pmf(p) and b >= 1, lambda: komm.FanoCode(p, b).codewords
@entry(p=PMF(), b=I(-1, 2))
def shannon(p, b):
    if len(p) < 2 or max(p) == 1: raise Skip("one-symbol alphabet")
    return ok_pmf(p) and min(p) > 0 and b >= 1, lambda: komm.ShannonCode(p, b).codewords
@entry(p=PMF(positive=True), b=st.one_of(st.none(), I(-1, 4)))
def tunstall(p, b):
    if len(p) < 2: raise Skip("one-symbol alphabet")
    return ok_pmf(p) and (b is None or 2 ** b >= len(p)), lambda: komm.TunstallCode(p, b).sourcewords
@entry(p=PMF())
def fv_rate(p):
    if len(p) != 3: p = [0.5, 0.25, 0.25] if ok_pmf(p) else [0.5, 0.25, 0.5]
    return ok_pmf(p), lambda: komm.FixedToVariableCode.from_codewords([(0,), (1, 0), (1, 1)]).rate(p)
@entry(p=PMF(positive=True))
def vf_rate(p):
    if len(p) != 2: p = [0.75, 0.25] if ok_pmf(p) else [0.75, 0.5]
    return ok_pmf(p), lambda: komm.VariableToFixedCode.from_sourcewords([(0, 0), (0, 1), (1,)]).rate(p)
FV = [[(0,), (1, 0), (1, 1)], [(0,), (0, 1), (1, 1)], [(0,), (0, 1), (1, 0)], [(0,), (0,), (1,)], [(0, 0), (0, 1), (1, 0)]]
def ud(W):  # Sardinas-Patterson
    if len(set(W)) < len(W): return False
    cur = {w[len(v):] for v in W for w in W if v != w and w[: len(v)] == v}; seen = set()
    while cur:
        if () in cur or cur & set(W): return False
        seen |= cur
        cur = ({w[len(v):] for v in cur for w in W if w[: len(v)] == v} | {v[len(w):] for v in cur for w in W if v[: len(w)] == w}) - seen
    return True
@entry(i=I(0, 4), x=L(I(-1, 3)))
def fv_encode(i, x): return ud(FV[i]) and all(0 <= a < 3 for a in x), lambda: komm.FixedToVariableCode.from_codewords(FV[i]).encode(np.array(x, dtype=int))
@entry(x=L(I(-1, 2)), cut=I(0, 4))
def fv_encode_blocks(x, cut): return len(x) % 2 == 0 and all(0 <= a < 2 for a in x), lambda: komm.HuffmanCode([0.7, 0.3], 2).encode(np.array(x, dtype=int))
@entry(i=BAD([0, 2, 4, 3]), y=L(I(-1, 2), 0, 8))
def fv_decode(i, y):
    W = FV[i]; valid = i != 3 and ud(W); j = 0
    if valid:
        while j < len(y):
            w = next((w for w in W if tuple(y[j: j + len(w)]) == w), None)
            if w is None: valid = False; break
            j += len(w)
    return valid, lambda: komm.FixedToVariableCode.from_codewords(W).decode(np.array(y, dtype=int))
VF = [[(0, 0), (0, 1), (1,)], [(0, 0), (1,)], [(0,), (0, 1), (1,)], [(0,), (1,), (2, 0), (2, 1), (2, 2)]]
@entry(i=I(0, 3), x=L(I(-1, 2), 0, 6))
def vf_encode(i, x):
    if i == 2: return False, lambda: komm.VariableToFixedCode.from_sourcewords(VF[i]).encode(np.array(x, dtype=int)), (ValueError, NotImplementedError)
    if i in (1,): return False, lambda: komm.VariableToFixedCode.from_sourcewords(VF[i]).encode(np.array(x, dtype=int))
    X = 2 if i == 0 else 3
    return all(0 <= a < X for a in x), lambda: komm.VariableToFixedCode.from_sourcewords(VF[i]).encode(np.array(x, dtype=int))
@entry(y=L(I(-1, 2), 0, 8))
def vf_decode(y):
    W = VF[0]; d = {(0, 0), (0, 1), (1, 0)}
    return len(y) % 2 == 0 and all(tuple(y[j: j + 2]) in d for j in range(0, len(y), 2)), lambda: komm.VariableToFixedCode.from_sourcewords(W).decode(np.array(y, dtype=int))
@entry(c=BAD(["LempelZiv77Code", "LempelZivSSCode"]), s=I(-1, 4), l=I(-1, 4), X=I(0, 3), Y=I(0, 3), buf=st.one_of(st.none(), L(I(0, 1), 1, 5)))
def lz_windows(c, s, l, X, Y, buf): return s >= 1 and l >= 1 and X >= 2 and Y >= 2 and (buf is None or len(buf) == s), lambda: getattr(komm, c)(search_size=s, lookahead_size=l, source_cardinality=X, target_cardinality=Y, search_buffer=buf)
@entry(c=BAD(["LempelZiv78Code", "LempelZivWelchCode"]), X=I(-1, 3), Y=I(-1, 3))
def lz_alphabets(c, X, Y): return X >= 2 and Y >= 2, lambda: getattr(komm, c)(source_cardinality=X, target_cardinality=Y)
@entry(c=BAD(["LempelZiv77Code", "LempelZivSSCode", "LempelZiv78Code", "LempelZivWelchCode"]), X=I(2, 4), x=L(I(-1, 4), 1, 8))
def lz_symbols(c, X, x):
    o = getattr(komm, c)(X) if "7Code" not in c and "SS" not in c else getattr(komm, c)(search_size=4, lookahead_size=3, source_cardinality=X)
    return all(0 <= a < X for a in x), lambda: o.encode(np.array(x))
@entry(x=L(I(-2, 5)), c=BAD(["UnaryCode", "FibonacciCode"]))
def integers(x, c): return all(a >= (c == "FibonacciCode") for a in x), lambda: getattr(komm, c)().encode(np.array(x, dtype=int))
@entry(y=L(BAD([0, 1, 1, 0, 2, -1]), 0, 10), good=I(0, 3))
def unary_decode(y, good):
    y = [b for b in y if b in (0, 1)] if good else y
    if good > 1: y = y + [0]
    return all(b in (0, 1) for b in y) and (not y or y[-1] == 0), lambda: komm.UnaryCode().decode(np.array(y, dtype=int))
@entry(y=L(BAD([0, 1, 1, 0, 2, -1]), 0, 10), good=I(0, 3))
def fibonacci_decode(y, good):
    y = [b for b in y if b in (0, 1)] if good else y
    if good > 1: y = y + [0, 1, 1]
    valid = all(b in (0, 1) for b in y); i = 0
    while valid and i < len(y):
        j = next((j for j in range(i, len(y) - 1) if y[j] == y[j + 1] == 1), None)
        if j is None: valid = False
        else: i = j + 2
    return valid, lambda: komm.FibonacciCode().decode(np.array(y, dtype=int))

# -- modulation
@entry(c=BAD(["NaturalLabeling", "ReflectedLabeling"]), m=I(-2, 6))
def labeling_bits(c, m): return m >= 1, lambda: getattr(komm, c)(m).matrix
@entry(m=st.one_of(I(-3, 8), st.tuples(I(-1, 3), I(-1, 3)).map(list)))
def rectangular_labeling(m):
    if isinstance(m, list): return min(m) >= 1, lambda: komm.ReflectedRectangularLabeling(tuple(m)).matrix
    return m > 0 and m % 2 == 0, lambda: komm.ReflectedRectangularLabeling(m).matrix
@entry(perm=st.integers(1, 3).flatmap(lambda m: st.permutations(range(2 ** m)).map(lambda p: [[(x >> i) & 1 for i in range(m)] for x in p])),
       hurt=BAD(["", "", "dup", "symbol", "negative", "row", "extra", "flat", "deep"]), at=I(0, 7))
def labeling_matrix(perm, hurt, at):
    M = [list(r) for r in perm]; a = at % len(M)
    if hurt == "dup": M[a] = list(M[a - 1])
    if hurt == "symbol": M[a][0] = 2
    if hurt == "negative": M[a][-1] = -1
    if hurt == "row": M = M[:-1]
    if hurt == "extra": M = M + [list(M[0])]
    if hurt == "flat": M = M[0]
    if hurt == "deep": M = [M]
    return not hurt, lambda: komm.Labeling(M).matrix
@entry(n=I(0, 2), rep=I(-1, 3))
def product_labeling(n, rep): return n >= 1 and rep >= 1, lambda: komm.ProductLabeling(*[komm.NaturalLabeling(1)] * n, repeat=rep).matrix
GEN = {"custom": lambda m: komm.Labeling([[(x >> i) & 1 for i in range(m)] for x in range(2 ** m)]), "product": lambda m: komm.ProductLabeling(*[komm.ReflectedLabeling(1)] * m)}
@entry(c=BAD(sorted(GEN)), m=I(1, 3), x=L(I(-1, 8), 1, 5), y=L(I(-1, 2), 1, 12), op=BAD(["i2b", "b2i", "b2i_clean"]))
def labeling_inputs(c, m, x, y, op):
    o = GEN[c](m)
    if op == "i2b": return all(0 <= a < 2 ** m for a in x), lambda: o.indices_to_bits(x)
    if op == "b2i_clean": y = [abs(a) % 2 for a in y]
    return len(y) % m == 0 and all(a in (0, 1) for a in y), lambda: o.bits_to_indices(y)
@entry(m=I(1, 3), size=I(1, 17), c=BAD(["NaturalLabeling", "ReflectedLabeling", "custom", "product"]))
def labeling_lengths(m, size, c):
    o = GEN[c](m) if c in GEN else getattr(komm, c)(m)
    return size % 2 ** m == 0, lambda: o.marginalize(np.ones(size))
@entry(m=I(1, 4), size=I(1, 17), c=BAD(["NaturalLabeling", "ReflectedLabeling"]))
def labeling_word_lengths(m, size, c): return size % m == 0, lambda: getattr(komm, c)(m).bits_to_indices(np.zeros(size, dtype=int))
@entry(M=I(1, 150))
def qam(M): return math.isqrt(M) ** 2 == M, lambda: komm.QAMConstellation(M).matrix
@entry(M=st.one_of(I(1, 140), BAD([2, 8, 32, 128, 512, 64, 256, 16, 4, 48, 96, 2048])))
def cross_qam(M): return M in (32, 128, 512, 2048), lambda: komm.CrossQAMConstellation(M).matrix
@entry(M=I(1, 20))
def biorthogonal(M): return M % 2 == 0, lambda: komm.BiorthogonalConstellation(M).matrix
@entry(shape=L(I(1, 3), 1, 3))
def constellation_matrix(shape): return len(shape) <= 2, lambda: komm.Constellation(np.arange(np.prod(shape)).reshape(shape)).order
CON = {"pam4": lambda: komm.PAMConstellation(4), "psk3": lambda: komm.PSKConstellation(3), "orth3": lambda: komm.OrthogonalConstellation(3), "custom": lambda: komm.Constellation([[0, 1], [1, 0], [2, 2], [3, 5]])}
@entry(c=BAD(sorted(CON)), p=PMF(), fit=st.booleans(), op=BAD(["mean", "mean_energy", "posteriors"]))
def constellation_priors(c, p, fit, op):
    o = CON[c](); M = o.order
    if fit and len(p) != M: p = [1 / M] * M
    return ok_pmf(p) and len(p) == M, (lambda: o.posteriors(np.zeros(o.dimension), 1.0, p)) if op == "posteriors" else (lambda: getattr(o, op)(p))
@entry(c=BAD(sorted(CON)), size=I(1, 9), op=BAD(["closest_indices", "closest_symbols", "posteriors"]))
def constellation_inputs(c, size, op):
    o = CON[c](); x = np.zeros(size)
    return size % o.dimension == 0, (lambda: o.posteriors(x, 1.0)) if op == "posteriors" else (lambda: getattr(o, op)(x))

# -- sequences, channels, sources, pulses, quantizers
@entry(n=I(-1, 20))
def barker(n): return n in (2, 3, 4, 5, 7, 11, 13), lambda: komm.BarkerSequence(n).bit_sequence
@entry(n=st.one_of(I(1, 40), BAD([1, 2, 4, 8, 16, 32])), i=I(-1, 33), order=BAD(["natural", "sequency", "natural", "sequency", "Natural", "", "walsh"]))
def walsh_hadamard(n, i, order): return n & (n - 1) == 0 and 0 <= i < n and order in ("natural", "sequency"), lambda: komm.WalshHadamardSequence(n, order, i).bit_sequence
@entry(L=I(1, 21), q=I(-2, 22))
def zadoff_chu(L, q): return L % 2 == 1 and 1 <= q < L, lambda: komm.ZadoffChuSequence(L, q).sequence
@entry(d=BAD([-1, 0, 1, 2, 3, 7, 12, 23, 24, 25, 26, 100]), what=BAD(["lfsr", "field"]))
def default_degree(d, what):
    if what == "field": return 1 <= d <= 24, lambda: komm.FiniteBifield(d).modulus
    return 1 <= d <= 24, (lambda: komm.LFSRSequence.maximum_length_sequence(d)) if not 16 < d <= 24 else (lambda: None)
@entry(b=st.booleans(), p=st.booleans())
def binary_sequence(b, p): return b != p, lambda: komm.BinarySequence(**(dict(bit_sequence=[0, 1]) if b else {}), **(dict(polar_sequence=[1, -1]) if p else {})).length
@entry(k=I(0, 5), m=I(0, 70))
def field_modulus(k, m):
    irr = m >= 2 and m.bit_length() - 1 == k and all(pmod(m, d) for d in range(2, 2 ** (k // 2 + 1)))
    return k >= 1 and irr, lambda: komm.FiniteBifield(k, m).modulus
@entry(a=I(0, 63), b=I(0, 63))
def fraction(a, b): return b != 0, lambda: komm.BinaryPolynomialFraction(a, b).numerator
@entry(a=I(0, 255), b=BAD([0, 0, 1, 2, 3, 77]), op=BAD(["divmod", "floordiv", "mod"]))
def polynomial_division(a, b, op):
    A, B = komm.BinaryPolynomial(a), komm.BinaryPolynomial(b)
    return b != 0, {"divmod": lambda: divmod(A, B), "floordiv": lambda: A // B, "mod": lambda: A % B}[op]
@entry(k=I(1, 5), a=I(0, 31), b=I(0, 31), e=I(-3, 3))
def field_division(k, a, b, e):
    F = komm.FiniteBifield(k); a, b = a % 2 ** k, b % 2 ** k
    return b != 0, lambda: (F(a) / F(b), F(b).inverse())
@entry(k1=I(1, 5), k2=I(1, 5), op=BAD(["+", "-", "*", "/"]))
def field_mixing(k1, k2, op):
    x, y = komm.FiniteBifield(k1)(1), komm.FiniteBifield(k2)(1)
    return k1 == k2, {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]
@entry(c=BAD(["BinarySymmetricChannel", "BinaryErasureChannel", "ZChannel"]), p=PROB)
def channel_probability(c, p): return 0 <= p <= 1, lambda: getattr(komm, c)(p).transition_matrix
@entry(p=st.one_of(PROB, BAD([float("inf"), 1e300, -1e-300])))
def noise_power(p): return p >= 0, lambda: komm.GaussianChannel(p)
@entry(rows=st.integers(1, 3).flatmap(lambda n: L(PMF(n), 1, 3)), flat=I(0, 7))
def transition_matrix(rows, flat):
    if flat == 0: return False, lambda: komm.DiscreteMemorylessChannel(rows[0])
    if flat == 1: return False, lambda: komm.DiscreteMemorylessChannel([rows])
    return all(ok_pmf(r) for r in rows), lambda: komm.DiscreteMemorylessChannel(rows).transition_matrix
@entry(rows=st.integers(1, 3).flatmap(lambda n: L(PMF(n), 1, 3)), flat=I(0, 7))
def markov_chain(rows, flat):
    if flat == 0: return False, lambda: komm.MarkovChain(rows[0])
    return all(ok_pmf(r) for r in rows) and len(rows) == len(rows[0]), lambda: komm.MarkovChain(rows).transition_matrix
@entry(p=st.one_of(PMF(), I(-2, 5)), deep=I(0, 6))
def source_pmf(p, deep):
    if isinstance(p, int): return p >= 1, lambda: komm.DiscreteMemorylessSource(p).pmf
    if deep == 0: return False, lambda: komm.DiscreteMemorylessSource([p])
    return ok_pmf(p), lambda: komm.DiscreteMemorylessSource(p).pmf
CH = {"bsc": lambda: komm.BinarySymmetricChannel(0.25), "bec": lambda: komm.BinaryErasureChannel(0.25), "z": lambda: komm.ZChannel(0.25), "dmc": lambda: komm.DiscreteMemorylessChannel([[0.5, 0.5], [0.25, 0.75]])}
BASE = st.one_of(BAD([2, 3.0, 0.5, "e", 10, 1, 1.0, 0, 0.0, -1, -2.0, "E", "2", "", 1.5]))
def ok_base(b): return b == "e" if isinstance(b, str) else b > 0 and b != 1
@entry(c=BAD(sorted(CH)), b=BASE, p=st.one_of(PMF(2), PMF()), op=BAD(["mi", "cap"]))
def information_base(c, b, p, op):
    o = CH[c]()
    if op == "cap": return ok_base(b), lambda: o.capacity(b)
    return ok_base(b) and ok_pmf(p) and len(p) == 2, lambda: o.mutual_information(p, b)
@entry(b=BASE, p=PMF(), q=PMF(), op=BAD(["entropy", "relative", "source"]))
def entropies(b, p, q, op):
    if op == "entropy": return ok_base(b) and ok_pmf(p), lambda: komm.entropy(p, b)
    if op == "source": return ok_base(b), lambda: komm.DiscreteMemorylessSource([0.5, 0.5]).entropy_rate(b)
    return ok_base(b) and ok_pmf(p) and ok_pmf(q) and len(p) == len(q), lambda: komm.relative_entropy(p, q, b)
@entry(p=PROB, op=BAD(["binary_entropy", "binary_entropy_inv"]))
def binary_entropies(p, op): return 0 <= p <= 1, lambda: getattr(komm, op)(p)
ROLL = st.sampled_from([0.0, 1.0, 0.5, -0.0, 1e-9, -1e-9, 1 + 1e-9, 1.5, -1.0, float("nan")])
@entry(c=BAD(["RaisedCosinePulse", "BeaulieuPulse"]), a=ROLL)
def rolloff(c, a): return 0 <= a <= 1, lambda: getattr(komm, c)(a)
@entry(b=BAD([1.0, 1e-9, 0.0, -0.0, -1e-9, -1.0, 5.0, float("nan")]))
def bandwidth(b): return b > 0, lambda: komm.GaussianPulse(b)
@entry(w=st.sampled_from([1.0, 0.5, 1e-9, 0.0, -0.0, -1e-9, -0.5, 1 + 1e-9, 1, 2, 1.5, float("nan")]))
def pulse_width(w): return 0 < w <= 1, lambda: komm.RectangularPulse(w)
@entry(n=I(-1, 3))
def lloyd_levels(n): return n > 1, lambda: komm.LloydMaxQuantizer(lambda x: np.ones_like(x), (0.0, 1.0), n).levels
@entry(c=BAD(["SincPulse", "GaussianPulse", "RaisedCosinePulse", "RectangularPulse", "ManchesterPulse"]), span=BAD([None, (-2, 2), (0, 1)]))
def pulse_span(c, span): return span is not None or c in ("RectangularPulse", "ManchesterPulse"), lambda: getattr(komm, c)(*([0.5] if c == "RaisedCosinePulse" else [])).taps(4, span)
@entry(v=st.lists(I(-4, 4), min_size=1, max_size=7), off=I(-1, 2), srt=st.booleans())
def scalar_quantizer(v, off, srt):
    if srt: v = sorted(set(v))
    lv, th = v[0::2], v[1::2]
    if len(v) % 2 == 0 and off != 0: th = th[:-1]; v = v[:-1]
    if off == 1: th = th + [v[-1] + 1]
    return len(th) == len(lv) - 1 and all(a < b for a, b in zip(v, v[1:])), lambda: komm.ScalarQuantizer(lv, th).levels
@entry(n=I(-1, 5), step=BAD([1.0, 1e-9, 0.0, -1.0, -1e-9, float("nan")]), c=BAD(["", "mid_tread", "mid_riser"]))
def uniform_quantizer(n, step, c): return n > 1 and step > 0, lambda: (getattr(komm.UniformQuantizer, c) if c else komm.UniformQuantizer)(n, step).levels
@entry(f=I(-2, 4), o=I(-2, 5), c=BAD(["sampling_rate_expand", "sampling_rate_compress"]))
def sampling(f, o, c): return f >= 1 and 0 <= o < f, lambda: getattr(komm, c)([1, 2, 3, 4, 5, 6], f, o)
@entry(a=I(1, 3), b=I(1, 3))
def convolution(a, b): return min(a, b) == 1, lambda: komm.convolve(np.ones((2,) * a), np.ones((2,) * b))
@entry(o=BAD(["LSB-first", "MSB-first", "lsb-first", "", "LSB", "MSB-first "]), back=st.booleans())
def bit_order(o, back): return o in ("LSB-first", "MSB-first"), (lambda: komm.bits_to_int([1, 0, 1], bit_order=o)) if back else (lambda: komm.int_to_bits(5, 4, bit_order=o))
@entry(m=I(-1, 3), a=BAD([0.0, 1.0, -1e-9, -1.0]), x=BAD([0.0, 1.0, -1e-9, -1.0]))
def marcum(m, a, x): return m >= 1 and a >= 0 and x >= 0, lambda: komm.marcum_q(m, a, x)
@entry(a=I(1, 3), b=I(1, 3))
def boxplus(a, b): return a == b, lambda: komm.boxplus(np.ones(a), np.ones(b))

def verdict(c):
    f = E[c["what"]]
    valid, thunk, *exc = f(**c["args"])
    errors = exc[0] if exc else ERR
    try: thunk()
    except errors as e:
        assert not valid, f"{c['what']} refused parameters of its documented domain: {type(e).__name__}: {e}"
    else: assert valid, f"{c['what']} accepted parameters outside its documented domain"
    return f"{c['what']}:{'inside' if valid else 'outside'}"

GROUPS = dict(block_codes="hamming simplex repetition single_parity cordaro_wagner reed_muller lexicode polar bch cyclic systematic block word_lengths inverse_encode decoder_lengths decoder_modes",
              convolutional_codes="convolutional low_rate high_rate termination_mode initial_state conv_input_length",
              source_codes="fv_mapping fv_codewords fv_lengths vf_mapping vf_sourcewords huffman fano shannon tunstall fv_rate vf_rate fv_encode fv_encode_blocks fv_decode vf_encode vf_decode lz_windows lz_alphabets lz_symbols integers unary_decode fibonacci_decode",
              modulation="labeling_bits rectangular_labeling labeling_matrix product_labeling labeling_inputs labeling_lengths labeling_word_lengths qam cross_qam biorthogonal constellation_matrix constellation_priors constellation_inputs",
              other="")
GROUPS["other"] = " ".join(sorted(set(E) - set(" ".join(GROUPS.values()).split())))
def _strategy(names): return st.sampled_from(names.split()).flatmap(lambda n: S[n].map(lambda a: dict(what=n, args=a)))
for _g, _names in GROUPS.items():
    assert set(_names.split()) <= set(E)
    check("X03", _strategy(_names), quick=110 * len(_names.split()), thorough=2500 * len(_names.split()), name=f"documented_domain_of_{_g}")(verdict)
