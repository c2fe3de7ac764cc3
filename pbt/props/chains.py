"""E01: composed transmission chains recover the source message.

source message -> source encoder -> channel encoder -> labeling -> constellation -> (pulse shaping) -> channel
-> (sampling) -> detection (hard) or posteriors and L-values (soft) -> decoder -> source decoder -> message.
The oracle is the message itself; the channel adds what the chain is guaranteed to undo (nothing, up to t errors
per codeword, or noise smaller than half the minimum distance)."""
import math
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from .. import codes, convs

rule("E01", "Non-trivial: a message of at least two symbols passes a code of positive redundancy (label: the decoder and detection).",
     ["padding with zeros to whole blocks is the caller's part of the chain", "noise is bounded by construction, so that recovery is certain and not merely likely"])

HARD = {
    "none": None,
    "syndrome": [lambda c: komm.SyndromeTableDecoder(c), [dict(t="ham", mu=3, ext=False), dict(t="ham", mu=4, ext=False), dict(t="golay", ext=False), dict(t="bch", mu=4, delta=5), dict(t="rep", n=5), dict(t="cyc", n=7, p=11, by="g", sys=False)]],
    "exhaustive": [lambda c: komm.ExhaustiveSearchDecoder(c, "hard"), [dict(t="ham", mu=3, ext=True), dict(t="sim", kappa=3, ext=False), dict(t="rm", rho=1, mu=4), dict(t="cw", n=8), dict(t="rep", n=7)]],
    "reed": [lambda c: komm.ReedDecoder(c, "hard"), [dict(t="rm", rho=1, mu=4), dict(t="rm", rho=2, mu=5), dict(t="rm", rho=0, mu=3), dict(t="rm", rho=1, mu=5)]],
    "berlekamp": [lambda c: komm.BerlekampDecoder(c), [dict(t="bch", mu=4, delta=5), dict(t="bch", mu=4, delta=7), dict(t="bch", mu=5, delta=7), dict(t="bch", mu=6, delta=11), dict(t="bch", mu=3, delta=3)]],
    "viterbi": [lambda c: komm.ViterbiDecoder(c, "hard"), ["conv"]],
    "stream": [None, ["conv"]],
}
SOFT = {
    "exhaustive": [lambda c: komm.ExhaustiveSearchDecoder(c, "soft"), [dict(t="ham", mu=3, ext=True), dict(t="sim", kappa=3, ext=False), dict(t="rm", rho=1, mu=3), dict(t="ham", mu=3, ext=False)]],
    "wagner": [lambda c: komm.WagnerDecoder(c), [dict(t="spc", n=3), dict(t="spc", n=8)]],
    "reed": [lambda c: komm.ReedDecoder(c, "soft"), [dict(t="rm", rho=1, mu=3), dict(t="rm", rho=1, mu=4)]],
    "sc": [lambda c: komm.SCDecoder(c, "hard"), [dict(t="polar", mu=3, frozen=[0, 1, 2, 4]), dict(t="polar", mu=2, frozen=[0]), dict(t="polar", mu=4, frozen=[0, 1, 2, 3, 4, 5, 8, 9])]],
    "viterbi": [lambda c: komm.ViterbiDecoder(c, "soft"), ["conv"]],
    "bcjr": [lambda c: komm.BCJRDecoder(c, "hard"), ["conv"]],
    "stream": [None, ["conv"]],
}
CONVS = [dict(t="conv", P=[[7, 5]], q=None), dict(t="conv", P=[[13, 15]], q=[11]), dict(t="low", g=[5, 7, 7]), dict(t="high", h=[11, 13, 15]), dict(t="conv", P=[[3, 2, 3], [2, 1, 1]], q=None)]
MODEM = ["pam2", "pam4", "ask4", "psk2", "psk4", "psk8", "qam16", "qam64", "qam8", "cross32", "apsk", "orth4", "simp4", "biorth8", "custom"]
def modem(name, a, off):
    c = {"pam2": lambda: komm.PAMConstellation(2, a), "pam4": lambda: komm.PAMConstellation(4, a), "ask4": lambda: komm.ASKConstellation(4, a, off), "psk2": lambda: komm.PSKConstellation(2, a, off),
         "psk4": lambda: komm.PSKConstellation(4, a, off), "psk8": lambda: komm.PSKConstellation(8, a, off), "qam16": lambda: komm.QAMConstellation(16, a, off), "qam64": lambda: komm.QAMConstellation(64, a, off),
         "qam8": lambda: komm.QAMConstellation((4, 2), (a, a), off), "cross32": lambda: komm.CrossQAMConstellation(32, a, off), "apsk": lambda: komm.APSKConstellation((4, 12), (a, 2 * a), (off, off)),
         "orth4": lambda: komm.OrthogonalConstellation(4, a), "simp4": lambda: komm.SimplexConstellation(4, a), "biorth8": lambda: komm.BiorthogonalConstellation(8, a), "custom": lambda: komm.Constellation(a * np.array([0, 1, 1j, -2 - 2j]))}[name]()
    return c
def labeling(name, m, perm):
    if name == "rect" and m % 2 == 0: return komm.ReflectedRectangularLabeling(m)
    if name == "natural": return komm.NaturalLabeling(m)
    if name == "custom":
        p = np.random.default_rng(perm).permutation(2 ** m); return komm.Labeling((p[:, None] >> np.arange(m)) & 1)
    if name == "product" and m % 2 == 0: return komm.ProductLabeling(komm.ReflectedLabeling(m // 2), repeat=2)
    return komm.ReflectedLabeling(m)

SRC = ["bits", "huffman", "fano", "shannon", "tunstall", "lz77", "lzss", "lz78", "lzw", "fibonacci", "unary"]
def source_coder(name, r):
    if name == "bits": return 2, 1, (lambda x: x), (lambda y: y)
    if name in ("fibonacci", "unary"):
        o = komm.FibonacciCode() if name == "fibonacci" else komm.UnaryCode()
        return (40, 1, lambda x: o.encode(x + 1), lambda y: o.decode(y) - 1) if name == "fibonacci" else (6, 1, o.encode, o.decode)
    S = int(r.integers(2, 5)); w = r.integers(1, 9, S); p = w / w.sum(); b = int(r.integers(1, 4))
    if name in ("huffman", "fano", "shannon"):
        o = {"huffman": lambda: komm.HuffmanCode(p, b, ["high", "low"][S % 2], ["tree", "canonical"][b % 2]), "fano": lambda: komm.FanoCode(p, b), "shannon": lambda: komm.ShannonCode(p, b)}[name]()
        return S, b, o.encode, o.decode
    if name == "tunstall":
        o = komm.TunstallCode(p, 2 + b); return S, 1, o.encode, o.decode
    o = {"lz77": lambda: komm.LempelZiv77Code(search_size=2 ** b + 2, lookahead_size=b + 2, source_cardinality=S), "lzss": lambda: komm.LempelZivSSCode(search_size=2 ** b + 2, lookahead_size=b + 2, source_cardinality=S),
         "lz78": lambda: komm.LempelZiv78Code(S), "lzw": lambda: komm.LempelZivWelchCode(S)}[name]()
    return S, 1, o.encode, o.decode

@st.composite
def chain(draw):
    soft = draw(st.booleans()); T = SOFT if soft else HARD
    dec = draw(st.sampled_from(sorted(T)))
    code = None if dec == "none" else draw(st.sampled_from(T[dec][1]))
    if code == "conv": code = dict(conv=draw(st.integers(0, len(CONVS) - 1)), mode=draw(st.sampled_from(["zero-termination", "zero-termination", "direct-truncation"])), h=draw(st.integers(3, 12)))
    return dict(soft=soft, dec=dec, code=code, src=draw(st.sampled_from(SRC)), n=draw(st.integers(1, 60)), modem=draw(st.sampled_from(MODEM)), a=draw(st.sampled_from([1.0, 2.0, 0.3, 7.5, 1e-4, 300.0])),
                off=draw(st.sampled_from([0.0, 0.125, 0.3, 0.0625])), lab=draw(st.sampled_from(["reflected", "natural", "rect", "custom", "product"])), pulse=draw(st.sampled_from(["", "", "rect", "sinc", "rc", "manchester", "beaulieu"])),
                noise=draw(st.sampled_from([0.0, 0.0, 0.3, 0.9])), errors=draw(st.booleans()), seed=draw(st.integers(0, 2 ** 20)))

def pad(x, m): return np.concatenate([x, np.zeros(-len(x) % m, dtype=int)])

def shape_and_sample(s, kind, sps=4):
    if kind in ("rect", "manchester"):
        p = komm.RectangularPulse() if kind == "rect" else komm.ManchesterPulse()
        taps = p.taps(sps)[:-1]; y = komm.convolve(komm.sampling_rate_expand(s, sps), taps)
        return komm.sampling_rate_compress(komm.convolve(y, taps[::-1])[sps - 1:], sps)[: len(s)] / sps
    S = 6
    p = {"sinc": komm.SincPulse(), "rc": komm.RaisedCosinePulse(0.4), "beaulieu": komm.BeaulieuPulse(0.4)}[kind]
    y = komm.convolve(komm.sampling_rate_expand(s, sps), p.taps(sps, (-S, S)))
    return komm.sampling_rate_compress(y[S * sps:], sps)[: len(s)]

@check("E01", chain(), quick=1500, thorough=20000, weight=3)
def chains_recover_the_message(c):
    r = np.random.default_rng(c["seed"])
    S, b, enc, dec = source_coder(c["src"], r)
    x = r.integers(0, S, c["n"] * b)
    bits = np.asarray(enc(x)); nbits = len(bits)
    assert set(bits.tolist()) <= {0, 1}
    # channel code
    code = decoder = None
    if c["code"] is None: u, v, k, n, t = bits, bits, 1, 1, 0
    elif "conv" in c["code"]:
        cc = convs.build(CONVS[c["code"]["conv"]])
        if c["dec"] == "stream":
            k, n = cc.num_input_bits, cc.num_output_bits; D = 12
            u = np.concatenate([pad(bits, k), np.zeros(D * k, dtype=int)]); v = cc.encode(u); t = 0
        else:
            code = komm.TerminatedConvolutionalCode(cc, c["code"]["h"], c["code"]["mode"]); k, n, t = code.dimension, code.length, 0
    else:
        code = codes.build(c["code"]); k, n = code.dimension, code.length
        t = (int(code.minimum_distance()) - 1) // 2 if c["dec"] != "berlekamp" else (code.delta - 1) // 2
    if code is not None: u = pad(bits, k); v = code.encode(u)
    # modulation
    con = modem(c["modem"], c["a"], c["off"]); m = int(con.order).bit_length() - 1
    lab = labeling(c["lab"], m, c["seed"])
    w = pad(v, m)
    idx = lab.bits_to_indices(w); sym = con.indices_to_symbols(idx)
    N = con.dimension
    y = sym
    if c["pulse"]: y = shape_and_sample(sym, c["pulse"])
    y = komm.GaussianChannel(0.0).transmit(y)
    d = con.minimum_distance()
    z = r.normal(size=(len(y) // N, N)) + (1j * r.normal(size=(len(y) // N, N)) if np.iscomplexobj(sym) else 0)
    nrm = np.linalg.norm(z, axis=1, keepdims=True)
    y = y + (c["noise"] * 0.5 * d * z / np.where(nrm == 0, 1, nrm)).reshape(-1)
    # detection
    if not c["soft"]:
        got = lab.indices_to_bits(con.closest_indices(y))[: len(v)]
        assert np.array_equal(got, v), "hard detection changed bits although the noise is below half the minimum distance"
        if c["errors"] and t:
            e = np.zeros(len(v), dtype=int).reshape(-1, n)
            for row in e: row[r.permutation(n)[: r.integers(0, t + 1)]] = 1
            got = (got + e.reshape(-1)) % 2
            got = komm.BinarySymmetricChannel(0.0).transmit(got)
    else:
        power = d * d / 18       # weak enough for the nearest symbol to dominate, strong enough for finite L-values of its neighbours
        L = np.clip(lab.marginalize(con.posteriors(y, power))[: len(v)], -1e6, 1e6)
        if c["noise"] < 0.5: assert np.array_equal((L < 0).astype(int), v), "L-values have the wrong sign for mild noise"
        else:
            L = np.clip(lab.marginalize(con.posteriors(sym, power))[: len(v)], -1e6, 1e6)
        got = L
    # decoding
    if c["dec"] == "none": uhat = got
    elif c["dec"] == "stream":
        out = komm.ViterbiStreamDecoder(cc, traceback_length=D, input_type="soft" if c["soft"] else "hard").decode(got)
        uhat = np.asarray(out)[D * k:]
    else:
        decoder = (SOFT if c["soft"] else HARD)[c["dec"]][0](code)
        uhat = np.asarray(decoder.decode(got))
    uhat = uhat[:nbits]
    assert np.array_equal(uhat, bits), f"decoded bits differ from the encoded ones at {np.nonzero(np.asarray(uhat) != bits)[0][:5].tolist() if len(uhat) == len(bits) else 'length'}"
    xh = np.asarray(dec(uhat))
    assert len(xh) >= len(x) and np.array_equal(xh[: len(x)], x) and (c["src"] == "tunstall" or len(xh) == len(x)), "the source message is not recovered"
    return c["n"] >= 2 and c["code"] is not None and f"{'soft' if c['soft'] else 'hard'}:{c['dec']}"

# ---- larger and batched chains -----------------------------------------------------------------
_MADE = {}
def made(key, f):
    """Objects whose construction is slow (decoders with tables, large codes) are built once per process."""
    if key not in _MADE: _MADE[key] = f()
    return _MADE[key]

BIGCODES = {   # name -> (code, decoder, guaranteed number of errors per codeword, or None for a soft decoder)
    "golay24": (lambda: komm.GolayCode(True), komm.SyndromeTableDecoder, 3), "golay23": (lambda: komm.GolayCode(), komm.SyndromeTableDecoder, 3),
    "ham5": (lambda: komm.HammingCode(5), komm.SyndromeTableDecoder, 1), "ham6": (lambda: komm.HammingCode(6), komm.SyndromeTableDecoder, 1),
    "bch7": (lambda: komm.BCHCode(7, 9), komm.BerlekampDecoder, 4), "bch6": (lambda: komm.BCHCode(6, 15), komm.BerlekampDecoder, 7), "bch8": (lambda: komm.BCHCode(8, 7), komm.BerlekampDecoder, 3),
    "rm16": (lambda: komm.ReedMullerCode(1, 6), lambda c: komm.ReedDecoder(c, "hard"), 15), "rm26": (lambda: komm.ReedMullerCode(2, 6), lambda c: komm.ReedDecoder(c, "hard"), 7),
    "rm15s": (lambda: komm.ReedMullerCode(1, 5), lambda c: komm.ReedDecoder(c, "soft"), None), "spc40": (lambda: komm.SingleParityCheckCode(40), komm.WagnerDecoder, None),
    "polar5": (lambda: komm.PolarCode(5, [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 17, 18, 20, 24]), lambda c: komm.SCDecoder(c, "hard"), None),
    "polar6": (lambda: komm.PolarCode(6, list(range(24)) + [32, 33, 34, 36, 40, 48]), lambda c: komm.SCDecoder(c, "hard"), None),
    "sim5": (lambda: komm.SimplexCode(5), lambda c: komm.ExhaustiveSearchDecoder(c, "hard"), 7), "sim4s": (lambda: komm.SimplexCode(4, True), lambda c: komm.ExhaustiveSearchDecoder(c, "soft"), None),
    "rep31": (lambda: komm.RepetitionCode(31), lambda c: komm.ExhaustiveSearchDecoder(c, "hard"), 15),
    "cyc15": (lambda: komm.CyclicCode(15, generator_polynomial=0b111010001), komm.SyndromeTableDecoder, 2),
    "tccz": (lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[0o133, 0o171]]), 60, "zero-termination"), lambda c: komm.ViterbiDecoder(c, "hard"), None),
    "tcct": (lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[7, 5]]), 8, "tail-biting"), lambda c: komm.ExhaustiveSearchDecoder(c, "soft"), None),
    "tccd": (lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[0o15, 0o17, 0o13]]), 40, "direct-truncation"), lambda c: komm.BCJRDecoder(c, "hard"), None),
    "tccr": (lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[0o7, 0o5]], [0o7]), 50, "zero-termination"), lambda c: komm.ViterbiDecoder(c, "hard"), None),
}
BIGMODEM = {"qam256": (lambda a: komm.QAMConstellation(256, a), 8), "qam1024": (lambda a: komm.QAMConstellation(1024, a), 10), "psk256": (lambda a: komm.PSKConstellation(256, a), 8), "pam512": (lambda a: komm.PAMConstellation(512, a), 9),
            "cross128": (lambda a: komm.CrossQAMConstellation(128, a), 7), "orth16": (lambda a: komm.OrthogonalConstellation(16, a), 4), "psk2": (lambda a: komm.PSKConstellation(2, a), 1), "qam16": (lambda a: komm.QAMConstellation(16, a), 4), "ask8": (lambda a: komm.ASKConstellation(8, a), 3)}

@st.composite
def big_chain(draw):
    return dict(code=draw(st.sampled_from(sorted(BIGCODES))), modem=draw(st.sampled_from(sorted(BIGMODEM))), a=draw(st.sampled_from([1.0, 0.01, 40.0])), lab=draw(st.sampled_from(["reflected", "natural", "rect", "product"])),
                batch=draw(st.sampled_from([[], [], [1], [3], [2, 2]])), blocks=draw(st.sampled_from([1, 2, 7, 40])), noise=draw(st.sampled_from([0.0, 0.3, 0.8])), errors=draw(st.booleans()), seed=draw(st.integers(0, 2 ** 20)))

@check("E01", big_chain(), quick=160, thorough=3000, weight=6)
def long_and_batched_chains(c):
    r = np.random.default_rng(c["seed"])
    make, dec, t = BIGCODES[c["code"]]
    code = made(c["code"], make); decoder = made(("dec", c["code"]), lambda: dec(code))
    con0, m = BIGMODEM[c["modem"]]; con = made((c["modem"], c["a"]), lambda: con0(c["a"]))
    k, n = code.dimension, code.length
    u = r.integers(0, 2, c["batch"] + [c["blocks"] * k])
    v = np.asarray(code.encode(u)); assert v.shape == tuple(c["batch"] + [c["blocks"] * n])
    w = np.concatenate([v, np.zeros(c["batch"] + [-v.shape[-1] % m], dtype=int)], axis=-1)
    lab = made((c["lab"], m), lambda: labeling(c["lab"], m, 0))
    sym = np.asarray(con.indices_to_symbols(lab.bits_to_indices(w)))
    N = con.dimension; d = con.minimum_distance()
    z = r.normal(size=sym.shape[:-1] + (sym.shape[-1] // N, N)) + (1j * r.normal(size=sym.shape[:-1] + (sym.shape[-1] // N, N)) if np.iscomplexobj(sym) else 0)
    y = sym + (c["noise"] * 0.5 * d * z / np.linalg.norm(z, axis=-1, keepdims=True)).reshape(sym.shape)
    got = np.asarray(lab.indices_to_bits(con.closest_indices(y)))[..., : v.shape[-1]]
    assert np.array_equal(got, v), "hard detection changed bits although the noise is below half the minimum distance"
    if c["errors"] and t:
        e = np.zeros(v.size, dtype=int).reshape(-1, n)
        for row in e: row[r.permutation(n)[: r.integers(0, t + 1)]] = 1
        got = (got + e.reshape(v.shape)) % 2
    if t is None and "hard" not in str(getattr(decoder, "input_type", "soft")): got = (1.0 - 2.0 * got) * r.uniform(1.0, 6.0, got.shape)
    uh = np.asarray(decoder.decode(got))
    assert uh.shape == u.shape and np.array_equal(uh, u), "the message is not recovered"
    return f"{c['code']}"

# ---- erasures ----------------------------------------------------------------------------------
ERASURE = {   # name -> (code, soft decoder, largest guaranteed number of erasures per codeword)
    "spc9": (lambda: komm.SingleParityCheckCode(9), komm.WagnerDecoder, 1), "ham3": (lambda: komm.HammingCode(3, extended=True), lambda c: komm.ExhaustiveSearchDecoder(c, "soft"), 3),
    "sim4": (lambda: komm.SimplexCode(4), lambda c: komm.ExhaustiveSearchDecoder(c, "soft"), 7), "rm14": (lambda: komm.ReedMullerCode(1, 4), lambda c: komm.ReedDecoder(c, "soft"), 7),
    "rm25": (lambda: komm.ReedMullerCode(2, 5), lambda c: komm.ReedDecoder(c, "soft"), 7), "tccz": (lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[7, 5]]), 12), lambda c: komm.ViterbiDecoder(c, "soft"), 4),
    "tccb": (lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[0o15, 0o17]]), 20), lambda c: komm.BCJRDecoder(c, "hard"), 5), "rep6": (lambda: komm.RepetitionCode(6), lambda c: komm.ExhaustiveSearchDecoder(c, "soft"), 5),
    "lex": (lambda: komm.Lexicode(8, 4), lambda c: komm.ExhaustiveSearchDecoder(c, "soft"), 3), "cw": (lambda: komm.CordaroWagnerCode(8), lambda c: komm.ExhaustiveSearchDecoder(c, "soft"), 4),
}

@st.composite
def erasure_chain(draw):
    return dict(code=draw(st.sampled_from(sorted(ERASURE))), blocks=draw(st.integers(1, 12)), p=draw(st.sampled_from([0.0, 0.05, 0.2, 0.5, 1.0])), burst=draw(st.booleans()), amp=draw(st.sampled_from([1.0, 3.0, 40.0])), seed=draw(st.integers(0, 2 ** 20)))

@check("E01", erasure_chain(), quick=250, thorough=5000, weight=2)
def erasures_below_the_minimum_distance_are_filled(c):
    r = np.random.default_rng(c["seed"])
    make, dec, e = ERASURE[c["code"]]; code = made(c["code"] + "e", make); decoder = made(("dece", c["code"]), lambda: dec(code))
    k, n = code.dimension, code.length
    u = r.integers(0, 2, c["blocks"] * k); v = np.asarray(code.encode(u))
    y = np.asarray(komm.BinaryErasureChannel(c["p"]).transmit(v)).copy().reshape(-1, n)   # erasures are the symbol 2
    assert np.array_equal(y[y != 2], v.reshape(-1, n)[y != 2])
    for row, sent in zip(y, v.reshape(-1, n)):
        if c["burst"] and c["p"] > 0: row[:] = sent; s = r.integers(0, n - e + 1); row[s : s + e] = 2
        extra = r.permutation(np.nonzero(row == 2)[0])[e:]
        row[extra] = sent[extra]      # at most e erasures per codeword
    amp = max(c["amp"], 40.0) if c["code"] == "tccb" else c["amp"]
    L = np.where(y == 2, 0.0, amp * (1.0 - 2.0 * y)).reshape(-1)
    uh = np.asarray(decoder.decode(L))
    assert np.array_equal(uh, u), "a pattern of fewer erasures than the minimum distance is not filled in"
    return c["blocks"] > 1 and c["p"] > 0 and c["code"]

# ---- quantised sources -------------------------------------------------------------------------
@st.composite
def analog_chain(draw):
    return dict(m=draw(st.integers(1, 9)), q=draw(st.sampled_from(["riser", "tread", "scalar", "offset"])), step=draw(st.sampled_from([1.0, 0.1, 1e-3, 7.0])), n=draw(st.integers(1, 200)), lab=draw(st.sampled_from(["natural", "reflected", "custom"])),
                order=draw(st.sampled_from(["label", "LSB-first", "MSB-first"])), code=draw(st.sampled_from(["golay23", "ham5", "rm16", "cyc15", "sim5"])), errors=draw(st.booleans()), seed=draw(st.integers(0, 2 ** 20)))

@check("E01", analog_chain(), quick=300, thorough=5000, weight=2)
def quantised_sources_arrive_as_their_levels(c):
    r = np.random.default_rng(c["seed"]); m = c["m"]; M = 2 ** m
    if c["q"] == "scalar":
        lv = np.sort(r.choice(np.arange(-2000, 2000), M, replace=False)) * c["step"]; q = komm.ScalarQuantizer(lv, (lv[1:] + lv[:-1]) / 2)
    elif c["q"] == "offset": q = komm.UniformQuantizer(M, c["step"], 3 * c["step"])
    else: q = (komm.UniformQuantizer.mid_riser if c["q"] == "riser" else komm.UniformQuantizer.mid_tread)(M, c["step"])
    lv = np.asarray(q.levels)
    x = r.uniform(lv.min() - 2 * c["step"], lv.max() + 2 * c["step"], c["n"])
    idx = np.asarray(q.digitize(x))
    if c["order"] == "label": lab = labeling(c["lab"], m, c["seed"]); bits = np.asarray(lab.indices_to_bits(idx))
    else: bits = komm.int_to_bits(idx, m, c["order"]).reshape(-1) if hasattr(komm, "int_to_bits") else _int_to_bits(idx, m, c["order"])
    make, dec, t = BIGCODES[c["code"]]; code = made(c["code"], make); decoder = made(("dec", c["code"]), lambda: dec(code)); k, n = code.dimension, code.length
    v = np.asarray(code.encode(pad(bits, k)))
    if c["errors"]:
        e = np.zeros(v.size, dtype=int).reshape(-1, n)
        for row in e: row[r.permutation(n)[: r.integers(0, t + 1)]] = 1
        v = (v + e.reshape(-1)) % 2
    bh = np.asarray(decoder.decode(v))[: len(bits)]
    if c["order"] == "label": ih = np.asarray(lab.bits_to_indices(bh))
    else: ih = np.asarray(_bits_to_int(bh.reshape(-1, m), c["order"]))
    assert np.array_equal(ih, idx) and np.array_equal(lv[ih], np.asarray(q.quantize(x))), "the quantised samples are not recovered"
    return c["n"] > 1 and m > 1 and f"{c['q']} {c['order']}"

def _int_to_bits(x, m, order):
    from komm._util.bit_operations import int_to_bits
    return int_to_bits(x, m, order).reshape(-1)
def _bits_to_int(x, order):
    from komm._util.bit_operations import bits_to_int
    return bits_to_int(x, order)

# ---- spreading, scrambling, synchronisation ----------------------------------------------------
@st.composite
def spread_chain(draw):
    return dict(w=draw(st.integers(0, 6)), ordering=draw(st.sampled_from(["natural", "sequency"])), users=draw(st.integers(1, 6)), n=draw(st.integers(1, 40)), psk=draw(st.sampled_from([2, 4, 8, 16])), deg=draw(st.integers(2, 10)),
                zc=draw(st.sampled_from([7, 13, 31, 63, 139])), root=draw(st.integers(1, 6)), delay=draw(st.integers(0, 500)), start=draw(st.integers(1, 3)), seed=draw(st.integers(0, 2 ** 20)))

@check("E01", spread_chain(), quick=200, thorough=4000, weight=2)
def users_are_separated_descrambled_and_synchronised(c):
    r = np.random.default_rng(c["seed"]); L = 2 ** c["w"]; U = min(c["users"], L)
    con = komm.PSKConstellation(c["psk"], 1.0, 1 / 16); m = c["psk"].bit_length() - 1; lab = komm.ReflectedLabeling(m)
    scr = komm.LFSRSequence.maximum_length_sequence(c["deg"], c["start"])
    who = r.permutation(L)[:U]; bits = r.integers(0, 2, (U, c["n"] * m)); key = np.resize(scr.bit_sequence, c["n"] * m)
    total = np.zeros(c["n"] * L, dtype=complex)
    for i, b in zip(who, bits):
        s = con.indices_to_symbols(lab.bits_to_indices(b ^ key)); total += komm.convolve(komm.sampling_rate_expand(s, L), komm.WalshHadamardSequence(L, c["ordering"], int(i)).polar_sequence)[: c["n"] * L]
    # synchronisation: a cyclically delayed preamble
    z = komm.ZadoffChuSequence(c["zc"], c["root"] if math.gcd(c["root"], c["zc"]) == 1 else 1); d = c["delay"] % c["zc"]; p = np.asarray(z.sequence)
    cyc = np.array([np.abs(np.vdot(np.roll(p, l), np.roll(p, d))) for l in range(len(p))])
    assert int(np.argmax(cyc)) == d and np.sum(cyc > 0.5 * cyc[d]) == 1, "the preamble does not reveal its delay"
    for i, b in zip(who, bits):
        w = np.asarray(komm.WalshHadamardSequence(L, c["ordering"], int(i)).polar_sequence)
        y = komm.sampling_rate_compress(komm.convolve(total, w[::-1])[L - 1:], L)[: c["n"]] / L
        got = np.asarray(lab.indices_to_bits(con.closest_indices(y))) ^ key
        assert np.array_equal(got, b), "a user's bits are not recovered"
    return U > 1 and f"U{U} L{L}"

# ---- matched filters ---------------------------------------------------------------------------
@st.composite
def matched_chain(draw):
    return dict(p=draw(st.sampled_from(["rc", "rect", "manchester"])), alpha=draw(st.sampled_from([0.25, 0.35, 0.5, 0.8, 1.0])), sps=draw(st.sampled_from([4, 8, 10])), modem=draw(st.sampled_from(["pam4", "psk8", "qam16"])), n=draw(st.integers(1, 60)), a=draw(st.sampled_from([1.0, 0.01])), seed=draw(st.integers(0, 2 ** 20)))

@check("E01", matched_chain(), quick=120, thorough=2000, weight=2)
def matched_root_pulses_have_no_intersymbol_interference(c):
    r = np.random.default_rng(c["seed"]); sps = c["sps"]; con = modem(c["modem"], c["a"], 0.0); M = con.order
    idx = r.integers(0, M, c["n"]); s = con.indices_to_symbols(idx)
    if c["p"] == "rc":
        S = 40; taps = komm.RaisedCosinePulse(c["alpha"]).root().taps(sps, (-S, S))
        y = komm.convolve(komm.convolve(komm.sampling_rate_expand(s, sps), taps), taps)[2 * S * sps:] / sps
    else:
        taps = (komm.RectangularPulse() if c["p"] == "rect" else komm.ManchesterPulse()).taps(sps)[:-1]
        y = komm.convolve(komm.convolve(komm.sampling_rate_expand(s, sps), taps), taps[::-1])[sps - 1:] / sps
    y = komm.sampling_rate_compress(y, sps)[: c["n"]]
    err = np.max(np.abs(y - s)) / np.max(np.abs(s))
    bound = 1e-9 if c["p"] in ("rect", "manchester") else 0.02
    assert err < bound, f"intersymbol interference {err}"
    assert np.array_equal(con.closest_indices(y), idx)
    return c["n"] > 1 and c["p"]

# ---- large sources -----------------------------------------------------------------------------
@st.composite
def big_source(draw):
    return dict(src=draw(st.sampled_from(["huffman", "fano", "shannon", "tunstall", "lz77", "lzss", "lz78", "lzw", "fibonacci", "unary"])), S=draw(st.sampled_from([2, 3, 16, 64, 257, 300])), n=draw(st.sampled_from([10, 500, 3000])), skew=draw(st.sampled_from([0.0, 1.0, 2.0])),
                code=draw(st.sampled_from(["golay23", "ham6", "bch6", "tccz", "tccr", "rm26"])), seed=draw(st.integers(0, 2 ** 20)))

@check("E01", big_source(), quick=48, thorough=800, weight=6)
def large_alphabets_and_long_messages(c):
    r = np.random.default_rng(c["seed"]); S = c["S"]; p = 1.0 / np.arange(1, S + 1) ** c["skew"]; p /= p.sum()
    x = r.choice(S, c["n"], p=p); src = c["src"]
    if src in ("fibonacci", "unary"):
        x = x + 1 if src == "fibonacci" else x[:500]; o = komm.FibonacciCode() if src == "fibonacci" else komm.UnaryCode()
    elif src in ("huffman", "fano", "shannon"): o = {"huffman": komm.HuffmanCode, "fano": komm.FanoCode, "shannon": komm.ShannonCode}[src](p)
    elif src == "tunstall": o = komm.TunstallCode(p, max(10, (S - 1).bit_length() + 1)); x = x[:500]
    else:
        x = x[:1000]
        o = {"lz77": lambda: komm.LempelZiv77Code(search_size=1024, lookahead_size=40, source_cardinality=S), "lzss": lambda: komm.LempelZivSSCode(search_size=1024, lookahead_size=40, source_cardinality=S), "lz78": lambda: komm.LempelZiv78Code(S), "lzw": lambda: komm.LempelZivWelchCode(S)}[src]()
    bits = np.asarray(o.encode(x))
    make, dec, t = BIGCODES[c["code"]]; code = made(c["code"], make); decoder = made(("dec", c["code"]), lambda: dec(code)); k, n = code.dimension, code.length
    if len(bits) > 20000: bits_in, tail = bits[:20000], bits[20000:]
    else: bits_in, tail = bits, bits[:0]
    v = np.asarray(code.encode(pad(bits_in, k)))
    if t:
        e = np.zeros(v.size, dtype=int).reshape(-1, n)
        for row in e: row[r.integers(0, n)] = 1
        v = (v + e.reshape(-1)) % 2
    bh = np.concatenate([np.asarray(decoder.decode(v))[: len(bits_in)], tail])
    assert np.array_equal(bh, bits), "the source bits are not recovered"
    xh = np.asarray(o.decode(bh))
    assert len(xh) >= len(x) and np.array_equal(xh[: len(x)], x) and (src == "tunstall" or len(xh) == len(x)), "the source message is not recovered"
    return f"{src} S{S}"

# ---- any encoder, any code ---------------------------------------------------------------------
def message(r, style, n):
    u = r.integers(0, 2, n)
    if style == "impulse": u[:] = 0; u[0] = 1
    elif style == "ones": u[:] = 1
    elif style == "zeros": u[:] = 0
    elif style == "alternate": u[:] = np.arange(n) % 2
    elif style == "bursts": u &= np.repeat(r.integers(0, 2, n // 16 + 1), 16)[:n]
    return u
def lvalues(r, v, form, unit):
    """Error-free L-values of the bits v in different number formats and units."""
    s = 1 - 2 * np.asarray(v).astype(int)
    if form == "float": return s * r.uniform(1.0, 6.0, s.shape) * 2.0 ** unit
    if form == "equal": return s * 2.0 ** unit
    if form == "float32": return (s * r.uniform(1.0, 6.0, s.shape)).astype(np.float32)
    if form == "int8": return (s * r.choice([1, 7, 100, 127], s.shape)).astype(np.int8)
    if form == "int16": return (s * r.integers(1, 32767, s.shape)).astype(np.int16)
    return s * r.integers(1, 8, s.shape)
FORMS = ["float", "float", "equal", "float32", "int8", "int16", "int"]

@st.composite
def conv_chain(draw):
    return dict(code=draw(st.one_of(convs.conv_spec(max_nu=5, max_sigma=6, max_k=2, max_n=5, rank=True), convs.conv_spec(max_nu=3, max_sigma=5, max_k=3, max_n=6, rank=True, min_sigma=1), st.integers(0, 4).map(lambda i: CONVS[i]))),
                dec=draw(st.sampled_from(["viterbi", "viterbi", "bcjr", "stream", "stream", "inverse", "tail"])), mode=draw(st.sampled_from(["zero-termination", "direct-truncation"])), h=draw(st.sampled_from([1, 2, 3, 8, 30, 70, 150, 400])), soft=draw(st.booleans()),
                form=draw(st.sampled_from(FORMS)), unit=draw(st.sampled_from([0, 0, -40, 40, 5, -5])), style=draw(st.sampled_from(["random", "random", "impulse", "ones", "alternate", "bursts"])), T=draw(st.sampled_from([1, 3, 12, 40])), dtype=draw(st.sampled_from(["int64", "uint8", "int8", "bool"])),
                blocks=draw(st.sampled_from([1, 1, 3])), seed=draw(st.integers(0, 2 ** 20)))

@check("E01", conv_chain(), quick=700, thorough=8000, weight=5)
def any_convolutional_encoder_in_a_chain(c):
    r = np.random.default_rng(c["seed"]); cc = convs.build(c["code"]); k = cc.num_input_bits; P, q = convs.pq(c["code"])
    from ..gen import gf2_rank
    if gf2_rank([[p & 1 for p in row] for row in P]) < k: raise Skip("the first output block does not determine the first input block")
    dec, mode, h = c["dec"], c["mode"], c["h"]
    if c["code"]["t"] == "high": mode = "direct-truncation"
    if dec in ("viterbi", "bcjr"): h = min(h, 400 if cc.degree <= 3 else 150 if cc.degree <= 4 else 70)
    if dec == "stream":
        if h == 400 and cc.degree <= 2: h = int(r.choice([400, 4097, 5000]))
        T = c["T"]; u = message(r, c["style"], h * k); v = np.asarray(cc.encode(np.concatenate([u, np.zeros(T * k, dtype=int)])))
        y = lvalues(r, v, c["form"], c["unit"]) if c["soft"] else v.astype(c["dtype"])
        d = komm.ViterbiStreamDecoder(cc, traceback_length=T, input_type="soft" if c["soft"] else "hard"); n = cc.num_output_bits
        cut = int(r.integers(0, h + T + 1)) * n
        got = np.concatenate([np.asarray(d.decode(z)) for z in (y[:cut], y[cut:]) if len(z)])[T * k:]
    else:
        if dec == "tail":
            if c["soft"] or h < 8: h = min(h, 9 // k)
            else: h = min(h, 90 // k)                     # long: no search over all messages, only the inverse
            try: code = komm.TerminatedConvolutionalCode(cc, h, "tail-biting"); G = np.asarray(code.generator_matrix)
            except ValueError: raise Skip("tail-biting is not possible")
            if gf2_rank(G) < G.shape[0]: raise Skip("the terminated code has repeated codewords")
        else:
            if dec == "inverse": h = min(h, 70 // k)
            code = komm.TerminatedConvolutionalCode(cc, h, mode)
        u = message(r, c["style"], c["blocks"] * code.dimension); v = np.asarray(code.encode(u))
        if dec == "inverse" or code.dimension > 9 and dec == "tail": got = code.inverse_encode(v)
        elif dec == "bcjr": got = komm.BCJRDecoder(code, output_type="hard").decode((1.0 - 2.0 * v) * r.uniform(40.0, 90.0, v.shape))
        else:
            make = {"viterbi": komm.ViterbiDecoder, "tail": komm.ExhaustiveSearchDecoder}[dec]
            got = make(code, input_type="soft" if c["soft"] else "hard").decode(lvalues(r, v, c["form"], c["unit"]) if c["soft"] else v.astype(c["dtype"]))
    assert np.array_equal(np.asarray(got), u), "an undisturbed message is not recovered"
    return u.any() and sum(convs.nus(c["code"])) > 0 and f"{dec} {'soft' if c['soft'] else 'hard'}"

@st.composite
def block_chain(draw):
    kind = draw(st.sampled_from(["any", "any", "bch", "rm", "spc", "polar"]))
    if kind == "any": s = draw(codes.any_spec(nmax=12, big=True))
    elif kind == "bch": mu = draw(st.integers(3, 7)); s = dict(t="bch", mu=mu, delta=draw(st.sampled_from(codes.BOSE[mu][-8:] if mu < 7 else codes.BOSE[mu][:8])))
    elif kind == "rm": mu = draw(st.integers(2, 8)); s = dict(t="rm", mu=mu, rho=draw(st.integers(0, min(mu - 1, 2 if mu > 6 else mu - 1))))
    elif kind == "spc": s = dict(t="spc", n=draw(st.integers(2, 80)))
    else: s = draw(codes.polar_spec(3)) if draw(st.booleans()) else dict(t="polar", mu=6, frozen=sorted(draw(st.sets(st.integers(0, 62), max_size=60))))
    return dict(kind=kind, s=s, blocks=draw(st.sampled_from([1, 2, 5, 60])), soft=draw(st.booleans()), form=draw(st.sampled_from(FORMS)), unit=draw(st.sampled_from([0, 0, -40, 40, -700, 700])), errors=draw(st.sampled_from(["none", "random", "full", "full", "burst", "spaced"])),
                dtype=draw(st.sampled_from(["int64", "uint8", "int8", "bool"])), seed=draw(st.integers(0, 2 ** 20)))

@check("E01", block_chain(), quick=700, thorough=8000, weight=5)
def any_block_code_in_a_chain(c):
    r = np.random.default_rng(c["seed"]); s, kind, soft = c["s"], c["kind"], c["soft"]; key = repr(s)
    code = made(key, lambda: codes.build(s)); n, k = code.length, code.dimension
    blocks = min(c["blocks"], 3 if kind in ("bch", "rm") and n > 100 or kind == "polar" and n > 32 else 60); unit = c["unit"]
    u = r.integers(0, 2, blocks * k); v = np.asarray(code.encode(u))
    if kind == "bch": t, soft, name, mk = (s["delta"] - 1) // 2, False, "berlekamp", komm.BerlekampDecoder
    elif kind == "rm":
        t, name, mk = (2 ** (s["mu"] - s["rho"]) - 1) // 2, "reed", lambda x: komm.ReedDecoder(x, "soft" if soft else "hard")
    elif kind == "spc": t, soft, name, mk = 0, True, "wagner", komm.WagnerDecoder
    elif kind == "polar": t, soft, name, mk, unit = 0, True, "sc", lambda x: komm.SCDecoder(x, "hard"), max(0, min(unit, 40))
    elif k <= 10:
        t, name, mk = (made((key, "d"), lambda: min(x.bit_count() for x in codes.span_ints(codes.as_ints(code.generator_matrix))[1:])) - 1) // 2, "exhaustive", lambda x: komm.ExhaustiveSearchDecoder(x, "soft" if soft else "hard")
    elif n - k <= 11:
        d = s["delta"] if s["t"] == "bch" else 2 ** (s["mu"] - s["rho"]) if s["t"] == "rm" else {"ham": 3, "golay": 7}.get(s["t"], 1)
        t, soft, name, mk = (d - 1) // 2, False, "syndrome", komm.SyndromeTableDecoder
    else: t, soft, name, mk = 0, False, "inverse", None
    if soft:
        y = lvalues(r, v, c["form"], unit)
        if name == "sc" and c["form"] in ("int8", "int16"): y = np.sign(y).astype(y.dtype) * y.dtype.type(7)
        elif name == "sc": y = y * y.dtype.type(8)      # strong enough for the combination of 64 of them to be resolved
    else:
        e = np.zeros((blocks, n), dtype=int)
        for row in e:
            w = {"none": 0, "random": int(r.integers(0, t + 1))}.get(c["errors"], t)
            if c["errors"] == "burst": row[(r.integers(0, n) + np.arange(w)) % n] = 1
            elif c["errors"] == "spaced": row[(r.integers(0, n) + max(1, n // max(w, 1)) * np.arange(w)) % n] = 1
            else: row[r.permutation(n)[:w]] = 1
        assert (e.sum(axis=1) <= t).all(); y = ((v + e.reshape(-1)) % 2).astype(c["dtype"])
    got = code.inverse_encode(y) if mk is None else made((key, name, soft), lambda: mk(code)).decode(y)
    assert np.array_equal(np.asarray(got), u), "the message is not recovered"
    return k > 0 and n > k and f"{name} {'soft' if soft else 'hard'}"

@st.composite
def modem_chain(draw):
    return dict(kind=draw(st.sampled_from(["custom", "custom", "psk", "qam", "qam2", "cross", "apsk", "pam", "ask", "orth", "biorth", "simplex"])), m=draw(st.integers(1, 6)), dim=draw(st.integers(1, 4)), cplx=draw(st.booleans()), scale=draw(st.sampled_from([1.0, 1.0, 1e-6, 1e6, 0.1, 3.0])),
                away=draw(st.sampled_from([0, 0, 1, 1000, 10 ** 8])), off=draw(st.sampled_from([0.0, 0.125, 0.3, 0.9])), lab=draw(st.sampled_from(["reflected", "natural", "rect", "custom", "product"])), batch=draw(st.sampled_from([[], [], [1], [4], [2, 3], [3, 1, 2]])), n=draw(st.sampled_from([1, 1, 2, 7, 40, 500])),
                noise=draw(st.sampled_from([0.0, 0.2, 0.6, 0.97])), seed=draw(st.integers(0, 2 ** 20)))

@check("E01", modem_chain(), quick=600, thorough=8000, weight=3)
def any_constellation_in_a_chain(c):
    r = np.random.default_rng(c["seed"]); m, a, off = c["m"], c["scale"], c["off"]; M = 2 ** m; kind = c["kind"]
    if kind == "custom":
        N = max(c["dim"], 1 if c["cplx"] else 1 + (m > 5)); P = r.integers(-40, 41, (8 * M, N)) + (1j * r.integers(-40, 41, (8 * M, N)) if c["cplx"] else 0)
        P = np.unique(P, axis=0); P = P[r.permutation(len(P))[:M]]
        if len(P) < M: raise Skip("too few distinct points")
        con = komm.Constellation((P + c["away"] * r.choice([-1, 1], N)) * a)
    else:
        q = max(2, m - m % 2)
        con = {"psk": lambda: komm.PSKConstellation(M, a, off), "qam": lambda: komm.QAMConstellation(2 ** q, a, off), "qam2": lambda: komm.QAMConstellation((2 ** max(1, m // 2), 2 ** max(1, m - m // 2)), (a, 3 * a), off), "cross": lambda: komm.CrossQAMConstellation(32 if m < 5 else 128, a, off),
               "apsk": lambda: komm.APSKConstellation((4, 12), (a, 2.5 * a), (off, off / 2)), "pam": lambda: komm.PAMConstellation(M, a), "ask": lambda: komm.ASKConstellation(M, a, off), "orth": lambda: komm.OrthogonalConstellation(M, a), "biorth": lambda: komm.BiorthogonalConstellation(M, a), "simplex": lambda: komm.SimplexConstellation(M, a)}[kind]()
    M = int(con.order); m = M.bit_length() - 1; N = con.dimension; S = np.asarray(con.matrix); lab = labeling(c["lab"], m, c["seed"])
    d = min(float(np.linalg.norm(S[i] - S[j])) for i in range(M) for j in range(i)); assert abs(con.minimum_distance() - d) <= 1e-6 * d
    bits = r.integers(0, 2, c["batch"] + [c["n"] * m])
    sym = np.asarray(con.indices_to_symbols(lab.bits_to_indices(bits))); assert sym.shape == tuple(c["batch"] + [c["n"] * N])
    z = r.normal(size=sym.shape[:-1] + (c["n"], N)) + (1j * r.normal(size=sym.shape[:-1] + (c["n"], N)) if np.iscomplexobj(S) else 0)
    y = sym + (c["noise"] * 0.5 * d * z / np.linalg.norm(z, axis=-1, keepdims=True)).reshape(sym.shape)
    assert np.array_equal(np.asarray(lab.indices_to_bits(con.closest_indices(y))), bits), "hard detection changed bits although the noise is below half the minimum distance"
    assert np.allclose(np.asarray(con.closest_symbols(y)), sym, rtol=0, atol=1e-6 * d)
    L = np.asarray(lab.marginalize(con.posteriors(sym, d * d / 40))); assert L.shape == bits.shape
    assert np.array_equal(L < 0, bits == 1), "L-values of undisturbed symbols have the wrong sign"
    return c["n"] > 1 and f"{kind} {'noisy' if c['noise'] else 'clean'}"

LONG = [dict(t="conv", P=[[7, 5]], q=None), dict(t="conv", P=[[3, 2, 3], [2, 1, 1]], q=None), dict(t="high", h=[5, 7, 3]), dict(t="low", g=[3, 1]), dict(t="conv", P=[[3, 1]], q=[3]), dict(t="conv", P=[[1, 0, 0, 3], [0, 1, 0, 2], [0, 0, 1, 1]], q=None)]
@st.composite
def long_stream(draw):
    return dict(code=draw(st.integers(0, len(LONG) - 1)), h=draw(st.sampled_from([1025, 4095, 4097, 5000, 9000])), calls=draw(st.sampled_from([1, 1, 2, 5])), T=draw(st.sampled_from([1, 5, 30, 300])), soft=draw(st.booleans()), form=draw(st.sampled_from(FORMS)), unit=draw(st.sampled_from([0, 0, -40, 40])), seed=draw(st.integers(0, 2 ** 20)))

@check("E01", long_stream(), quick=24, thorough=300, weight=12)
def long_streams_in_a_chain(c):
    """Thousands of blocks through a streaming decoder, in one call or in a few."""
    r = np.random.default_rng(c["seed"]); cc = convs.build(LONG[c["code"]]); k, n, T = cc.num_input_bits, cc.num_output_bits, c["T"]
    u = r.integers(0, 2, c["h"] * k); v = np.asarray(cc.encode(np.concatenate([u, np.zeros(T * k, dtype=int)])))
    y = lvalues(r, v, c["form"], c["unit"]) if c["soft"] else v
    d = komm.ViterbiStreamDecoder(cc, traceback_length=T, input_type="soft" if c["soft"] else "hard")
    got = np.concatenate([np.asarray(d.decode(z.reshape(-1))) for z in np.array_split(y.reshape(-1, n), c["calls"])])[T * k:]
    assert np.array_equal(got, u), "the stream is not recovered"
    return f"k{k} {c['calls']} calls"
