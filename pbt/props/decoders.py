import itertools, math
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from ..gen import *
from ..codes import *

rule("D01", "Codes of every specification and family; arbitrary received words for the complete decoders (exhaustive search, syndrome table), error patterns "
     "of weight 0..t on random messages for Berlekamp (BCH mu<=6), Reed (mu<=6) and the complete decoders; arrays of 1-3 axes. Oracle = minimum "
     "distance over all enumerated codewords, or the transmitted message. Non-trivial: at least one channel error in the array.")

@st.composite
def complete_case(draw):
    return dict(s=draw(any_spec(10)), dec=draw(st.sampled_from(["exh", "syn"])), lead=draw(st.lists(st.integers(1, 3), max_size=2)), b=draw(st.integers(1, 3)),
                seed=draw(st.integers(0, 2 ** 32 - 1)), cont=draw(CONT))

def wrap(a, cont): return layout(a, cont)

@check("D01", complete_case(), quick=1500, thorough=20000, weight=4)
def complete_decoders_minimum_distance(c):
    code = build(c["s"]); n, k, m = code.length, code.dimension, code.redundancy
    if k > 10 or m > 11: raise Skip()
    dec = komm.ExhaustiveSearchDecoder(code) if c["dec"] == "exh" else komm.SyndromeTableDecoder(code)
    S = np.array(span_ints(as_ints(code.generator_matrix)))
    dmin = min(int(v).bit_count() for v in S[1:])
    rng = np.random.default_rng(c["seed"])
    lead, b = tuple(c["lead"]), c["b"]
    R = rng.integers(0, 2, size=lead + (b, n))
    r = R.reshape(lead + (b * n,))
    U = dec.decode(wrap(r, c["cont"]))
    assert np.shape(U) == lead + (b * k,); is_int_array(U)
    U = np.asarray(U).reshape(-1, k)
    Ri = np.array(as_ints(R.reshape(-1, n)))
    Ui = np.array(as_ints(U))
    got = np.bitwise_count(S[Ui] ^ Ri)
    best = np.min(np.bitwise_count(S[None, :] ^ Ri[:, None]), axis=1)
    assert (got == best).all(), ("not a nearest codeword", got.tolist(), best.tolist())
    # transmitted message with at most t errors
    t = (dmin - 1) // 2
    Um = rng.integers(0, 2, size=(b, k)); V = np.array(code.encode(Um)).reshape(b, n)
    for i in range(b):
        w = int(rng.integers(0, t + 1)); V[i, rng.permutation(n)[:w]] ^= 1
    equal(dec.decode(wrap(V.reshape(-1), c["cont"])), Um.reshape(-1))
    for bad in (n + 1, 2 * n - 1):
        if bad % n: raises(ValueError, dec.decode, np.zeros(bad, dtype=int))
    return bool(best.any()) and c["dec"] + " " + c["s"]["t"]

@st.composite
def long_case(draw):
    """Codes of a few hundred bits, of small dimension or of small redundancy."""
    n = draw(st.one_of(st.integers(20, 700), st.sampled_from([127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513])))
    kind = draw(st.sampled_from(["rep", "low", "low", "high", "spc"]))
    if kind in ("high", "spc"): n = min(n, 300)
    return dict(n=n, kind=kind, k=draw(st.integers(1, 6)), w=draw(st.sampled_from([0.0, 0.01, 0.2, 0.45, 0.5, 0.9, 1.0])), b=draw(st.integers(1, 3)),
                two=draw(st.booleans()), seed=draw(st.integers(0, 2 ** 32 - 1)), cont=draw(CONT))

@check("D01", long_case(), quick=200, thorough=4000, weight=3)
def long_codes_minimum_distance(c):
    n, k, kind, rng = c["n"], c["k"], c["kind"], np.random.default_rng(c["seed"])
    if kind == "rep": code, G = komm.RepetitionCode(n), np.ones((1, n), dtype=int)
    elif kind == "low":
        P = rng.integers(0, 2, (k, n - k)); G = np.hstack([np.eye(k, dtype=int), P]); code = komm.SystematicBlockCode(parity_submatrix=P)
    elif kind == "spc": code, G = komm.SingleParityCheckCode(n), None
    else:
        m = max(k, 2); P = rng.integers(0, 2, (n - m, m)); G = None; code = komm.SystematicBlockCode(parity_submatrix=P)
    b = c["b"]; shape = (b, n) if c["two"] else (b * n,)
    if kind in ("rep", "low"):
        dec = komm.ExhaustiveSearchDecoder(code); S = np.array([[int(x) for x in np.binary_repr(i, len(G))[::-1]] for i in range(2 ** len(G))]) @ G % 2
        R = S[rng.integers(0, len(S), b)] ^ (rng.random((b, n)) < c["w"])
        U = np.asarray(dec.decode(layout(R.reshape(shape), c["cont"]))); is_int_array(U)
        assert U.shape == shape[:-1] + (shape[-1] // n * len(G),)
        got = ((U.reshape(b, -1) @ G % 2) ^ R).sum(axis=1)
        best = (S[None] ^ R[:, None]).sum(axis=2).min(axis=1)
        assert (got == best).all(), ("not a nearest codeword", got.tolist(), best.tolist())
        return bool(best.any()) and kind
    # high rate: the nearest codeword lies at the distance given by the fewest columns of the check matrix that sum to the syndrome
    dec = komm.SyndromeTableDecoder(code)
    H = np.hstack([P.T, np.eye(P.shape[1], dtype=int)]) if kind == "high" else np.ones((1, n), dtype=int)
    cols = sorted({int("".join(map(str, h)), 2) for h in H.T} - {0}); dist = {0: 0}; front = [0]
    while front:
        new = []
        for s in front:
            for h in cols:
                if s ^ h not in dist: dist[s ^ h] = dist[s] + 1; new.append(s ^ h)
        front = new
    R = rng.integers(0, 2, (b, n))
    U = np.asarray(dec.decode(layout(R.reshape(shape), c["cont"]))); is_int_array(U)
    V = np.asarray(code.encode(U)).reshape(b, n)
    assert not (V @ H.T % 2).any(), "not a codeword"
    want = [dist[int("".join(map(str, s)), 2)] for s in R @ H.T % 2]
    got = (V ^ R).sum(axis=1).tolist()
    assert got == want, ("not a nearest codeword", got, want)
    return any(want) and kind

@st.composite
def bounded_case(draw):
    kind = draw(st.sampled_from(["bch", "rm"]))
    if kind == "bch":
        mu = draw(st.sampled_from([2, 3, 4, 4, 5, 5, 6]))
        s = dict(t="bch", mu=mu, delta=draw(st.sampled_from(BOSE[mu] if mu < 6 else BOSE[6][:8])))
    else:
        mu = draw(st.integers(1, 6)); s = dict(t="rm", mu=mu, rho=draw(st.integers(0, mu - 1)))
    return dict(s=s, lead=draw(st.lists(st.integers(1, 2), max_size=2)), b=draw(st.integers(1, 3)), seed=draw(st.integers(0, 2 ** 32 - 1)),
                full=draw(st.booleans()), cont=draw(CONT))

_CACHE = {}
def cached(s):
    key = tuple(sorted(s.items()))
    if key not in _CACHE: _CACHE[key] = build(s)
    return _CACHE[key]

@check("D01", bounded_case(), quick=500, thorough=6000, weight=6)
def algebraic_decoders_correct_t_errors(c):
    s = c["s"]; code = cached(s); n, k = code.length, code.dimension
    dec = komm.BerlekampDecoder(code) if s["t"] == "bch" else komm.ReedDecoder(code)
    t = (s["delta"] - 1) // 2 if s["t"] == "bch" else (2 ** (s["mu"] - s["rho"]) - 1) // 2
    rng = np.random.default_rng(c["seed"])
    lead, b = tuple(c["lead"]), c["b"]
    U = rng.integers(0, 2, size=lead + (b, k))
    V = np.array(U @ np.asarray(code.generator_matrix).astype(int) % 2)
    F = V.reshape(-1, n)
    some = 0
    for row in F:
        w = t if c["full"] else int(rng.integers(0, t + 1))
        row[rng.permutation(n)[:w]] ^= 1; some += w
    got = dec.decode(wrap(V.reshape(lead + (b * n,)), c["cont"]))
    equal(got, U.reshape(lead + (b * k,)))
    is_int_array(got)
    # arbitrary words: bits of the right shape, or a clean rejection is not expected
    W = rng.integers(0, 2, size=(2, n))
    y = np.asarray(dec.decode(W.reshape(-1)))
    assert y.shape == (2 * k,) and set(np.unique(y)) <= {0, 1}
    if n > 1: raises(ValueError, dec.decode, np.zeros(n + 1, dtype=int))
    return some > 0 and f"{s['t']} t={min(t, 9)}"

@st.composite
def large_bounded(draw):
    s = draw(st.sampled_from([dict(t="rm", mu=m, rho=r) for m, r in [(7, 0), (8, 0), (9, 0), (10, 0), (7, 1), (8, 1), (9, 1), (10, 1), (7, 2), (8, 2), (7, 5), (7, 6), (8, 7)]]
                             + [dict(t="bch", mu=7, delta=d) for d in BOSE[7][:12]] + [dict(t="bch", mu=8, delta=d) for d in (3, 5, 7, 21)]))
    return dict(s=s, b=draw(st.integers(1, 3)), seed=draw(st.integers(0, 2 ** 32 - 1)), full=draw(st.sampled_from([True, True, False])), burst=draw(st.booleans()), soft=draw(st.booleans()))

@check("D01", large_bounded(), quick=60, thorough=1200, weight=8)
def large_algebraic_codes(c):
    s = c["s"]; code = cached(s); n, k = code.length, code.dimension; key = ("d", c["soft"] and s["t"] == "rm") + tuple(sorted(s.items()))
    soft = key[1]
    if key not in _CACHE: _CACHE[key] = komm.BerlekampDecoder(code) if s["t"] == "bch" else komm.ReedDecoder(code, "soft" if soft else "hard")
    t = (s["delta"] - 1) // 2 if s["t"] == "bch" else (2 ** (s["mu"] - s["rho"]) - 1) // 2
    rng = np.random.default_rng(c["seed"]); U = rng.integers(0, 2, size=(c["b"], k)); V = U @ np.asarray(code.generator_matrix).astype(int) % 2
    if s["t"] == "bch": equal(code.encode(U), V)
    for row in V:
        w = t if c["full"] else int(rng.integers(0, t + 1))
        row[(rng.integers(0, n) + np.arange(w)) % n if c["burst"] else rng.permutation(n)[:w]] ^= 1
    got = _CACHE[key].decode((1.0 - 2.0 * V) * 2.5 if soft else V)
    equal(got, U)
    return t > 0 and f"{s['t']}{s['mu']}" + ("s" if soft else "")

def regular_bounded(tier):
    """Error positions in arithmetic progression, in particular whole cosets of a subgroup: long runs of zero syndromes."""
    for mu, deltas in (4, BOSE[4]), (5, BOSE[5]), (6, BOSE[6] if tier != "quick" else [d for d in BOSE[6] if d in (11, 15, 23, 27, 31, 63)]), (7, BOSE[7] if tier != "quick" else BOSE[7][-3:]):
        for d in deltas:
            if d >= 5: yield dict(mu=mu, delta=d)

@check("D01", cases=regular_bounded, weight=6)
def regularly_spaced_errors(c):
    code = cached(dict(t="bch", **c)); n, k = code.length, code.dimension; t = (c["delta"] - 1) // 2
    rng = np.random.default_rng(n + t); pats = []
    for g in [g for g in range(1, n) if n % g == 0]:                # cosets of subgroups, and unions of two of them
        w = n // g
        if w > t: continue
        for _ in range(3): pats.append((g * np.arange(w) + rng.integers(0, n)) % n)
        if 2 * w <= t and g > 1: a = rng.permutation(g)[:2]; pats.append(np.concatenate([g * np.arange(w) + a[0], g * np.arange(w) + a[1]]) % n)
    for _ in range(12 if n < 100 else 4):                         # progressions and conjugate positions
        w = int(rng.integers(2, t + 1)); pats.append((int(rng.integers(1, n)) * np.arange(w) + rng.integers(0, n)) % n)
        o = (int(rng.integers(1, n)) * 2 ** np.arange(c["mu"])) % n; pats.append(o[:t])
    E = np.zeros((len(pats), n), dtype=int)
    for r, q in zip(E, pats): r[q] = 1
    assert (E.sum(axis=1) <= t).all()
    U = rng.integers(0, 2, size=(len(pats), k)); V = np.asarray(code.encode(U)) ^ E
    equal(komm.BerlekampDecoder(code).decode(V), U)
    return f"t={t}"

def exhaustive_bounded(tier):
    for mu in (2, 3, 4):
        for d in BOSE[mu]:
            t = (d - 1) // 2; n = 2 ** mu - 1
            if math.comb(n, t) <= (600 if tier == "quick" else 10 ** 5): yield dict(s=dict(t="bch", mu=mu, delta=d), t=t)
    for mu in (2, 3, 4) + ((5,) if tier != "quick" else ()):
        for rho in range(mu):
            t = (2 ** (mu - rho) - 1) // 2; n = 2 ** mu
            if math.comb(n, t) <= (600 if tier == "quick" else 10 ** 5): yield dict(s=dict(t="rm", mu=mu, rho=rho), t=t)

@check("D01", cases=exhaustive_bounded, weight=4)
def all_patterns_of_weight_up_to_t(c):
    s = c["s"]; code = cached(s); n, k = code.length, code.dimension
    dec = komm.BerlekampDecoder(code) if s["t"] == "bch" else komm.ReedDecoder(code)
    pats = [p for w in range(c["t"] + 1) for p in itertools.combinations(range(n), w)]
    u = (np.arange(k) * 7 // 3) % 2
    v = np.array(code.encode(u))
    E = np.zeros((len(pats), n), dtype=int)
    for i, p in enumerate(pats): E[i, list(p)] = 1
    equal(dec.decode((v + E) % 2), np.tile(u, (len(pats), 1)))
    return len(pats) > 1

# ------------------------------------------------------------------ D02
rule("D02", "Real-valued L-vectors (Gaussian, sparse, equal-magnitude, large/small scale) for codes of every specification (k<=9) with the soft exhaustive decoder, "
     "SPC n<=14 with Wagner, polar mu<=4 with SC, Reed-Muller mu<=5 with soft Reed. Oracles = maximum correlation over all codewords; brute-force "
     "successive posterior over all input words (mu<=3 and 4); weighted-majority guarantee for Reed. Non-trivial: hard decision of the input is not a codeword.",
     ["metric ties and SC decisions with |L|<1e-6 excluded", "infinite L-values excluded for the exhaustive decoder"])

@st.composite
def soft_case(draw, spec):
    return dict(s=draw(spec), seed=draw(st.integers(0, 2 ** 32 - 1)), kind=draw(st.sampled_from(["gauss", "equal", "noisy", "intl", "mixed", "close", "wide"])),
                scale=draw(st.sampled_from([1.0, 0.1, 5.0, 100.0, 1e-3, 1e-8, 1e5, 1e12])), b=draw(st.integers(1, 3)), lead=draw(st.lists(st.integers(1, 2), max_size=1)))

def llrs(rng, V, kind, scale):
    if kind == "gauss": return rng.normal(size=V.shape) * scale
    if kind == "equal": return (1 - 2 * V) * scale * np.where(rng.random(V.shape) < 0.15, -1, 1)
    if kind == "noisy": return ((1 - 2 * V) + 0.8 * rng.normal(size=V.shape)) * scale
    if kind == "close": return (1 - 2 * V) * scale * np.where(rng.random(V.shape) < 0.2, -1, 1) * (1 + 1e-7 * rng.normal(size=V.shape))
    if kind == "wide": return (1 - 2 * V) * scale * np.where(rng.random(V.shape) < 0.2, -1, 1) * 10.0 ** rng.integers(-5, 6, size=V.shape)
    if kind == "intl": return rng.integers(-9, 10, size=V.shape)
    return (1 - 2 * V) * rng.random(V.shape) * scale + rng.normal(size=V.shape) * 0.3 * scale

@check("D02", soft_case(any_spec(9)), quick=1200, thorough=15000, weight=4)
def exhaustive_soft_maximum_correlation(c):
    code = build(c["s"]); n, k = code.length, code.dimension
    if k > 9: raise Skip()
    C = np.array([row_bits(v, n) for v in span_ints(as_ints(code.generator_matrix))])
    rng = np.random.default_rng(c["seed"])
    shape = tuple(c["lead"]) + (c["b"], n)
    V = C[rng.integers(0, len(C), size=shape[:-1])]
    L = llrs(rng, V, c["kind"], c["scale"])
    dec = komm.ExhaustiveSearchDecoder(code, input_type="soft")
    u = np.asarray(dec.decode(L.reshape(shape[:-2] + (-1,))))
    assert u.shape == shape[:-2] + (c["b"] * k,); is_int_array(u)
    corr = L @ (1 - 2 * C).T
    ui = np.array(as_ints(u.reshape(-1, k)))
    got = corr.reshape(-1, len(C))[np.arange(len(ui)), ui]
    best = corr.reshape(-1, len(C)).max(axis=1)
    assert np.all(got >= best - 1e-12 * np.abs(L).sum()), (got, best)
    mag = c["scale"]
    U = rng.integers(0, 2, size=(2, k))
    equal(dec.decode((1 - 2 * np.asarray(code.encode(U))) * mag), U)
    hard = (L < 0).astype(int).reshape(-1, n)
    return any(tuple(h) not in set(map(tuple, C.tolist())) for h in hard.tolist()) and c["s"]["t"]

@check("D02", soft_case(st.integers(2, 14)), quick=1200, thorough=15000)
def wagner_maximum_correlation(c):
    n = c["s"]; code = komm.SingleParityCheckCode(n)
    rng = np.random.default_rng(c["seed"])
    shape = tuple(c["lead"]) + (c["b"], n)
    V = rng.integers(0, 2, size=shape); V[..., -1] = V[..., :-1].sum(axis=-1) % 2
    L = llrs(rng, V, c["kind"], c["scale"])
    dec = komm.WagnerDecoder(code)
    u = np.asarray(dec.decode(L.reshape(shape[:-2] + (-1,))))
    assert u.shape == shape[:-2] + (c["b"] * (n - 1),); is_int_array(u)
    v = np.asarray(code.encode(u)).reshape(-1, n)
    Lf = L.reshape(-1, n)
    got = ((1 - 2 * v) * Lf).sum(axis=1)
    hard = (Lf < 0).sum(axis=1) % 2
    best = np.abs(Lf).sum(axis=1) - 2 * hard * np.abs(Lf).min(axis=1)
    assert np.all(np.abs(got - best) <= 1e-12 * np.abs(Lf).sum()), (got, best)
    U = np.asarray(code.inverse_encode(V.reshape(-1)))
    equal(dec.decode((c["scale"] * (1 - 2.0 * V)).reshape(-1)), U)
    return bool(hard.any())

def sc_reference(mu, frozen, l):
    """Successive posterior rule by enumeration of every input word."""
    n = 2 ** mu
    words = np.arange(2 ** n)
    ub = (words[:, None] >> np.arange(n)) & 1
    K = np.array([[int(j & i == j) for j in range(n)] for i in range(n)])
    vb = ub @ K % 2
    lw = -(vb @ l)
    lw -= lw.max()
    keep = np.ones(2 ** n, dtype=bool)
    out, dec = [], []
    for i in range(n):
        a, b = lw[keep & (ub[:, i] == 0)], lw[keep & (ub[:, i] == 1)]
        L = np.logaddexp.reduce(a) - np.logaddexp.reduce(b)
        d = 0 if i in frozen else int(L < 0)
        if i not in frozen: out.append(L); dec.append(abs(L) < 1e-6)
        keep &= ub[:, i] == d
    return np.array(out), any(dec)

@st.composite
def sc_case(draw):
    s = draw(polar_spec(3))
    return dict(s=s, seed=draw(st.integers(0, 2 ** 32 - 1)), kind=draw(st.sampled_from(["gauss", "noisy", "mixed", "equal", "wide"])), scale=draw(st.sampled_from([1.0, 3.0, 0.3, 10.0, 100.0, 1000.0])), b=draw(st.integers(1, 2)))

def sc_oracle(c):
    code = build(c["s"]); n, k = code.length, code.dimension
    rng = np.random.default_rng(c["seed"])
    U = rng.integers(0, 2, size=(c["b"], k)); V = np.asarray(code.encode(U))
    L = llrs(rng, V, c["kind"], c["scale"])
    soft = np.asarray(komm.SCDecoder(code).decode(L.reshape(-1))).reshape(c["b"], k)
    hard = komm.SCDecoder(code, output_type="hard").decode(L)
    assert np.shape(hard) == (c["b"], k); is_int_array(hard)
    tie = False
    for i in range(c["b"]):
        ref, t = sc_reference(c["s"]["mu"], c["s"]["frozen"], L[i])
        if t: tie = True; continue
        close(soft[i], ref, 1e-6, 1e-7)
        equal(np.asarray(hard)[i], (ref < 0).astype(int))
    return k < n and not tie and f"mu={c['s']['mu']}"

@check("D02", sc_case(), quick=500, thorough=6000, weight=3)
def sc_successive_posteriors(c): return sc_oracle(c)

@st.composite
def sc4_case(draw):
    mask = draw(st.integers(0, 2 ** 16 - 2))
    return dict(s=dict(t="polar", mu=4, frozen=[i for i in range(16) if mask >> i & 1]), seed=draw(st.integers(0, 2 ** 32 - 1)), kind=draw(st.sampled_from(["gauss", "noisy"])), scale=draw(st.sampled_from([1.0, 3.0])), b=1)

@check("D02", sc4_case(), quick=12, thorough=150, weight=3)
def sc_successive_posteriors_mu4(c): return sc_oracle(c)

@st.composite
def noiseless_case(draw):
    t = draw(st.sampled_from(["polar", "rm", "polar"]))
    if t == "rm":
        mu = draw(st.integers(1, 6)); s = dict(t="rm", mu=mu, rho=draw(st.integers(0, mu - 1)))
    else: s = draw(polar_spec(6))
    return dict(s=s, seed=draw(st.integers(0, 2 ** 32 - 1)), mag=draw(st.sampled_from([1.0, 4.0, 30.0, 1e3, 1e6, 0.5, 1e-3, 1e-9])), spread=draw(st.booleans()), b=draw(st.integers(1, 3)))

@check("D02", noiseless_case(), quick=600, thorough=6000, weight=2)
def noiseless_soft_inputs(c):
    s = c["s"]; code = build(s); n, k = code.length, code.dimension
    rng = np.random.default_rng(c["seed"])
    U = rng.integers(0, 2, size=(c["b"], k)); V = np.asarray(code.encode(U))
    mag = c["mag"] * (rng.uniform(1, 3, size=V.shape) if c["spread"] else 1.0)
    if s["t"] == "polar" and c["mag"] < 20:
        # below this magnitude the smallest internal L-value underflows double precision
        if 2 * math.atanh(math.tanh(c["mag"] / 2) ** n) < 1e-9: mag = 40.0
    L = (1 - 2 * V) * mag
    if s["t"] == "polar":
        equal(komm.SCDecoder(code, output_type="hard").decode(L), U)
        soft = np.asarray(komm.SCDecoder(code).decode(L.reshape(-1)))
        equal((soft < 0).astype(int), U.reshape(-1))
    else:
        equal(komm.ReedDecoder(code, input_type="soft").decode(L), U)
        # up to d-1 sign errors of small reliability are outvoted (weighted majority)
        d = 2 ** (s["mu"] - s["rho"])
        M = np.abs(L)
        for i in range(c["b"]):
            E = int(rng.integers(0, d))
            if E:
                pos = rng.permutation(n)[:E]
                budget = (d - E) * M[i].min() * 0.95
                w = rng.random(E); w = w / w.sum() * budget
                L[i, pos] = -np.sign(L[i, pos]) * w
        equal(komm.ReedDecoder(code, input_type="soft").decode(L), U)
    return k < n and s["t"]

# ---- quantised L-values: the number format of the input does not matter, saturated values included
FORMATS = ["int8", "int8", "int16", "int32", "int64", "float16", "float32", "float64"]

def quantised(rng, shape, fmt, V=None):
    """Integers of the format's range (extremes included), exactly representable in it; the sum of a word stays exact."""
    lo, hi = (-128, 127) if fmt in ("int8", "float16", "float32", "float64") else (-2 ** 15, 2 ** 15 - 1) if fmt == "int16" else (-2 ** 31, 2 ** 31 - 1)
    if fmt == "float16": lo, hi = -32, 31
    L = rng.integers(lo, hi + 1, size=shape)
    if V is not None: L = np.where(rng.random(shape) < 0.15, -1, 1) * (1 - 2 * V) * np.abs(L)
    sat = rng.random(shape) < rng.choice([0.0, 0.3, 0.8])
    return np.clip(np.where(sat, np.where(L < 0, lo, hi), L), lo, hi)

@st.composite
def quantised_case(draw):
    d = draw(st.sampled_from(["exhaustive", "exhaustive", "wagner", "reed", "reed", "sc"]))
    if d == "wagner": s = dict(t="spc", n=draw(st.integers(2, 12)))
    elif d == "reed": s = dict(t="rm", mu=(mu := draw(st.integers(1, 5))), rho=draw(st.integers(0, mu - 1)))
    elif d == "sc": s = draw(polar_spec(4))
    else: s = draw(any_spec(9))
    return dict(d=d, s=s, fmt=draw(st.sampled_from(FORMATS)), seed=draw(st.integers(0, 2 ** 32 - 1)), b=draw(st.integers(1, 3)), noisy=draw(st.booleans()),
                pow=draw(st.sampled_from([0, 0, 0, -1000, -600, -540, -100, 100, 500, 520, 900])))

@check("D02", quantised_case(), quick=1000, thorough=10000, weight=2)
def quantised_inputs(c):
    code = build(c["s"]); n, k = code.length, code.dimension
    if c["d"] == "exhaustive" and k > 9: raise Skip()
    rng = np.random.default_rng(c["seed"])
    V = np.asarray(code.encode(rng.integers(0, 2, (c["b"], k))))
    L = quantised(rng, (c["b"], n), c["fmt"], V if c["noisy"] else None)
    x = L.astype(c["fmt"]); assert np.array_equal(x.astype(np.float64), L)
    if c["pow"] and c["d"] != "sc": x = L * 2.0 ** c["pow"]        # the unit of the values is of no importance either
    if c["d"] == "sc":
        got = np.asarray(komm.SCDecoder(code).decode(x)); want = np.asarray(komm.SCDecoder(code).decode(L.astype(float)))
        close(got, want, 1e-6, 1e-6)
        return k < n and c["fmt"]
    dec = dict(exhaustive=lambda: komm.ExhaustiveSearchDecoder(code, input_type="soft"), wagner=lambda: komm.WagnerDecoder(code), reed=lambda: komm.ReedDecoder(code, input_type="soft"))[c["d"]]()
    u = np.asarray(dec.decode(x)); is_int_array(u)
    if c["d"] == "reed": equal(u, dec.decode(L.astype(float)))
    else:
        C = np.array([row_bits(v, n) for v in span_ints(as_ints(code.generator_matrix))]) if c["d"] == "exhaustive" else None
        got = (L * (1 - 2 * np.asarray(code.encode(u)))).sum(axis=1)     # exact integers
        if C is None:
            best = np.abs(L).sum(axis=1) - 2 * ((L < 0).sum(axis=1) % 2) * np.abs(L).min(axis=1)
        else: best = (L @ (1 - 2 * C).T).max(axis=1)
        equal(got, best)
    return k < n and c["fmt"]
