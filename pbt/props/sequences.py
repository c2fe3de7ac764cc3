"""S01-S02: binary and complex sequences."""
import cmath, itertools, math
import numpy as np
import komm
from fractions import Fraction
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from ..gen import equal, close, raises, is_int_array, layout, floats, pprimitive, pirreducible, pdeg

rule("S01", "Non-trivial: sequence of length at least 2 (label: family or regime).",
     ["feedback polynomials have a constant term and degree at least 1, start states have degree below it"])
rule("S02", "Non-trivial: length at least 3 (label: whether the indices are coprime to the length).", [])

def acf(x, l): return sum(x[n] * np.conj(x[n - l]) for n in range(len(x)) if 0 <= n - l < len(x))
def cacf(x, l): return sum(x[n] * np.conj(x[(n - l) % len(x)]) for n in range(len(x)))

def check_correlations(obj, x, shifts):
    L = len(x)
    close(obj.autocorrelation(shifts), [acf(x, l) for l in shifts], 1e-9, 1e-9)
    close(obj.cyclic_autocorrelation(shifts), [cacf(x, l) for l in shifts], 1e-9, 1e-9)
    E = acf(x, 0)
    if abs(E) > 1e-6:
        close(obj.autocorrelation(shifts, normalized=True), [acf(x, l) / E for l in shifts], 1e-9, 1e-9)
        close(obj.cyclic_autocorrelation(shifts, normalized=True), [cacf(x, l) / E for l in shifts], 1e-9, 1e-9)
    close(obj.autocorrelation(), [acf(x, l) for l in range(L)], 1e-9, 1e-9)
    close(obj.cyclic_autocorrelation(), [cacf(x, l) for l in range(L)], 1e-9, 1e-9)

def check_binary(s, bits):
    bits = list(map(int, bits))
    equal(s.bit_sequence, bits); equal(s.polar_sequence, [1 - 2 * b for b in bits])
    is_int_array(s.bit_sequence); is_int_array(s.polar_sequence)
    assert s.length == len(bits)

SHIFTS = st.lists(st.integers(-40, 40), min_size=1, max_size=5)

@st.composite
def bin_case(draw):
    return dict(b=draw(st.lists(st.integers(0, 1), min_size=1, max_size=20)), shifts=draw(SHIFTS), form=draw(st.sampled_from(["list", "tuple", "int64", "uint8", "int8", "bool"])))

@check("S01", bin_case(), quick=2500, thorough=20000)
def bit_and_polar_formats(c):
    b = c["b"]; p = [1 - 2 * v for v in b]; f = c["form"]
    conv = lambda v: v if f == "list" else tuple(v) if f == "tuple" else np.array(v, dtype=f)
    s = komm.BinarySequence(bit_sequence=conv(b)); check_binary(s, b)
    check_binary(komm.BinarySequence(conv(b)), b)
    s2 = komm.BinarySequence(polar_sequence=p if f in ("uint8", "bool") else conv(p)); check_binary(s2, b)
    check_correlations(s, p, c["shifts"]); check_correlations(s2, p, c["shifts"])
    raises(ValueError, komm.BinarySequence); raises(ValueError, komm.BinarySequence, bit_sequence=b, polar_sequence=p)
    return len(b) > 1 and f

@st.composite
def longseq_case(draw):
    return dict(n=draw(st.sampled_from([33, 127, 255, 256, 257, 600, 1500])), seed=draw(st.integers(0, 2 ** 32)), bias=draw(st.sampled_from([0.0, 0.5, 0.5, 1.0, 0.02])),
                dt=draw(st.sampled_from(["int8", "uint8", "int64", "bool", "float", "strided", "reversed", "readonly", "list"])), pol=draw(st.booleans()), how=draw(st.sampled_from(["all", "some", "some", "far"])))

def fft_acf(x, cyc):
    n = len(x); m = n if cyc else 2 * n
    X = np.fft.fft(x, m); return np.fft.ifft(X * np.conj(X))

@check("S01", longseq_case(), quick=400, thorough=5000, weight=2)
def long_sequences(c):
    rng = np.random.default_rng(c["seed"]); n = c["n"]; b = (rng.random(n) < c["bias"]).astype(int); x = 1 - 2 * b
    v = x if c["pol"] else b; dt = c["dt"]
    if dt == "float": v = v.astype(float)
    elif dt in ("uint8", "bool") and c["pol"]: v = v.astype("int8")
    else: v = layout(v, dt)
    s = komm.BinarySequence(polar_sequence=v) if c["pol"] else komm.BinarySequence(bit_sequence=v)
    check_binary(s, b)
    sh = None if c["how"] == "all" else rng.integers(-n - 3, n + 4, 30) if c["how"] == "some" else rng.integers(-10 * n, 10 * n, 30)
    l = np.arange(n) if sh is None else sh
    cyc = np.round(fft_acf(x, True).real); lin = np.round(fft_acf(x, False).real)
    wc, wl = cyc[l % n], np.where(np.abs(l) < n, lin[np.abs(l) % (2 * n)], 0)
    arg = sh if sh is None or c["seed"] % 2 else sh.tolist()
    close(s.autocorrelation(arg), wl, 0, 1e-6); close(s.cyclic_autocorrelation(arg), wc, 0, 1e-6)
    close(s.autocorrelation(arg, normalized=True), wl / n, 0, 1e-9); close(s.cyclic_autocorrelation(arg, normalized=True), wc / n, 0, 1e-9)
    return dt + ("-polar" if c["pol"] else "-bits")

@st.composite
def lfsr_case(draw):
    n = draw(st.integers(1, 9))
    return dict(n=n, p=(1 << n) | 1 | (draw(st.integers(0, 2 ** n - 1)) & ~1), s=draw(st.one_of(st.just(1), st.integers(0, 2 ** n - 1), st.integers(0, 2 ** n - 1))), shifts=draw(SHIFTS))

def check_lfsr(s, p, start):
    n = pdeg(p); b = [int(x) for x in s.bit_sequence]
    assert len(b) == 2 ** n - 1
    # bit i (1-based) of the register starts as coefficient i-1 of the start polynomial and leaves after n-i steps
    head = [(start >> (n - 1 - j)) & 1 for j in range(min(n, len(b)))]
    assert b[:n] == head, f"first outputs {b[:n]}, start state requires {head}"
    taps = [i for i in range(1, n + 1) if p >> i & 1]
    for t in range(n, len(b)): assert b[t] == sum(b[t - i] for i in taps) % 2, f"recurrence fails at {t}"
    check_binary(s, b)
    if start and pprimitive(p):
        # full period: the recurrence closes cyclically; balance and two-valued autocorrelation
        ext = b + b[:n]
        for t in range(n, len(ext)): assert ext[t] == sum(ext[t - i] for i in taps) % 2
        assert sum(b) == 2 ** (n - 1)
        states = {tuple(ext[t:t + n]) for t in range(len(b))}
        assert len(states) == 2 ** n - 1
        R = np.asarray(s.cyclic_autocorrelation(), dtype=float)
        close(R, [len(b)] + [-1] * (len(b) - 1), 0, 1e-9)
        close(s.cyclic_autocorrelation(normalized=True), R / len(b), 1e-12, 1e-12)
        return "primitive"
    return "irreducible" if pirreducible(p) else "reducible"

@check("S01", lfsr_case(), quick=2000, thorough=20000, weight=2)
def lfsr_recurrence(c):
    p = c["p"]
    s = komm.LFSRSequence(feedback_polynomial=p, start_state_polynomial=c["s"])
    assert int(s.feedback_polynomial) == p and int(s.start_state_polynomial) == c["s"]
    lab = check_lfsr(s, p, c["s"])
    t = komm.LFSRSequence(komm.BinaryPolynomial(p), komm.BinaryPolynomial(c["s"]))
    equal(t.bit_sequence, s.bit_sequence)
    if c["s"] == 1: equal(komm.LFSRSequence(p).bit_sequence, s.bit_sequence)
    x = [int(v) for v in s.polar_sequence]
    if len(x) <= 63: check_correlations(s, x, c["shifts"])
    # linearity in the start state
    a = c["s"] ^ (1 << (c["n"] - 1))
    b = 1 << (c["n"] - 1)
    if a: equal((komm.LFSRSequence(p, a).bit_sequence + komm.LFSRSequence(p, b).bit_sequence) % 2, s.bit_sequence)
    return c["n"] > 1 and lab + ("-zero" if c["s"] == 0 else "")

def mls_cases(tier):
    for n in range(1, 14 if tier == "quick" else 17):
        for s in {1, 2 ** n - 1, 1 << (n - 1), (0x5A5A5 % (2 ** n - 1)) + 1 if n > 1 else 1}: yield dict(n=n, s=s)

@check("S01", cases=mls_cases)
def maximum_length_sequences(c):
    s = komm.LFSRSequence.maximum_length_sequence(c["n"], c["s"]) if c["s"] != 1 else komm.LFSRSequence.maximum_length_sequence(degree=c["n"])
    p = int(s.feedback_polynomial)
    assert pdeg(p) == c["n"] and pprimitive(p), f"feedback {p:#b} is not primitive of degree {c['n']}"
    check_lfsr(s, p, c["s"])
    raises(ValueError, komm.LFSRSequence.maximum_length_sequence, 0) if False else None
    return c["n"] > 1

def very_long(tier):
    for n in range(14, 21 if tier == "quick" else 23):
        for s in (1, 2 ** n - 1, 0x155) if n < 17 else (0x2A5,): yield dict(n=n, s=s)

@check("S01", cases=very_long, weight=3)
def very_long_sequences(c):
    n, s = c["n"], c["s"]; q = komm.LFSRSequence.maximum_length_sequence(n, s); p = int(q.feedback_polynomial)
    assert pdeg(p) == n and pprimitive(p)
    b = np.asarray(q.bit_sequence); N = 2 ** n - 1
    assert b.shape == (N,) and q.length == N and b.sum() == 2 ** (n - 1)
    ext = np.concatenate([b, b[:n]]); acc = np.zeros(N, dtype=int)
    for i in range(1, n + 1):
        if p >> i & 1: acc ^= ext[n - i : n - i + N]
    equal(acc, ext[n:])                                                # the recurrence, around the whole period
    assert [int(x) for x in b[:n]] == [(s >> (n - 1 - i)) & 1 for i in range(n)], "start state"
    words = sum(ext[i : i + N].astype(np.int64) << i for i in range(n)); assert len(np.unique(words)) == N
    x = np.asarray(q.polar_sequence); equal(x, 1 - 2 * b)
    sh = [0, 1, 7, N // 2, N - 1]; close(q.cyclic_autocorrelation(sh), [N, -1, -1, -1, -1], 0, 1e-6)
    return f"n{n}"

def wh_cases(tier):
    for n in range(0, 8 if tier == "quick" else 10):
        for o in ("natural", "sequency"): yield dict(L=2 ** n, o=o)

@check("S01", cases=wh_cases)
def walsh_hadamard(c):
    L, o = c["L"], c["o"]
    rows = [komm.WalshHadamardSequence(length=L, ordering=o, index=i) for i in range(L)]
    X = np.array([np.asarray(r.polar_sequence) for r in rows])
    assert X.shape == (L, L) and (np.abs(X) == 1).all()
    equal(X @ X.T, L * np.eye(L, dtype=int))
    for i, r in enumerate(rows):
        check_binary(r, (1 - X[i]) // 2)
        assert r.index == i and r.ordering == o
        if o == "natural": equal(X[i], [(-1) ** bin(i & j).count("1") for j in range(L)])
        else: assert int((np.diff(X[i]) != 0).sum()) == i, f"row {i} has the wrong number of sign changes"
        assert X[i, 0] == 1
    N = {tuple(r) for r in X.tolist()}
    assert N == {tuple((-1) ** bin(i & j).count("1") for j in range(L)) for i in range(L)}
    if o == "natural":
        equal(komm.WalshHadamardSequence(L).polar_sequence, X[0]); equal(komm.WalshHadamardSequence(L, index=L - 1).polar_sequence, X[-1])
    for bad in (-1, L, L + 5): raises(ValueError, komm.WalshHadamardSequence, L, o, bad)
    for bad in (3, 6, 12, 2 * L + 1): raises(ValueError, komm.WalshHadamardSequence, bad, o, 0) if bad & (bad - 1) else None
    raises(ValueError, komm.WalshHadamardSequence, L, "other", 0)
    return L > 1 and o

@check("S01", st.fixed_dictionaries(dict(m=st.integers(7, 10), i=st.integers(0, 2 ** 10 - 1), j=st.integers(0, 2 ** 10 - 1), o=st.sampled_from(["natural", "sequency"]))), quick=60, thorough=400)
def long_walsh_hadamard(c):
    L = 2 ** c["m"]; i, j = c["i"] % L, c["j"] % L
    s = komm.WalshHadamardSequence(L, c["o"], i); x = np.asarray(s.polar_sequence); n = np.arange(L)
    if c["o"] == "natural": equal(x, [(-1) ** bin(i & int(k)).count("1") for k in n])
    else:
        assert x.shape == (L,) and int((np.diff(x) != 0).sum()) == i
        k = next(m for m in [sum(1 << t for t in range(c["m"]) if x[1 << t] < 0)])
        equal(x, [(-1) ** bin(k & int(t)).count("1") for t in n])
    check_binary(s, (1 - x) // 2)
    y = np.asarray(komm.WalshHadamardSequence(L, c["o"], j).polar_sequence)
    assert int(x @ y) == (L if i == j else 0)
    return c["o"]

@check("S01", cases=lambda tier: [dict(L=L) for L in range(0, 20)])
def barker(c):
    L = c["L"]
    if L not in (2, 3, 4, 5, 7, 11, 13): raises(ValueError, komm.BarkerSequence, L); return "refused"
    s = komm.BarkerSequence(L); x = [int(v) for v in s.polar_sequence]
    doc = {2: ["01", "00"], 3: ["001"], 4: ["0010", "0001"], 5: ["00010"], 7: ["0001101"], 11: ["00011101101"], 13: ["0000011001010"]}
    assert "".join(str(int(b)) for b in s.bit_sequence) in doc[L]
    check_binary(s, [(1 - v) // 2 for v in x])
    R = np.asarray(s.autocorrelation(range(-L - 1, L + 2)))
    close(R, [acf(x, l) for l in range(-L - 1, L + 2)], 0, 1e-9)
    assert all(abs(acf(x, l)) <= 1 for l in range(1, L + 1))
    check_correlations(s, x, [0, 1, -1, L, -L, L + 3])
    return True

# ---- complex sequences ---------------------------------------------------------------------
def zc_ref(L, q): return np.array([cmath.exp(-1j * math.pi * ((q * n * (n + 1)) % (2 * L)) / L) for n in range(L)])

def zc_cases(tier):
    for L in range(1, 60 if tier == "quick" else 160):
        for q in sorted({0, 1, 2, L // 2, L - 1, L, L + 1, -1, L // 3, L // 5 * 2}) + ([] if tier == "quick" else list(range(3, L - 1))): yield dict(L=L, q=q)
    for L in (501, 1009, 2187, 10007, 99999): 
        for q in (1, 7, L // 2, L - 1): yield dict(L=L, q=q)

@check("S02", cases=zc_cases, weight=2)
def zadoff_chu(c):
    L, q = c["L"], c["q"]
    if L % 2 == 0 or not 1 <= q < L:
        raises(ValueError, komm.ZadoffChuSequence, L, q); return "refused"
    s = komm.ZadoffChuSequence(L, q) if q != 1 else komm.ZadoffChuSequence(length=L)
    x = np.asarray(s.sequence)
    assert x.shape == (L,) and s.length == L and np.iscomplexobj(x)
    close(x, zc_ref(L, q), 0, 1e-10); close(np.abs(x), np.ones(L), 0, 1e-12)
    if L > 3000: return "long"
    X = np.fft.fft(x)
    if math.gcd(L, q) == 1:
        close(np.abs(X), np.full(L, math.sqrt(L)), 1e-6, 1e-9)
        R = s.cyclic_autocorrelation() if L < 700 else s.cyclic_autocorrelation(range(-3, 8))
        l = np.arange(L) if L < 700 else np.arange(-3, 8)
        close(R, np.where(l % L == 0, L, 0).astype(complex), 0, 1e-8 * L)
    for r in {1, 2, L - 1, (q * 3) % L}:
        if r and L < 700 and math.gcd(abs(q - r), L) == 1:
            y = np.asarray(komm.ZadoffChuSequence(L, r).sequence)
            close(np.abs(np.fft.ifft(X * np.conj(np.fft.fft(y)))), np.full(L, math.sqrt(L)), 1e-6, 1e-9)
    return "coprime" if math.gcd(L, q) == 1 else "not-coprime"

@st.composite
def zcr_case(draw):
    L = 2 * draw(st.integers(1, 150)) + 1
    return dict(L=L, q=draw(st.integers(1, L - 1)), r=draw(st.integers(1, L - 1)), shifts=draw(st.lists(st.integers(-2 * L, 2 * L), min_size=1, max_size=4)))

@check("S02", zcr_case(), quick=1500, thorough=15000)
def zadoff_chu_correlations(c):
    L, q, r = c["L"], c["q"], c["r"]
    s = komm.ZadoffChuSequence(L, q); x, y = np.asarray(s.sequence), np.asarray(komm.ZadoffChuSequence(length=L, root_index=r).sequence)
    close(x, zc_ref(L, q), 0, 1e-10); close(y, zc_ref(L, r), 0, 1e-10)
    close(s.cyclic_autocorrelation(c["shifts"]), [np.vdot(np.roll(x, l), x) for l in c["shifts"]], 0, 1e-8)
    g = math.gcd(L, q)
    for l in c["shifts"]:
        if g == 1: assert abs(s.cyclic_autocorrelation([l])[0] - (L if l % L == 0 else 0)) < 1e-8
    if math.gcd(abs(q - r), L) == 1:
        for l in c["shifts"]: assert abs(abs(np.vdot(np.roll(y, l), x)) - math.sqrt(L)) < 1e-8
        return "cross"
    return "coprime" if g == 1 else "not-coprime"

@st.composite
def clong_case(draw):
    return dict(n=draw(st.sampled_from([50, 255, 257, 1000])), seed=draw(st.integers(0, 2 ** 32)), dt=draw(st.sampled_from(["complex128", "complex64", "float64", "int8", "uint8", "bool", "strided", "reversed", "readonly", "list"])),
                scale=draw(st.sampled_from([1.0, 1e-6, 1e6])), how=draw(st.sampled_from(["all", "some", "far", "symmetric", "symmetric", "descending"])))

@check("S02", clong_case(), quick=300, thorough=4000, weight=2)
def long_complex_sequences(c):
    rng = np.random.default_rng(c["seed"]); n = c["n"]; dt = c["dt"]
    x = (rng.normal(size=n) + 1j * rng.normal(size=n)) * c["scale"]
    if dt == "float64": a = x.real
    elif dt in ("int8", "uint8"): a = rng.integers(0, 120, n).astype(dt)
    elif dt == "bool": a = rng.random(n) < 0.5
    elif dt.startswith("complex"): a = x.astype(dt)
    else: a = layout(x, dt)
    x = np.asarray(a).astype(complex); s = komm.ComplexSequence(a)
    equal(s.sequence, x); E = float((np.abs(x) ** 2).sum())
    sh = None if c["how"] == "all" else rng.integers(-n - 3, n + 4, 30) if c["how"] == "some" else rng.integers(-10 * n, 10 * n, 30)
    if c["how"] in ("symmetric", "descending"): h = int(rng.integers(1, n + 20)); sh = np.arange(-h, h + 1)[::1 if c["how"] == "symmetric" else -1]
    l = np.arange(n) if sh is None else sh
    cyc, lin = fft_acf(x, True), fft_acf(x, False)
    wc = cyc[l % n]; wl = np.where(np.abs(l) < n, lin[l % (2 * n)], 0)
    close(s.autocorrelation(sh), wl, 0, 1e-9 * E); close(s.cyclic_autocorrelation(sh), wc, 0, 1e-9 * E)
    close(s.autocorrelation(sh, normalized=True), wl / E, 0, 1e-9); close(s.cyclic_autocorrelation(sh, normalized=True), wc / E, 0, 1e-9)
    close(komm.autocorrelation(x, sh), wl, 0, 1e-9 * E); close(komm.cyclic_autocorrelation(x, sh), wc, 0, 1e-9 * E)
    return dt

@st.composite
def cseq_case(draw):
    n = draw(st.integers(1, 12)); f = floats(-3, 3)
    return dict(re=draw(st.lists(f, min_size=n, max_size=n)), im=draw(st.lists(f, min_size=n, max_size=n)), shifts=draw(SHIFTS), form=draw(st.sampled_from(["array", "list", "real", "int"])))

@check("S02", cseq_case(), quick=2000, thorough=20000)
def complex_sequence_objects(c):
    x = np.array(c["re"]) + 1j * np.array(c["im"])
    if c["form"] == "real": x = x.real
    if c["form"] == "int": x = np.round(x.real).astype(int)
    arg = x.tolist() if c["form"] == "list" else x; keep = np.array(x)
    s = komm.ComplexSequence(arg)
    equal(s.sequence, keep.astype(complex)); assert np.iscomplexobj(s.sequence) and s.length == len(x)
    check_correlations(s, keep.astype(complex), c["shifts"]); equal(np.array(x), keep)
    return len(x) > 2 and c["form"]
