import itertools, math
from math import comb
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from ..gen import *
from ..codes import *
from ..codes import _DIV

# ------------------------------------------------------------------ B01
rule("B01", "Codes from random full-rank generator/check matrices, parity submatrices with arbitrary information sets, all divisors of X^n+1 "
     "(systematic or not) for n<=12, and all predefined families; random messages/words in arrays with 1-3 axes and 1-4 blocks; oracle = "
     "GF(2) products with the given matrices. Non-trivial: 1 <= k < n and a nonzero message.")

@st.composite
def b01_case(draw):
    s = draw(any_spec(12, big=True))
    shape = draw(st.lists(st.integers(1, 3), min_size=0, max_size=2))
    return dict(s=s, lead=shape, b=draw(st.integers(1, 4)), seed=draw(st.integers(0, 2 ** 32 - 1)), cont=draw(CONT),
                off=draw(st.integers(1, 40)))

def wrap(a, cont): return layout(a, cont)

def reference_matrices(s, code):
    """What the specification itself says about G and H (when it says something)."""
    if s["t"] == "G": equal(code.generator_matrix, s["M"])
    if s["t"] == "H": equal(code.check_matrix, s["M"])
    if s["t"] == "sys":
        k, n = len(s["P"]), len(s["P"]) + len(s["P"][0])
        K = list(range(k)) if s["K"] == "left" else list(range(n - k, n)) if s["K"] == "right" else s["K"]
        G = np.zeros((k, n), dtype=int); rest = [j for j in range(n) if j not in K]
        for i, j in enumerate(K): G[i, j] = 1
        for c, j in enumerate(rest):
            for i in range(k): G[i, j] = s["P"][i][c]
        equal(code.generator_matrix, G)
    if s["t"] == "cyc":
        n = s["n"]; g = s["p"] if s["by"] == "g" else pdivmod((1 << n) | 1, s["p"])[0]
        k, m = n - pdeg(g), pdeg(g)
        assert int(code.generator_polynomial) == g and int(code.check_polynomial) == pdivmod((1 << n) | 1, g)[0]
        rows = [pmul(1 << i, g) if not s["sys"] else (1 << (m + i)) ^ pmod(1 << (m + i), g) for i in range(k)]
        equal(code.generator_matrix, [row_bits(r, n) for r in rows])

@check("B01", b01_case(), quick=1500, thorough=20000, weight=4)
def encode_check_inverse(c):
    s = c["s"]; code = build(s)
    n, k, m = code.length, code.dimension, code.redundancy
    assert n == k + m and math.isclose(code.rate, k / n)
    G, H = np.asarray(code.generator_matrix), np.asarray(code.check_matrix)
    assert G.shape == (k, n) and H.shape == (m, n)
    assert set(np.unique(G)) <= {0, 1} and set(np.unique(H)) <= {0, 1}
    reference_matrices(s, code)
    assert not (G.astype(int) @ H.astype(int).T % 2).any(), "G H^T != 0"
    assert rank_ints(as_ints(G)) == k and rank_ints(as_ints(H)) == m, "not full rank"
    rng = np.random.default_rng(c["seed"])
    lead, b = tuple(c["lead"]), c["b"]
    U = rng.integers(0, 2, size=lead + (b, k))
    V = U @ G.astype(int) % 2
    u, v = U.reshape(lead + (b * k,)), V.reshape(lead + (b * n,))
    got = code.encode(wrap(u, c["cont"]))
    equal(got, v); is_int_array(got)
    equal(code.inverse_encode(wrap(v, c["cont"])), u)
    z = code.check(wrap(v, c["cont"])); equal(z, np.zeros(lead + (b * m,), dtype=int))
    R = rng.integers(0, 2, size=lead + (b, n))
    S = R @ H.astype(int).T % 2
    r, sy = R.reshape(lead + (b * n,)), S.reshape(lead + (b * m,))
    got = code.check(wrap(r, c["cont"])); equal(got, sy)
    for a in (code.generator_matrix, code.check_matrix, got, code.inverse_encode(wrap(v, c["cont"]))): assert a.dtype.kind in "iub", f"expected integers, got dtype {a.dtype}"
    if S.any(): raises(ValueError, code.inverse_encode, wrap(r, c["cont"]))
    else:
        w = code.inverse_encode(wrap(r, c["cont"])); equal(code.encode(w), r)
    # one corrupted block among good ones is still rejected
    if m:
        E = V.copy(); flat = E.reshape(-1, n); i = c["off"] % flat.shape[0]; flat[i, c["off"] % n] ^= 1
        if (E @ H.astype(int).T % 2).any(): raises(ValueError, code.inverse_encode, wrap(E.reshape(lead + (b * n,)), c["cont"]))
    if c["off"] % k: raises(ValueError, code.encode, np.zeros(lead + (b * k + c["off"] % k,), dtype=int))
    if c["off"] % n:
        bad = np.zeros(lead + (b * n + c["off"] % n,), dtype=int)
        raises(ValueError, code.check, bad); raises(ValueError, code.inverse_encode, bad)
    return 1 <= k < n and bool(U.any()) and s["t"]

def large_spec(kind, r):
    """Specifications well beyond the sizes in the tests; everything is determined by the kind and the generator."""
    i = lambda a, b: int(r.integers(a, b + 1))
    if kind in "GH":
        n = i(20, 150); k = i(1, n - 1)
        M = np.hstack([np.eye(k, dtype=int), r.integers(0, 2, (k, n - k))])
        L = np.tril(r.integers(0, 2, (k, k)), -1) + np.eye(k, dtype=int)     # unit triangular: the rows stay independent
        return dict(t=kind, M=(L @ M % 2)[:, r.permutation(n)].tolist())
    if kind == "sys":
        k, m = i(1, 100), i(1, 100); K = r.permutation(k + m)[:k].tolist()
        return dict(t="sys", P=r.integers(0, 2, (k, m)).tolist(), K=["left", "right", K, sorted(K)][i(0, 3)])
    if kind == "cyc":
        d, e = i(1, 30), i(2, 9); n = d * e; g = (1 << d) | 1
        if i(0, 1): g = pdivmod((1 << n) | 1, g)[0]
        return dict(t="cyc", n=n, p=g, by="gh"[i(0, 1)], sys=bool(i(0, 1)))
    if kind == "polar":
        mu = i(5, 9); return dict(t="polar", mu=mu, frozen=np.flatnonzero(r.random(2 ** mu) < r.choice([0.1, 0.5, 0.9]))[:2 ** mu - 1].tolist())
    if kind == "rm":
        mu = i(5, 9); return dict(t="rm", mu=mu, rho=i(0, min(mu - 1, 9 - mu + 1)))
    if kind == "bch":
        mu = i(6, 8); return dict(t="bch", mu=mu, delta=int(r.choice([3, 5, 7])))
    if kind == "ham": return dict(t="ham", mu=i(5, 8), ext=bool(i(0, 1)))
    if kind == "sim": return dict(t="sim", kappa=i(5, 9), ext=bool(i(0, 1)))
    return dict(t=kind, n=i(20, 400))
LARGE_KINDS = ["G", "H", "sys", "cyc", "polar", "rm", "bch", "ham", "sim", "rep", "spc", "cw"]

@check("B01", st.fixed_dictionaries(dict(kind=st.sampled_from(LARGE_KINDS), lead=st.sampled_from([[], [], [2], [3, 2]]), b=st.sampled_from([1, 2, 7, 70]), seed=st.integers(0, 2 ** 32 - 1), off=st.integers(1, 600))), quick=120, thorough=1500, weight=3)
def large_codes_encode_check_inverse(c):
    s = large_spec(c["kind"], np.random.default_rng(c["seed"]))
    return encode_check_inverse(dict(c, s=s, cont="uint8" if c["seed"] % 3 else "list"))

@check("B01", st.fixed_dictionaries(dict(n=st.integers(1, 12), g=st.integers(2, 2 ** 12), k=st.integers(1, 6), m=st.integers(1, 6), j=st.integers(0, 40))), quick=400, thorough=4000)
def invalid_specifications_rejected(c):
    n, g = c["n"], c["g"]
    ok = pmod((1 << n) | 1, g) == 0
    for kw in ("generator_polynomial", "check_polynomial"):
        if ok:
            code = komm.CyclicCode(n, **{kw: g})
            assert (code.redundancy if kw[0] == "g" else code.dimension) == pdeg(g)
        else: raises(ValueError, komm.CyclicCode, n, **{kw: g})
    raises(ValueError, komm.BlockCode); raises(ValueError, komm.CyclicCode, n)
    raises(ValueError, komm.BlockCode, [[1, 1]], [[1, 1]])
    k, m = c["k"], c["m"]
    P = np.ones((k, m), dtype=int)
    for bad in (list(range(1, k)), list(range(k + 1)), list(range(-1, k - 1)), list(range(m + 1 + c["j"], m + 1 + c["j"] + k)), "middle"):
        raises(ValueError, komm.SystematicBlockCode, P, bad)
    return True

# ------------------------------------------------------------------ B02
rule("B02", "Every parameter value of every family in a range: repetition/SPC n<=40, Hamming/simplex parameter<=7, Golay, Reed-Muller mu<=6, BCH mu<=7 "
     "(every delta, also invalid ones), Cordaro-Wagner n<=30, lexicodes n<=10, polar mu<=5 (random frozen sets), cyclic n<=17 (all divisors). "
     "Oracles: independent constructions, brute-force minimum distance when k<=14. Non-trivial: k>=1 and n>k.")

def min_weight(rows):
    S = np.array([0], dtype=np.uint64)
    best = None
    for r in rows: S = np.concatenate([S, S ^ np.uint64(r)])
    w = np.bitwise_count(S[1:])
    return int(w.min())

def weight_counts(rows, n):
    S = np.array([0], dtype=np.uint64)
    for r in rows: S = np.concatenate([S, S ^ np.uint64(r)])
    return np.bincount(np.bitwise_count(S), minlength=n + 1)

def same_code(A, B):
    A, B = as_ints(A), as_ints(B)
    r = rank_ints(A)
    return r == rank_ints(B) == rank_ints(A + B)

def dual_of(code, other): return same_code(code.check_matrix, other.generator_matrix) and same_code(code.generator_matrix, other.check_matrix)

def dual_up_to_order(hamming, simplex):
    """The simplex generator matrix is a check matrix of the Hamming code after moving the information positions last."""
    cols = sorted(as_ints(np.asarray(simplex.generator_matrix).T))
    k = hamming.dimension
    G = np.asarray(simplex.generator_matrix)
    Gs = np.hstack([G[:, simplex.dimension:], G[:, :simplex.dimension]])
    return same_code(Gs, hamming.check_matrix) and len(cols) == hamming.length

def family_cases(tier):
    big = tier == "thorough"
    for n in range(1, 41): yield dict(t="rep", n=n)
    for n in range(2, 41): yield dict(t="spc", n=n)
    for mu in range(2, 7 + big):
        for e in (False, True): yield dict(t="ham", mu=mu, ext=e); yield dict(t="sim", kappa=mu, ext=e)
    for mu in (7, 8, 9, 10)[big:]:
        for e in (False, True): yield dict(t="ham", mu=mu, ext=e); yield dict(t="sim", kappa=mu, ext=e)
    for r, mu in [(0, 7), (1, 7), (2, 7), (5, 7), (6, 7), (1, 8), (2, 8), (7, 8), (1, 9), (8, 9), (0, 10), (1, 10)]: yield dict(t="rm", rho=r, mu=mu)
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 300): yield dict(t="rep", n=n); yield dict(t="spc", n=n)
    for e in (False, True): yield dict(t="golay", ext=e)
    for mu in range(1, 7 + big):
        for r in range(mu): yield dict(t="rm", rho=r, mu=mu)
    for n in range(2, 31): yield dict(t="cw", n=n)

@check("B02", cases=family_cases, weight=5)
def classical_families(c):
    code = build(c); t = c["t"]
    n, k, m = code.length, code.dimension, code.redundancy
    G = as_ints(code.generator_matrix)
    small = k <= 14
    d = min_weight(G) if small and n <= 64 else None
    if d is not None: assert code.minimum_distance() == d, (code.minimum_distance(), d)
    if t == "rep":
        assert (n, k, m, code.minimum_distance()) == (c["n"], 1, n - 1, n) and G == [(1 << n) - 1]
        if n >= 2: assert dual_of(code, komm.SingleParityCheckCode(n))
    elif t == "spc":
        assert (n, k, m, code.minimum_distance()) == (c["n"], n - 1, 1, 2) and as_ints(code.check_matrix) == [(1 << n) - 1]
        assert all(r.bit_count() % 2 == 0 for r in G) and rank_ints(G) == k
    elif t == "ham":
        mu = c["mu"]
        assert (n, k, m) == (2 ** mu - 1 + c["ext"], 2 ** mu - mu - 1, mu + c["ext"]) and code.minimum_distance() == 3 + c["ext"]
        cols = as_ints(np.asarray(code.check_matrix).T)
        if not c["ext"]:
            assert sorted(cols) == list(range(1, 2 ** mu)), "check matrix columns are not all nonzero tuples"
            assert dual_up_to_order(code, komm.SimplexCode(mu))
            if mu <= 4: assert code.covering_radius() == code.packing_radius() == 1
        else:
            base = komm.HammingCode(mu)
            ext = [list(r) + [sum(r) % 2] for r in np.asarray(base.generator_matrix).tolist()]
            assert same_code(ext, code.generator_matrix) and np.array_equal(ext, code.generator_matrix), "not the extension by an overall parity bit"
    elif t == "sim":
        ka = c["kappa"]
        assert (n, k, m) == (2 ** ka - 1 + c["ext"], ka + c["ext"], 2 ** ka - ka - 1) and code.minimum_distance() == 2 ** (ka - 1)
        cols = as_ints(np.asarray(code.generator_matrix).T)
        if not c["ext"]:
            assert sorted(cols) == list(range(1, 2 ** ka)) and dual_up_to_order(komm.HammingCode(ka), code)
            if n <= 64: assert set(np.flatnonzero(weight_counts(G, n))) == {0, 2 ** (ka - 1)}
        else:
            assert dual_up_to_order(komm.HammingCode(ka, extended=True), code)
            if n <= 64: assert set(np.flatnonzero(weight_counts(G, n))) == {0, 2 ** (ka - 1), 2 ** ka}
    elif t == "golay":
        assert (n, k, m, d) == (23 + c["ext"], 12, 11 + c["ext"], 7 + c["ext"])
        w = weight_counts(G, n)
        ref = {0: 1, 8: 759, 12: 2576, 16: 759, 24: 1} if c["ext"] else {0: 1, 7: 253, 8: 506, 11: 1288, 12: 1288, 15: 506, 16: 253, 23: 1}
        assert {int(i): int(w[i]) for i in np.flatnonzero(w)} == ref
        if not c["ext"]:
            cw = np.asarray(code.coset_leader_weight_distribution()).tolist()
            assert cw == [1, 23, 253, 1771] + [0] * 20 and code.packing_radius() == code.covering_radius() == 3
        else:
            assert same_code(code.generator_matrix, code.check_matrix), "extended Golay code must be self-dual"
            base = np.asarray(komm.GolayCode().generator_matrix).tolist()
            assert np.array_equal([r + [sum(r) % 2] for r in base], code.generator_matrix)
    elif t == "rm":
        rho, mu = c["rho"], c["mu"]
        assert n == 2 ** mu and k == sum(comb(mu, i) for i in range(rho + 1)) and code.minimum_distance() == 2 ** (mu - rho)
        pts = range(n)
        mon = [[int(all(p >> i & 1 for i in I)) for p in pts] for l in range(rho + 1) for I in itertools.combinations(range(mu), l)]
        assert same_code(mon, code.generator_matrix), "not the evaluations of the monomials of degree <= rho"
        assert sorted(as_ints(mon)) == sorted(G), "rows are not the monomials"
        if mu - rho - 1 < mu and rho < mu - 0 and mu - rho - 1 >= 0:
            assert dual_of(code, komm.ReedMullerCode(mu - rho - 1, mu))
        if rho == mu - 1: assert same_code(code.generator_matrix, komm.SingleParityCheckCode(n).generator_matrix)
        if d is not None: assert d == 2 ** (mu - rho)
        parts = code.reed_partitions()
        assert len(parts) == k
        for p in parts:
            assert sorted(np.asarray(p).ravel().tolist()) == list(range(n)), "a Reed partition must partition the positions"
    else:
        assert (n, k, m) == (c["n"], 2, n - 2) and d == -(-2 * n // 3) - 1
    return n > k and t

def cordaro_cases(tier):
    for n in range(2, 11 if tier == "quick" else 14): yield dict(n=n)

def leader_dist(rows, n):
    S = np.array(span_ints(rows), dtype=np.int64)
    best = {}
    words = np.arange(1 << n)
    cos = np.min(words[:, None] ^ S[None, :], axis=1)  # canonical coset id
    w = np.bitwise_count(words)
    m = np.full(1 << n, n + 1); np.minimum.at(m, cos, w)
    return np.bincount(m[m <= n], minlength=n + 1)

@check("B02", cases=cordaro_cases, weight=3)
def cordaro_wagner_optimality(c):
    n = c["n"]
    mine = tuple(leader_dist(as_ints(komm.CordaroWagnerCode(n).generator_matrix), n).tolist())
    top = None
    for a in range(n + 1):           # columns of type 10, 01, 11, 00
        for b in range(a, n + 1 - a):
            for e in range(b, n + 1 - a - b):
                z = n - a - b - e
                r1 = [1] * a + [0] * b + [1] * e + [0] * z
                r2 = [0] * a + [1] * b + [1] * e + [0] * z
                G = as_ints([r1, r2])
                if rank_ints(G) < 2: continue
                dist = tuple(leader_dist(G, n).tolist())
                if top is None or dist > top: top = dist
    assert mine == top, ("not optimum for small crossover probability", mine, top)
    return n >= 3

def bch_cases(tier):
    for mu in range(2, 7 if tier == "quick" else 8):
        for d in range(0, 2 ** mu + 2): yield dict(mu=mu, delta=d)
    for d in (3, 5, 7, 9, 15, 31, 62, 63, 127): yield dict(mu=7, delta=d)
    for mu in (8, 9, 10): yield dict(mu=mu, delta=5)

@check("B02", cases=bch_cases, weight=6)
def bch_family(c):
    mu, delta = c["mu"], c["delta"]
    n = 2 ** mu - 1
    cos = lambda i: frozenset((i * 2 ** j) % n for j in range(mu))
    if not 2 <= delta <= n:
        raises(ValueError, komm.BCHCode, mu, delta); return False
    need = {cos(i) for i in range(1, delta)}
    if cos(delta) in need:
        raises(ValueError, komm.BCHCode, mu, delta); return "not a Bose distance"
    code = komm.BCHCode(mu, delta)
    mod = int(komm.FiniteBifield(mu).modulus)
    roots = set().union(*need)
    g = int(code.generator_polynomial)
    assert code.length == n and code.redundancy == len(roots) == pdeg(g) and code.dimension == n - len(roots)
    a = 2
    for i in range(0, n):
        p = ppowmod(2, i, mod); acc = 0
        for j in range(pdeg(g), -1, -1): acc = pmod(pmul(acc, p), mod) ^ ((g >> j) & 1)
        assert (acc == 0) == (i in roots), f"alpha^{i}"
    tau = (delta - 1) // 2
    if delta % 2: assert code.redundancy <= mu * tau
    if code.dimension <= 12 and n <= 63: 
        d = min_weight(as_ints(code.generator_matrix)); assert d >= delta and code.minimum_distance() == d
    if delta == n: assert g == (1 << n) - 1
    if delta == 3: assert sorted(as_ints(np.asarray(code.check_matrix).T)) == list(range(1, n + 1))
    return "Bose distance"

def lexi_cases(tier):
    for n in range(1, 10 if tier == "quick" else 13):
        for d in range(0, n + 2): yield dict(n=n, d=d)

@check("B02", cases=lexi_cases, weight=3)
def lexicodes(c):
    n, d = c["n"], c["d"]
    if not 1 <= d <= n: raises(ValueError, komm.Lexicode, n, d); return False
    greedy = []
    for v in range(2 ** n):
        if all((v ^ w).bit_count() >= d for w in greedy): greedy.append(v)
    code = komm.Lexicode(n, d)
    words = sorted(int("".join(map(str, r)), 2) for r in np.asarray(code.codewords()).tolist())
    assert words == greedy, "codewords differ from the greedy construction"
    assert code.length == n and 2 ** code.dimension == len(greedy)
    if len(greedy) > 1: assert code.minimum_distance() == min(w.bit_count() for w in greedy[1:])
    return d >= 2

def cyclic_cases(tier):
    for n in range(1, 16 if tier == "quick" else 19):
        for g in _DIV[n]:
            if pdeg(g) < n:
                yield dict(t="cyc", n=n, p=g, by="g", sys=True)

@check("B02", cases=cyclic_cases, weight=3)
def cyclic_family(c):
    code = build(c); n, g = c["n"], c["p"]
    other = komm.CyclicCode(n, generator_polynomial=g, systematic=False)
    byh = komm.CyclicCode(n, check_polynomial=pdivmod((1 << n) | 1, g)[0])
    G = as_ints(code.generator_matrix)
    if code.dimension <= 14:
        S = set(span_ints(G))
        ideal = set(span_ints([g << i for i in range(n - pdeg(g))]))
        assert S == ideal, "not the ideal generated by g"
        assert all(((v << 1) & ((1 << n) - 1)) | (v >> (n - 1)) in S for v in G), "not cyclic"
    for o in (other, byh): assert same_code(o.generator_matrix, code.generator_matrix)
    assert same_code(other.check_matrix, code.check_matrix) and same_code(byh.check_matrix, code.check_matrix)
    assert code.length == n and code.redundancy == pdeg(g)
    return 0 < pdeg(g) < n

@check("B02", st.one_of(polar_spec(3), polar_spec(5)), quick=300, thorough=4000, weight=2)
def polar_family(c):
    code = build(c); mu = c["mu"]; n = 2 ** mu
    active = [i for i in range(n) if i not in c["frozen"]]
    # entry (i,j) of the mu-fold Kronecker power of [[1,0],[1,1]] is 1 iff j's bits are a subset of i's bits
    equal(code.generator_matrix, [[int(j & i == j) for j in range(n)] for i in active])
    assert (code.length, code.dimension, code.redundancy) == (n, len(active), len(c["frozen"]))
    G = as_ints(code.generator_matrix)
    if len(active) <= 12: assert code.minimum_distance() == min_weight(G)
    u = np.eye(len(active), dtype=int)
    equal(code.encode(u), code.generator_matrix)
    for bad in ([n], [-1], [0, 0]): raises(ValueError, komm.PolarCode, mu, bad)
    return 0 < len(active) < n

@check("B02", st.fixed_dictionaries(dict(mu=st.integers(6, 10), share=st.sampled_from([0.0, 0.05, 0.5, 0.95, 1.0]), seed=st.integers(0, 2 ** 32 - 1))), quick=30, thorough=300)
def large_polar_codes(c):
    mu = c["mu"]; n = 2 ** mu
    r = np.random.default_rng(c["seed"])
    frozen = sorted(np.flatnonzero(r.random(n) < c["share"]).tolist())[:n - 1]
    code = komm.PolarCode(mu, frozen=frozen)
    act = np.setdiff1d(np.arange(n), frozen)
    i, j = np.ix_(act, np.arange(n))
    want = (j & i == j).astype(int)
    assert (code.length, code.dimension, code.redundancy) == (n, len(act), len(frozen))
    assert np.array_equal(code.generator_matrix, want)
    u = r.integers(0, 2, (2, len(act)))
    v = np.asarray(code.encode(u))
    assert np.array_equal(v, u @ want % 2)
    assert np.array_equal(code.inverse_encode(v), u)
    assert not np.any(code.check(v))
    H = np.asarray(code.check_matrix)
    assert H.shape == (len(frozen), n) and not np.any(H @ want.T % 2)
    e = np.zeros(n, dtype=int); e[int(r.integers(n))] = 1
    assert np.any(code.check(v[0] ^ e)) == np.any(e @ H.T % 2)
    return 0 < len(frozen) < n

# ------------------------------------------------------------------ B03
rule("B03", "Codes with n<=10 from every specification and family, methods called in a generated order (caches); oracle = enumeration of all 2^n words. "
     "Non-trivial: 1 <= k < n.")

@st.composite
def b03_case(draw):
    return dict(s=draw(any_spec(9)), order=draw(st.permutations(range(7))), i=draw(st.integers(0, 2 ** 20)), j=draw(st.integers(0, 2 ** 20)))

@check("B03", b03_case(), quick=1200, thorough=15000, weight=4)
def distance_structure(c):
    code = build(c["s"])
    n, k, m = code.length, code.dimension, code.redundancy
    if n > 12: raise Skip()
    G, H = as_ints(code.generator_matrix), as_ints(code.check_matrix)
    S = span_ints(G)
    wt = [v.bit_count() for v in S]
    words = np.arange(1 << n)
    syn = np.zeros(1 << n, dtype=int)
    for i, h in enumerate(H): syn |= (np.bitwise_count(words & h).astype(int) & 1) << i
    wts = np.bitwise_count(words).astype(int)
    minw = np.full(1 << m, n + 1); np.minimum.at(minw, syn, wts)
    d = min(wt[1:])
    def f0(): equal(as_ints(code.codewords()), S); assert np.asarray(code.codewords()).shape == (2 ** k, n)
    def f1(): equal(code.codeword_weight_distribution(), np.bincount(wt, minlength=n + 1))
    def f2(): assert code.minimum_distance() == d, (code.minimum_distance(), d)
    def f3():
        L = np.asarray(code.coset_leaders())
        assert L.shape == (2 ** m, n)
        Li = np.array(as_ints(L), dtype=int)
        equal(syn[Li], np.arange(2 ** m)); equal(wts[Li], minw)
    def f4(): equal(code.coset_leader_weight_distribution(), np.bincount(minw, minlength=n + 1))
    def f5(): assert code.packing_radius() == (d - 1) // 2
    def f6(): assert code.covering_radius() == int(minw.max())
    fs = [f0, f1, f2, f3, f4, f5, f6]
    for i in c["order"]: fs[i]()
    A = komm.SlepianArray(code)
    L = as_ints(code.coset_leaders())
    i, j = c["i"] % 2 ** m, c["j"] % 2 ** k
    equal(as_ints([A.entry(i, j)]), [L[i] ^ S[j]])
    equal(as_ints(A.row(i)), [L[i] ^ v for v in S]); equal(as_ints(A.col(j)), [l ^ S[j] for l in L])
    if n <= 7:
        allw = sorted(w for r in range(2 ** m) for w in as_ints(A.row(r)))
        assert allw == list(range(2 ** n)), "the array must list every word exactly once"
    for i in c["order"][:3]: fs[i]()
    return 1 <= k < n and c["s"]["t"]

def big_structure(tier):
    for s in BIG:
        yield dict(s, order=0); yield dict(s, order=1)
    for i, (k, n) in enumerate([(17, 19), (18, 22), (16, 40), (11, 70), (12, 130), (3, 300), (9, 260), (2, 600)]):
        for o in (0, 1): yield dict(t="rand", k=k, n=n, seed=i, order=o)
    for mu in (6, 7, 8, 9): yield dict(t="rm", rho=1, mu=mu, order=0); yield dict(t="rm", rho=1, mu=mu, order=1)
    yield dict(t="rep", n=300, order=1); yield dict(t="cw", n=400, order=1)

def random_code(c):
    k, n = c["k"], c["n"]; rng = np.random.default_rng(c["seed"])
    M = np.hstack([np.eye(k, dtype=int), rng.integers(0, 2, (k, n - k))])
    if n >= 256: M[0] = 1
    for _ in range(3 * k):
        i, j = rng.integers(0, k, 2)
        if i != j: M[i] = (M[i] + M[j]) % 2
    return komm.BlockCode(generator_matrix=M[:, rng.permutation(n)])

def big_counts(rows, n):
    """Weight distribution by enumeration on packed 64-bit limbs."""
    limbs = (n + 63) // 64
    w = np.zeros(1, dtype=np.int64)
    parts = [np.array([0], dtype=np.uint64) for _ in range(limbs)]
    for r in rows: parts = [np.concatenate([S, S ^ np.uint64((r >> (64 * l)) & (2 ** 64 - 1))]) for l, S in enumerate(parts)]
    w = sum(np.bitwise_count(S).astype(np.int64) for S in parts)
    return np.bincount(w, minlength=n + 1)

@check("B03", cases=big_structure, weight=3)
def large_codes(c):
    """Weight distributions of larger codes (both call orders); coset structure while 2^m is moderate."""
    code = random_code(c) if c["t"] == "rand" else build(c); n, k, m = code.length, code.dimension, code.redundancy
    if k <= 18:
        G = as_ints(code.generator_matrix)
        w = big_counts(G, n)
        if c["order"] and k <= 16:
            cw = np.asarray(code.codewords())
            assert cw.shape == (2 ** k, n)
            i = np.random.default_rng(k).integers(0, 2 ** k, 64)
            U = (i[:, None] >> np.arange(k)) & 1
            equal(cw[i], U @ np.asarray(code.generator_matrix).astype(int) % 2)
        equal(code.codeword_weight_distribution(), w)
        d = int(np.flatnonzero(w)[1]) if n else 0
        assert code.minimum_distance() == d and code.packing_radius() == (d - 1) // 2
        if k <= 12:
            equal(as_ints(code.codewords())[:4096], span_ints(G)[:4096])
            equal(code.codeword_weight_distribution(), w)
    if m <= 12:
        lw = code.coset_leader_weight_distribution()
        L = np.asarray(code.coset_leaders())
        equal(code.check(L), komm.int_to_bits(np.arange(2 ** m), m))
        equal(np.bincount(L.sum(axis=1), minlength=n + 1), lw)
        # leaders have minimum weight: breadth-first search over syndromes
        H = as_ints(np.asarray(code.check_matrix).T)
        dist = {0: 0}; front = [0]
        while front:
            nxt = []
            for s in front:
                for h in H:
                    if s ^ h not in dist: dist[s ^ h] = dist[s] + 1; nxt.append(s ^ h)
            front = nxt
        equal(L.sum(axis=1), [dist[s] for s in range(2 ** m)])
        assert code.covering_radius() == max(dist.values())
    return True

def wide_coset_cases(tier):
    for k, m, seed in [(8, 16, 0), (30, 15, 1), (4, 16, 2), (14, 14, 3)] + ([(12, 17, 4), (40, 16, 5), (5, 18, 6)] if tier == "thorough" else []):
        for o in (0, 1): yield dict(k=k, m=m, seed=seed, order=o)

@check("B03", cases=wide_coset_cases, weight=4)
def many_cosets(c):
    """2^14 cosets and more, thousands of leaders of the same weight: distribution and covering radius against a search over syndromes."""
    k, m = c["k"], c["m"]; n = k + m; rng = np.random.default_rng(c["seed"])
    Q = rng.integers(0, 2, (k, m)); cols = (np.vstack([Q, np.eye(m, dtype=int)]) @ (1 << np.arange(m))).tolist()
    dist = np.full(1 << m, -1); dist[0] = 0; front = np.array([0]); w = 0
    while front.size:
        w += 1
        nxt = np.unique(np.concatenate([front ^ h for h in cols])); front = nxt[dist[nxt] < 0]; dist[front] = w
    want = np.bincount(dist, minlength=n + 1)
    if c["order"]: code = komm.SystematicBlockCode(Q, information_set="right" if c["seed"] % 2 else "left")
    else: code = komm.BlockCode(generator_matrix=np.hstack([np.eye(k, dtype=int), Q])[:, rng.permutation(n)])
    equal(code.coset_leader_weight_distribution(), want)
    assert code.covering_radius() == dist.max()
    if c["order"] == 0 and m <= 14:
        L = np.asarray(code.coset_leaders()); equal(code.check(L), komm.int_to_bits(np.arange(2 ** m), m))
        equal(np.bincount(L.sum(axis=1), minlength=n + 1), want)
        equal(code.coset_leader_weight_distribution(), want)
    return True

def closed_cases(tier):
    for n in list(range(1, 72)) + [100, 127, 128, 200]: yield dict(t="rep", n=n)
    for n in list(range(2, 72)) + [100, 127, 128, 200]: yield dict(t="spc", n=n)
    for mu in (4, 5, 6):
        for e in (False, True): yield dict(t="ham", mu=mu, ext=e); yield dict(t="sim", kappa=mu, ext=e)

@check("B03", cases=closed_cases)
def closed_form_distributions(c):
    """Families whose distributions are known in closed form, at lengths no enumeration reaches."""
    code = build(c); n = code.length; t = c["t"]
    w = None
    if t == "rep":
        w = [int(i in (0, n)) for i in range(n + 1)]
        # coset {v, complement of v}: its leader weighs min(wt, n - wt)
        cos = [0] * (n + 1)
        for i in range(n + 1): cos[min(i, n - i)] += comb(n, i)
        cos = [x // 2 for x in cos]
        assert [int(x) for x in code.coset_leader_weight_distribution()] == cos and np.shape(code.coset_leader_weight_distribution()) == (n + 1,)
        assert code.covering_radius() == n // 2
        if 2 <= n <= 12:
            fresh = komm.BlockCode(generator_matrix=code.generator_matrix)
            equal(fresh.coset_leader_weight_distribution(), cos)
    elif t == "spc":
        w = [comb(n, i) * (i % 2 == 0) for i in range(n + 1)]
        assert code.coset_leader_weight_distribution().tolist() == [1, 1] + [0] * (n - 1) and code.covering_radius() == 1
    elif t == "sim":
        w = [0] * (n + 1); w[0] = 1; w[n + 1 >> 1 if not c["ext"] else n >> 1] += 2 ** c["kappa"] - 1
        if c["ext"]: w = None
    if w is not None:
        assert [int(x) for x in code.codeword_weight_distribution()] == w and np.shape(code.codeword_weight_distribution()) == (n + 1,)
        d = next(i for i in range(1, n + 1) if w[i])
        assert code.minimum_distance() == d and code.packing_radius() == (d - 1) // 2
    if t == "ham" and not c["ext"]:
        assert code.coset_leader_weight_distribution().tolist() == [1, n] + [0] * (n - 1) and code.covering_radius() == 1
    return n > 2
