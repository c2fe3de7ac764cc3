import sys
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule
from ..gen import *

BP = komm.BinaryPolynomial
BPF = komm.BinaryPolynomialFraction

# ------------------------------------------------------------------ A01
rule("A01", "Hypothesis draws integers (up to 300 bits for scalars, 62 bits in arrays), widths, shapes up to 3 axes, bit "
     "orders and containers; oracle = explicit base-2 digits. Non-trivial: at least one set bit and width >= 2.")

orders = st.sampled_from(["LSB-first", "MSB-first"])

def digits(v, w, order):
    d = [(v >> i) & 1 for i in range(w)]
    return d if order == "LSB-first" else d[::-1]

layouts = st.sampled_from(["C", "C", "F", "T", "strided", "neg"])
def lay(a, how):
    """The same array contents in another memory layout."""
    if how == "F": return np.asfortranarray(a)
    if how == "T": return np.ascontiguousarray(a.T).T
    if how == "strided" and a.ndim:
        b = np.zeros(tuple(2 * d for d in a.shape), dtype=a.dtype)
        ix = tuple(slice(0, None, 2) for _ in a.shape)
        b[ix] = a
        return b[ix]
    if how == "neg" and a.ndim: return np.ascontiguousarray(np.flip(a))[tuple(slice(None, None, -1) for _ in a.shape)]
    return a

@st.composite
def scalar_case(draw):
    nb = draw(st.one_of(st.integers(0, 20), st.integers(0, 300), st.integers(0, 4000)))
    v = draw(st.integers(0, 2 ** nb - 1)) if nb else 0
    if draw(st.integers(0, 3)) == 0 and nb: v = 2 ** nb - 1
    return dict(v=v, w=max(v.bit_length(), draw(st.one_of(st.integers(0, 310), st.integers(0, 5000)))), order=draw(orders), np=draw(st.booleans()))

@check("A01", scalar_case(), quick=2500, thorough=40000)
def scalar_roundtrip(c):
    v, w, order = c["v"], c["w"], c["order"]
    arg = np.int64(v) if c["np"] and v < 2 ** 62 and w < 62 else v
    b = komm.int_to_bits(arg, width=w, bit_order=order)
    equal(b, np.array(digits(v, w, order), dtype=int).reshape(w))
    is_int_array(b)
    back = komm.bits_to_int(b.tolist() if c["np"] else b, bit_order=order)
    assert int(back) == v and isinstance(int(back), int), (back, v)
    if order == "LSB-first":
        equal(komm.int_to_bits(arg, w), b)
        assert int(komm.bits_to_int(b)) == v
    return v > 0 and w >= 2

@st.composite
def bits_case(draw):
    shape = draw(st.lists(st.integers(1, 4), min_size=0, max_size=2))
    w = draw(st.one_of(st.integers(0, 20), st.integers(0, 62), st.integers(0, 62), st.sampled_from([62, 63, 64, 65, 66, 128, 130])))
    if not shape: w = draw(st.one_of(st.just(w), st.integers(0, 200)))
    n = int(np.prod(shape)) * w if shape else w
    data = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
    return dict(shape=shape + [w], data=data, order=draw(orders), dtype=draw(st.sampled_from(["list", "int64", "uint8", "bool", "int32"])), lay=draw(layouts))

@check("A01", bits_case(), quick=3000, thorough=20000)
def bits_array_roundtrip(c):
    w = c["shape"][-1]
    a = np.array(c["data"], dtype=int).reshape(c["shape"])
    if w == 0 and len(c["shape"]) > 1: return False
    ref = [sum(d << (i if c["order"] == "LSB-first" else w - 1 - i) for i, d in enumerate(row)) for row in a.reshape(-1, w).tolist()] if w else [0]
    arg = a.tolist() if c["dtype"] == "list" else lay(a.astype(c["dtype"]), c["lay"])
    r = komm.bits_to_int(arg, bit_order=c["order"])
    if len(c["shape"]) == 1:
        assert int(r) == ref[0], (r, ref)
        back = komm.int_to_bits(int(r), width=w, bit_order=c["order"])
    else:
        assert np.shape(r) == tuple(c["shape"][:-1])
        assert [int(x) for x in np.asarray(r).ravel()] == ref, (r, ref)
        back = komm.int_to_bits(r, width=w, bit_order=c["order"])
    equal(back, a)
    return bool(a.any()) and w >= 2

@st.composite
def ints_case(draw):
    shape = draw(st.lists(st.integers(0, 4), min_size=1, max_size=3))
    n = int(np.prod(shape))
    nb = draw(st.sampled_from([1, 3, 8, 9, 16, 31, 33, 62]))
    vals = draw(st.lists(st.integers(0, 2 ** nb - 1), min_size=n, max_size=n))
    return dict(shape=shape, vals=vals, w=nb + draw(st.integers(0, 1)) * draw(st.integers(0, 9)), order=draw(orders),
                dtype=draw(st.sampled_from(["list", "int64", "uint64", "tight"])), lay=draw(layouts))

@check("A01", ints_case(), quick=4000, thorough=20000)
def ints_array(c):
    a = np.array(c["vals"], dtype=np.int64).reshape(c["shape"])
    dt = np.min_scalar_type(max(c["vals"], default=0)) if c["dtype"] == "tight" else c["dtype"]     # tight: the narrowest type that holds the values
    arg = a.tolist() if c["dtype"] == "list" else lay(a.astype(dt), c["lay"])
    if c["dtype"] == "list" and a.size == 0: arg = a
    w = c["w"]
    b = komm.int_to_bits(arg, width=w, bit_order=c["order"])
    assert b.shape == (*c["shape"], w), b.shape
    ref = [digits(v, w, c["order"]) for v in c["vals"]]
    equal(b.reshape(-1, w) if a.size else b.reshape(0, w), np.array(ref, dtype=int).reshape(-1, w))
    if a.size and w <= 62 and a.ndim >= 1:
        r = komm.bits_to_int(b, bit_order=c["order"])
        assert np.asarray(r).shape == a.shape
        equal(np.asarray(r).astype(np.int64), a)
    return a.size > 1 and bool(a.any())

@check("A01", st.fixed_dictionaries(dict(order=st.sampled_from(["lsb", "MSB", "", "big", "LSB-First"]), v=st.integers(0, 9))), quick=20, thorough=40)
def bad_order(c):
    raises(ValueError, komm.int_to_bits, c["v"], 4, c["order"])
    raises(ValueError, komm.bits_to_int, [0, 1, 1], c["order"])
    return True

# ------------------------------------------------------------------ A02
rule("A02", "Pairs/triples of polynomials up to degree 200 (exhaustive over small degrees), with shared factors, zero and one; "
     "oracle = independent integer arithmetic in GF(2)[X]. Non-trivial: operands of degree >= 1 (or, for predicates, degree >= 2).",
     ["irreducibility reference: degree-by-degree gcd with X^(2^i)-X; primitivity reference: order of X by factorisation"])

def _poly(draw, mx=200):
    k = draw(st.integers(0, 9))
    if k == 0: return 0
    if k == 1: return draw(st.sampled_from([1, 2, 3]))
    nb = draw(st.integers(1, 12 if k < 6 else 10 * mx if k == 9 and mx >= 200 else mx))
    return draw(st.integers(0, 2 ** nb - 1)) | 1 << (nb - 1)

@st.composite
def poly_pair(draw):
    a, b, g = _poly(draw), _poly(draw), 1
    if draw(st.booleans()): g = _poly(draw, 40)
    return dict(a=pmul(a, g), b=pmul(b, g), c=_poly(draw, 60), e=draw(st.integers(0, 12)))

@st.composite
def huge_pair(draw):
    """Degrees in the thousands, drawn from a seed."""
    return dict(na=draw(st.integers(1, 6000)), nb=draw(st.integers(1, 6000)), ng=draw(st.sampled_from([1, 1, 30, 700])), seed=draw(st.integers(0, 2 ** 32)))

@check("A02", huge_pair(), quick=40, thorough=600)
def euclid_of_huge_degree(c):
    import random
    r = random.Random(c["seed"]); a, b, g = (r.getrandbits(c[k]) | 1 << (c[k] - 1) for k in ("na", "nb", "ng"))
    a, b = pmul(a, g), pmul(b, g)
    A, B = BP(a), BP(b)
    keep, depth, f = sys.getrecursionlimit(), 0, sys._getframe()
    while f: depth, f = depth + 1, f.f_back
    sys.setrecursionlimit(depth + 950)             # what a caller has under Python's default limit
    try: d, s, t = BP.xgcd(A, B)
    finally: sys.setrecursionlimit(keep)
    want = pgcd(a, b)
    assert int(d) == want == int(BP.gcd(A, B)) and pmul(int(s), a) ^ pmul(int(t), b) == want
    q, m = divmod(A, B); assert (int(q), int(m)) == pdivmod(a, b)
    assert int(A * B) == pmul(a, b) and A.degree == a.bit_length() - 1
    return min(c["na"], c["nb"]) > 1 and ("deep" if min(c["na"], c["nb"]) > 2000 else "shallow")

@check("A02", poly_pair(), quick=3000, thorough=50000)
def ring_ops(c):
    a, b = c["a"], c["b"]
    A, B = BP(a), BP(b)
    for r, ref in [(A + B, a ^ b), (A - B, a ^ b), (-A, a), (A * B, pmul(a, b)), (A << 3, a << 3), (A >> 2, a >> 2)]:
        assert isinstance(r, BP) and int(r) == ref, (int(r), ref)
    assert (A == B) == (a == b) and A == a and (A != B) == (a != b)
    assert hash(BP(a)) == hash(A)
    if b:
        q, r = divmod(A, B)
        rq, rr = pdivmod(a, b)
        assert (int(q), int(r)) == (rq, rr)
        assert int(A // B) == rq and int(A % B) == rr
    else:
        raises(ZeroDivisionError, divmod, A, B)
    p, e = 1, min(c["e"], 12 if a.bit_length() < 40 else 5)
    for _ in range(e): p = pmul(p, a)
    assert int(A ** e) == p
    assert A.degree == a.bit_length() - 1
    assert int(A) == a and int(B) == b  # operands untouched
    return a > 1 and b > 1

@check("A02", poly_pair(), quick=2500, thorough=40000)
def euclid(c):
    a, b = c["a"], c["b"]
    A, B = BP(a), BP(b)
    g = pgcd(a, b)
    assert int(BP.gcd(A, B)) == g
    d, s, t = BP.xgcd(A, B)
    assert int(d) == g and pmul(int(s), a) ^ pmul(int(t), b) == g, (int(d), int(s), int(t))
    if a and b:
        ga, gb = pdivmod(a, g)[0], pdivmod(b, g)[0]
        assert pdeg(int(s)) <= max(pdeg(gb), 0) and pdeg(int(t)) <= max(pdeg(ga), 0), "Bezout coefficients not reduced"
        assert int(BP.lcm(A, B)) == pdivmod(pmul(a, b), g)[0]
    return a > 1 and b > 1 and ("common factor" if g > 1 else "coprime")

@st.composite
def poly_list(draw):
    n = draw(st.integers(1, 5))
    pool = [_poly(draw, 20) | (0 if draw(st.booleans()) else 1) for _ in range(3)]
    out = []
    for _ in range(n):
        v = 1
        for _ in range(draw(st.integers(1, 3))): v = pmul(v, draw(st.sampled_from(pool)))
        out.append(v)
    return dict(polys=out)

@check("A02", poly_list(), quick=1500, thorough=20000)
def gcd_lcm_many(c):
    L = c["polys"]
    g = 0
    for v in L: g = pgcd(g, v)
    assert int(BP.gcd(*map(BP, L))) == g
    m, prod = 1, 1
    for v in L:
        m = pdivmod(pmul(m, v), pgcd(m, v))[0] if m and v else 0
        prod = pmul(prod, v)
    if len(L) == 2 and g:
        assert int(BP.lcm(*map(BP, L))) == m
    elif g:
        # The recorded finding (see lcm_of_other_than_two) returns product // gcd here; any third
        # value would be a different defect.
        got = int(BP.lcm(*map(BP, L)))
        assert got in (m, pdivmod(prod, g)[0]), (got, m)
    return len(L) >= 3 and all(L)

@check("A02", cases=lambda tier: [dict(polys=[12, 10, 9]), dict(polys=[6])])
def lcm_of_other_than_two(c):
    m = 1
    for v in c["polys"]: m = pdivmod(pmul(m, v), pgcd(m, v))[0]
    got = int(BP.lcm(*map(BP, c["polys"])))
    assert got == m, f"lcm{tuple(c['polys'])} = {got}, expected {m}"
    return True

@st.composite
def conv_case(draw):
    v = _poly(draw)
    return dict(v=v, extra=draw(st.integers(0, 10)), perm=draw(st.integers(0, 10 ** 6)))

@check("A02", conv_case(), quick=1500, thorough=20000)
def conversions(c):
    v = c["v"]
    A = BP(v)
    n = max(v.bit_length(), 1)
    coeffs = [(v >> i) & 1 for i in range(n)]
    equal(A.coefficients(), coeffs)
    w = n + c["extra"]
    equal(A.coefficients(width=w), coeffs + [0] * c["extra"])
    exps = [i for i in range(n) if (v >> i) & 1]
    assert A.exponents().tolist() == exps
    assert BP.from_coefficients(coeffs) == A and BP.from_coefficients(np.array(coeffs + [0] * c["extra"])) == A
    if exps:
        rng = np.random.default_rng(c["perm"])
        assert BP.from_exponents([int(x) for x in rng.permutation(exps)]) == A
        assert BP.from_exponents(np.array(exps)) == A
    rec = sum(((v >> i) & 1) << (n - 1 - i) for i in range(n))
    assert int(A.reciprocal()) == rec
    recw = sum(((v >> i) & 1) << (w - 1 - i) for i in range(w))
    assert int(A.reciprocal(width=w)) == recw
    assert eval(repr(A), {"BinaryPolynomial": BP}) == A and str(A) == bin(v)
    assert BP(A) == A
    return v > 1

@st.composite
def eval_case(draw):
    v = _poly(draw, 90)
    kind = draw(st.sampled_from(["int", "poly", "field", "frac"]))
    c = dict(v=v, kind=kind)
    if kind == "int": c["x"] = draw(st.one_of(st.integers(-5, 5), st.integers(-10 ** 6, 10 ** 6)))
    elif kind == "poly": c["x"] = draw(st.integers(0, 63)); c["v"] = v & 0xFFFFFFF
    elif kind == "frac": c["x"] = [draw(st.integers(0, 31)), draw(st.integers(1, 31))]; c["v"] = v & 0x3FFF
    else:
        c["k"] = draw(st.integers(1, 10)); c["x"] = draw(st.integers(0, 2 ** c["k"] - 1))
    return c

@check("A02", eval_case(), quick=1500, thorough=20000)
def evaluation(c):
    v, k = c["v"], c["kind"]
    P = BP(v)
    if k == "int":
        r = P.evaluate(komm.Integer(c["x"]))
        ref = sum(c["x"] ** i for i in range(v.bit_length()) if (v >> i) & 1)
        assert isinstance(r, komm.Integer) and int(r.value) == ref, (r.value, ref)
    elif k == "poly":
        ref, p = 0, 1
        for i in range(v.bit_length()):
            if (v >> i) & 1: ref ^= p
            p = pmul(p, c["x"])
        assert int(P.evaluate(BP(c["x"]))) == ref
    elif k == "frac":
        n, d = c["x"]
        deg = max(v.bit_length() - 1, 0)
        num, den = 0, 1
        for _ in range(deg): den = pmul(den, d)
        for i in range(v.bit_length()):
            if (v >> i) & 1:
                t = 1
                for _ in range(i): t = pmul(t, n)
                for _ in range(deg - i): t = pmul(t, d)
                num ^= t
        assert P.evaluate(BPF(n, d)) == BPF(num, den)
    else:
        F = komm.FiniteBifield(c["k"])
        m = int(F.modulus)
        ref, p = 0, 1
        for i in range(v.bit_length()):
            if (v >> i) & 1: ref ^= p
            p = pmod(pmul(p, c["x"]), m)
        assert int(P.evaluate(F(c["x"])).value) == ref
    return v > 1 and k

def small_polys(tier):
    for v in range(0, 1 << (10 if tier == "quick" else 14)):
        yield dict(v=v)

@check("A02", cases=small_polys, weight=2)
def irreducible_primitive_exhaustive(c):
    v = c["v"]
    assert BP(v).is_irreducible() is pirreducible(v), "irreducibility"
    assert BP(v).is_primitive() is pprimitive(v), "primitivity"
    return v >= 4

_IR = {k: [v for v in range(1 << k, 2 << k) if pirreducible(v)] for k in range(1, 8)}

@st.composite
def irr_case(draw):
    n = draw(st.integers(10, 33))
    v = draw(st.integers(2 ** n, 2 ** (n + 1) - 1)) | 1
    if bin(v).count("1") % 2 == 0: v ^= 1 << draw(st.integers(1, n - 1))
    if draw(st.booleans()):  # make an irreducible one by stepping
        for _ in range(400):
            if pirreducible(v): break
            v = 2 ** n | ((v + 2) & (2 ** n - 1)) | 1
    elif draw(st.booleans()):  # product of equal-degree irreducibles / squares fool weak tests
        a = draw(st.sampled_from([7, 11, 13, 19, 25, 31, 37, 41, 47, 55, 59, 61, 67, 73, 87]))
        b = draw(st.sampled_from([7, 11, 13, 19, 25, 31, 37, 41, 47, 55, 59, 61, 67, 73, 87]))
        v = pmul(a, b)
        if draw(st.booleans()): v = pmul(v, a)
    elif draw(st.booleans()):  # distinct irreducible factors of one degree, or of degrees dividing the total
        d = draw(st.sampled_from([2, 3, 4, 5, 5, 6, 7]))
        r = draw(st.one_of(st.just(min(d, len(_IR[d]))), st.integers(2, min(d + 2, len(_IR[d])) if len(_IR[d]) > 1 else 2)))
        v = 1
        for f in list(draw(st.permutations(_IR[d])))[:r]: v = pmul(v, f)
    return dict(v=v)

@check("A02", irr_case(), quick=1200, thorough=5000, weight=2)
def irreducible_primitive_large(c):
    v = c["v"]
    irr = pirreducible(v)
    assert BP(v).is_irreducible() is irr
    if pdeg(v) <= 33: assert BP(v).is_primitive() is pprimitive(v)
    return "irreducible" if irr else "reducible"

def _minpoly(beta, m, k):
    """Minimal polynomial over GF(2) of an element of GF(2)[X]/(m)."""
    conj, x = [], beta
    while x not in conj: conj.append(x); x = pmod(pmul(x, x), m)
    poly = [1]                                      # coefficients in the field, ascending
    for r in conj:
        nxt = [0] * (len(poly) + 1)
        for i, a in enumerate(poly): nxt[i + 1] ^= a; nxt[i] ^= pmod(pmul(a, r), m)
        poly = nxt
    assert all(a in (0, 1) for a in poly)
    return sum(a << i for i, a in enumerate(poly))

def _primes(n):
    out, i = [], 2
    while i * i <= n:
        if n % i == 0:
            out.append(i)
            while n % i == 0: n //= i
        i += 1
    return out + [n] * (n > 1)

def _ppow(a, e, m):
    r = 1
    while e:
        if e & 1: r = pmod(pmul(r, a), m)
        a = pmod(pmul(a, a), m); e >>= 1
    return r

@st.composite
def order_case(draw):
    return dict(k=draw(st.one_of(st.integers(3, 33), st.sampled_from([11, 23, 25, 28, 29, 30, 32, 33]))), seed=draw(st.integers(0, 10 ** 6)), which=draw(st.integers(-1, 12)))

@check("A02", order_case(), quick=150, thorough=1200, weight=2)
def primitivity_turns_on_every_prime_of_the_order(c):
    """For a root b of an irreducible polynomial and each prime d dividing 2^k - 1, the minimal polynomial of b^d."""
    import random
    k, r = c["k"], random.Random(c["seed"])
    v = (1 << k) | r.getrandbits(k) | 1
    while not pirreducible(v): v = (1 << k) | ((v + 2) & ((1 << k) - 1)) | 1
    N = (1 << k) - 1; P = _primes(N)
    prim = all(_ppow(2, N // p, v) != 1 for p in P)
    assert BP(v).is_irreducible() is True and BP(v).is_primitive() is prim, f"{v}: primitive is {prim}"
    d = P[c["which"] % len(P)]
    w = _minpoly(_ppow(2, d, v), v, k)
    assert BP(w).is_irreducible() is True
    if w.bit_length() == k + 1:
        assert BP(w).is_primitive() is False, f"{w}: its roots have an order dividing (2^{k} - 1)/{d}"
        return "a factor above 1000" if d > 1000 else "a factor above 30" if d > 30 else "small factor"
    return "subfield"

# ------------------------------------------------------------------ A03
rule("A03", "All fields GF(2^k) with every irreducible modulus for small k (exhaustive triples for k<=3), generated moduli/elements up "
     "to k=24; oracle = integer arithmetic modulo the modulus. Non-trivial: operands other than 0 and 1.")

_IRR = {k: [v for v in range(1 << k, 1 << (k + 1)) if pirreducible(v)] for k in range(1, 11)}

@st.composite
def field_case(draw):
    k = draw(st.one_of(st.integers(1, 6), st.integers(1, 24)))
    if draw(st.integers(0, 2)) == 0: m = None
    elif k <= 10: m = draw(st.sampled_from(_IRR[k]))
    else:
        v = draw(st.integers(1 << k, (2 << k) - 1)) | 1
        while not pirreducible(v): v = (1 << k) | ((v + 2) & ((1 << k) - 1)) | 1
        m = v
    hi = (1 << k) - 1
    el = st.integers(0, hi)
    return dict(k=k, m=m, a=draw(el), b=draw(el), c=draw(el), e=draw(st.one_of(st.integers(-20, 40), st.integers(-2 ** 40, 2 ** 40))))

def _field(c):
    F = komm.FiniteBifield(c["k"]) if c["m"] is None else komm.FiniteBifield(c["k"], c["m"])
    m = int(F.modulus)
    if c["m"] is not None: assert m == c["m"]
    return F, m

@check("A03", field_case(), quick=2500, thorough=40000)
def field_ops(c):
    F, m = _field(c)
    a, b, k = c["a"], c["b"], c["k"]
    assert F.degree == k and F.order == 2 ** k and F.characteristic == 2 and pdeg(m) == k
    A, B, Z, one = F(a), F(b), F.zero, F.one
    val = lambda x: int(x.value)
    assert val(Z) == 0 and val(one) == 1
    assert val(A + B) == a ^ b and val(A - B) == a ^ b and val(-A) == a
    assert val(A * B) == pmod(pmul(a, b), m)
    assert (A == B) == (a == b) and (hash(A) == hash(F(a)))
    C = F(c["c"])
    assert (A * B) * C == A * (B * C) and A * (B + C) == A * B + A * C and A * B == B * A
    assert val(0 * A) == 0 and val(3 * A) == a and val(2 * A) == 0
    N = 2 ** k - 1
    e = c["e"]
    if a:
        inv = A.inverse()
        assert pmod(pmul(val(inv), a), m) == 1 and val(inv) <= N
        assert val(A ** e) == ppowmod(a, e % N, m)
        assert val(B / A) == pmod(pmul(b, ppowmod(a, (N - 1) % N if N > 1 else 0, m)), m)
        assert val(A ** N) == 1
    else:
        raises(ZeroDivisionError, A.inverse)
        raises(ZeroDivisionError, lambda: B / A)
        assert val(A ** 0) == 1
        if e > 0: assert val(A ** e) == 0
        if e < 0: raises(ZeroDivisionError, lambda: A ** e)
    F2 = komm.FiniteBifield(k, m)
    assert F2 == F and F2(a) == A
    return a > 1 and b > 1 and ("default modulus" if c["m"] is None else "custom modulus")

@st.composite
def log_case(draw):
    k = draw(st.integers(1, 9))
    m = draw(st.one_of(st.none(), st.sampled_from(_IRR[k])))
    return dict(k=k, m=m, a=draw(st.integers(0, 2 ** k - 1)), b=draw(st.integers(1, 2 ** k - 1)))

@check("A03", log_case(), quick=500, thorough=6000, weight=3)
def logs_conjugates_minpoly(c):
    F, m = _field(c)
    a, b, k = c["a"], c["b"], c["k"]
    A, B = F(a), F(b)
    p, ref = 1, None
    for i in range(2 ** k):
        if p == a: ref = i; break
        p = pmod(pmul(p, b), m)
    if ref is None: raises(ValueError, A.logarithm, B)
    else:
        r = A.logarithm(B)
        assert r == ref, (r, ref)
    conj, x = [], a
    while x not in conj:
        conj.append(x); x = pmod(pmul(x, x), m)
    got = [int(y.value) for y in A.conjugates()]
    assert sorted(got) == sorted(conj) and len(got) == len(set(got)) and got[0] == a, (got, conj)
    P = int(A.minimal_polynomial())
    # minimal polynomial: irreducible over GF(2), degree = number of conjugates, vanishes at a
    assert pdeg(P) == len(conj) and pirreducible(P), (P, conj)
    acc = 0
    for i in range(pdeg(P), -1, -1): acc = pmod(pmul(acc, a), m) ^ ((P >> i) & 1)
    assert acc == 0
    for n in (0, 1, 2, 3, -1, -2, 4, b, 2 * b, -b, 2 ** 70 + b):          # integer multiples: sums of that many copies
        assert n * A == (F(a) if n % 2 else F(0)), f"{n} times {a} in {F}"
    return a > 1 and b > 1

@st.composite
def big_log_case(draw):
    k = draw(st.integers(9, 13)); N = 2 ** k - 1
    e = draw(st.one_of(st.integers(0, N - 1), st.integers(1, 40).map(lambda d: N - d), st.integers(-3, 3).map(lambda d: (math.isqrt(N + 1) + d) * math.isqrt(N + 1)), st.integers(0, 40)))
    return dict(k=k, b=draw(st.one_of(st.just(2), st.integers(2, N))), e=e % N)

@check("A03", big_log_case(), quick=24, thorough=400, weight=6)
def logarithms_in_large_fields(c):
    k, b, e = c["k"], c["b"], c["e"]; N = 2 ** k - 1
    F = komm.FiniteBifield(k); m = int(F.modulus)
    order = N
    for q in {p for p in range(2, N + 1) if N % p == 0 and all(p % d for d in range(2, math.isqrt(p) + 1))}:
        while order % q == 0 and ppowmod(b, order // q, m) == 1: order //= q
    a = ppowmod(b, e, m)
    assert F(a).logarithm(F(b)) == e % order
    if order < N:
        g = next(g for g in range(2, N) if ppowmod(g, order, m) != 1); raises(ValueError, F(g).logarithm, F(b))
    assert int((F(b) ** e).value) == a and int((F(b) ** -e).value) == ppowmod(b, (N - e) % N, m)
    return "near the order" if N - e < 50 else "far"

def all_small_fields(tier):
    for k in range(1, 4 if tier == "quick" else 6):
        for m in _IRR[k]: yield dict(k=k, m=m)

@check("A03", cases=all_small_fields, weight=2)
def exhaustive_small_fields(c):
    F, m = _field(c)
    q = 2 ** c["k"]
    E = [F(i) for i in range(q)]
    mul = [[int((x * y).value) for y in E] for x in E]
    for i in range(q):
        assert mul[i] == [pmod(pmul(i, j), m) for j in range(q)]
        if i:
            assert sorted(mul[i]) == list(range(q))
            assert mul[i][int(E[i].inverse().value)] == 1
    return True

def moduli(tier):
    for k in range(1, 25): yield dict(k=k, kind="default")
    for k in range(1, 8):
        for v in range(1 << k, 1 << (k + 1)): yield dict(k=k, kind="poly", v=v)
    for k, v in [(0, 1), (-1, 1), (2, 11), (3, 7), (4, 37), (25, None), (30, (1 << 30) | 3), (31, (1 << 31) | 9), (28, (1 << 28) | 9), (33, (1 << 33) | 9)]:
        yield dict(k=k, kind="other", v=v)

@check("A03", cases=moduli, weight=2)
def moduli_validation(c):
    k = c["k"]
    if c["kind"] == "default":
        F = komm.FiniteBifield(k)
        assert pdeg(int(F.modulus)) == k and pprimitive(int(F.modulus)), "default modulus not primitive"
        assert eval(repr(F), {"FiniteBifield": komm.FiniteBifield}) == F
        return True
    v = c["v"]
    ok = k >= 1 and v is not None and pdeg(v) == k and pirreducible(v)
    if ok:
        F = komm.FiniteBifield(k, v)
        G = komm.FiniteBifield(k, BP(v))
        assert F == G and int(F.modulus) == v
        assert eval(repr(F), {"FiniteBifield": komm.FiniteBifield}) == F
        x = F((1 << k) - 1)
        assert int((x * x.inverse()).value) == 1
    else:
        raises(ValueError, komm.FiniteBifield, k, v)
    return True

@check("A03", field_case(), quick=300, thorough=2000)
def no_mixing(c):
    F, m = _field(c)
    other = [v for v in _IRR.get(c["k"], []) if v != m]
    G = komm.FiniteBifield(c["k"], other[c["a"] % len(other)]) if other else komm.FiniteBifield(c["k"] % 20 + 1 if c["k"] % 20 + 1 != c["k"] else 3)
    assert F != G and not F == G, "fields with different degree or modulus compare equal"
    assert F(1) != G(1)
    for f in (lambda: F(1) + G(1), lambda: F(1) * G(1), lambda: F(1) / G(1), lambda: F(1) - G(1)):
        raises(ValueError, f)
    return True

# ------------------------------------------------------------------ A04
rule("A04", "Numerators/denominators up to degree 60 with injected common factors; oracle = cross-multiplication with integer GF(2)[X] "
     "arithmetic. Non-trivial: denominator of degree >= 1 after reduction or common factor cancelled.")

@st.composite
def frac_pair(draw):
    def fr():
        g = draw(st.integers(1, 63)) if draw(st.booleans()) else 1
        n, d = _poly(draw, 40), _poly(draw, 40) or 1
        return [pmul(n, g), pmul(d, g)]
    x, y = fr(), fr()
    if draw(st.integers(0, 5)) == 0:
        g = draw(st.integers(1, 31)); y = [pmul(x[0], g), pmul(x[1], g)]
    return dict(x=x, y=y, z=fr(), e=draw(st.integers(-5, 5)))

def same(fr, n, d):
    assert pmul(int(fr.numerator), d) == pmul(n, int(fr.denominator)), (fr, n, d)
    assert pgcd(int(fr.numerator), int(fr.denominator)) == 1 and int(fr.denominator) != 0, "not in lowest terms"
    if n == 0: assert int(fr.numerator) == 0 and int(fr.denominator) == 1

@check("A04", frac_pair(), quick=3000, thorough=40000)
def fraction_field(c):
    (n1, d1), (n2, d2), (n3, d3) = c["x"], c["y"], c["z"]
    X, Y, Z = BPF(n1, d1), BPF(n2, d2), BPF(BP(n3), BP(d3))
    same(X, n1, d1); same(Y, n2, d2); same(Z, n3, d3)
    assert (X == Y) == (pmul(n1, d2) == pmul(n2, d1))
    s = pmul(n1, d2) ^ pmul(n2, d1)
    same(X + Y, s, pmul(d1, d2)); same(X - Y, s, pmul(d1, d2)); same(-X, n1, d1)
    same(X * Y, pmul(n1, n2), pmul(d1, d2))
    if n2: same(X / Y, pmul(n1, d2), pmul(d1, n2)); same(Y.inverse(), d2, n2)
    else:
        raises(ZeroDivisionError, lambda: X / Y); raises(ZeroDivisionError, Y.inverse)
    assert X * (Y + Z) == X * Y + X * Z and (X + Y) + Z == X + (Y + Z)
    e = c["e"]
    if e >= 0 or n1:
        a, b = (n1, d1) if e >= 0 else (d1, n1)
        pn, pd = 1, 1
        for _ in range(abs(e)): pn, pd = pmul(pn, a), pmul(pd, b)
        same(X ** e, pn, pd)
    else: raises(ZeroDivisionError, lambda: X ** e)
    same(0 * X, 0, 1); same(3 * X, n1, d1)
    for m in (2, -2, 1, -1, 2 ** 40, 2 * e, 2 * e + 1): same(m * X, *((n1, d1) if m % 2 else (0, 1)))
    raises(ZeroDivisionError, BPF, n1, 0)
    same(BPF(n1), n1, 1)
    g = pgcd(n1, d1)
    return g > 1 or pdeg(d1) >= 1
