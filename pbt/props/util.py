import math, itertools
from fractions import Fraction
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule
from ..gen import *
from ..gen import layout

# ------------------------------------------------------------------ U01
rule("U01", "Random/tied/skewed/zero-containing/deterministic pmfs of size 1..40, bases {2,e,others}; oracle = math.fsum of the defining "
     "terms with math.log. Non-trivial: at least two positive masses.", ["absolute accuracy 1e-9"])

bases = st.one_of(st.sampled_from([2.0, "e", 10.0, 3, 4.0, 2]), st.floats(1.05, 50), st.floats(0.05, 0.95))

def lg(x, base):
    if base == "e": return math.log(x)
    if base == 2.0: return math.log2(x)
    return math.log(x) / math.log(base)

TINY = st.sampled_from([5e-324, 1e-310, 2e-308, 1e-300, 1e-200, 1e-100, 1e-17])   # additions that do not change the sum

def seed_pmf(n, seed):
    """Large pmfs: Dirichlet of random sharpness."""
    rng = np.random.default_rng(seed)
    w = rng.gamma(10.0 ** rng.uniform(-1.5, 1), size=n) + 1e-300
    return (w / w.sum()).tolist()

@st.composite
def ent_case(draw):
    p = draw(pmf(1, draw(st.sampled_from([3, 8, 40, 40, 1000]))))if draw(st.integers(0, 5)) else seed_pmf(draw(st.integers(2, 5000)), draw(st.integers(0, 2 ** 32)))
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 3]))): p.insert(draw(st.integers(0, len(p))), draw(TINY))
    return dict(p=p, base=draw(bases), cont=draw(st.sampled_from(["list", "tuple", "np"])))

def cont(x, k): return {"list": list, "tuple": tuple, "np": np.array}[k](x)

@check("U01", ent_case(), quick=4000, thorough=60000)
def entropy_definition(c):
    p, base = c["p"], c["base"]
    ref = math.fsum(-x * lg(x, base) for x in p if x > 0)
    h = komm.entropy(cont(p, c["cont"]), base=base)
    assert isinstance(h, float) and math.isclose(h, ref, rel_tol=1e-9, abs_tol=1e-9), (h, ref)
    if base == "e" or base > 1:
        assert -1e-12 <= h <= lg(len(p), base) + 1e-9
    if base == 2.0: assert komm.entropy(p) == h
    # invariance under permutation and added zero masses
    assert math.isclose(komm.entropy(list(reversed(p)) + [0.0], base=base), ref, rel_tol=1e-9, abs_tol=1e-9)
    return sum(x > 0 for x in p) >= 2

@st.composite
def rel_case(draw):
    n = draw(st.integers(1, 10))
    p = draw(pmf(n, n)); q = draw(pmf(n, n))
    if draw(st.integers(0, 5)) == 0: q = list(p)
    if draw(st.integers(0, 3)) == 0:
        m = draw(st.integers(2, 2000)); p, q = seed_pmf(m, draw(st.integers(0, 2 ** 32))), seed_pmf(m, draw(st.integers(0, 2 ** 32)))
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        i = draw(st.integers(0, len(p))); p.insert(i, draw(st.one_of(TINY, st.just(0.0)))); q.insert(i, draw(TINY))
    if draw(st.integers(0, 3)) == 0:   # a mass of p where q is all but impossible
        i = draw(st.integers(0, len(q) - 1)); s = math.fsum(q[:i] + q[i + 1:])
        if s > 1e-9: q = [draw(TINY) if j == i else x / s for j, x in enumerate(q)]
    return dict(p=p, q=q, base=draw(bases))

@check("U01", rel_case(), quick=4000, thorough=60000)
def relative_entropy_definition(c):
    p, q, base = c["p"], c["q"], c["base"]
    d = komm.relative_entropy(p, q, base=base)
    pos = base == "e" or base > 1
    if any(x > 0 and y == 0 for x, y in zip(p, q)):
        assert d == (math.inf if pos else -math.inf), d
        return "infinite"
    ref = math.fsum(x * (lg(x, base) - lg(y, base)) for x, y in zip(p, q) if x > 0)
    assert math.isclose(d, ref, rel_tol=1e-9, abs_tol=1e-9), (d, ref)
    if pos:
        assert d >= -1e-12
        if max(abs(x - y) for x, y in zip(p, q)) > 1e-4: assert d > 0
    if p == q: assert abs(d) < 1e-12
    return len(p) >= 2

@st.composite
def close_pair(draw):
    n = draw(st.integers(2, 8))
    w = draw(st.lists(st.integers(1, 20), min_size=n, max_size=n)); d = draw(st.lists(st.integers(-3, 3), min_size=n, max_size=n))
    return dict(w=w, d=d, eps=draw(st.sampled_from([1e-2, 1e-3, 1e-4, 3e-5, 1e-5, 4e-6, 2e-6, 1e-6])), base=draw(bases))

@check("U01", close_pair(), quick=1500, thorough=20000)
def nearly_equal_distributions(c):
    """The divergence of almost equal distributions is tiny and not zero (exact differences, logarithm of one plus them)."""
    w, d, base = c["w"], list(c["d"]), c["base"]
    t = sum(w); p = [x / t for x in w]; d[-1] -= sum(d); q = [x + c["eps"] * e / t for x, e in zip(p, d)]
    if min(q) < 1e-3 or not all(map(math.isfinite, q)): raise Skip
    ln = 1.0 if base == "e" else math.log(base)
    ref = math.fsum(x * math.log1p(float((Fraction(x) - Fraction(y)) / Fraction(y))) for x, y in zip(p, q)) / ln
    tol = 2e-14 / abs(ln)
    got = komm.relative_entropy(p, q, base=base); assert abs(got - ref) <= tol + 1e-9 * abs(ref), (got, ref)
    # the same as information through a nearly useless channel with equally likely rows
    m = [(x + y) / 2 for x, y in zip(p, q)]
    js = math.fsum(0.5 * x * math.log1p(float((Fraction(x) - Fraction(z)) / Fraction(z))) for r in (p, q) for x, z in zip(r, m)) / ln
    ch = komm.DiscreteMemorylessChannel([p, q]); got = ch.mutual_information([0.5, 0.5], base=base)
    assert abs(got - js) <= tol + 1e-9 * abs(js), (got, js)
    return p != q and abs(ref) > 5 * tol and f"eps={c['eps']}"

probs = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 1e-12, 1 - 1e-12, 0.11, 5e-324, 1e-310, 1e-200]), st.floats(0, 1, allow_subnormal=False), st.floats(1e-15, 1e-3))

@check("U01", st.fixed_dictionaries(dict(p=probs, h=st.floats(0, 1))), quick=3000, thorough=40000)
def binary_entropy_and_inverse(c):
    p, h = c["p"], c["h"]
    ref = sum(-x * math.log2(x) for x in (p, 1 - p) if x > 0)
    v = komm.binary_entropy(p)
    assert math.isclose(v, ref, rel_tol=1e-9, abs_tol=1e-12) and -1e-15 <= v <= 1 + 1e-12
    assert math.isclose(v, komm.entropy([p, 1 - p]), rel_tol=1e-9, abs_tol=1e-9)
    hh = min(max(v, 0.0), 1.0)
    q = komm.binary_entropy_inv(hh)
    # near 1/2 the inverse is ill-conditioned: compare entropies there, arguments elsewhere
    m = min(p, 1 - p)
    assert 0 <= q <= 0.5
    assert abs(q - m) <= 5e-12 or abs(komm.binary_entropy(q) - hh) <= 1e-10 and abs(q - m) < 1e-4, (q, m)
    r = komm.binary_entropy_inv(h)
    assert 0 <= r <= 0.5 and abs(komm.binary_entropy(r) - h) <= 1e-9, (r, h)
    return 0 < p < 1

@st.composite
def bad_case(draw):
    kind = draw(st.sampled_from(["neg", "sum", "2d", "nan", "base", "shape", "prob", "h"]))
    p = draw(pmf(2, 6, zeros=False))
    return dict(kind=kind, p=p, x=draw(st.floats(0.001, 5)), s=draw(st.sampled_from([-1, 1])), base=draw(st.sampled_from([0.0, 1.0, -2.0, "2", "E", "nat", 1])))

@check("U01", bad_case(), quick=800, thorough=5000)
def invalid_inputs_rejected(c):
    p, x, k = list(c["p"]), c["x"], c["kind"]
    good = [1.0 / len(p)] * len(p)
    def all_reject(bad):
        raises(ValueError, komm.entropy, bad)
        raises(ValueError, komm.relative_entropy, bad, good)
        raises(ValueError, komm.relative_entropy, good, bad)
        raises(ValueError, komm.DiscreteMemorylessSource, bad)
    if k == "neg":
        p[0] += x + p[1]; p[1] = -x; all_reject(p)
    elif k == "sum":
        p[0] = max(0, p[0] + c["s"] * x)
        if abs(sum(p) - 1) < 1e-3: return False
        all_reject(p)
    elif k == "2d": raises(ValueError, komm.entropy, [p]); raises(ValueError, komm.relative_entropy, [p], [p])
    elif k == "nan": p[0] = math.nan; all_reject(p)
    elif k == "base":
        raises(ValueError, komm.entropy, p, base=c["base"]); raises(ValueError, komm.relative_entropy, p, good, base=c["base"])
    elif k == "shape": raises(ValueError, komm.relative_entropy, p, p + [0.0]); raises(ValueError, komm.relative_entropy, p + [0.0], p)
    elif k == "prob":
        b = 1 + x if c["s"] > 0 else -x
        raises(ValueError, komm.binary_entropy, b)
    else:
        b = 1 + x if c["s"] > 0 else -x
        raises(ValueError, komm.binary_entropy_inv, b)
    return k

# ------------------------------------------------------------------ U02
rule("U02", "Real arguments in [-38,38] (Q), probabilities (inverse Q), orders 1..20 with a,x in [0,60] (Marcum), L-values up to 1e4 and "
     "infinite (box-plus); oracles = composite Gauss-Legendre quadrature of the defining integrals and log-domain formulas. "
     "Non-trivial: value not within 1e-12 of 0 or 1 (Q functions), both operands nonzero (box-plus).",
     ["Marcum arguments bounded by 60", "absolute accuracy 1e-11 relative 1e-8"])

_GLX, _GLW = np.polynomial.legendre.leggauss(40)

def gl(f, a, b, pieces):
    e = np.linspace(a, b, pieces + 1)
    h = np.diff(e) / 2
    x = (e[:-1] + h)[:, None] + h[:, None] * _GLX
    return float(np.sum(f(x.ravel()).reshape(x.shape) * _GLW * h[:, None]))

def q_ref(x):
    f = lambda u: np.exp(-u * u / 2) / math.sqrt(2 * math.pi)
    if x < 0: return 1 - q_ref(-x)
    return gl(f, x, x + 14, 24)

@st.composite
def q_case(draw):
    xs = draw(st.lists(st.one_of(st.floats(-8, 8), st.floats(-37, 37), st.sampled_from([0.0, 1.0, -1.0])), min_size=1, max_size=6))
    return dict(xs=xs, ys=draw(st.lists(st.one_of(st.floats(1e-300, 1 - 1e-12), st.floats(1e-15, 0.01), st.sampled_from([0.5, 0.25, 0.75])), min_size=1, max_size=4)),
                tiny=draw(st.sampled_from([5e-324, 1e-323, 1e-320, 1e-315, 3e-310, 2e-308, 1e-305, 1e-302])), shape=draw(st.sampled_from(["scalar", "flat", "col"])))

def apply_shaped(f, xs, shape):
    if shape == "scalar":
        r = []
        for x in xs:
            y = f(x)
            assert isinstance(y, float), type(y)
            r.append(y)
        return r
    arr = np.array(xs) if shape == "flat" else np.array(xs)[:, None]
    y = np.asarray(f(arr))
    assert y.shape == arr.shape, (y.shape, arr.shape)
    return y.ravel().tolist()

@check("U02", q_case(), quick=1500, thorough=20000)
def gaussian_q_integral(c):
    xs = c["xs"]
    got = apply_shaped(komm.gaussian_q, xs, c["shape"])
    for x, y in zip(xs, got):
        ref = q_ref(x)
        assert math.isclose(y, ref, rel_tol=1e-9, abs_tol=1e-14 if x < 0 else 1e-300), (x, y, ref)
        assert 0 <= y <= 1
    order = sorted(zip(xs, got))
    assert all(b[1] <= a[1] for a, b in zip(order, order[1:])), "Q not decreasing"
    assert komm.gaussian_q(math.inf) == 0 and komm.gaussian_q(-math.inf) == 1
    inv = apply_shaped(komm.gaussian_q_inv, c["ys"], c["shape"])
    for y, x in zip(c["ys"], inv):
        back = q_ref(x)
        slack = 1e-8 if x > -6 else 1e-4
        assert math.isclose(back, y, rel_tol=1e-9, abs_tol=0 if x > -5 else 1e-11), (y, x, back)
        if 0 < y < 0.5:        # full relative precision in the lower half, against the complementary error function
            q = 0.5 * math.erfc(x / math.sqrt(2)); assert abs(q - y) <= 1e-14 * (1 + x * x) * y, (y, x, q)
    y = c["tiny"]; x = komm.gaussian_q_inv(y); q = lambda x: 0.5 * math.erfc(x / math.sqrt(2))
    assert 37 < x < 38.6 and q(x * (1 + 1e-9)) <= y + 1e-323 and q(x * (1 - 1e-9)) >= y - 1e-323, (y, x)
    for x in xs:
        if -5 < x < 37:
            assert math.isclose(komm.gaussian_q_inv(komm.gaussian_q(x)), x, rel_tol=1e-8, abs_tol=1e-8), x
    assert komm.gaussian_q_inv(0) == math.inf and komm.gaussian_q_inv(1) == -math.inf and komm.gaussian_q_inv(0.5) == 0
    return any(1e-12 < y < 1 - 1e-12 for y in got)

_LGF = np.cumsum(np.concatenate([[0.0], np.log(np.arange(1, 8000.0))]))  # log k!

def marcum_ref(m, a, x):
    """Quadrature of the defining integral with the ascending series of I_{m-1} in the log domain."""
    lo, hi = x, max(x, math.sqrt(a * a + 2 * m)) + 12.0
    complement = x < a  # integrate the smaller side
    if complement: lo, hi = max(0.0, min(x, a) - 60.0) * 0, x
    kmax = int(max(hi, 1) * a / 2 + 10 * math.sqrt(hi * a + 1) + 40)
    k = np.arange(kmax)
    lgk = _LGF[:kmax] + _LGF[m - 1: m - 1 + kmax] + (2 * k + m - 1) * math.log(2)
    lak = 2 * k * math.log(a) if a > 0 else np.where(k == 0, 0.0, -np.inf)
    def f(u):
        out = np.empty_like(u)
        for s in range(0, len(u), 256):
            uu = u[s:s + 256]
            lu = np.log(uu)[:, None]
            t = (2 * k + 2 * m - 1) * lu + lak - lgk - ((uu * uu + a * a) / 2)[:, None]
            out[s:s + 256] = np.exp(t).sum(axis=1)
        return out
    if complement:
        lo = max(0.0, x - 25.0)
        v = gl(f, lo, x, max(2, int((x - lo) * 1.2) + 2)) if x > lo else 0.0
        return 1.0 - v
    return gl(f, lo, hi, max(4, int((hi - lo) * 1.2) + 2))

@st.composite
def marcum_case(draw):
    m = draw(st.one_of(st.integers(1, 5), st.integers(1, 20), st.integers(1, 20), st.integers(20, 300)))
    mx = draw(st.sampled_from([3.0, 10.0, 60.0]))
    a = draw(st.one_of(st.just(0.0), st.floats(0, mx), st.floats(0.5, mx)))
    kind = draw(st.sampled_from(["any", "near"]))
    x = draw(st.floats(0, mx)) if kind == "any" else min(60.0, max(0.0, math.sqrt(a * a + 2 * m) + draw(st.floats(-4, 4))))
    if 0 < a < 1e-30: a = 0.0
    if 0 < x < 1e-30: x = 0.0
    return dict(m=m, a=a, x=x, dx=draw(st.floats(0, 2)))

@check("U02", marcum_case(), quick=400, thorough=5000, weight=5)
def marcum_integral(c):
    m, a, x = c["m"], c["a"], c["x"]
    y = komm.marcum_q(m, a, x)
    assert isinstance(y, float)
    ref = marcum_ref(m, a, x) if x > 0 else 1.0
    assert math.isclose(y, ref, rel_tol=1e-8, abs_tol=1e-11), (y, ref)
    assert -1e-12 <= y <= 1 + 1e-11
    y2 = komm.marcum_q(m, a, x + c["dx"])
    assert y2 <= y + 1e-11
    arr = np.asarray(komm.marcum_q(m, np.array([[a, a]]), np.array([[x, x + c["dx"]]])))
    assert arr.shape == (1, 2); close(arr[0], [y, y2], 1e-12, 1e-15)
    arr = np.asarray(komm.marcum_q(m, a, [x, x + c["dx"]])); close(arr, [y, y2], 1e-12, 1e-15)
    return 1e-12 < y < 1 - 1e-12 and ("large" if max(a, x) > 10 else "moderate")

def boxplus_ref(a, b):
    if a == 0 or b == 0: return 0.0
    s = math.copysign(1, a) * math.copysign(1, b)
    x, y = sorted((abs(a), abs(b)))
    if math.isinf(y): return s * x
    # log((1+e^{x+y})/(e^x+e^y)) = x + log1p(e^-(x+y)) - log1p(e^-(y-x))
    if x < 1 and y < 20:
        t = math.tanh(x / 2) * math.tanh(y / 2)
        return s * 2 * math.atanh(t)
    return s * (x + math.log1p(math.exp(-(x + y))) - math.log1p(math.exp(-(y - x))))

lval = st.one_of(st.floats(-10, 10), st.floats(-1e4, 1e4), st.sampled_from([0.0, math.inf, -math.inf, 1.0, -30.0, 700.0, -745.0, 40.0]))

@st.composite
def box_case(draw):
    n = draw(st.integers(1, 4))
    a = draw(st.lists(lval, min_size=n, max_size=n))
    b = draw(st.lists(st.one_of(lval, st.sampled_from(a), st.sampled_from([-x for x in a])), min_size=n, max_size=n))
    f = lambda l: [("inf" if x == math.inf else "-inf" if x == -math.inf else x) for x in l]
    return dict(a=f(a), b=f(b))

@check("U02", box_case(), quick=3000, thorough=40000)
def boxplus_definition(c):
    A, B = [float(x) for x in c["a"]], [float(x) for x in c["b"]]
    ref = [boxplus_ref(x, y) for x, y in zip(A, B)]
    def ok(g, r): return g == r or math.isclose(g, r, rel_tol=1e-9, abs_tol=1e-12)
    for x, y, r in zip(A, B, ref):
        g = komm.boxplus(x, y)
        assert isinstance(g, float) and ok(g, r), (x, y, g, r)
        assert komm.boxplus(y, x) == g, "not commutative"
        assert abs(g) <= min(abs(x), abs(y)) + 1e-12
        assert ok(komm.boxplus(-x, y), -r)
        assert komm.boxplus(x, math.inf) == x and komm.boxplus(x, -math.inf) == -x
    g = np.asarray(komm.boxplus(A, B))
    assert g.shape == (len(A),) and all(ok(p, q) for p, q in zip(g.tolist(), ref)), (g, ref)
    g2 = np.asarray(komm.boxplus(np.array(A)[None], np.array(B)[None]))
    assert g2.shape == (1, len(A))
    raises(ValueError, komm.boxplus, A, B + [1.0])
    return all(A) and all(B) and ("infinite" if any(map(math.isinf, A + B)) else "finite")

@check("U02", st.fixed_dictionaries(dict(m=st.integers(-2, 0), a=st.floats(0.001, 5), x=st.floats(0.001, 5))), quick=60, thorough=300)
def marcum_domain(c):
    raises(ValueError, komm.marcum_q, c["m"], c["a"], c["x"])
    raises(ValueError, komm.marcum_q, 1, -c["a"], c["x"])
    raises(ValueError, komm.marcum_q, 1, c["a"], -c["x"])
    raises(ValueError, komm.marcum_q, 2, [c["a"], -c["a"]], c["x"])
    return True

# ------------------------------------------------------------------ U03
rule("U03", "Integer-valued real or complex arrays with 1..4 axes, every axis (also negative), factors 1..5, all offsets, convolution modes, "
     "FFT sizes, shifts in [-3L,3L]; oracle = direct indexed loops/sums. Non-trivial: factor>=2, two-sample kernels, or length >=3.")

@st.composite
def arr(draw, min_dim=1, max_dim=3, lo=1, hi=5, cplx=None):
    shape = draw(st.lists(st.integers(lo, hi), min_size=min_dim, max_size=max_dim))
    n = int(np.prod(shape))
    re = draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n))
    c = draw(st.booleans()) if cplx is None else cplx
    im = draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n)) if c else None
    return dict(shape=shape, re=re, im=im)

def mk(d, dtype=None):
    a = np.array(d["re"], dtype=dtype or (float if d["im"] else int)).reshape(d["shape"])
    if d["im"]: a = a + 1j * np.array(d["im"]).reshape(d["shape"])
    return a

@st.composite
def resample_case(draw):
    a = draw(arr(1, 4, 0 if draw(st.integers(0, 9)) == 0 else 1, 6))
    nd = len(a["shape"])
    f = draw(st.integers(1, 5))
    return dict(a=a, factor=f, offset=draw(st.integers(0, f - 1)), axis=draw(st.integers(-nd, nd - 1)), lst=draw(st.booleans()))

@check("U03", resample_case(), quick=3000, thorough=40000)
def resampling(c):
    x, M, d, ax = mk(c["a"]), c["factor"], c["offset"], c["axis"]
    arg = x.tolist() if c["lst"] and 0 not in x.shape else x
    y = komm.sampling_rate_compress(arg, M, d, axis=ax)
    m = np.moveaxis(x, ax, -1)
    ref = np.moveaxis(m[..., [i for i in range(m.shape[-1]) if i % M == d]], -1, ax)
    equal(y, ref)
    z = komm.sampling_rate_expand(arg, M, d, axis=ax)
    ref = np.zeros(m.shape[:-1] + (m.shape[-1] * M,), dtype=x.dtype)
    for i in range(m.shape[-1]): ref[..., i * M + d] = m[..., i]
    equal(z, np.moveaxis(ref, -1, ax))
    assert z.dtype == x.dtype and y.dtype == x.dtype
    equal(komm.sampling_rate_compress(z, M, d, axis=ax), x)
    if ax == -1 or x.ndim == 1: equal(komm.sampling_rate_expand(arg, M, d), z); equal(komm.sampling_rate_compress(arg, M, d), y)
    if d == 0: equal(komm.sampling_rate_expand(arg, M, axis=ax), z); equal(komm.sampling_rate_compress(arg, M, axis=ax), y)
    for f in (komm.sampling_rate_compress, komm.sampling_rate_expand):
        raises(ValueError, f, x, M, M); raises(ValueError, f, x, M, -1); raises(ValueError, f, x, 0, 0); raises(ValueError, f, x, -M, 0)
    return M >= 2 and x.shape[ax] >= 2

@st.composite
def conv_case(draw):
    a = draw(arr(1, 3, 1, 6)); k = draw(arr(1, 1, 1, 7))
    nd = len(a["shape"])
    return dict(a=a, k=k, axis=draw(st.integers(-nd, nd - 1)), mode=draw(st.sampled_from(["full", "valid", "same"])), swap=draw(st.booleans()))

@check("U03", conv_case(), quick=2000, thorough=30000)
def convolution(c):
    x, k, ax, mode = mk(c["a"]), mk(c["k"]), c["axis"], c["mode"]
    y = komm.convolve(k, x, axis=ax, mode=mode) if c["swap"] else komm.convolve(x, k, axis=ax, mode=mode)
    m = np.moveaxis(x, ax, -1)
    N, K = m.shape[-1], k.size
    full = np.zeros(m.shape[:-1] + (N + K - 1,), dtype=complex)
    for i in range(N):
        for j in range(K): full[..., i + j] += m[..., i] * k[j]
    if mode == "valid":
        lo, n = min(N, K) - 1, max(N, K) - min(N, K) + 1
    elif mode == "same":
        n = max(N, K); lo = (min(N, K) - 1) // 2
    else: lo, n = 0, N + K - 1
    close(y, np.moveaxis(full[..., lo:lo + n], -1, ax), 1e-12, 1e-12)
    if mode == "full" and ax == -1: close(komm.convolve(x, k), y, 0, 0)
    if x.ndim > 1:
        raises(ValueError, komm.convolve, x, x)
    return N >= 2 and K >= 2

@st.composite
def fft_case(draw):
    a = draw(arr(1, 3, 1, 9))
    nd = len(a["shape"])
    return dict(a=a, axis=draw(st.integers(-nd, nd - 1)), dt=draw(st.sampled_from([1.0, 0.1, 0.25, 3.0, 1e-3])), nfft=draw(st.one_of(st.none(), st.integers(1, 16))))

@check("U03", fft_case(), quick=1500, thorough=20000)
def fourier(c):
    x, ax, dt = mk(c["a"]), c["axis"], c["dt"]
    S, f = komm.fourier_transform(x, dt, nfft=c["nfft"], axis=ax)
    m = np.moveaxis(x, ax, -1)
    n = c["nfft"] or m.shape[-1]
    t = m[..., :n]
    bins = np.arange(n) - n // 2
    close(f, bins / (n * dt), 1e-12, 1e-12)
    W = np.exp(-2j * np.pi * np.outer(np.arange(t.shape[-1]), bins) / n)
    close(S, np.moveaxis((t @ W) * dt, -1, ax), 1e-9, 1e-9)
    return m.shape[-1] >= 3

@st.composite
def corr_case(draw):
    a = draw(arr(1, 1, 1, 12))
    L = a["shape"][0]
    sh = draw(st.one_of(st.none(), st.lists(st.integers(-3 * L - 1, 3 * L + 1), min_size=1, max_size=8)))
    if not any(a["re"]): a["re"][0] = 1
    return dict(a=a, shifts=sh, norm=draw(st.booleans()), flt=draw(st.booleans()))

@check("U03", corr_case(), quick=3000, thorough=40000)
def correlations(c):
    x = mk(c["a"], float if c["flt"] else None)
    L = x.size
    sh = list(range(L)) if c["shifts"] is None else c["shifts"]
    arg = None if c["shifts"] is None else (np.array(sh) if c["flt"] else list(sh))
    xs = x.tolist()
    E = sum(abs(v) ** 2 for v in xs)
    lin = [sum(xs[n] * np.conj(xs[n - l]) for n in range(L) if 0 <= n - l < L) for l in sh]
    cyc = [sum(xs[n] * np.conj(xs[(n - l) % L]) for n in range(L)) for l in sh]
    for f, ref in ((komm.autocorrelation, lin), (komm.cyclic_autocorrelation, cyc)):
        r = f(x, arg, normalized=c["norm"])
        close(r, np.array(ref) / (E if c["norm"] else 1), 1e-9, 1e-9)
        if not c["norm"]: close(f(xs, arg), np.array(ref), 1e-9, 1e-9)
    return L >= 3 and any(l < 0 or l >= L for l in sh) and ("complex" if c["a"]["im"] else "real")

# ---- large arrays, layouts and dtypes ---------------------------------------------------------
@st.composite
def bigsig_case(draw):
    nd = draw(st.integers(1, 4))
    return dict(nd=nd, axis=draw(st.integers(-nd, nd - 1)), n=draw(st.sampled_from([1, 2, 37, 256, 1000])), f=draw(st.sampled_from([1, 2, 7, 16, 100])), off=draw(st.integers(0, 99)),
                k=draw(st.sampled_from([1, 2, 5, 64, 300])), nfft=draw(st.sampled_from([None, 1, 17, 64, 513, 1024])), dt=draw(st.sampled_from(["float64", "complex128", "int64", "int16", "float32", "complex64", "uint8", "bool"])),
                lay=draw(st.sampled_from(["array", "fortran", "strided", "reversed", "readonly", "transposed", "list"])), scale=draw(st.sampled_from([1.0, 1e-9, 1e9])), ts=draw(st.sampled_from([1.0, 1e-9, 0.3, 1e6])),
                mode=draw(st.sampled_from(["full", "valid", "same"])), seed=draw(st.integers(0, 2 ** 32)))

@check("U03", bigsig_case(), quick=700, thorough=10000, weight=3)
def large_signals(c):
    rng = np.random.default_rng(c["seed"]); nd, ax, dt = c["nd"], c["axis"], c["dt"]
    shape = [2, 3, 1, 2][:nd]; shape[ax] = c["n"]
    x = rng.normal(size=shape) * c["scale"]
    if dt.startswith("complex"): x = (x + 1j * rng.normal(size=shape) * c["scale"]).astype(dt)
    elif dt.startswith("float"): x = x.astype(dt)
    else: x = rng.integers(0, 2 if dt == "bool" else 100, shape).astype(dt)
    lay = c["lay"]; a = x if lay == "array" else np.ascontiguousarray(x.T).T if lay == "transposed" else layout(x, lay)
    keep = np.array(a, copy=True)
    M, d = c["f"], c["off"] % c["f"]; m = np.moveaxis(x, ax, -1); n = m.shape[-1]
    y = komm.sampling_rate_compress(a, M, d, axis=ax); equal(y, np.moveaxis(m[..., d::M], -1, ax))
    z = komm.sampling_rate_expand(a, M, d, axis=ax)
    ref = np.zeros(m.shape[:-1] + (n, M), dtype=x.dtype); ref[..., d] = m; ref = ref.reshape(m.shape[:-1] + (n * M,))
    equal(z, np.moveaxis(ref, -1, ax))
    if lay != "list": assert z.dtype == x.dtype and y.dtype == x.dtype
    equal(komm.sampling_rate_compress(z, M, d, axis=ax), x)
    X = m.astype(complex); dt_ = c["ts"]; N = c["nfft"] or n
    S, f = komm.fourier_transform(a, dt_, nfft=c["nfft"], axis=ax)
    bins = np.arange(N) - N // 2; close(f * dt_ * N, bins.astype(float), 1e-12, 1e-9)
    T = X[..., :N]; W = np.exp(-2j * np.pi * (np.outer(np.arange(T.shape[-1]), bins) % N) / N)
    want = np.moveaxis(T @ W * dt_, -1, ax); amp = float(np.abs(want).max(initial=0)); rt = 1e-4 if dt in ("float32", "complex64") else 1e-9
    close(S, want, 0, rt * amp + 1e-300)
    if dt not in ("uint8", "bool", "int16"):
        k = rng.normal(size=c["k"]); K = k.size
        r = komm.convolve(a, k, axis=ax, mode=c["mode"]); r2 = komm.convolve(k, a, axis=ax, mode=c["mode"])
        full = np.fft.ifft(np.fft.fft(X, n + K - 1) * np.fft.fft(k, n + K - 1))
        lo, cnt = (min(n, K) - 1, max(n, K) - min(n, K) + 1) if c["mode"] == "valid" else ((min(n, K) - 1) // 2, max(n, K)) if c["mode"] == "same" else (0, n + K - 1)
        want = np.moveaxis(full[..., lo:lo + cnt], -1, ax); amp = float(np.abs(full).max(initial=0)) + 1e-300
        for q in (r, r2): close(q, want, 0, (1e-4 if rt > 1e-6 else 1e-8) * amp)
    equal(np.array(a), keep)
    return dt + "-" + lay if n > 2 else False


@st.composite
def hugesig_case(draw):
    return dict(n=draw(st.one_of(st.integers(400, 6000), st.sampled_from([1001, 1024, 2047, 2048, 2049, 4096, 4097, 10007, 20000]))), k=draw(st.one_of(st.integers(1, 700), st.sampled_from([1000, 1025, 3000, 5000]))),
                nfft=draw(st.one_of(st.none(), st.none(), st.integers(1000, 9000))), nd=draw(st.integers(1, 2)), dt=draw(st.sampled_from(["float", "complex", "complex", "int", "intbig"])),
                kdt=draw(st.sampled_from(["float", "complex", "int", "intbig"])), mode=draw(st.sampled_from(["full", "full", "valid", "same"])), ts=draw(st.sampled_from([1.0, 0.5, 1e-3])),
                f=draw(st.sampled_from([2, 3, 50, 1000])), seed=draw(st.integers(0, 2 ** 32)))

@check("U03", hugesig_case(), quick=160, thorough=3000, weight=10)
def very_long_signals(c):
    rng = np.random.default_rng(c["seed"])
    def sig(shape, dt):
        if dt == "int": return rng.integers(-100, 101, shape)
        if dt == "intbig": return rng.integers(-2 ** 24, 2 ** 24, shape)          # products need 60 bits, floats have 53
        x = rng.normal(size=shape)
        return x + 1j * rng.normal(size=shape) if dt == "complex" else x
    x = sig((c["n"],) if c["nd"] == 1 else (2, c["n"]), c["dt"]); n = c["n"]; h = sig(c["k"], c["kdt"]); K = h.size
    S, f = komm.fourier_transform(x, c["ts"], nfft=c["nfft"]); N = c["nfft"] or n
    assert np.shape(S) == x.shape[:-1] + (N,) and np.shape(f) == (N,)
    bins = np.arange(N) - N // 2; close(np.asarray(f) * c["ts"] * N, bins.astype(float), 1e-12, 1e-9 * N)
    T = x[..., :N].astype(complex); amp = float(np.abs(T).sum(axis=-1).max()) * c["ts"] + 1e-300
    for b in [0, N // 2, N - 1, *rng.integers(0, N, 8)]:
        w = np.exp(-2j * np.pi * ((np.arange(T.shape[-1]) * int(bins[b])) % N) / N)
        close(S[..., b], T @ w * c["ts"], 0, 1e-10 * amp)
    y = komm.convolve(x, h, mode=c["mode"]) if c["seed"] % 2 else komm.convolve(h, x, mode=c["mode"])
    lo, cnt = (min(n, K) - 1, max(n, K) - min(n, K) + 1) if c["mode"] == "valid" else ((min(n, K) - 1) // 2, max(n, K)) if c["mode"] == "same" else (0, n + K - 1)
    assert np.shape(y) == x.shape[:-1] + (cnt,)
    ex = c["dt"] in ("int", "intbig") and c["kdt"] in ("int", "intbig")
    for j in [0, cnt - 1, *rng.integers(0, cnt, 10)]:
        m = lo + int(j); a, b = max(0, m - K + 1), min(m, n - 1)
        if ex:
            for r, g in zip(x.reshape(-1, n), np.asarray(y).reshape(-1, cnt)):
                want = sum(int(u) * int(v) for u, v in zip(r[a:b + 1], h[m - b:m - a + 1][::-1]))
                assert int(g[j]) == want, f"sample {j}: {g[j]} != {want}"
        else:
            want = (x[..., a:b + 1] * h[m - b:m - a + 1][::-1]).sum(axis=-1)
            sc = (np.abs(x[..., a:b + 1]) * np.abs(h[m - b:m - a + 1][::-1])).sum(axis=-1).max()
            close(np.asarray(y)[..., j], want, 0, 1e-9 * (np.abs(x).max() * np.abs(h).max() * math.sqrt(K) + sc))
    M = c["f"]; d = c["seed"] % M
    z = komm.sampling_rate_expand(x, M, d); assert z.shape == x.shape[:-1] + (n * M,); equal(z[..., d::M], x); assert np.count_nonzero(z) == np.count_nonzero(x)
    equal(komm.sampling_rate_compress(z, M, d), x); equal(komm.sampling_rate_compress(x, M, d), x[..., d::M])
    v = x.reshape(-1, n)[0]; v = v % 1000 if c["dt"] == "intbig" else v
    far = rng.integers(-2 * n, 2 * n, 9).tolist(); sh = far + [0, 1, -1, n - 1, n, -n, 1 - n] + [-q for q in far]
    sh = np.array(sorted(sh) if c["seed"] % 3 else sh)
    A = np.asarray(komm.autocorrelation(v, sh)); C = np.asarray(komm.cyclic_autocorrelation(v, sh)); E = float((np.abs(v) ** 2).sum())
    for i, l in enumerate(sh.tolist()):
        a = 0 if abs(l) >= n else np.dot(v[l:], np.conj(v[:n - l])) if l >= 0 else np.dot(v[:n + l], np.conj(v[-l:]))
        if c["dt"] in ("int", "intbig"): assert A[i] == a and C[i] == np.dot(v, np.roll(v, l)), f"shift {l}"
        else: close(A[i], a, 0, 1e-10 * E); close(C[i], np.dot(v, np.conj(np.roll(v, l))), 0, 1e-10 * E)
    if c["seed"] % 4 == 0:
        full = np.asarray(komm.cyclic_autocorrelation(v)) if n <= 2100 else None
        if full is not None:
            want = np.fft.ifft(np.abs(np.fft.fft(v)) ** 2)
            if c["dt"] in ("int", "intbig"): assert (full == np.round(want.real).astype(int)).all(), "default shifts"
            else: close(full, want, 0, 1e-9 * E)
    return c["dt"] + "-" + c["kdt"]
