"""Q01-Q02: scalar quantizers."""
import math
import numpy as np
import komm
from fractions import Fraction
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from ..gen import equal, close, raises, is_int_array, floats, layout
from .pulses import panels, split

rule("Q01", "Non-trivial: at least two cells receive inputs, or the integration range meets at least two cells (label: quantizer kind and regime).",
     ["finite levels and thresholds; inputs finite or infinite (not NaN)",
      "the mean squared error is the trapezoidal approximation of the documented default resolution: relative tolerance 2e-4 for smooth densities"])
rule("Q02", "Non-trivial: at least two levels and the density is not uniform (label: density kind).",
     ["densities on the range with features at least 1/40 of the range wide, possibly zero on parts of it; convergence within 1e-5 of the range"])

# ---- quantizers ----------------------------------------------------------------------------
GRID = st.integers(-200, 200)

@st.composite
def quant(draw):
    t = draw(st.sampled_from(["general", "general", "uniform", "riser", "tread"]))
    if t == "general":
        L = draw(st.integers(1, 7)); sc = draw(st.sampled_from([1.0, 0.1, 1e-3, 1e6, 1 / 3]))
        v = sorted(draw(st.lists(GRID, min_size=2 * L - 1, max_size=2 * L - 1, unique=True)))
        return dict(t=t, v=[x * sc for x in v])
    L = draw(st.integers(2, 17)); step = draw(st.one_of(st.sampled_from([1.0, 0.5, 2.0, 0.1, 1e-3, 0.25, 3.0]), floats(0.01, 10)))
    off = draw(st.one_of(st.sampled_from([0.0, 0.5, -0.5, 0.25, 1.0, 3.0]), floats(-5, 5))) if t == "uniform" else 0.0
    return dict(t=t, L=L, step=step, off=off)

def build(c):
    if c["t"] == "general": return komm.ScalarQuantizer(c["v"][0::2], c["v"][1::2])
    if c["t"] == "uniform": return komm.UniformQuantizer(c["L"], c["step"], c["off"]) if c["off"] else komm.UniformQuantizer(num_levels=c["L"], step=c["step"])
    return (komm.UniformQuantizer.mid_riser if c["t"] == "riser" else komm.UniformQuantizer.mid_tread)(c["L"], c["step"])

def ref(c):
    """Documented levels and thresholds."""
    if c["t"] == "general": return c["v"][0::2], c["v"][1::2]
    L, s = c["L"], c["step"]
    th = c["off"] if c["t"] == "uniform" else (0.0 if (L % 2 == 0) == (c["t"] == "riser") else -0.5)
    y = [float((Fraction(2 * i - L + 1, 2) + Fraction(th)) * Fraction(s)) for i in range(L)]
    return y, [float((Fraction(2 * i - L, 2) + Fraction(th)) * Fraction(s)) for i in range(1, L)]

@st.composite
def q_case(draw):
    c = draw(quant()); y, t = ref(c); sc = max(abs(y[0]), abs(y[-1]), 1e-3)
    xs = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["thr", "lev", "in", "near", "far", "inf", "zero"]))
        if k == "thr" and t: xs.append(draw(st.sampled_from(t)))
        elif k == "lev": xs.append(draw(st.sampled_from(y)))
        elif k == "near" and t: xs.append(float(np.nextafter(draw(st.sampled_from(t)), draw(st.sampled_from([-np.inf, np.inf])))))
        elif k == "far": xs.append(sc * draw(st.sampled_from([2.0, -2.0, 1e6, -1e6, 1e300 / sc, -1e300 / sc])))
        elif k == "inf": xs.append(draw(st.sampled_from([1e308, -1e308])))
        elif k == "zero": xs.append(draw(st.sampled_from([0.0, -0.0])))
        else: xs.append(y[0] + (y[-1] - y[0]) * draw(floats(-0.3, 1.3)))
    return dict(q=c, x=xs, inf=draw(st.booleans()), form=draw(st.sampled_from(["array", "list", "2d", "scalar", "3d", "empty"])))

@check("Q01", q_case(), quick=5000, thorough=60000, weight=2)
def cells_and_levels(c):
    q = build(c["q"]); y, t = ref(c["q"])
    scale = max(map(abs, y + t)) or 1.0
    close(q.levels, y, 1e-12, 1e-14 * scale); close(q.thresholds, t, 1e-12, 1e-14 * scale)
    Y, T = np.array(q.levels), np.array(q.thresholds)
    x = c["x"] + ([math.inf, -math.inf] if c["inf"] else [])
    want = np.array([sum(1 for b in T if b <= v) for v in x])
    f = c["form"]
    if f == "scalar":
        for v, w in zip(x, want):
            assert np.ndim(q.digitize(v)) == 0 and int(q.digitize(v)) == w, f"digitize({v})"
            assert float(q.quantize(v)) == Y[w]
    elif f == "empty":
        assert np.asarray(q.digitize([])).shape == (0,) and np.asarray(q.quantize(np.empty((2, 0)))).shape == (2, 0)
    else:
        a = list(x) if f == "list" else np.array(x) if f == "array" else np.array([x, x[::-1]]) if f == "2d" else np.array(x).reshape(-1, 1, 1)
        w = np.array([want, want[::-1]]) if f == "2d" else want.reshape(np.shape(a))
        keep = np.array(a)
        d, v = q.digitize(a), q.quantize(a)
        is_int_array(d); equal(d, w); equal(v, Y[w]); equal(np.array(a), keep)
    # idempotent on levels and monotone
    equal(q.quantize(Y), Y); equal(q.digitize(Y), np.arange(Y.size)); equal(q.quantize(q.quantize(x)), q.quantize(x))
    s = np.sort(np.array(x)); assert (np.diff(q.quantize(s)) >= 0).all()
    if c["q"]["t"] != "general":
        L, step = c["q"]["L"], c["q"]["step"]
        inside = [v for v in x if Y[0] - step / 2 <= v <= Y[-1] + step / 2]
        assert all(abs(q.quantize(v) - v) <= step / 2 * (1 + 1e-9) + 1e-12 * scale for v in inside)
        if c["q"]["t"] == "riser":
            assert 0.0 in T.tolist()
            if L % 2 == 0: close(Y, -Y[::-1], 1e-12, 0)
        if c["q"]["t"] == "tread":
            assert 0.0 in Y.tolist()
            if L % 2 == 1: close(Y, -Y[::-1], 1e-12, 0)
        close(np.diff(Y), np.full(L - 1, step), 1e-9, 1e-12 * scale)
    return c["q"]["t"] + ("-onecell" if len(set(want)) == 1 else "") if f != "empty" else False

@st.composite
def int_case(draw):
    return dict(q=draw(quant()), x=draw(st.lists(st.integers(0, 100), min_size=1, max_size=8)), dt=draw(st.sampled_from(["int64", "int8", "uint8", "float32", "tuple", "bool"])))

@check("Q01", int_case(), quick=1500, thorough=15000)
def containers_do_not_matter(c):
    q = build(c["q"])
    a = tuple(c["x"]) if c["dt"] == "tuple" else np.array(c["x"]) % 2 == 1 if c["dt"] == "bool" else np.array(c["x"]).astype(c["dt"])
    b = np.array(a, dtype=float)
    equal(q.digitize(a), q.digitize(b)); equal(q.quantize(a), q.quantize(b))
    return c["q"]["t"]

@st.composite
def badq_case(draw):
    t = draw(st.sampled_from(["dup", "swap", "len", "thr-lev", "step", "L"]))
    L = draw(st.integers(2, 5)); v = sorted(draw(st.lists(GRID, min_size=2 * L - 1, max_size=2 * L - 1, unique=True)))
    return dict(t=t, v=[float(x) for x in v], i=draw(st.integers(0, 2 * L - 3)), bad=draw(st.sampled_from([0.0, -1.0, -1e-9])), L=draw(st.integers(-2, 1)))

@check("Q01", badq_case(), quick=800, thorough=5000)
def invalid_quantizers_rejected(c):
    v, i = list(c["v"]), c["i"]
    if c["t"] == "step":
        for f in (komm.UniformQuantizer, komm.UniformQuantizer.mid_riser, komm.UniformQuantizer.mid_tread): raises(ValueError, f, 4, c["bad"])
        return "step"
    if c["t"] == "L":
        for f in (komm.UniformQuantizer, komm.UniformQuantizer.mid_riser, komm.UniformQuantizer.mid_tread): raises(ValueError, f, c["L"], 1.0)
        return "L"
    if c["t"] == "dup": v[i + 1] = v[i]
    elif c["t"] == "swap": v[i], v[i + 1] = v[i + 1], v[i]
    y, t = v[0::2], v[1::2]
    if c["t"] == "len": raises(ValueError, komm.ScalarQuantizer, y, t[:-1]); raises(ValueError, komm.ScalarQuantizer, y, t + [v[-1] + 1]); raises(ValueError, komm.ScalarQuantizer, y[:-1], t)
    elif c["t"] == "thr-lev": raises(ValueError, komm.ScalarQuantizer, y[::-1], t[::-1])
    else: raises(ValueError, komm.ScalarQuantizer, y, t)
    return c["t"]

# ---- many levels, extreme scales, long inputs ----------------------------------------------
@st.composite
def bigq_case(draw):
    t = draw(st.sampled_from(["general", "general", "uniform", "riser", "tread"]))
    L = draw(st.sampled_from([1, 2, 3, 16, 17, 64, 127, 128, 255, 256, 257, 300, 1000, 1024, 4096])) if draw(st.booleans()) else draw(st.integers(2, 600))
    return dict(t=t, L=L if t == "general" else max(L, 2), step=10.0 ** draw(st.integers(-12, 12)) * draw(st.sampled_from([1.0, 1 / 3, 2.5])),
                off=draw(st.sampled_from([0.0, 0.5, -0.5, 1000.0, -12345.25, 0.1])), shift=draw(st.sampled_from([0.0, 0.0, 1.0, -1e3, 1e6])),
                rough=draw(st.sampled_from([0.0, 1.0, 3.0])), seed=draw(st.integers(0, 2 ** 32)), n=draw(st.sampled_from([50, 1000, 5000])),
                rows=draw(st.sampled_from([1, 2, 7])), lay=draw(st.sampled_from(["array", "list", "fortran", "strided", "reversed", "readonly", "float32"])))

@check("Q01", bigq_case(), quick=700, thorough=10000, weight=3)
def many_levels_and_long_inputs(c):
    rng = np.random.default_rng(c["seed"]); L, step = c["L"], c["step"]
    if c["t"] == "general":
        g = 10.0 ** (c["rough"] * rng.standard_normal(2 * L - 1)) + 1e-6
        v = step * (np.cumsum(g) + c["shift"] * L)
        if not (np.diff(v) > 0).all(): raise Skip
        if c["seed"] % 3 == 0: v = -v[::-1]
        q = komm.ScalarQuantizer(v[0::2].tolist() if c["seed"] % 2 else v[0::2], v[1::2])
        equal(q.levels, v[0::2]); equal(q.thresholds, v[1::2])
    else:
        off = c["off"] if c["t"] == "uniform" else 0.0 if (L % 2 == 0) == (c["t"] == "riser") else -0.5
        q = komm.UniformQuantizer(L, step, off) if c["t"] == "uniform" else getattr(komm.UniformQuantizer, "mid_" + c["t"])(L, step)
        big = max(L, abs(off)) * step
        close(q.levels, (np.arange(L) - (L - 1) / 2 + off) * step, 1e-12, 1e-13 * big)
        close(q.thresholds, (np.arange(1, L) - L / 2 + off) * step, 1e-12, 1e-13 * big)
    Y, T = np.array(q.levels), np.array(q.thresholds); span = Y[-1] - Y[0] or abs(Y[0]) or 1.0
    n = c["n"]
    pool = [rng.uniform(Y[0] - 0.1 * span, Y[-1] + 0.1 * span, n), rng.choice(Y, n), rng.normal(Y.mean(), span, n)]
    if T.size: pool += [rng.choice(T, n), np.nextafter(rng.choice(T, n), -np.inf), np.nextafter(rng.choice(T, n), np.inf)]
    x = np.choose(rng.integers(0, len(pool), n), pool)
    x = x[:n - n % c["rows"]].reshape(c["rows"], -1)
    if c["rows"] == 1: x = x[0]
    if c["lay"] == "float32": a = x.astype(np.float32); x = a.astype(float)
    else: a = x if c["lay"] == "array" else layout(x, c["lay"])
    want = np.zeros(x.shape, int)
    for b in T: want += x >= b
    d, z = q.digitize(a), q.quantize(a)
    is_int_array(d); equal(d, want); equal(z, Y[want])
    equal(q.digitize(Y), np.arange(Y.size)); equal(q.quantize(Y), Y)
    # uniform density: the integral is a sum of cubes
    lo, hi = Y[0] - 0.3 * span, Y[-1] + 0.2 * span
    e = np.concatenate([[lo], T, [hi]]); w = np.diff(e); m = 200
    want = float((((e[1:] - Y) ** 3 - (e[:-1] - Y) ** 3) / 3).sum() / (hi - lo)); slack = float((w ** 3).sum()) / (6 * (m - 1) ** 2) / (hi - lo)
    got = q.mean_squared_error(lambda u: np.ones_like(u) / (hi - lo), (lo, hi), m)
    noise = 8 * np.finfo(float).eps * max(abs(lo), abs(hi))
    assert want * (1 - 1e-6) - noise * (math.sqrt(want) + noise) <= got <= (want + slack) * (1 + 1e-6) + noise * (math.sqrt(want) + noise), f"mse {got}, integral {want} (+{slack})"
    return c["t"] + ("-many" if L > 64 else "")

# ---- densities -----------------------------------------------------------------------------
@st.composite
def dens(draw, smooth=True):
    return dict(k=draw(st.sampled_from(["const", "gauss", "mix", "exp", "linear", "quad", "sin"])), a=draw(floats(0.05, 0.95)), b=draw(floats(0.05, 0.95)),
                s=draw(floats(0.05, 1.0)), w=draw(floats(0.1, 0.9)))

def unit_pdf(d, u):
    if d["k"] == "gap": return np.maximum(0.0, np.abs(u - d["a"]) - 0.3 * d["w"]) ** 2 + (0 if d["s"] > 0.5 else np.where(u > d["b"], 1.0, 0.0) * np.maximum(0.0, u - d["b"]))
    if d["k"] == "peak": return np.exp(-((u - d["a"]) / (0.025 + 0.1 * d["s"])) ** 2 / 2) / 0.1
    return unit_pdf0(d, u)

def unit_pdf0(d, u):
    """Positive density shape on [0, 1] (defined everywhere)."""
    k, a, b, s, w = d["k"], d["a"], d["b"], d["s"], d["w"]
    if k == "const": return np.ones_like(u)
    g = lambda m, s: np.exp(-((u - m) / s) ** 2 / 2) / (s * math.sqrt(2 * math.pi))
    if k == "gauss": return g(a, s)
    if k == "mix": return w * g(a, s) + (1 - w) * g(b, s)
    if k == "exp": return np.exp(-u / s) / s
    if k == "linear": return 1 + (a - b) * u
    if k == "quad": return (u - a) ** 2 + 0.05
    return 1 + w * np.sin(6 * u + 6 * a)

@st.composite
def lmbig_case(draw):
    d = draw(dens()); d["k"] = draw(st.sampled_from(["const", "gauss", "exp", "mix", "gap", "peak", "gap", "peak", "linear"]))
    L = draw(st.sampled_from([2, 3, 4, 6, 8, 8, 12, 14]))
    return dict(d=d, L=L, scale=draw(st.sampled_from([1.0, 1e-9, 1e9, 7.0])), shift=draw(st.sampled_from([0.0, -0.5, 3.0])))

def make_pdf(d, lo, hi): return lambda x: unit_pdf(d, (np.asarray(x, dtype=float) - lo) / (hi - lo)) / (hi - lo)

@st.composite
def mse_case(draw):
    c = draw(quant()); d = draw(dens())
    kind = draw(st.sampled_from(["inside", "cover", "left", "right", "one", "beyond"]))
    return dict(q=c, d=d, kind=kind, u=draw(floats(0, 1)), v=draw(floats(0.05, 1)), n=draw(st.sampled_from([4096, 4096, None, 1000])))

@check("Q01", mse_case(), quick=2000, thorough=20000, weight=2)
def mean_squared_error_is_the_integral(c):
    q = build(c["q"]); y, t = ref(c["q"]); u, v = c["u"], c["v"]
    span = (y[-1] - y[0]) or abs(y[0]) or 1.0
    lo, hi = {"inside": (y[0] + 0.6 * u * span, y[0] + 0.6 * u * span + 0.4 * v * span), "cover": (y[0] - u * span, y[-1] + v * span),
              "left": (y[0] - u * span, y[0] - u * span + v * span), "right": (y[-1] - v * span, y[-1] + u * span),
              "one": (y[0] + u * span, y[0] + u * span + 0.01 * v * span), "beyond": (y[-1] + u * span + span, y[-1] + span * (1 + u + v))}[c["kind"]]
    pdf = make_pdf(c["d"], lo, hi)
    br = [lo] + [b for b in t if lo < b < hi] + [hi]
    want = 0.0
    for a, b in zip(br[:-1], br[1:]):
        i = sum(1 for z in t if z <= (a + b) / 2)
        X, W = panels(split(a, b, 3), 32)
        want += float(np.sum(W * (y[i] - X) ** 2 * pdf(X)))
    got = q.mean_squared_error(pdf, (lo, hi)) if c["n"] is None else q.mean_squared_error(pdf, (lo, hi), points_per_interval=c["n"])
    assert isinstance(got, float)
    # trapezoidal rule on n points per cell: error about (cell/n)^2/12 times the second derivative
    cell = max(b - a for a, b in zip(br[:-1], br[1:])); n = c["n"] or 4096
    tol = 30 * (cell / n) ** 2 / min(c["d"]["s"], 1) ** 2
    assert abs(got - want) <= 1e-4 * abs(want) + tol + 1e-12 * span ** 2, f"mse {got}, integral {want} over {(lo, hi)}"
    return (len(br) > 2 or c["kind"] in ("one", "beyond")) and c["q"]["t"] + "-" + c["kind"]

@st.composite
def lm_case(draw):
    return dict(d=draw(dens()), L=draw(st.integers(2, 10)), scale=draw(st.sampled_from([1.0, 10.0, 1e-6, 1e4, 0.3])), shift=draw(st.sampled_from([0.0, -0.5, -1.0, 3.0, 100.0])))

@check("Q02", lmbig_case(), quick=60, thorough=1500, weight=60)
def many_levels_and_vanishing_densities(c): return conditions(c)

@check("Q02", lm_case(), quick=500, thorough=5000, weight=3)
def lloyd_max_conditions(c): return conditions(c)

def conditions(c):
    lo, hi = c["shift"] * c["scale"], (c["shift"] + 1) * c["scale"]
    d, L, R = c["d"], c["L"], hi - lo
    pdf = make_pdf(d, lo, hi)
    q = komm.LloydMaxQuantizer(pdf, (lo, hi), L)
    y, t = np.array(q.levels), np.array(q.thresholds)
    assert y.shape == (L,) and t.shape == (L - 1,)
    full = np.empty(2 * L - 1); full[0::2] = y; full[1::2] = t
    assert (np.diff(full) > 0).all() and lo < y[0] and y[-1] < hi, "levels and thresholds not increasing within the range"
    close((t - lo) / R, ((y[:-1] + y[1:]) / 2 - lo) / R, 0, 2e-5)
    edges = np.concatenate([[lo], t, [hi]]); mse = 0.0
    pieces, nodes = (300, 6) if d["k"] == "gap" else (4, 32)   # kinked densities: fine panels
    for i in range(L):
        X, W = panels(split(edges[i], edges[i + 1], pieces), nodes); f = pdf(X)
        m = float(np.sum(W * f))
        if m > 1e-9: close((float(np.sum(W * f * X)) / m - lo) / R, (y[i] - lo) / R, 0, 2e-5)
        mse += float(np.sum(W * f * (X - y[i]) ** 2))
    # not worse than the uniform quantizer of the same range
    step = R / L; unif = 0.0
    for i in range(L):
        a = lo + i * step; X, W = panels(split(a, a + step, pieces), nodes); unif += float(np.sum(W * pdf(X) * (X - a - step / 2) ** 2))
    assert mse <= unif * (1 + 1e-6), f"mse {mse} worse than uniform {unif}"
    got = q.mean_squared_error(pdf, (lo, hi))
    assert abs(got - mse) <= 1e-4 * mse + 1e-9 * R * R
    x = np.linspace(lo, hi, 101)
    equal(q.digitize(x), [sum(1 for b in t if b <= v) for v in x]); equal(q.quantize(x), y[q.digitize(x)])
    if d["k"] == "const": close((y - lo) / R, (np.arange(L) + 0.5) / L, 0, 2e-5)
    return d["k"] != "const" and d["k"]

@check("Q02", lm_case(), quick=150, thorough=1500, weight=2)
def lloyd_max_shift_scale_and_reflection(c):
    d, L = c["d"], c["L"]
    q0 = komm.LloydMaxQuantizer(make_pdf(d, 0.0, 1.0), (0.0, 1.0), L)
    lo, hi = c["shift"] * c["scale"], (c["shift"] + 1) * c["scale"]
    q1 = komm.LloydMaxQuantizer(make_pdf(d, lo, hi), (lo, hi), L)
    close((q1.levels - lo) / (hi - lo), q0.levels, 0, 1e-5); close((q1.thresholds - lo) / (hi - lo), q0.thresholds, 0, 1e-5)
    q2 = komm.LloydMaxQuantizer(lambda x: make_pdf(d, 0.0, 1.0)(-np.asarray(x)), (-1.0, 0.0), L)
    close(-q2.levels[::-1], q0.levels, 0, 1e-5); close(-q2.thresholds[::-1], q0.thresholds, 0, 1e-5)
    return d["k"] != "const" and d["k"]
