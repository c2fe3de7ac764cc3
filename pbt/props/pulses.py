"""P01: pulses (waveform, spectrum, energy, autocorrelation, energy spectral density, taps)."""
import functools, math
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from ..gen import equal, close, raises, floats, layout

rule("P01", "Non-trivial: at least one time or frequency where the documented function is not zero (label: pulse family).",
     ["roll-off 0 or from 1 down to 1e-16; times up to 60 symbols (and up to 1/roll-off at the singular points)",
      "values exactly at a discontinuity of a spectrum are not compared; discontinuities of waveforms are half-open as documented",
      "absolute tolerance 1e-9 (quadrature of the documented spectra and waveforms)"])

ALPHA = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.1, 0.75, 0.35, 0.01]), floats(0.05, 1), floats(0.005, 0.05), st.sampled_from([1e-3, 1e-5, 1e-8, 1e-12, 1e-16, 1 - 1e-9, 1 - 2 ** -53]))
WIDTH = st.one_of(st.sampled_from([1.0, 0.5, 0.25, 0.1, 0.3, 1e-3]), floats(0.02, 1))
BAND = st.one_of(st.sampled_from([1.0, 0.5, 0.3, 2.0, 0.01, 20.0]), floats(0.05, 5))

@st.composite
def pulse(draw, kinds=("rect", "manchester", "sinc", "rc", "rrc", "beaulieu", "rbeaulieu", "gauss", "rsinc")):
    t = draw(st.sampled_from(kinds))
    par = {"rect": WIDTH, "gauss": BAND}.get(t, ALPHA if t in ("rc", "rrc", "beaulieu", "rbeaulieu") else st.just(0.0))
    return dict(t=t, a=draw(par))

def build(c):
    t, a = c["t"], c["a"]
    if t == "rect": return komm.RectangularPulse(a)
    if t == "manchester": return komm.ManchesterPulse()
    if t == "sinc": return komm.SincPulse()
    if t == "rsinc": return komm.SincPulse().root()
    if t == "gauss": return komm.GaussianPulse(a)
    p = komm.RaisedCosinePulse(a) if t in ("rc", "rrc") else komm.BeaulieuPulse(a)
    return p.root() if t in ("rrc", "rbeaulieu") else p

@functools.lru_cache(None)
def gl(n): return np.polynomial.legendre.leggauss(n)

def panels(points, n=48):
    """Composite Gauss-Legendre nodes and weights on consecutive panels."""
    x, w = gl(n)
    X, W = [], []
    for a, b in zip(points[:-1], points[1:]):
        if b > a: X.append((a + b) / 2 + (b - a) / 2 * x); W.append((b - a) / 2 * w)
    return np.concatenate(X), np.concatenate(W)

def split(a, b, pieces): return list(np.linspace(a, b, pieces + 1))

# ---- documented spectra of the band-limited pulses, as nodes (f, P(f), weight) for f >= 0 ----
def spec_ref(c, f):
    """Documented spectrum of a band-limited (even, real) pulse at one frequency."""
    t, a, f = c["t"], c["a"], abs(f)
    if t in ("sinc", "rsinc") or (a == 0 and t != "gauss"): return 1.0 if f < 0.5 else 0.0
    if t == "gauss":
        b = a / math.sqrt(math.log(2))
        return math.exp(-(f / b) ** 2 / 2) / (math.sqrt(2 * math.pi) * b)
    f1, f2 = (1 - a) / 2, (1 + a) / 2
    if t in ("rc", "rrc"):
        v = 1.0 if f <= f1 else 0.0 if f >= f2 else 0.5 * (1 + math.cos(math.pi * (f - f1) / a))
    else:
        beta = 2 * math.log(2) / a
        v = 1.0 if f <= f1 else math.exp(-beta * (f - f1)) if f <= 0.5 else -math.expm1(-beta * (f2 - f)) if f < f2 else 0.0
    return math.sqrt(max(v, 0)) if t[0] == "r" and t != "rc" else v

def nodes(c, tmax):
    t, a = c["t"], c["a"]
    pc = lambda width: max(2, int(width * tmax / 4) + 2)
    if t == "gauss":
        b = a / math.sqrt(math.log(2)); F, W = panels(split(0, 9 * b, pc(9 * b)))
    elif t in ("sinc", "rsinc") or a == 0: F, W = panels(split(0, 0.5, pc(0.5)))
    else:
        f1, f2 = (1 - a) / 2, (1 + a) / 2
        F1, W1 = panels(split(0, f1, pc(f1))) if f1 > 0 else (np.empty(0), np.empty(0))
        F2, W2 = panels(split(f1, 0.5, pc(a / 2)))
        v, wv = panels(split(0, math.sqrt(a / 2), pc(a / 2) + 2))   # f = f2 - v^2 removes the square root at f2
        F = np.concatenate([F1, F2, f2 - v ** 2]); W = np.concatenate([W1, W2, 2 * v * wv])
    return F, W, np.array([spec_ref(c, f) for f in F])

def wave_ref(c, ts):
    t, a = c["t"], c["a"]
    if t == "rect": return np.array([1.0 if 0 <= x < a else 0.0 for x in ts])
    if t == "manchester": return np.array([-1.0 if 0 <= x < 0.5 else 1.0 if 0.5 <= x < 1 else 0.0 for x in ts])
    F, W, P = nodes(c, max(1.0, np.abs(ts).max(initial=0)))
    return 2 * (np.cos(2 * math.pi * np.outer(ts, F)) @ (W * P))

def corr_ref(c, ts):
    t, a = c["t"], c["a"]
    if t == "rect": return np.array([max(0.0, a - abs(x)) for x in ts])
    if t == "manchester":
        p = lambda x: wave_ref(c, x)
        out = []
        for tau in np.abs(ts):
            X, W = panels(sorted({0.0, 0.5, 1.0} | {y for y in (1 - tau, 0.5 - tau, -tau + 1) if 0 < y < 1}))
            out.append(float(np.sum(W * p(X) * p(X + tau))))
        return np.array(out)
    F, W, P = nodes(c, max(1.0, np.abs(ts).max(initial=0)))
    return 2 * (np.cos(2 * math.pi * np.outer(ts, F)) @ (W * P ** 2))

def spectrum_ref(c, fs):
    if c["t"] in ("rect", "manchester"):
        br = [0.0, c["a"]] if c["t"] == "rect" else [0.0, 0.5, 1.0]
        pts = sorted({x for a, b in zip(br[:-1], br[1:]) for x in split(a, b, max(2, int(np.abs(fs).max(initial=0) / 4) + 2))})
        X, W = panels(pts)
        return np.exp(-2j * math.pi * np.outer(fs, X)) @ (W * wave_ref(c, X))
    return np.array([spec_ref(c, f) for f in fs], dtype=complex)

DELTA = st.sampled_from([0.0, 0.0, 1e-15, 1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 5e-6, 9e-6, 1.1e-5, 1e-4, 1e-3])

@st.composite
def times(draw, c, n=6):
    out = []
    for _ in range(draw(st.integers(1, n))):
        k = draw(st.sampled_from(["int", "half", "rand", "rand", "small", "sing", "sing", "far", "vfar" if n < 12 else "far"]))
        s = draw(st.sampled_from([1, -1])); d = draw(DELTA) * draw(st.sampled_from([1, -1]))
        if k == "int": x = float(draw(st.integers(0, 12))) + d
        elif k == "half": x = draw(st.integers(0, 20)) / 4 + d
        elif k == "rand": x = draw(floats(0, 4))
        elif k == "small": x = draw(st.sampled_from([0.0, 1e-300, 1e-20, 1e-12, 1e-9, 1e-8, 2e-8, 1e-6, 1e-5, 1e-3]))
        elif k == "far": x = draw(floats(0, 60))
        elif k == "vfar": x = draw(st.one_of(floats(60, 400), floats(60, 2500)))
        else:
            a = c["a"] or 1.0
            x = draw(st.sampled_from([1 / (2 * a), 1 / (4 * a), 1 / a, a, a / 2, 3 / (4 * a)])) * (1 + d)
        out.append(s * x if abs(x) <= (220 if k == "sing" else 2500) else 1.0)
    return out

@st.composite
def freqs(draw, c, n=6):
    a, out = c["a"], []
    for _ in range(draw(st.integers(1, n))):
        k = draw(st.sampled_from(["edge", "edge", "rand", "rand", "wide", "int"])); d = draw(DELTA) * draw(st.sampled_from([1, -1]))
        if k == "edge": x = draw(st.sampled_from([(1 - a) / 2, (1 + a) / 2, 0.5, 0.25, 0.0])) + d
        elif k == "rand": x = draw(floats(0, 1.1))
        elif k == "int": x = float(draw(st.integers(0, 4))) / (a if c["t"] == "rect" else 1)
        else: x = draw(floats(0, 40 if c["t"] in ("rect", "manchester") else 8))
        out.append(draw(st.sampled_from([1, -1])) * x)
    return out

@st.composite
def pulse_case(draw):
    c = draw(pulse())
    return dict(p=c, t=draw(times(c)), f=draw(freqs(c)), form=draw(st.sampled_from(["array", "list", "2d", "each"])))

def ev(fn, xs, form):
    """Evaluate through the chosen container; the result is returned as a flat array."""
    xs = [float(x) for x in xs]
    if form == "each":
        out = []
        for x in xs:
            r = fn(x)
            assert np.ndim(r) == 0, f"scalar input gave shape {np.shape(r)}"
            out.append(complex(r) if np.iscomplexobj(r) else float(r))
            assert np.ndim(fn(np.array(x))) == 0
        return np.array(out)
    a = xs if form == "list" else np.array(xs).reshape(1, -1, 1) if form == "2d" else np.array(xs)
    keep = np.array(a, copy=True)
    r = np.asarray(fn(a))
    equal(np.asarray(a), keep)
    assert r.shape == np.shape(a), f"shape {r.shape} for input shape {np.shape(a)}"
    return r.ravel()

def jumps_t(c): return {"rect": [0.0, c["a"]], "manchester": [0.0, 0.5, 1.0]}.get(c["t"], [])
def jumps_f(c): return [0.5, -0.5] if c["t"] in ("sinc", "rsinc") or (c["a"] == 0 and c["t"] in ("rc", "rrc", "beaulieu", "rbeaulieu")) else []
def clear(xs, jumps, exact): return [x for x in xs if all(abs(x - j) > 1e-9 for j in jumps) or (exact and x in jumps)]
def steep(c, xs):
    """Frequencies where a spectrum with a very narrow transition band is ill-conditioned are left out."""
    return xs if c["t"] not in ("rc", "rrc", "beaulieu", "rbeaulieu") or c["a"] >= 1e-3 else [x for x in xs if abs(abs(x) - 0.5) > 2 * c["a"] + 1e-9]

TOL = 2e-9

@check("P01", pulse_case(), quick=2500, thorough=30000, weight=3)
def waveform_is_the_inverse_transform(c):
    p = build(c["p"]); ts = clear(c["t"], jumps_t(c["p"]), True)
    if not ts: return False
    want = wave_ref(c["p"], np.array(ts))
    close(ev(p.waveform, ts, c["form"]), want, 0, TOL)
    if c["p"]["t"] not in ("rect", "manchester"):       # even waveforms
        close(ev(p.waveform, [-x for x in ts], c["form"]), want, 0, TOL)
    ints = [int(x) for x in ts if abs(x) < 50]
    if ints:
        ints = np.array(ints)
        close(p.waveform(ints), p.waveform(ints.astype(float)), 0, 1e-12)
        close(p.waveform(ints.tolist()), p.waveform(ints.astype(float)), 0, 1e-12)
    return bool((np.abs(want) > 1e-12).any()) and c["p"]["t"]

@check("P01", pulse_case(), quick=2500, thorough=30000, weight=2)
def spectrum_and_density(c):
    p = build(c["p"]); fs = steep(c["p"], clear(c["f"], jumps_f(c["p"]), False))
    if not fs: return False
    want = spectrum_ref(c["p"], np.array(fs))
    got = ev(p.spectrum, fs, c["form"])
    assert np.iscomplexobj(got)
    root = c["p"]["t"] in ("rrc", "rbeaulieu")          # square root of a difference close to zero at the band edge
    close(got, want, 0, 3e-7 if root else TOL)
    S = ev(p.energy_spectral_density, fs, c["form"])
    assert not np.iscomplexobj(S)
    close(S, np.abs(got) ** 2, 1e-9, 1e-12)
    close(ev(p.spectrum, [-x for x in fs], c["form"]), np.conj(got), 1e-9, 1e-12)
    return bool((np.abs(want) > 1e-12).any()) and c["p"]["t"]

@check("P01", pulse_case(), quick=2500, thorough=30000, weight=3)
def energy_and_autocorrelation(c):
    p = build(c["p"]); ts = c["t"]
    want = corr_ref(c["p"], np.array([0.0] + ts))
    close(p.energy(), want[0], 0, TOL)
    assert isinstance(p.energy(), float)
    got = ev(p.autocorrelation, [0.0] + ts, c["form"])
    close(got, want, 0, TOL)
    close(got[0], p.energy(), 1e-12, 1e-12)
    close(ev(p.autocorrelation, [-x for x in ts], c["form"]), got[1:], 0, 1e-9)
    assert (np.abs(got) <= p.energy() + 1e-9).all()
    return c["p"]["t"]

@st.composite
def root_case(draw):
    c = draw(pulse(("sinc", "rc", "beaulieu")))
    return dict(p=c, k=draw(st.integers(1, 100)), f=draw(freqs(c)), t=draw(times(c)))

@check("P01", root_case(), quick=1500, thorough=15000)
def nyquist_and_square_roots(c):
    p = build(c["p"]); r = p.root()
    k = np.arange(-c["k"], c["k"] + 1)
    close(p.waveform(k), (k == 0) * 1.0, 0, 1e-11)
    close(r.autocorrelation(k), (k == 0) * 1.0, 0, 1e-11)
    close(r.energy(), 1.0, 1e-12, 0)
    f = np.array(steep(c["p"], clear(c["f"], jumps_f(c["p"]), False)))
    close(r.spectrum(f) ** 2, p.spectrum(f), 1e-9, 1e-12)
    close(r.energy_spectral_density(f), np.abs(p.spectrum(f)), 1e-9, 1e-12)
    close(r.autocorrelation(c["t"]), p.waveform(c["t"]), 0, 1e-12)
    # Nyquist criterion in frequency: shifted spectra of the Nyquist pulse add up to one
    g = np.array([x for x in np.abs(f) % 1 if min(abs(x - j) for j in (0, 0.5, 1)) > 1e-6] or [0.3])
    close(sum(p.spectrum(g + m) for m in range(-3, 4)).real, np.ones(g.size), 0, 1e-9)
    assert p.support == (-np.inf, np.inf) and r.support == (-np.inf, np.inf)
    for q in (komm.RectangularPulse(0.5), komm.ManchesterPulse(), komm.GaussianPulse(0.5)): raises(NotImplementedError, q.root)
    return c["p"]["t"]

@st.composite
def taps_case(draw):
    c = draw(pulse()); lo = draw(st.integers(-8, 1))
    return dict(p=c, sps=draw(st.integers(1, 24)), span=draw(st.one_of(st.none(), st.just([lo, lo + draw(st.integers(0, 10))]))))

@check("P01", taps_case(), quick=2000, thorough=20000)
def taps_sample_the_waveform(c):
    p = build(c["p"]); span = c["span"]
    finite = c["p"]["t"] in ("rect", "manchester")
    if span is None and not finite:
        raises(ValueError, p.taps, c["sps"]); return "refused"
    got = np.asarray(p.taps(c["sps"]) if span is None else p.taps(samples_per_symbol=c["sps"], span=tuple(span)))
    a, b = span or (0, 1)
    t = np.array([k / c["sps"] for k in range(a * c["sps"], b * c["sps"] + 1)])
    assert got.shape == t.shape
    ok = np.array([x in jumps_t(c["p"]) or all(abs(x - j) > 1e-9 for j in jumps_t(c["p"])) for x in t])
    close(got[ok], wave_ref(c["p"], t[ok]), 0, TOL)
    if finite: assert tuple(p.support) == (0.0, c["p"]["a"] if c["p"]["t"] == "rect" else 1.0)
    return bool((got != 0).any()) and c["p"]["t"]

@st.composite
def bulkp_case(draw):
    c = draw(pulse())
    return dict(p=c, t=draw(times(c, 12)), f=draw(freqs(c, 12)), n=draw(st.sampled_from([60, 300, 3000])), nd=draw(st.integers(1, 4)),
                lay=draw(st.sampled_from(["array", "fortran", "strided", "reversed", "readonly", "list", "float32", "int8", "uint8", "int16", "uint32", "int64"])), seed=draw(st.integers(0, 2 ** 32)),
                sps=draw(st.sampled_from([1, 3, 8, 64, 100, 1000])), span=draw(st.sampled_from([[-1, 1], [-16, 16], [0, 40], [-3, 100], [5, 6]])))

@check("P01", bulkp_case(), quick=500, thorough=8000, weight=4)
def arrays_agree_with_single_points(c):
    """Every function evaluated on a large array (any layout, mixed regimes) equals its evaluation point by point."""
    p = build(c["p"]); rng = np.random.default_rng(c["seed"])
    def big(pool):
        x = np.concatenate([np.resize(pool, c["n"] // 2), rng.normal(0, 3, c["n"] - c["n"] // 2)]); x = rng.permutation(x)
        k = {1: (-1,), 2: (3, -1), 3: (2, 5, -1), 4: (2, 1, 3, -1)}[c["nd"]]
        return x.reshape(k)
    for fn, pool in ((p.waveform, c["t"]), (p.autocorrelation, c["t"]), (p.spectrum, c["f"]), (p.energy_spectral_density, c["f"])):
        x = big(pool)
        if "int" in c["lay"]:
            info = np.iinfo(c["lay"]); ext = np.array([info.min, info.max, info.max // 2 + 1, info.max // 4 + 1, info.min // 2, info.max - 1], dtype=c["lay"])
            x = np.round(x).clip(info.min, info.max).astype(c["lay"]); pos = rng.random(x.shape) < 0.2; x[pos] = rng.choice(ext, int(pos.sum())); a = x
        elif c["lay"] == "float32": a = x.astype(np.float32)
        else: a = x if c["lay"] == "array" else layout(x, c["lay"])
        y = np.asarray(fn(a)); assert y.shape == x.shape, f"{fn.__name__}: shape {y.shape} for {x.shape}"
        if c["lay"] == "float32": continue
        idx = rng.integers(0, x.size, 40)
        for i in idx: 
            w = fn(float(x.flat[i])); g = y.flat[i]
            assert abs(g - w) <= 1e-9 * (1 + abs(w)), f"{fn.__name__} at {x.flat[i]!r}: {g} in an array, {w} alone"
    for e in (np.empty(0), np.empty((2, 0))):
        for fn in (p.waveform, p.spectrum, p.autocorrelation, p.energy_spectral_density): assert np.asarray(fn(e)).shape == e.shape
    a, b = c["span"]; sps = c["sps"]
    h = np.asarray(p.taps(sps, (a, b)))
    assert h.shape == ((b - a) * sps + 1,)
    k = rng.integers(0, h.size, 60); t = a + k / sps
    for i, u in zip(k, t):
        u = (a * sps + int(i)) / sps
        if any(abs(u - j) < 1e-9 and u != j for j in jumps_t(c["p"])): continue
        assert abs(h[i] - p.waveform(u)) <= 1e-9, f"tap {i}"
    return c["p"]["t"] + "-" + c["lay"]

@st.composite
def far_case(draw):
    c = draw(pulse())
    return dict(p=c, x=draw(st.lists(st.one_of(floats(-1e4, 1e4), floats(-1e8, 1e8), st.integers(-10 ** 6, 10 ** 6).map(float)), min_size=1, max_size=5)))

@check("P01", far_case(), quick=1500, thorough=10000)
def finite_and_bounded_far_away(c):
    p = build(c["p"]); x = np.array(c["x"])
    A = 2.0 / c["p"]["a"] if c["p"]["t"] == "gauss" else 1.5
    for fn, bound in ((p.waveform, 1.4), (p.autocorrelation, A), (p.energy_spectral_density, A * A), (p.spectrum, A)):
        v = np.abs(fn(x))
        assert np.isfinite(v).all() and (v <= bound).all(), f"{fn.__name__}: {v}"
    for bad in (-0.1, 1.1): 
        raises(ValueError, komm.RaisedCosinePulse, bad); raises(ValueError, komm.BeaulieuPulse, bad)
    for bad in (0.0, -1.0): raises(ValueError, komm.GaussianPulse, bad)
    return c["p"]["t"]


@st.composite
def edge_case(draw):
    a = 10.0 ** -draw(floats(0.0, 7.0))
    return dict(t=draw(st.sampled_from(["rc", "rrc", "beaulieu", "rbeaulieu"])), a=a, u=draw(st.lists(floats(-0.7, 0.7), min_size=1, max_size=8)),
                x=draw(st.lists(st.one_of(floats(-40, 40), floats(-3, 3)), min_size=1, max_size=6)), neg=draw(st.booleans()))

@check("P01", edge_case(), quick=1500, thorough=15000)
def narrow_transition_bands(c):
    """Roll-offs down to 1e-7: inside the transition band the spectrum follows the documented curve (frequencies measured in
    roll-offs from the band edge), and at times of the order of 1/roll-off the waveform follows the documented formula."""
    from fractions import Fraction as Fr
    t, a = c["t"], c["a"]; p = build(c)
    f = np.abs([0.5 + u * a for u in c["u"]])
    U = [float((Fr(float(y)) - Fr(1, 2)) / Fr(a)) for y in f]
    base = {"rrc": "rc", "rbeaulieu": "beaulieu"}.get(t, t)
    def shape(u):
        if u <= -0.5: return 1.0
        if u >= 0.5: return 0.0
        if base == "rc": return 0.5 * (1 - math.sin(math.pi * u))
        return 2.0 ** (-2 * (u + 0.5)) if u <= 0 else 1 - 2.0 ** (-2 * (0.5 - u))
    want = np.array([shape(u) for u in U]); eps = 1e-15 / a + 1e-14      # rounding of the frequencies, in roll-offs
    lo = np.array([shape(u + 10 * eps) for u in U]) - 10 * eps; hi = np.array([shape(u - 10 * eps) for u in U]) + 10 * eps
    got = p.spectrum(-f if c["neg"] else f)
    v = got.real ** 2 if t[0] == "r" and t != "rc" else got.real
    assert not got.imag.any() and (lo <= v).all() and (v <= hi).all(), f"spectrum {v}, expected {want}"
    S = p.energy_spectral_density(-f if c["neg"] else f); q = want if t in ("rrc", "rbeaulieu") else want ** 2
    assert np.allclose(S, q, rtol=0, atol=100 * eps + 1e-13)
    if t in ("rc", "beaulieu", "rrc"):
        ts = np.array([x / a for x in c["x"] if abs(abs(x) - 0.5) > 1e-3 and abs(abs(x) - 0.25) > 1e-3 and abs(x) > 1e-3])
        for y in ts:
            z = a * y; sinc = np.sinc(y)
            if base == "rc" and t == "rc": w = sinc * math.cos(math.pi * z) / (1 - (2 * z) ** 2)
            elif t == "beaulieu":
                b = 2 * math.log(2); w = sinc * (4 * b * math.pi * z * math.sin(math.pi * z) + 2 * b * b * math.cos(math.pi * z) - b * b) / ((2 * math.pi * z) ** 2 + b * b)
            else: w = (math.sin(math.pi * (1 - a) * y) + 4 * z * math.cos(math.pi * (1 + a) * y)) / (math.pi * y * (1 - (4 * z) ** 2))
            g = float(p.waveform(float(y)))
            near = min(1.0, abs(1 - (4 * z if t == "rrc" else 2 * z) ** 2)) if base == "rc" else 1.0    # cancellation near the removable pole
            scale = 1 / (math.pi * abs(y)) / near + 1e-300
            assert abs(g - w) <= scale * (1e-9 + 1e-14 * abs(y)) * (1 + 4 * abs(z)), f"waveform at {y!r}: {g}, expected {w}"
    return t + (" below 0.001" if a < 1e-3 else "")
