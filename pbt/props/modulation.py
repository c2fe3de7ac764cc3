"""M01-M03: labelings, constellations, detection."""
import itertools, math
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from ..gen import equal, close, raises, is_int_array, pmf, floats, CONT, layout

rule("M01", "Non-trivial: at least two bits per index or at least two indices converted (label: family).",
     ["natural and reflected labelings do not document what happens outside [0:2^m) or outside {0,1}; only general and product labelings are checked to reject"])
rule("M02", "Non-trivial: order at least 2 (label: family).", ["positive amplitudes and spacings; APSK rings given as tuples of equal lengths"])
rule("M03", "Non-trivial: order at least 2 and at least one received point (label: family and location of the point).",
     ["positive amplitudes and spacings", "distances are compared up to relative rounding error of the distances themselves; grid and angle detectors are also compared exactly on their own axis",
      "posteriors are compared where the exponents are resolved by double precision"])

# ---- labelings -----------------------------------------------------------------------------
@st.composite
def labeling(draw, depth=1):
    t = draw(st.sampled_from(["natural", "reflected", "rect", "rect1", "general", "product", "matrices"] if depth else ["natural", "reflected", "general"]))
    if t in ("natural", "reflected"): return dict(t=t, m=draw(st.integers(1, 6 if depth else 3)))
    if t == "rect": return dict(t=t, m=[draw(st.integers(1, 3)), draw(st.integers(1, 3))])
    if t == "rect1": return dict(t=t, m=2 * draw(st.integers(1, 3)))
    if t == "general":
        m = draw(st.integers(1, 4 if depth else 2))
        return dict(t=t, perm=list(draw(st.permutations(range(2 ** m)))), m=m)
    rep = draw(st.integers(1, 2))
    return dict(t=t, parts=[draw(labeling(0)) for _ in range(draw(st.integers(1, 2 if rep == 2 else 3)))], repeat=rep)

def bitrow(v, m): return [(v >> (m - 1 - j)) & 1 for j in range(m)]

def ref_matrix(c):
    t = c["t"]
    if t == "natural": return [bitrow(i, c["m"]) for i in range(2 ** c["m"])]
    if t == "reflected":
        g = [[]]
        for _ in range(c["m"]): g = [[0] + r for r in g] + [[1] + r for r in reversed(g)]
        return g
    if t in ("rect", "rect1"):
        a, b = c["m"] if t == "rect" else (c["m"] // 2,) * 2
        A, B = (ref_matrix(dict(t="reflected", m=x)) for x in (a, b))
        return [x + y for x in A for y in B]
    if t == "general": return [bitrow(v, c["m"]) for v in c["perm"]]
    ms = [ref_matrix(p) for p in c["parts"]] * c["repeat"]
    return [sum(x, []) for x in itertools.product(*ms)]

def build_lab(c):
    t = c["t"]
    if t == "natural": return komm.NaturalLabeling(c["m"])
    if t == "reflected": return komm.ReflectedLabeling(c["m"])
    if t == "rect": return komm.ReflectedRectangularLabeling(tuple(c["m"]))
    if t == "rect1": return komm.ReflectedRectangularLabeling(c["m"])
    if t == "general": return komm.Labeling(ref_matrix(c))
    if t == "matrices": return komm.ProductLabeling.from_matrices(*[ref_matrix(p) for p in c["parts"]], repeat=c["repeat"])
    return komm.ProductLabeling(*map(build_lab, c["parts"]), repeat=c["repeat"])

@st.composite
def big_labeling(draw):
    t = draw(st.sampled_from(["natural", "reflected", "reflected", "rect", "general", "product", "matrices"]))
    if t in ("natural", "reflected"): return dict(t=t, m=draw(st.integers(7, 12)))
    if t == "rect": return dict(t=t, m=[draw(st.integers(1, 7)), draw(st.integers(3, 6))])
    if t == "general": m = draw(st.integers(5, 9)); return dict(t=t, m=m, perm=np.random.default_rng(draw(st.integers(0, 10 ** 6))).permutation(2 ** m).tolist())
    return dict(t=t, parts=[draw(labeling(0)) for _ in range(draw(st.integers(1, 3)))], repeat=draw(st.integers(1, 3)))

SHAPE = st.sampled_from([[], [1], [2], [3], [2, 2], [3, 1], [1, 2, 2]])

@st.composite
def lab_case(draw):
    c = draw(labeling()); M = len(ref_matrix(c))
    if M > 256: c = dict(t="reflected", m=6); M = 64
    shape = draw(SHAPE); n = draw(st.integers(0, 5)) if shape == [] else draw(st.integers(1, 4))
    tot = int(np.prod(shape, dtype=int)) * n
    return dict(lab=c, shape=shape + [n], idx=draw(st.lists(st.integers(0, M - 1), min_size=tot, max_size=tot)),
                dt=draw(st.sampled_from(["int64", "int32", "uint8", "list"])))

def shaped(x, shape, dt):
    a = np.array(x, dtype=float if dt == "float" else int).reshape(shape)
    return a.tolist() if dt == "list" else a if dt == "float" else a.astype(dt)

@check("M01", lab_case(), quick=4000, thorough=40000, weight=2)
def labelings_are_bijections(c):
    lab = build_lab(c["lab"]); Q = ref_matrix(c["lab"]); M, m = len(Q), len(Q[0])
    assert len(set(map(tuple, Q))) == M == 2 ** m
    equal(lab.matrix, Q); is_int_array(lab.matrix)
    assert (lab.num_bits, lab.cardinality) == (m, M)
    inv = {tuple(map(int, k)): int(v) for k, v in lab.inverse_mapping.items()}
    assert inv == {tuple(r): i for i, r in enumerate(Q)}
    if c["lab"]["t"] == "reflected":
        assert all(sum(a != b for a, b in zip(Q[i], Q[i - 1])) == 1 for i in range(M))
        d = np.abs(np.diff(np.asarray(lab.matrix).astype(int), axis=0)).sum(axis=1)
        assert (d == 1).all()
    idx, shape = c["idx"], c["shape"]
    arr = shaped(idx, shape, c["dt"])
    bits = lab.indices_to_bits(arr)
    is_int_array(bits)
    equal(bits, np.array([Q[i] for i in idx], dtype=int).reshape(shape[:-1] + [shape[-1] * m]))
    for b in (bits, np.asarray(bits).tolist() if len(idx) else bits, np.asarray(bits).astype(np.uint8)):
        back = lab.bits_to_indices(b)
        is_int_array(back); equal(back, np.array(idx, dtype=int).reshape(shape))
    return c["lab"]["t"] if m > 1 or len(idx) > 1 else None

@st.composite
def big_lab_case(draw):
    c = draw(big_labeling()); M = len(ref_matrix(c))
    if M > 4096: c = dict(t="reflected", m=10)
    return dict(lab=c, seed=draw(st.integers(0, 10 ** 6)), n=draw(st.sampled_from([1, 100, 1025, 5000])), cont=draw(CONT), shape=draw(st.sampled_from([[], [2], [3, 1]])))

@check("M01", big_lab_case(), quick=80, thorough=2000, weight=2)
def large_labelings_and_batches(c):
    lab = build_lab(c["lab"]); Q = np.array(ref_matrix(c["lab"])); M, m = Q.shape
    equal(lab.matrix, Q)
    assert (lab.num_bits, lab.cardinality) == (m, M)
    r = np.random.default_rng(c["seed"])
    every = np.arange(M)
    bits = lab.indices_to_bits(every); is_int_array(bits); equal(bits, Q.reshape(-1))
    back = lab.bits_to_indices(Q.reshape(-1)); is_int_array(back); equal(back, every)
    idx = r.integers(0, M, c["shape"] + [c["n"]])
    want = Q[idx].reshape(c["shape"] + [c["n"] * m])
    cont = c["cont"] if c["cont"] not in ("int8", "uint8", "bool") or M <= 128 else "int32"
    if cont == "bool": cont = "uint8"
    equal(lab.indices_to_bits(layout(idx, cont)), want)
    equal(lab.bits_to_indices(layout(want, c["cont"])), idx)
    if M <= 256:
        v = r.random(c["shape"] + [4 * M]) * 10.0 ** r.integers(-300, 300)
        got = np.asarray(lab.marginalize(v)); b = v.reshape(-1, M)
        close(got.reshape(-1, m), np.log(b @ (Q == 0)) - np.log(b @ (Q == 1)), rtol=1e-9, atol=1e-9)
        assert got.shape == tuple(c["shape"] + [4 * m])
    return f"{c['lab']['t']} m{m}"

@st.composite
def marg_case(draw):
    c = draw(labeling()); M = len(ref_matrix(c))
    if M > 64: c = dict(t="reflected", m=4); M = 16
    shape = draw(SHAPE); n = draw(st.integers(1, 3))
    tot = int(np.prod(shape, dtype=int)) * n * M
    kind = draw(st.sampled_from(["unit", "big", "zeros", "spread", "extreme"]))
    el = dict(unit=floats(0.001, 1), big=floats(1e-3, 1e6), zeros=st.sampled_from([0.0, 0.5, 1.0, 2.0]), spread=st.integers(-30, 30).map(lambda e: 10.0 ** e), extreme=st.integers(-290, 290).map(lambda e: 10.0 ** e))[kind]
    if tot > 200: r = np.random.default_rng(draw(st.integers(0, 10 ** 6))); vals = r.random(tot).tolist()
    else: vals = draw(st.lists(el, min_size=tot, max_size=tot))
    return dict(lab=c, shape=shape + [n], v=vals)

@check("M01", marg_case(), quick=3000, thorough=25000)
def marginals_are_exact_log_ratios(c):
    lab = build_lab(c["lab"]); Q = np.array(ref_matrix(c["lab"])); M, m = Q.shape
    shape = c["shape"]
    v = np.array(c["v"])
    got = np.asarray(lab.marginalize(v.reshape(shape[:-1] + [shape[-1] * M])))
    rows = v.reshape(-1, M)
    lg = lambda x: math.log(x) if x > 0 else -math.inf
    want = [[lg(math.fsum(r[Q[:, j] == 0])) - lg(math.fsum(r[Q[:, j] == 1])) for j in range(m)] for r in rows]
    want = np.array(want).reshape(shape[:-1] + [shape[-1] * m])
    assert got.shape == want.shape, (got.shape, want.shape)
    fin = np.isfinite(want)
    close(got[fin], want[fin], rtol=1e-9, atol=1e-9)
    nan = np.isnan(want)
    equal(got[~fin & ~nan], want[~fin & ~nan])
    raises(ValueError, lab.marginalize, np.ones(shape[-1] * M + 1)) if M > 1 else None
    return c["lab"]["t"] if m > 1 else None

@st.composite
def typed_marg_case(draw):
    c = draw(labeling()); M = len(ref_matrix(c))
    if M > 64: c = dict(t="reflected", m=4); M = 16
    dt = draw(st.sampled_from(["uint8", "int8", "uint16", "int16", "int32", "uint32", "int64", "uint64", "float16", "float32", "bool"]))
    top = dict(bool=1, float16=60000, float32=3e38).get(dt) or np.iinfo(dt).max
    frac = st.one_of(st.integers(0, 8).map(lambda k: k / 8), st.sampled_from([1.0, 0.9, 0.0]))
    n = draw(st.integers(1, 2)); shape = draw(st.sampled_from([[], [2], [2, 1]])); tot = int(np.prod(shape, dtype=int)) * n * M
    return dict(lab=c, dt=dt, top=float(top), shape=shape + [n * M], v=draw(st.lists(frac, min_size=tot, max_size=tot)))

@check("M01", typed_marg_case(), quick=800, thorough=8000)
def marginals_of_metrics_in_any_number_format(c):
    lab = build_lab(c["lab"]); Q = np.array(ref_matrix(c["lab"])); M, m = Q.shape
    top = c["top"]
    if c["dt"] == "bool": x = (np.array(c["v"]) > 0.5).astype(bool)
    elif c["dt"].startswith("float"): x = (np.array(c["v"]) * top).astype(c["dt"])
    else: x = np.array([min(int(top), int(f * int(top))) if f < 1 else np.iinfo(c["dt"]).max for f in c["v"]], dtype=c["dt"])
    x = x.reshape(c["shape"]); keep = x.copy()
    got = np.asarray(lab.marginalize(x)); equal(x, keep)
    lg = lambda t: math.log(t) if t > 0 else -math.inf
    want = np.array([[lg(math.fsum(map(float, r[Q[:, j] == 0]))) - lg(math.fsum(map(float, r[Q[:, j] == 1]))) for j in range(m)] for r in x.reshape(-1, M)])
    want = want.reshape(c["shape"][:-1] + [c["shape"][-1] // M * m])
    assert got.shape == want.shape
    fin = np.isfinite(want); nan = np.isnan(want)
    tol = 1e-9 if got.dtype == np.float64 else 2e-2 if c["dt"] == "float16" else 1e-4
    close(got[fin], want[fin], rtol=tol, atol=tol)
    equal(got[~fin & ~nan], want[~fin & ~nan])
    return c["dt"] if m > 1 else None

@st.composite
def bad_lab(draw):
    m = draw(st.integers(1, 3)); rows = [bitrow(v, m) for v in draw(st.permutations(range(2 ** m)))]
    return dict(m=m, rows=rows, op=draw(st.integers(0, 5)), i=draw(st.integers(0, 2 ** m - 1)), j=draw(st.integers(0, m - 1)))

@check("M01", bad_lab(), quick=600, thorough=4000)
def invalid_labelings_are_rejected(c):
    rows, m, i, j = [list(r) for r in c["rows"]], c["m"], c["i"], c["j"]
    M = 2 ** m
    lab = komm.Labeling(rows)
    raises(ValueError, lab.indices_to_bits, [0, M]); raises(ValueError, lab.indices_to_bits, [-1])
    raises(ValueError, lab.bits_to_indices, [2] * m); raises(ValueError, lab.bits_to_indices, [-1] * m)
    if m > 1:
        raises(ValueError, lab.bits_to_indices, [0] * (m + 1)); raises(ValueError, lab.bits_to_indices, [[0] * (2 * m - 1)] * m)
        for L in (komm.NaturalLabeling(m), komm.ReflectedLabeling(m)): raises(ValueError, L.bits_to_indices, [0] * (m + 1))
    pl = komm.ProductLabeling(lab, komm.NaturalLabeling(1))
    raises(ValueError, pl.indices_to_bits, [2 * M]); raises(ValueError, pl.bits_to_indices, [2] * (m + 1)); raises(ValueError, pl.bits_to_indices, [0] * (m + 2))
    op = c["op"]
    if op == 0: rows[i][j] ^= 1                                   # duplicates another row
    elif op == 1: rows[i][j] = 2
    elif op == 2: rows[i][j] = [-1, 0.5, 1e-9][i % 3]
    elif op == 3: rows.pop(i)
    elif op == 4: rows.append(list(rows[i]))
    else: rows = [r + [0] for r in rows]
    raises(ValueError, komm.Labeling, rows)
    raises(ValueError, komm.ProductLabeling.from_matrices, rows)
    for n in (0, -1): raises(ValueError, komm.NaturalLabeling, n); raises(ValueError, komm.ReflectedLabeling, n)
    for n in (0, 3, -2, (0, 1), (1, 0)): raises(ValueError, komm.ReflectedRectangularLabeling, n)
    raises(ValueError, komm.ProductLabeling); raises(ValueError, komm.ProductLabeling, lab, repeat=0)
    return "refused"

# ---- constellations ------------------------------------------------------------------------
AMP = st.one_of(st.sampled_from([1.0, 2.0, 0.5, 1e-6, 1e3, 1e-12]), floats(0.01, 10))
PHI = st.one_of(st.sampled_from([0.0, 0.125, 0.25, 0.5, 1 / 16]), floats(-1, 1))

@st.composite
def const(draw):
    t = draw(st.sampled_from(["pam", "ask", "psk", "apsk", "qam", "qam1", "cross", "orth", "biorth", "simplex", "real", "complex", "realN", "complexN"]))
    if t == "pam": return dict(t=t, M=draw(st.integers(1, 16)), d=draw(AMP))
    if t in ("ask", "psk"): return dict(t=t, M=draw(st.integers(1, 16)), d=draw(AMP), phi=draw(PHI))
    if t == "apsk":
        K = draw(st.integers(1, 3))
        a = sorted(draw(st.lists(st.integers(0 if K > 1 else 1, 40), min_size=K, max_size=K, unique=True)))
        Ms = [1 if x == 0 else draw(st.integers(1, 8)) for x in a]
        ph = draw(st.one_of(PHI, st.lists(PHI, min_size=K, max_size=K)))
        return dict(t=t, Ms=Ms, As=[x / 4 for x in a], phi=ph)
    if t == "qam": return dict(t=t, M=[draw(st.integers(1, 6)), draw(st.integers(1, 6))], d=[draw(AMP), draw(AMP)] if draw(st.booleans()) else draw(AMP), phi=draw(PHI))
    if t == "qam1": return dict(t="qam", M=draw(st.sampled_from([1, 4, 9, 16, 25])), d=draw(AMP), phi=draw(PHI))
    if t == "cross": return dict(t=t, M=draw(st.sampled_from([32, 32, 128])), d=draw(AMP), phi=draw(PHI))
    if t == "orth" or t == "simplex": return dict(t=t, M=draw(st.integers(2, 7)), d=draw(AMP))
    if t == "biorth": return dict(t=t, M=2 * draw(st.integers(1, 5)), d=draw(AMP))
    N = 1 if not t.endswith("N") else draw(st.integers(2, 3)); M = draw(st.integers(2, 7))
    cx = t.startswith("complex")
    pts = draw(st.lists(st.lists(st.integers(-6, 6), min_size=N * (1 + cx), max_size=N * (1 + cx)), min_size=M, max_size=M, unique_by=tuple))
    return dict(t=t, pts=[[x / 2 for x in p] for p in pts])

@st.composite
def big_const(draw):
    t = draw(st.sampled_from(["pam", "ask", "psk", "apsk", "qam", "cross", "orth", "biorth", "simplex", "real", "complex", "realN", "complexN"]))
    if t == "pam": return dict(t=t, M=draw(st.integers(17, 600)), d=draw(AMP))
    if t in ("ask", "psk"): return dict(t=t, M=draw(st.integers(17, 600)), d=draw(AMP), phi=draw(PHI))
    if t == "apsk":
        K = draw(st.integers(2, 6)); s = draw(st.sampled_from([1.0, 1e-5, 1e4]))
        return dict(t=t, Ms=[draw(st.integers(1, 48)) for _ in range(K)], As=[s * (i + 1) * 0.75 for i in range(K)], phi=draw(st.one_of(PHI, st.lists(PHI, min_size=K, max_size=K))))
    if t == "qam": return dict(t=t, M=[draw(st.integers(2, 32)), draw(st.integers(2, 32))] if draw(st.booleans()) else draw(st.sampled_from([36, 64, 256, 1024])), d=draw(AMP), phi=draw(PHI))
    if t == "cross": return dict(t=t, M=draw(st.sampled_from([128, 512, 2048])), d=draw(AMP), phi=draw(PHI))
    if t in ("orth", "simplex"): return dict(t=t, M=draw(st.integers(8, 64)), d=draw(AMP))
    if t == "biorth": return dict(t=t, M=2 * draw(st.integers(6, 40)), d=draw(AMP))
    N = 1 if not t.endswith("N") else draw(st.integers(2, 6)); M = draw(st.integers(8, 150)); cx = t.startswith("complex")
    r = np.random.default_rng(draw(st.integers(0, 10 ** 6)))
    p = np.unique(r.integers(-40, 41, (M, N * (1 + cx))), axis=0); r.shuffle(p)
    return dict(t=t, pts=(p * draw(st.sampled_from([0.5, 1e-4, 1e5])) + draw(st.sampled_from([0, 0, 100]))).tolist())

def ref_points(c):
    t = c["t"]
    j = 1j
    ph = lambda x: complex(math.cos(2 * math.pi * x), math.sin(2 * math.pi * x))
    if t == "pam": return np.array([[(2 * i - (c["M"] - 1)) * c["d"] / 2] for i in range(c["M"])])
    if t == "ask": return np.array([[i * c["d"] * ph(c["phi"])] for i in range(c["M"])])
    if t == "psk": return np.array([[c["d"] * ph(i / c["M"] + c["phi"])] for i in range(c["M"])])
    if t == "apsk":
        phis = c["phi"] if isinstance(c["phi"], list) else [c["phi"]] * len(c["Ms"])
        return np.array([[A * ph(i / M + p)] for M, A, p in zip(c["Ms"], c["As"], phis) for i in range(M)])
    if t == "qam":
        Mi, Mq = c["M"] if isinstance(c["M"], list) else (math.isqrt(c["M"]),) * 2
        di, dq = c["d"] if isinstance(c["d"], list) else (c["d"],) * 2
        return np.array([[complex((2 * a - Mi + 1) * di / 2, (2 * b - Mq + 1) * dq / 2) * ph(c["phi"])] for a in range(Mi) for b in range(Mq)])
    if t == "cross":
        M = c["M"]; k = M.bit_length() - 1; L = 3 * 2 ** ((k - 3) // 2); s = 2 ** ((k - 1) // 2)
        g = range(-L + 1, L, 2)
        return np.array([[complex(a, b) * c["d"] / 2 * ph(c["phi"])] for a in g for b in g if not (abs(a) > s and abs(b) > s)])
    if t == "orth": return c["d"] * np.eye(c["M"])
    if t == "biorth": return c["d"] * np.vstack([np.eye(c["M"] // 2), -np.eye(c["M"] // 2)])
    if t == "simplex": return c["d"] * (np.eye(c["M"]) - 1 / c["M"])
    p = np.array(c["pts"], dtype=float)
    if t.startswith("complex"): N = p.shape[1] // 2; return p[:, :N] + 1j * p[:, N:]
    return p

def build_const(c):
    t = c["t"]
    if t == "pam": return komm.PAMConstellation(c["M"], c["d"])
    if t == "ask": return komm.ASKConstellation(c["M"], c["d"], c["phi"])
    if t == "psk": return komm.PSKConstellation(c["M"], c["d"], c["phi"])
    if t == "apsk": return komm.APSKConstellation(tuple(c["Ms"]), tuple(c["As"]), tuple(c["phi"]) if isinstance(c["phi"], list) else c["phi"])
    if t == "qam": return komm.QAMConstellation(tuple(c["M"]) if isinstance(c["M"], list) else c["M"], tuple(c["d"]) if isinstance(c["d"], list) else c["d"], c["phi"])
    if t == "cross": return komm.CrossQAMConstellation(c["M"], c["d"], c["phi"])
    if t == "orth": return komm.OrthogonalConstellation(c["M"], c["d"])
    if t == "biorth": return komm.BiorthogonalConstellation(c["M"], c["d"])
    if t == "simplex": return komm.SimplexConstellation(c["M"], c["d"])
    X = ref_points(c)
    if X.shape[1] == 1 and len(X) % 2: X = X[:, 0]
    return komm.Constellation(X.tolist() if len(X) % 3 else X)

@st.composite
def geo_case(draw):
    c = draw(const())
    if c["t"] in ("real", "complex", "realN", "complexN") and draw(st.booleans()):  # a pair of symbols very close to each other
        i, j = draw(st.permutations(range(len(c["pts"]))))[:2]
        q = list(c["pts"][i]); q[draw(st.integers(0, len(q) - 1))] += draw(st.sampled_from([1e-4, -1e-7, 1e-9, 1e-10, 1e-12, -1e-14]))
        if q != c["pts"][i]: c = dict(c, pts=[q if m == j else x for m, x in enumerate(c["pts"])])
    M = len(ref_points(c))
    shape = draw(SHAPE); n = draw(st.integers(0, 5)) if shape == [] else draw(st.integers(1, 4))
    tot = int(np.prod(shape, dtype=int)) * n
    p = draw(pmf(M, M)) if M > 1 and M <= 16 else None
    return dict(c=c, p=p, shape=shape + [n], idx=draw(st.lists(st.integers(0, M - 1), min_size=tot, max_size=tot)))

@check("M02", geo_case(), quick=6000, thorough=60000, weight=2)
def statistics_match_the_symbol_set(c):
    X = ref_points(c["c"]); M, N = X.shape
    k = build_const(c["c"])
    scale = float(np.max(np.abs(X))) or 1.0
    mat = np.asarray(k.matrix)
    assert mat.shape == X.shape and np.iscomplexobj(mat) == np.iscomplexobj(X)
    close(mat / scale, X / scale, rtol=0, atol=1e-11)
    assert (k.order, k.dimension) == (M, N)
    for p in (None, c["p"]):
        w = np.full(M, 1 / M) if p is None else np.array(p)
        args = () if p is None else (p,)
        if p is None and M == 1: continue
        close(np.asarray(k.mean(*args)) / scale, (w @ X) / scale, rtol=0, atol=1e-10)
        E = float(w @ np.sum(np.abs(X) ** 2, axis=1))
        close(k.mean_energy(*args) / scale ** 2, E / scale ** 2, rtol=1e-10, atol=1e-13)
        if p is not None:
            close(np.asarray(k.mean(np.array(p))) / scale, (w @ X) / scale, rtol=0, atol=1e-10)
    if M == 1:
        close(np.asarray(k.mean()) / scale, X[0] / scale, rtol=0, atol=1e-10)
    else:
        d = min(float(np.linalg.norm(X[a] - X[b])) for a in range(M) for b in range(a))
        # given points are stored as they are, so that their distances carry no rounding
        close(k.minimum_distance() / scale, d / scale, rtol=1e-9, atol=0 if "pts" in c["c"] else 1e-11)
        raises(ValueError, k.mean, [1 / (M + 1)] * (M + 1)); raises(ValueError, k.mean_energy, [1 / (M + 1)] * (M + 1))
        raises(ValueError, k.mean, [0.5 / M] * M)
    idx = np.array(c["idx"], dtype=int).reshape(c["shape"])
    want = X[idx].reshape(c["shape"][:-1] + [c["shape"][-1] * N])
    for a in (idx, idx.tolist() if idx.size else idx, idx.astype(np.uint8)):
        y = np.asarray(k.indices_to_symbols(a))
        close(y / scale, want / scale, rtol=0, atol=1e-11)
    return c["c"]["t"] if M > 1 else None

@st.composite
def big_geo_case(draw):
    c = draw(big_const()); M = len(ref_points(c))
    return dict(c=c, p=draw(pmf(M, M)) if M <= 40 else None, shape=[draw(st.integers(1, 3)), 4], idx=[draw(st.integers(0, M - 1)) for _ in range(4)])

@check("M02", big_geo_case(), quick=300, thorough=4000, weight=2)
def large_constellations(c):
    X = ref_points(c["c"]); M, N = X.shape
    s = float(np.max(np.abs(X))); k = build_const(c["c"])
    c = dict(c); c["idx"] = c["idx"] * c["shape"][0]
    close(np.asarray(k.matrix) / s, X / s, rtol=0, atol=1e-11)
    assert (k.order, k.dimension) == (M, N)
    r = np.random.default_rng(M)
    for p in (None, c["p"] or (lambda w: (w / w.sum()).tolist())(r.random(M) ** 3)):
        w = np.full(M, 1 / M) if p is None else np.array(p)
        args = () if p is None else (p,)
        close(np.asarray(k.mean(*args)) / s, (w @ X) / s, rtol=0, atol=1e-10)
        close(k.mean_energy(*args) / s ** 2, float(w @ np.sum(np.abs(X) ** 2, axis=1)) / s ** 2, rtol=1e-10, atol=1e-13)
    d2 = min(float(np.min(np.sum(np.abs(X[i + 1:] - X[i]) ** 2, axis=1))) for i in range(M - 1))
    close(k.minimum_distance() / s, math.sqrt(d2) / s, rtol=1e-9, atol=1e-11)
    idx = np.array(c["idx"]).reshape(c["shape"])
    close(np.asarray(k.indices_to_symbols(idx)) / s, X[idx].reshape(c["shape"][0], -1) / s, rtol=0, atol=1e-11)
    big = r.integers(0, M, 3001)
    close(np.asarray(k.indices_to_symbols(big)) / s, X[big].reshape(-1) / s, rtol=0, atol=1e-11)
    return f"{c['c']['t']} {'>128' if M > 128 else ''}"

@check("M02", cases=lambda tier: [dict(v=v) for v in (0, 1, 2, 4, 8, 16, 31, 33, 64, 256, 96, 24)])
def invalid_orders_are_rejected(c):
    v = c["v"]
    raises(ValueError, komm.CrossQAMConstellation, v)
    if math.isqrt(v) ** 2 != v: raises(ValueError, komm.QAMConstellation, v)
    if v % 2: raises(ValueError, komm.BiorthogonalConstellation, v)
    return "refused"

@st.composite
def recv(draw, c, n):
    """n received points: list of N-vectors (complex as pairs), in units of the constellation's scale."""
    X = ref_points(c); N = X.shape[1]; cx = np.iscomplexobj(X)
    out = []
    for _ in range(n):
        kind = draw(st.sampled_from(["near", "between", "plane", "far", "huge", "symbol", "axis"]))
        i = draw(st.integers(0, len(X) - 1)); jj = draw(st.integers(0, len(X) - 1))
        s = float(np.max(np.abs(X))) or 1.0
        if kind == "symbol": v = X[i]
        else:
            z = np.array(draw(st.lists(floats(-1, 1), min_size=N, max_size=N)))
            if cx: z = z + 1j * np.array(draw(st.lists(floats(-1, 1), min_size=N, max_size=N)))
            if kind == "near": v = X[i] + z * s * 0.05
            elif kind == "between": v = (X[i] + X[jj]) / 2 + z * s * draw(st.sampled_from([1e-3, 1e-6, 1e-9]))
            elif kind == "plane": v = 2 * s * z
            elif kind == "axis": v = 3 * s * (z.real if not cx else z.real if draw(st.booleans()) else 1j * z.imag)
            elif kind == "far": v = s * z * 10.0 ** draw(st.integers(1, 6))
            else: v = s * z * 10.0 ** draw(st.integers(7, 100))
        v = np.broadcast_to(v, (N,))
        out.append([[float(x.real), float(x.imag)] for x in v] if cx else [float(x) for x in v])
    return out

@st.composite
def det_case(draw):
    c = draw(const())
    shape = draw(SHAPE); n = draw(st.integers(1, 4))
    return dict(c=c, shape=shape + [n], r=draw(recv(c, int(np.prod(shape, dtype=int)) * n)))

def vecs(c, r):
    a = np.array(r, dtype=float)
    return a[..., 0] + 1j * a[..., 1] if np.iscomplexobj(ref_points(c)) else a

def exact_grid(v, M, d):
    """Nearest level of i*d, i in [0,M), for a real v: set of acceptable indices."""
    x = v / d
    if not math.isfinite(x): return {M - 1} if v > 0 else {0}
    if x >= M - 0.5 + 1e-6: return {M - 1}
    if x <= 0.5 - 1e-6: return {0}
    f = math.floor(x)
    if abs(x - f - 0.5) < 1e-9 * max(1, abs(x)): return {min(M - 1, max(0, f)), min(M - 1, max(0, f + 1))}
    return {min(M - 1, max(0, round(x)))}

@check("M03", det_case(), quick=8000, thorough=80000, weight=3)
def detection_is_nearest_neighbour(c):
    cc = c["c"]; X = ref_points(cc); M, N = X.shape
    if M < 2: raise Skip
    k = build_const(cc)
    V = vecs(cc, c["r"])                                   # (P, N)
    shape = c["shape"]
    R = V.reshape(shape[:-1] + [shape[-1] * N])
    idx = np.asarray(k.closest_indices(R))
    is_int_array(idx)
    assert idx.shape == tuple(shape), f"shape {idx.shape} for {R.shape}"
    assert ((0 <= idx) & (idx < M)).all()
    if R.size and R.ndim == 1: equal(np.asarray(k.closest_indices(R.tolist())), idx)
    sy = np.asarray(k.closest_symbols(R))
    equal(sy, np.asarray(k.matrix)[idx].reshape(R.shape))
    far = False
    for v, i in zip(V, idx.ravel().tolist()):
        s = float(np.max(np.abs(X)))
        with np.errstate(all="ignore"):
            D = np.array([math.hypot(*(np.abs(v - x))) for x in X])
        best = float(D.min())
        tol = 1e-11 * s + 4e-15 * best
        assert D[i] <= best + tol, f"index {i} at distance {D[i]}, nearest {int(D.argmin())} at {best} for point {v}"
        if best > 1e6 * s:
            far = True
            # the nearest symbol of a far point is the one with the largest projection on it
            if cc["t"] in ("pam", "ask", "qam", "psk", "orth", "biorth", "simplex"):
                pr = np.array([float(np.sum((v / np.max(np.abs(v)) * np.conj(x)).real)) for x in X])
                if cc["t"] in ("psk", "orth", "biorth", "simplex"):
                    assert pr[i] >= pr.max() - 1e-9 * s, f"index {i} for the far point {v}"
        ph = complex(math.cos(2 * math.pi * cc.get("phi", 0)), -math.sin(2 * math.pi * cc.get("phi", 0))) if cc["t"] in ("ask", "qam") else 1
        if cc["t"] == "pam": assert i in exact_grid(v[0].real + (M - 1) * cc["d"] / 2 if best < 1e6 * s else v[0].real, M, cc["d"]), f"index {i} for {v}"
        if cc["t"] == "ask":
            x = (v[0] * ph).real
            if abs(x) > 1e-9 * abs(v[0]): assert i in exact_grid(x, M, cc["d"]) or abs(v[0]) > 1e6 * s > abs(x) * 1e3, f"index {i} for {v}"
        if cc["t"] == "qam":
            Mi, Mq = cc["M"] if isinstance(cc["M"], list) else (math.isqrt(M),) * 2
            di, dq = cc["d"] if isinstance(cc["d"], list) else (cc["d"],) * 2
            z = v[0] * ph
            for x, a, m, d in ((z.real, i // Mq, Mi, di), (z.imag, i % Mq, Mq, dq)):
                if abs(x) > 1e4 * d and abs(x) > 1e-3 * abs(v[0]): assert a == (m - 1 if x > 0 else 0), f"index {i} for {v}"
    return cc["t"] + (" far" if far else "")

@check("M03", st.one_of(const(), const(), const(), const(), big_const()), quick=1800, thorough=12000)
def noise_free_points_are_detected_as_themselves(c):
    X = ref_points(c); M, N = X.shape
    k = build_const(c)
    if len({tuple(np.round(x / (np.max(np.abs(X)) or 1), 9)) for x in X}) < M: raise Skip
    idx = np.arange(M)
    y = k.indices_to_symbols(idx)
    if M > 1:
        equal(k.closest_indices(y), idx)
        equal(k.closest_symbols(y), np.asarray(k.matrix).reshape(np.shape(y)))
        y2 = np.asarray(y).reshape(1, -1)
        equal(k.closest_indices(y2), idx.reshape(1, -1))
    if N > 1:
        for bad in (np.zeros(N + 1), np.zeros((2, N + 1)), np.zeros((3, 2 * N - 1))):
            raises(ValueError, k.closest_indices, bad)
            raises(ValueError, k.posteriors, bad, 1.0)
    return c["t"] if M > 1 else None

@st.composite
def batch_case(draw):
    c = draw(st.one_of(big_const(), big_const(), const()))
    return dict(c=c, P=draw(st.sampled_from([1, 3, 700, 1025, 2500, 5003])), seed=draw(st.integers(0, 10 ** 6)), noise=draw(st.sampled_from([1e-6, 0.02, 0.3])),
                cont=draw(st.sampled_from(["list", "plain", "fortran", "strided", "reversed", "readonly"])), two=draw(st.booleans()), pri=draw(st.booleans()))

def flayout(a, cont):
    if cont == "plain": return a
    return layout(a, cont)

@check("M03", batch_case(), quick=250, thorough=4000, weight=4)
def large_orders_and_batches(c):
    cc = c["c"]; X = ref_points(cc); M, N = X.shape
    if M < 2: raise Skip
    P = c["P"] if c["P"] * M * N < 3e6 else 61
    k = build_const(cc); s = float(np.max(np.abs(X)))
    r = np.random.default_rng(c["seed"])
    true = r.integers(0, M, P)
    z = r.normal(size=(P, N)) + (1j * r.normal(size=(P, N)) if np.iscomplexobj(X) else 0)
    V = X[true] + s * c["noise"] * z
    shape = [2, P // 2] if c["two"] and P % 2 == 0 else [P]
    R = flayout(V.reshape(shape[:-1] + [-1]), c["cont"])
    D2 = np.empty((P, M))
    for i in range(P): D2[i] = np.sum(np.abs(V[i] - X) ** 2, axis=1)
    idx = np.asarray(k.closest_indices(R)); is_int_array(idx)
    assert idx.shape == tuple(shape), idx.shape
    f = idx.ravel(); assert ((0 <= f) & (f < M)).all()
    d, best = np.sqrt(D2[np.arange(P), f]), np.sqrt(D2.min(axis=1))
    bad = np.nonzero(d > best + 1e-11 * s)[0]
    assert not bad.size, f"point {V[bad[0]]}: index {f[bad[0]]} at distance {d[bad[0]]}, nearest at {best[bad[0]]}"
    sy = np.asarray(k.closest_symbols(R)); equal(sy, np.asarray(k.matrix)[idx].reshape(V.reshape(shape[:-1] + [-1]).shape))
    noise = (s * max(c["noise"], 0.02)) ** 2
    w = r.random(M) * (r.random(M) < 0.7) + 1e-300; pri = w / w.sum() if c["pri"] else np.full(M, 1 / M)
    got = np.asarray(k.posteriors(R, noise, pri) if c["pri"] else k.posteriors(R, noise))
    assert got.shape == tuple(shape[:-1] + [shape[-1] * M])
    l = -D2 / (noise if np.iscomplexobj(X) else 2 * noise) + np.log(pri)
    w = np.exp(l - l.max(axis=1, keepdims=True)); w /= w.sum(axis=1, keepdims=True)
    close(got.reshape(P, M), w, rtol=1e-6, atol=1e-9)
    return f"{cc['t']} {'>128 symbols ' if M > 128 else ''}{'>1024 points' if P > 1024 else ''}"

@st.composite
def typed_case(draw):
    c = draw(const()); N = ref_points(c).shape[1]
    dt = draw(st.sampled_from(["list", "int64", "uint8", "int8", "uint16", "int32", "uint64", "float32", "complex64"]))
    if dt == "complex64" and c["t"] in ("pam", "orth", "biorth", "simplex", "real", "realN"): dt = "float32"
    lo, hi = (0, 200) if dt.startswith("uint") else (-100, 100)
    n = draw(st.integers(1, 3))
    v = draw(st.lists(st.integers(lo, hi) if draw(st.booleans()) else st.integers(max(lo, -3), 3), min_size=n * N, max_size=n * N))
    return dict(c=c, dt=dt, v=v)

@check("M03", typed_case(), quick=1500, thorough=10000)
def integer_and_single_precision_inputs(c):
    """The answer for an array of any numeric type is that for the same values in double precision."""
    cc = c["c"]
    if len(ref_points(cc)) < 2: raise Skip
    k = build_const(cc)
    x = np.array(c["v"], dtype=float)
    y = list(c["v"]) if c["dt"] == "list" else np.array(c["v"]).astype(c["dt"])
    X = ref_points(cc); s = float(np.max(np.abs(X))); N = X.shape[1]
    a, b = np.asarray(k.closest_indices(y)), np.asarray(k.closest_indices(x))
    V = x.reshape(-1, N)
    D = np.array([[np.linalg.norm(v - p) for p in X] for v in V])
    for i, (p, q) in enumerate(zip(a, b)):
        assert D[i, p] <= D[i].min() * (1 + 1e-6) + 1e-6 * s, f"{c['dt']} input {c['v']}: index {p}, double precision gives {q}"
    if np.max(np.abs(x)) < 1e4 * s:
        close(k.posteriors(y, 1e3 * s * s + np.max(np.abs(x)) ** 2), k.posteriors(x, 1e3 * s * s + np.max(np.abs(x)) ** 2), rtol=1e-4, atol=1e-6)
    return cc["t"] + " " + c["dt"]

@st.composite
def post_case(draw):
    c = draw(const()); M = len(ref_points(c))
    shape = draw(SHAPE); n = draw(st.integers(1, 3))
    return dict(c=c, shape=shape + [n], r=draw(recv(c, int(np.prod(shape, dtype=int)) * n)), np=draw(st.integers(-4, 3)), mant=draw(floats(1, 9)),
                p=draw(pmf(M, M)) if 1 < M <= 16 and draw(st.booleans()) else None)

@check("M03", post_case(), quick=6000, thorough=50000, weight=2)
def posteriors_follow_bayes_rule(c):
    cc = c["c"]; X = ref_points(cc); M, N = X.shape
    if M < 2: raise Skip
    k = build_const(cc)
    s = float(np.max(np.abs(X)))
    V = vecs(cc, c["r"])
    noise = c["mant"] * 10.0 ** c["np"] * s * s
    var = noise if np.iscomplexobj(X) else 2 * noise
    keep = [v if np.max(np.abs(v)) <= 1e4 * s else X[0] for v in V]
    V = np.array(keep)
    shape = c["shape"]
    R = V.reshape(shape[:-1] + [shape[-1] * N])
    pri = np.full(M, 1 / M) if c["p"] is None else np.array(c["p"])
    got = np.asarray(k.posteriors(R, noise) if c["p"] is None else k.posteriors(R, noise, c["p"]))
    assert got.shape == tuple(shape[:-1] + [shape[-1] * M]), got.shape
    g = got.reshape(-1, M)
    for v, row in zip(V, g):
        D = np.array([float(np.sum(np.abs(v - x) ** 2)) for x in X])
        tol = 1e-9 + 1e-13 * D.max() / var
        if tol > 1e-4: continue
        e = -D / var
        ok = pri > 0
        l = np.where(ok, e + np.log(np.where(ok, pri, 1)), -np.inf)
        w = np.exp(l - l[ok].max()); w /= w.sum()
        close(row, w, rtol=1e-7, atol=tol)
        assert abs(row.sum() - 1) < 1e-9
    kw = k.posteriors(received=R, noise_power=noise, priors=c["p"])
    equal(kw, got)
    raises(ValueError, k.posteriors, R, noise, [1 / (M + 1)] * (M + 1))
    raises(ValueError, k.posteriors, R, noise, [0.5 / M] * M)
    return cc["t"] + (" priors" if c["p"] else "")
