"""H01-H02: discrete memoryless channels and the Gaussian channel."""
import math
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from ..gen import equal, close, raises, is_int_array, pmf, floats, CONT, layout, rigged

rule("H01", "Non-trivial: the channel is neither useless nor noiseless and the input pmf has at least two positive entries (label: channel kind).",
     ["capacity of a general channel is computed by a finite number of Arimoto-Blahut iterations: where the reference iteration has not converged either, the classical bound log|X|/n on its gap is allowed",
      "capacities of general channels: transition probabilities zero or at least 1e-300"])
rule("H02", "Non-trivial: at least one symbol transmitted (label: channel kind and regime).",
     ["frequency checks allow 7 standard deviations", "inputs are within the input alphabet"])

BASE = st.sampled_from([2.0, 2.0, "e", 3.0, 10.0, 4.0, 1.5])
PROB = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 1e-3, 1 - 1e-3, 1e-12, 1 - 1e-12, 1e-310, 1e-200, 1 - 2 ** -53, 1 - 1e-7, 1 - 1e-9]), floats(0, 1), floats(0, 1).map(lambda x: round(x, 2)))

def lb(base): return 1.0 if base == "e" else math.log(base)

@st.composite
def stoch(draw, rows=(1, 5), cols=(1, 5)):
    m, n = draw(st.integers(*rows)), draw(st.integers(*cols))
    kind = draw(st.sampled_from(["free", "free", "free", "same", "det", "sym", "perm", "dup"]))
    row = lambda: draw(pmf(n, n)) if n > 1 else [1.0]
    if kind == "same": return [row()] * m
    if kind == "det": return [[1.0 if j == draw(st.integers(0, n - 1)) else 0.0 for j in range(n)] for _ in range(m)] if n == 1 else \
        [[1.0 if j == k else 0.0 for j in range(n)] for k in draw(st.lists(st.integers(0, n - 1), min_size=m, max_size=m))]
    if kind == "sym":
        r = row()
        return [r[i:] + r[:i] for i in range(n)]
    if kind == "perm": return [[1.0 if j == k else 0.0 for j in range(n)] for k in draw(st.permutations(range(n)))]
    P = [row() for _ in range(m)]
    if kind == "dup": P.append(list(P[0]))
    if draw(st.integers(0, 7)) == 0:   # a possible but very unlikely transition
        i, t = draw(st.integers(0, len(P) - 1)), draw(st.sampled_from([5e-324, 1e-310, 1e-300, 1e-100, 1e-20]))
        P[i] = [t if x == 0 else x for x in P[i]]
    return P

@st.composite
def chan(draw):
    t = draw(st.sampled_from(["bsc", "bec", "z", "dmc", "dmc", "dmc"]))
    return dict(t=t, P=draw(stoch())) if t == "dmc" else dict(t=t, p=draw(PROB))

def ref_matrix(c):
    if c["t"] == "dmc": return [list(map(float, r)) for r in c["P"]]
    p = c["p"]
    return {"bsc": [[1 - p, p], [p, 1 - p]], "bec": [[1 - p, 0, p], [0, 1 - p, p]], "z": [[1, 0], [p, 1 - p]]}[c["t"]]

def build(c, rng=None):
    kw = {} if rng is None else dict(rng=rng)
    if c["t"] == "dmc": return komm.DiscreteMemorylessChannel(c["P"], **kw)
    cls = {"bsc": komm.BinarySymmetricChannel, "bec": komm.BinaryErasureChannel, "z": komm.ZChannel}[c["t"]]
    return cls(c["p"], **kw)

def mi_ref(p, P):
    """Mutual information in nats, summed term by term."""
    q = [math.fsum(p[x] * P[x][y] for x in range(len(P))) for y in range(len(P[0]))]
    return math.fsum(p[x] * P[x][y] * (math.log(P[x][y]) - math.log(q[y]))
                     for x in range(len(P)) for y in range(len(P[0])) if p[x] * P[x][y] > 0)

def capacity_bounds(P, iters=600):
    """Arimoto-Blahut with its own optimality certificate: (lower, upper, converged) in nats."""
    P = np.asarray(P, dtype=float)
    logP = np.where(P > 0, np.log(np.where(P > 0, P, 1)), 0.0)
    r = np.full(P.shape[0], 1 / P.shape[0])
    H = (P * logP).sum(axis=1)
    for k in range(iters):
        q = r @ P
        logq = np.where(q > 0, np.log(np.where(q > 0, q, 1)), 0.0)
        D = H - P @ logq
        lo, up = float(r @ D), float(D.max())
        if up - lo < 1e-11: break
        r = r * np.exp(D - up)
        r /= r.sum()
    return lo, up, up - lo < 1e-9

def interesting(P, p):
    P = np.asarray(P)
    return len(P) > 1 and sum(x > 0 for x in p) > 1 and not (P == P[0]).all() and ((P > 0) & (P < 1)).any()

@st.composite
def mi_case(draw):
    c = draw(chan()); m = len(ref_matrix(c))
    return dict(ch=c, p=draw(pmf(m, m)) if m > 1 else [1.0], base=draw(BASE))

@check("H01", mi_case(), quick=4000, thorough=60000, weight=2)
def matrix_and_mutual_information(c):
    ch, P = build(c["ch"]), ref_matrix(c["ch"])
    M = ch.transition_matrix
    close(M, P, 1e-15, 1e-15)
    assert (np.asarray(M) >= 0).all()
    close(np.asarray(M).sum(axis=1), np.ones(len(P)), 1e-6, 1e-6)
    assert (ch.input_cardinality, ch.output_cardinality) == (len(P), len(P[0]))
    got, want = ch.mutual_information(c["p"], c["base"]), mi_ref(c["p"], P) / lb(c["base"])
    assert isinstance(got, float) or np.isscalar(got)
    close(got, want, 1e-9, 1e-11)
    if c["base"] == 2.0: close(ch.mutual_information(np.array(c["p"])), want, 1e-9, 1e-11)
    # agreement with the general channel on the same matrix, and invariance under relabelling
    close(komm.DiscreteMemorylessChannel(P).mutual_information(c["p"], base=c["base"]), want, 1e-9, 1e-11)
    close(komm.DiscreteMemorylessChannel(P[::-1]).mutual_information(c["p"][::-1], base=c["base"]), want, 1e-9, 1e-11)
    return interesting(P, c["p"]) and c["ch"]["t"]

@check("H01", mi_case(), quick=1500, thorough=15000, weight=6)
def capacity_is_the_maximum(c):
    ch, P = build(c["ch"]), ref_matrix(c["ch"])
    if c["ch"]["t"] == "dmc" and any(0 < x < 1e-300 for r in P for x in r): raise Skip
    lo, up, conv = capacity_bounds(P)
    gap = 0.0 if conv else math.log(len(P)) / 1000
    cap = ch.capacity(c["base"]) * lb(c["base"])
    assert lo - 1e-8 - gap <= cap <= up + 1e-8, f"capacity {cap} nats outside [{lo}, {up}]"
    if c["base"] == 2.0: assert ch.capacity() == ch.capacity(2.0)
    # no input distribution does better
    for p in (c["p"], [1 / len(P)] * len(P)):
        assert mi_ref(p, P) <= cap + gap + 1e-8
    assert -1e-12 <= cap <= min(math.log(len(P)), math.log(len(P[0]))) + 1e-9
    if c["ch"]["t"] != "dmc":
        p = c["ch"]["p"]; h = -sum(x * math.log(x) for x in (p, 1 - p) if x > 0)
        want = {"bsc": math.log(2) - h, "bec": (1 - p) * math.log(2),
                "z": 0.0 if p == 1 else math.log(1 + (1 - p) * p ** (p / (1 - p)))}[c["ch"]["t"]]
        close(cap, want, 1e-9, 1e-12)
    A = np.asarray(P)
    if ((A == 0) | (A == 1)).all(): close(cap, math.log(len({tuple(r) for r in P})), 1e-8, 1e-8)
    if all(tuple(sorted(r)) == tuple(sorted(P[0])) for r in P) and all(tuple(sorted(A[:, j])) == tuple(sorted(A[:, 0])) for j in range(len(P[0]))):
        close(cap, math.log(len(P[0])) + sum(x * math.log(x) for x in P[0] if x > 0), 1e-8, 1e-8)
    return interesting(P, [1] * len(P)) and c["ch"]["t"] + ("" if conv else "-slow")

# ---- large channels ------------------------------------------------------------------------
LAY = st.sampled_from(["array", "list", "fortran", "strided", "readonly", "transposed"])

def lay(a, k):
    a = np.asarray(a)
    return a if k == "array" or a.ndim == 0 else np.ascontiguousarray(a.T).T if k == "transposed" else layout(a, k)

@st.composite
def large_case(draw):
    k = draw(st.sampled_from(["random", "random", "peaky", "sparse", "qsc", "qec", "typewriter", "repeat", "rank1", "tiny"]))
    return dict(k=k, m=draw(st.integers(2, 40)), n=draw(st.integers(2, 60)), q=draw(st.integers(2, 300)), e=draw(st.sampled_from([0.0, 1e-6, 0.01, 0.1, 0.5, 0.9, 1.0])),
                seed=draw(st.integers(0, 2 ** 32)), lay=draw(LAY), base=draw(BASE))

def large_matrix(c):
    rng = np.random.default_rng(c["seed"]); m, n, q, e = c["m"], c["n"], c["q"], c["e"]; k = c["k"]
    if k == "qsc": return np.where(np.eye(q, dtype=bool), 1 - e, e / (q - 1)), math.log(q) + (1 - e) * math.log(1 - e if e < 1 else 1) + (e * math.log(e / (q - 1)) if e > 0 else 0)
    if k == "qec": return np.hstack([(1 - e) * np.eye(q), np.full((q, 1), e)]), (1 - e) * math.log(q)
    if k == "typewriter":
        q = max(q, 3); P = (1 - e) * np.eye(q) + e * np.roll(np.eye(q), 1, axis=1)
        return P, math.log(q) - sum(-x * math.log(x) for x in (e, 1 - e) if x > 0)
    if k == "rank1": return np.tile(rng.dirichlet(np.full(n, 0.5)), (m, 1)), 0.0
    P = rng.gamma({"peaky": 0.05, "random": 1.0}.get(k, 0.5), size=(m, n)) + 1e-290
    if k == "sparse": P[rng.random((m, n)) < 0.7] = 0; P[np.arange(m), rng.integers(0, n, m)] += 0.1
    P /= P.sum(axis=1, keepdims=True)
    if k == "tiny": P[rng.random((m, n)) < 0.3] = 10.0 ** -rng.integers(20, 300); P /= P.sum(axis=1, keepdims=True)
    if k == "repeat": P = np.repeat(P, 3, axis=0)
    return P, None

@check("H01", large_case(), quick=400, thorough=5000, weight=10)
def large_channels(c):
    P, exact = large_matrix(c); m = len(P); rng = np.random.default_rng(c["seed"] + 1)
    ch = komm.DiscreteMemorylessChannel(lay(P, c["lay"]))
    equal(ch.transition_matrix, P); assert (ch.input_cardinality, ch.output_cardinality) == P.shape
    def mi(r):
        q = r @ P; J = r[:, None] * P
        return float((J * (np.log(np.where(J > 0, P, 1)) - np.log(np.where(J > 0, np.broadcast_to(q, P.shape), 1)))).sum())
    r = rng.gamma(0.3, size=m) + 1e-9; r /= r.sum()
    u = np.full(m, 1 / m)
    for v in (r, u): close(ch.mutual_information(lay(v, c["lay"] if c["lay"] != "transposed" else "list"), c["base"]) * lb(c["base"]), mi(v), 1e-9, 1e-10)
    perm = rng.permutation(m); close(komm.DiscreteMemorylessChannel(P[perm]).mutual_information(r[perm], "e"), mi(r), 1e-9, 1e-10)
    cap = ch.capacity(c["base"]) * lb(c["base"])
    if exact is not None: close(cap, exact, 1e-8, 1e-8)
    lo, up, conv = capacity_bounds(P, 300)
    gap = 0.0 if conv else math.log(m) / 1000
    assert lo - 1e-8 - gap <= cap <= up + 1e-8, f"capacity {cap} nats outside [{lo}, {up}]"
    assert max(mi(r), mi(u)) <= cap + gap + 1e-8
    return c["k"]

@st.composite
def bad_case(draw):
    t = draw(st.sampled_from(["bsc", "bec", "z", "dmc", "pmf", "base", "gauss"]))
    if t in ("bsc", "bec", "z"): return dict(t=t, p=draw(st.sampled_from([-0.1, 1.1, -1e-9, 1 + 1e-9, 2.0, -5.0])))
    if t == "gauss": return dict(t=t, p=draw(st.sampled_from([-0.1, -1e-9, -100.0])))
    if t == "dmc":
        P = draw(stoch((1, 3), (2, 3))); i = draw(st.integers(0, len(P) - 1))
        return dict(t=t, P=P, i=i, how=draw(st.sampled_from(["sum", "neg", "ndim", "ndim3"])))
    c = draw(chan()); m = len(ref_matrix(c))
    if t == "base": return dict(t=t, ch=c, base=draw(st.sampled_from([0.0, 1.0, -2.0, "x", "2"])))
    return dict(t=t, ch=c, m=m, how=draw(st.sampled_from(["size+", "size-", "neg", "sum"])))

@check("H01", bad_case(), quick=800, thorough=4000)
def invalid_parameters_rejected(c):
    t = c["t"]
    if t in ("bsc", "bec", "z"): raises(ValueError, build, c)
    elif t == "gauss": raises(ValueError, komm.GaussianChannel, c["p"])
    elif t == "dmc":
        P = [list(r) for r in c["P"]]; r = P[c["i"]]
        if c["how"] == "sum": r[0] += 0.01
        elif c["how"] == "neg": r[0] -= 1.5; r[1] += 1.5
        raises(ValueError, komm.DiscreteMemorylessChannel, P[0] if c["how"] == "ndim" else [P, P] if c["how"] == "ndim3" else P)
    elif t == "base":
        ch = build(c["ch"]); m = ch.input_cardinality
        raises(ValueError, ch.mutual_information, [1 / m] * m, c["base"])
        raises(ValueError, ch.capacity, c["base"])
    else:
        m = c["m"]; p = [1 / m] * m
        if c["how"] == "size+": p = [1 / (m + 1)] * (m + 1)
        elif c["how"] == "size-": p = [1 / (m - 1)] * (m - 1) if m > 1 else []
        elif c["how"] == "neg": p = [-0.5] + p[1:]; p[-1] += 1 - sum(p); p = p if m > 1 else [-1.0]
        else: p[0] += 0.02
        raises(ValueError, build(c["ch"]).mutual_information, p)
    return t

# ---- transmission --------------------------------------------------------------------------
SHAPE = st.sampled_from([[0], [1], [5], [17], [2, 3], [3, 1, 4], [2, 0], [1, 1, 1, 2], [], [4, 5], [3, 4, 2]])

@st.composite
def tx_case(draw):
    c = draw(chan()); m = len(ref_matrix(c)); shape = draw(SHAPE)
    n = int(np.prod(shape, dtype=int))
    dts = ["int64", "int32", "uint8", "list", "tuple", "fortran", "strided", "reversed", "readonly"] + (["bool"] if c["t"] != "dmc" else [])
    return dict(ch=c, shape=shape, x=draw(st.lists(st.integers(0, m - 1), min_size=n, max_size=n)),
                dt=draw(st.sampled_from(dts)), seed=draw(st.integers(0, 2 ** 32)))

def container(x, shape, dt):
    a = np.array(x, dtype=int).reshape(shape)
    if dt == "list": return a.tolist()
    if dt in ("fortran", "strided", "reversed", "readonly"): return layout(a, dt)
    if dt == "tuple" and a.ndim == 0: return int(a)
    if dt == "tuple": return tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist())
    return a.astype(dt)

@check("H02", tx_case(), quick=3000, thorough=40000, weight=2)
def outputs_are_possible(c):
    P = np.array(ref_matrix(c["ch"])); a = np.array(c["x"], dtype=int).reshape(c["shape"])
    x = container(c["x"], c["shape"], c["dt"]); keep = np.array(x, copy=True)
    rng = np.random.default_rng(c["seed"])
    ch = build(c["ch"], rng)
    y = ch.transmit(x)
    if c["dt"] not in ("list", "tuple") or a.size: assert np.asarray(y).shape == a.shape, "shape not preserved"
    equal(np.asarray(x), keep)
    if not a.size: return False
    is_int_array(y)
    y = np.asarray(y)
    assert ((y >= 0) & (y < P.shape[1])).all()
    assert (P[a, y] > 0).all(), f"impossible output: sent {a.tolist()}, got {y.tolist()}"
    sure = P[a].max(axis=-1) == 1.0
    equal(y[sure], P[a].argmax(axis=-1)[sure])
    # same generator state, whatever the container: same output; explicit and global generators agree
    equal(build(c["ch"], np.random.default_rng(c["seed"])).transmit(a), y)
    komm.global_rng.set(np.random.default_rng(c["seed"]))
    ch2 = build(c["ch"])
    komm.global_rng.set(np.random.default_rng(c["seed"] + 1))
    equal(ch2.transmit(a), y)
    assert ch.rng is rng
    return c["ch"]["t"] + ("-partly-sure" if sure.any() and not sure.all() else "-sure" if sure.all() else "")

ROUND = st.sampled_from(["r5", "r6", "r7", "f4", "lo", "hi"])
def rounded(P, how):
    """The matrix as read from a text file, single precision, or a computation that lost a little: rows add up to one to about 1e-6."""
    P = np.array(P, dtype=float)
    if how[0] == "r": return np.round(P, int(how[1]) if P.shape[-1] <= 10 else 7)
    if how == "f4": return P.astype(np.float32)
    return P * (1 - 8e-6 if how == "lo" else 1 + 8e-6)

@st.composite
def rounded_case(draw):
    P = draw(stoch()); n = len(P)
    return dict(P=P, how=draw(ROUND), x=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=40)), seed=draw(st.integers(0, 2 ** 32)))

@check("H02", rounded_case(), quick=800, thorough=8000)
def matrices_given_to_a_few_digits(c):
    """A matrix that is accepted can be transmitted over: its rows need to add up to one only up to rounding."""
    P = rounded(c["P"], c["how"])
    try: ch = komm.DiscreteMemorylessChannel(P, np.random.default_rng(c["seed"]))
    except ValueError: return None               # too far from one
    y = np.asarray(ch.transmit(c["x"])); is_int_array(y)
    assert y.shape == (len(c["x"]),) and (y >= 0).all() and (y < P.shape[1]).all() and (P[c["x"], y] > 0).all(), f"impossible output {y.tolist()}"
    return bool((np.abs(P.astype(float).sum(axis=1) - 1) > 1e-8).any()) and c["how"]

@st.composite
def extreme_case(draw):
    c = draw(chan())
    if c["t"] == "dmc":
        if draw(st.booleans()): c["P"] = [[0.0] * (draw(st.integers(0, 1)) if len(r) < 2 else 1) + list(r) + [0.0] for r in c["P"]] if len(set(map(len, c["P"]))) == 1 and len(c["P"][0]) > 1 else c["P"]
    elif draw(st.booleans()): c["p"] = draw(st.sampled_from([0.0, 1.0]))
    m = len(ref_matrix(c)); n = draw(st.integers(1, 12))
    return dict(ch=c, how=draw(st.sampled_from(["", "", "r5", "lo", "hi", "f4", "lo"])) if c["t"] == "dmc" else "", x=draw(st.lists(st.integers(0, m - 1), min_size=n, max_size=n)),
                k=draw(st.integers(0, n - 1)), ones=draw(st.booleans()), seed=draw(st.integers(0, 2 ** 32)))

@check("H02", extreme_case(), quick=1500, thorough=20000)
def extreme_draws(c):
    """The smallest and the largest numbers a generator can return also lead to possible outputs."""
    rng = rigged(c["seed"], c["k"], c["ones"])
    if c["ch"]["t"] == "dmc":
        P = rounded(c["ch"]["P"], c["how"]) if c["how"] else np.array(c["ch"]["P"], dtype=float)
        try: ch = komm.DiscreteMemorylessChannel(P, rng)
        except ValueError: return None
    else: ch, P = build(c["ch"], rng), np.array(ref_matrix(c["ch"]))
    y = np.asarray(ch.transmit(c["x"])); is_int_array(y)
    assert y.shape == (len(c["x"]),) and (y >= 0).all() and (y < P.shape[1]).all() and (P[c["x"], y] > 0).all(), f"impossible output: sent {c['x']}, got {y.tolist()}"
    return bool((P[c["x"]] == 0).any()) and c["ch"]["t"] + c["how"] + ("-largest" if c["ones"] else "-smallest")

@st.composite
def bulk_case(draw):
    k = draw(st.sampled_from(["bsc", "bec", "z", "dmc", "dmc"]))
    return dict(k=k, p=draw(st.sampled_from([0.5, 0.1, 0.9, 1e-3, 0.0, 1.0])), m=draw(st.integers(2, 300)), n=draw(st.integers(2, 300)),
                rows=draw(st.sampled_from([1, 1, 3, 64])), deep=draw(st.booleans()), cols=draw(st.integers(500, 4000)),
                lay=draw(st.one_of(LAY, st.sampled_from(["uint8", "int16"]))), seed=draw(st.integers(0, 2 ** 32)))

@check("H02", bulk_case(), quick=80, thorough=1200, weight=15)
def bulk_transmissions(c):
    """Long and multidimensional inputs in any layout, channels with hundreds of symbols: every segment obeys the law."""
    rng = np.random.default_rng(c["seed"])
    if c["k"] == "dmc":
        P = rng.gamma(0.2, size=(c["m"], c["n"])) + 1e-12; P[rng.random(P.shape) < 0.5] = 0; P[np.arange(len(P)), rng.integers(0, c["n"], len(P))] += 0.5
        P /= P.sum(axis=1, keepdims=True); size = (2 if c["rows"] > 1 else 1, 2000 if c["rows"] > 1 else c["cols"])
        mk = lambda: komm.DiscreteMemorylessChannel(P, rng=np.random.default_rng(c["seed"]))
    else:
        cc = dict(t=c["k"], p=c["p"]); P = np.array(ref_matrix(cc)); size = (c["rows"], 50 * c["cols"] // c["rows"])
        mk = lambda: build(cc, np.random.default_rng(c["seed"]))
    x = rng.integers(0, len(P), size)
    if c["k"] == "dmc" and c["seed"] % 2: x = np.sort(x, axis=-1)
    if c["k"] != "dmc" and c["seed"] % 3 == 0: x = np.zeros_like(x) + c["seed"] % 2   # constant inputs as well
    if c["deep"]: x = x.reshape(size[0], -1)[:, :x.shape[1] // 12 * 12].reshape((2, 3, -1) if size[0] == 1 else (size[0], 3, 4, -1))
    elif size[0] == 1: x = x[0]
    k = "int16" if c["lay"] == "uint8" and len(P) > 256 else c["lay"]
    y = np.asarray(mk().transmit(lay(x, k)))
    assert y.shape == x.shape and (P[x, y] > 0).all()
    equal(mk().transmit(np.ascontiguousarray(x)), y)
    # scores of random functions of (input, output): mean and variance known from the matrix
    f = rng.integers(0, 2, size=P.shape).astype(float)
    mu = (P * f).sum(axis=1); var = mu * (1 - mu)
    X, Y = x.ravel(), y.ravel()
    for seg in (slice(None), slice(0, X.size // 3), slice(X.size // 3, 2 * X.size // 3), slice(2 * X.size // 3, None), slice(0, None, 2)):
        s = (f[X[seg], Y[seg]] - mu[X[seg]]).sum()
        assert abs(s) <= 7 * math.sqrt(var[X[seg]].sum()) + 8, f"outputs do not follow the transition matrix: {s}"
    for j in range(P.shape[1]):
        e = P[X, j]; assert abs((Y == j).sum() - e.sum()) <= 7 * math.sqrt((e * (1 - e)).sum()) + 8, f"frequency of output {j}"
    # different uses draw fresh randomness (in one call and between calls)
    g = f[X, Y] - mu[X]; v = var[X]
    for lag in sorted({1, 2, 64, 1024, 2 ** 14, *(int(np.prod(x.shape[i:])) for i in range(x.ndim))}):
        if lag >= X.size: continue
        s = (g[lag:] * g[:-lag]).sum(); assert abs(s) <= 7 * math.sqrt((v[lag:] * v[:-lag]).sum()) + 15, f"uses {lag} apart are correlated"
    return c["k"] + "-" + c["lay"]

@st.composite
def freq_case(draw):
    return dict(ch=draw(chan()), seed=draw(st.integers(0, 2 ** 32)))

def within(count, n, p, what):
    sd = math.sqrt(n * p * (1 - p))
    assert abs(count - n * p) <= 7 * sd + 8, f"{what}: {count} of {n}, expected {n * p:.1f} +- {sd:.1f}"

@check("H02", freq_case(), quick=200, thorough=3000, weight=5)
def empirical_transition_frequencies(c):
    P = np.array(ref_matrix(c["ch"])); m = len(P)
    per = 20000 if c["ch"]["t"] != "dmc" else 2500
    x = np.resize(np.arange(m), m * per)
    if c["seed"] % 2: x = np.sort(x)
    ch = build(c["ch"], np.random.default_rng(c["seed"]))
    y = np.asarray(ch.transmit(x))
    half = np.asarray(ch.transmit(x))
    for i in range(m):
        for j in range(P.shape[1]):
            within(int(((x == i) & (y == j)).sum()), per, min(P[i, j], 1.0), f"transition {i}->{j}")
    # memoryless: outputs of neighbouring uses, and of two transmissions, are independent given the inputs
    for u, v, a, b, what in ((y[:-1], y[1:], x[:-1], x[1:], "neighbouring uses"), (y, half, x, x, "two transmissions")):
        du, dv = (u != a).astype(float), (v != b).astype(float)
        mu, mv = 1 - P[a, a] if P.shape[1] > a.max() else None, 1 - P[b, b] if P.shape[1] > b.max() else None
        if mu is None: continue
        s = ((du - mu) * (dv - mv)).sum(); var = (mu * (1 - mu) * mv * (1 - mv)).sum()
        assert abs(s) <= 7 * math.sqrt(max(var, 0)) + 15, f"{what} are correlated"
    return ((P > 0) & (P < 1)).any() and c["ch"]["t"]

@st.composite
def gauss_case(draw):
    shape = draw(SHAPE); n = int(np.prod(shape, dtype=int)); kind = draw(st.sampled_from(["real", "complex", "int", "complex0", "list", "bool", "float32", "complex64", "uint8", "int8"]))
    val = st.integers(-5, 5) if kind in ("int", "int8") else st.integers(0, 200) if kind == "uint8" else st.integers(0, 1) if kind == "bool" else floats(-10, 10)
    return dict(kind=kind, shape=shape, re=draw(st.lists(val, min_size=n, max_size=n)),
                im=draw(st.lists(val, min_size=n, max_size=n)) if kind in ("complex", "complex64") else [0] * n,
                power=draw(st.sampled_from([0.0, 0.0, 1.0, 0.25, 2.0, 1e-6, 1e6, 1e-12, 1e12, 0])), lay=draw(LAY), seed=draw(st.integers(0, 2 ** 32)))

def gauss_in(c):
    x = np.array(c["re"]).reshape(c["shape"])
    if c["kind"].startswith("complex"): x = x + 1j * np.array(c["im"], dtype=float).reshape(c["shape"])
    if c["kind"] in ("bool", "float32", "complex64", "uint8", "int8"): x = x.astype(c["kind"])
    return x

@check("H02", gauss_case(), quick=2000, thorough=20000)
def gaussian_shape_and_determinism(c):
    x = gauss_in(c); keep = x.copy()
    arg = x.tolist() if c["kind"] == "list" else lay(x, c["lay"])
    rng = np.random.default_rng(c["seed"])
    ch = komm.GaussianChannel(c["power"], rng=rng)
    y = np.asarray(ch.transmit(arg))
    equal(x, keep)
    if x.size:
        assert y.shape == x.shape
        assert np.iscomplexobj(y) == np.iscomplexobj(x) and np.issubdtype(y.dtype, np.inexact)
    else: return False
    if c["power"] == 0: equal(y, x.astype(complex if np.iscomplexobj(x) else float))
    else:
        # the noise does not depend on the input (of the same kind) and scales with the square root of the power
        z = y - x
        z0 = np.asarray(komm.GaussianChannel(c["power"], rng=np.random.default_rng(c["seed"])).transmit(np.zeros(x.shape, y.dtype)))
        close(z, z0, 1e-9, 1e-9 * (1 + math.sqrt(c["power"])))
        assert np.unique(z0).size == z0.size, "repeated noise samples"
        if np.iscomplexobj(x): assert (z0.imag != 0).all() and (z0.real != 0).all()
    equal(komm.GaussianChannel(c["power"], rng=np.random.default_rng(c["seed"])).transmit(x), y)
    komm.global_rng.set(np.random.default_rng(c["seed"]))
    ch2 = komm.GaussianChannel(c["power"])
    komm.global_rng.set(np.random.default_rng(c["seed"] + 1))
    equal(ch2.transmit(x), y)
    return c["kind"] + ("-noiseless" if c["power"] == 0 else "")

@st.composite
def gstat_case(draw):
    return dict(kind=draw(st.sampled_from(["real", "complex"])), amp=draw(st.sampled_from([0.0, 1.0, 100.0])),
                power=draw(st.one_of(st.sampled_from([1.0, 0.25, 1e-4, 1e3]), floats(0.01, 10))), rows=draw(st.sampled_from([1, 4, 50])), n=draw(st.sampled_from([20000] * 6 + [140000, 300000])), deep=draw(st.booleans()),
                seed=draw(st.integers(0, 2 ** 32)))

@check("H02", gstat_case(), quick=200, thorough=2000, weight=3)
def gaussian_noise_law(c):
    n = c["n"]; rng = np.random.default_rng(c["seed"] + 7)
    x = c["amp"] * rng.integers(-1, 2, size=n)
    if c["kind"] == "complex": x = x + 1j * c["amp"] * rng.integers(-1, 2, size=n)
    x = x.reshape((c["rows"], 5, -1) if c["deep"] else (c["rows"], -1))
    z = (komm.GaussianChannel(c["power"], rng=np.random.default_rng(c["seed"])).transmit(x) - x)
    s = math.sqrt(c["power"])
    comps = [z.ravel() / s] if c["kind"] == "real" else [z.real.ravel() / s * math.sqrt(2), z.imag.ravel() / s * math.sqrt(2)]
    def zero(v, sd, what): assert abs(v) <= 7 * sd / math.sqrt(n) + 1e-9, f"{what}: {v}"
    for g in comps:
        zero(g.mean(), 1, "mean"); zero((g * g).mean() - 1, math.sqrt(2), "variance"); zero((g ** 3).mean(), math.sqrt(15), "skewness")
        zero((g ** 4).mean() - 3, math.sqrt(96), "kurtosis")
        for lag in sorted({1, 2, 1024, 4096, 2 ** 15, 2 ** 16, 2 ** 17, *(int(np.prod(x.shape[i:])) for i in range(x.ndim))}):
            if lag < n: zero((g[lag:] * g[:-lag]).sum() / math.sqrt(n * (n - lag)), 1, f"correlation at lag {lag}")
        assert np.unique(g).size > 0.999 * n, "repeated noise samples"
        zero((np.abs(g) < 0.6744897501960817).mean() - 0.5, 0.5, "quartiles")
        if c["amp"]: zero((g * (x.real.ravel() / c["amp"])).mean(), 1, "correlation with the input")
        if c["rows"] > 1:
            G = g.reshape(z.shape); zero((G[0] * G[1]).mean() / math.sqrt(c["rows"]), 1, "correlation between rows")
    if len(comps) == 2:
        zero((comps[0] * comps[1]).mean(), 1, "correlation of real and imaginary parts")
        zero((comps[0] ** 2 * comps[1] ** 2).mean() - 1, math.sqrt(8), "dependence of real and imaginary parts")
    return c["kind"]

@st.composite
def inter_case(draw):
    """Histories: several components created and used while the global generator is replaced."""
    n = draw(st.integers(1, 4))
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(["set", "new", "use", "use"]))
        ops.append([k, draw(st.integers(0, 3)) if k != "new" else draw(st.sampled_from(["bsc", "bec", "z", "gauss", "dms", "markov", "dmc"]))])
    return dict(ops=ops)

def _mk(t, rng=None):
    kw = {} if rng is None else dict(rng=rng)
    P = [[0.3, 0.7], [0.6, 0.4]]
    return {"bsc": lambda: komm.BinarySymmetricChannel(0.3, **kw), "bec": lambda: komm.BinaryErasureChannel(0.3, **kw),
            "z": lambda: komm.ZChannel(0.3, **kw), "gauss": lambda: komm.GaussianChannel(1.0, **kw),
            "dms": lambda: komm.DiscreteMemorylessSource([0.2, 0.3, 0.5], **kw), "markov": lambda: komm.MarkovChain(P, **kw),
            "dmc": lambda: komm.DiscreteMemorylessChannel(P, **kw)}[t]()

def _use(t, obj):
    if t == "dms": return obj.emit(3)
    if t == "markov": return obj.simulate(0, 4)
    return obj.transmit([0, 1, 1, 0])

@check("H02", inter_case(), quick=800, thorough=10000)
def interleaved_components_share_the_generator(c):
    gens = [lambda s=s: np.random.default_rng(100 + s) for s in range(4)]
    shared, model = [g() for g in gens], [g() for g in gens]   # the model uses its own copies, passed explicitly
    komm.global_rng.set(shared[0]); cur = 0
    objs, used = [], 0
    for k, v in c["ops"]:
        if k == "set": komm.global_rng.set(shared[v]); cur = v; assert komm.global_rng.get() is shared[v]
        elif k == "new": objs.append((v, _mk(v), _mk(v, model[cur])))
        elif objs:
            t, a, b = objs[v % len(objs)]
            equal(_use(t, a), _use(t, b)); used += 1
    return used > 0 and len({t for t, *_ in objs}) > 1 and "mixed" or (used > 0 and "one")
