"""C01-C05: convolutional codes, their terminated versions, trellis decoders."""
import itertools, math
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from ..gen import pdeg, equal, close, raises, is_int_array, gf2_rank
from ..convs import build, pq, dims, nus, full_rank, Ref, series_encode, conv_spec

# ---------------------------------------------------------------------------------- C01
rule("C01", "Non-trivial: an encoder with memory driven by a non-zero input (label: construction and feedback).",
     ["denominators have constant term 1 (realisable encoders)", "polynomials below 2^12"])

def _label(c):
    P, q = pq(c)
    if sum(max(v, 0) for v in nus(c)) == 0: return "memoryless"
    return c["t"] + (" recursive" if any(x != 1 for x in q) else " feedforward") + f" k={len(P)}"

@st.composite
def encode_case(draw):
    c = draw(conv_spec(max_nu=draw(st.sampled_from([2, 4, 10])), max_sigma=24, max_k=3, max_n=4))
    k = dims(c)[0]
    T = draw(st.integers(1, 24))
    bits = draw(st.lists(st.integers(0, 1), min_size=k * T, max_size=k * T))
    return dict(code=c, bits=bits, cuts=draw(st.lists(st.integers(0, T), max_size=3)),
                seed=draw(st.integers(0, 10 ** 6)), kind=draw(st.sampled_from(["list", "tuple", "int8", "uint8", "float", "bool"])))

def _as(kind, b):
    return b if kind == "list" else tuple(b) if kind == "tuple" else np.array(b, dtype={"int8": np.int8, "uint8": np.uint8, "float": float, "bool": bool}[kind])

@check("C01", encode_case(), quick=2500, thorough=40000)
def encoding_is_the_power_series_product(c):
    code = build(c["code"])
    k, n = dims(c["code"])
    bits = c["bits"]
    T = len(bits) // k
    want = series_encode(c["code"], bits)
    assert (code.num_input_bits, code.num_output_bits) == (k, n)
    out = code.encode(_as(c["kind"], bits))
    is_int_array(out)
    equal(out, want)
    # chunked encoding, carrying the state
    cuts = [0] + sorted(c["cuts"]) + [T]
    s = np.zeros(code.degree, dtype=int)
    got = []
    for a, b in zip(cuts, cuts[1:]):
        if a == b: continue
        o, s = code.encode_with_state(bits[a * k:b * k], s)
        got += o.tolist()
        assert np.asarray(s).shape == (code.degree,)
        assert set(np.asarray(s).tolist()) <= {0, 1}
    equal(got, want)
    # linearity in the pair (input, state)
    rng = np.random.default_rng(c["seed"])
    u2 = rng.integers(0, 2, k * T); s1 = rng.integers(0, 2, code.degree); s2 = rng.integers(0, 2, code.degree)
    o1, f1 = code.encode_with_state(bits, s1)
    o2, f2 = code.encode_with_state(u2, s2)
    o3, f3 = code.encode_with_state(np.array(bits) ^ u2, s1 ^ s2)
    equal(o3, o1 ^ o2); equal(f3, f1 ^ f2)
    # state-space description, from a random state
    A, B, C, D = [np.asarray(m) for m in code.state_space_representation()]
    sg = code.degree
    assert A.shape == (sg, sg) and B.shape == (k, sg) and C.shape == (sg, n) and D.shape == (k, n)
    for m in (A, B, C, D): assert set(np.unique(m).tolist()) <= {0, 1}
    st_ = s1.copy(); o = []
    for t in range(T):
        u = np.array(bits[t * k:(t + 1) * k])
        o += ((st_ @ C + u @ D) % 2).tolist()
        st_ = (st_ @ A + u @ B) % 2
    equal(o1, o); equal(f1, st_)
    return any(bits) and _label(c["code"])

@st.composite
def long_encode_case(draw):
    d = draw(st.sampled_from([2, 3, 6, 10]))
    c = draw(conv_spec(max_nu=d, max_sigma=20, max_k=3, max_n=3, min_sigma=1))
    if c["t"] == "conv" and c["q"] is None and draw(st.booleans()): c = dict(c, q=[draw(st.integers(0, 2 ** (d - 1) - 1)) * 2 + 1 | 1 << d for _ in c["P"]])
    return dict(code=c, T=draw(st.sampled_from([100, 300, 1000, 2500])), u=draw(st.sampled_from(["impulse", "burst", "ones", "alternating", "gap", "last", "period", "random"])),
                at=draw(st.integers(0, 40)), period=draw(st.integers(3, 300)), seed=draw(st.integers(0, 2 ** 32)), cut=draw(st.integers(0, 2500)))

@check("C01", long_encode_case(), quick=120, thorough=1500, weight=2)
def long_inputs(c):
    """Hundreds to thousands of steps: impulses followed by silence, runs, periodic and random inputs; the feedback never dies out."""
    spec = c["code"]; code = build(spec); k, n = dims(spec); T = c["T"]
    rng = np.random.default_rng(c["seed"]); u = np.zeros((T, k), dtype=int); j = c["seed"] % k; K = c["u"]
    if K == "impulse": u[c["at"], j] = 1
    elif K == "burst": u[:c["at"] + 1] = rng.integers(0, 2, (c["at"] + 1, k))
    elif K == "ones": u[:] = 1
    elif K == "alternating": u[c["at"] % 2::2] = 1
    elif K == "gap": u[c["at"], j] = 1; u[-1 - c["at"]:] = rng.integers(0, 2, (c["at"] + 1, k))
    elif K == "last": u[-1, j] = 1
    elif K == "period": u[c["at"]::c["period"], j] = 1
    else: u = rng.integers(0, 2, (T, k))
    bits = u.ravel().tolist(); want, _ = Ref(spec).run(bits)
    equal(code.encode(bits), want)
    cut = c["cut"] % (T + 1)
    if 0 < cut < T:
        a, s = code.encode_with_state(bits[:cut * k], np.zeros(code.degree, dtype=int)); b, _ = code.encode_with_state(bits[cut * k:], s)
        equal(np.concatenate([a, b]), want)
    if code.degree <= 8:
        m = code.finite_state_machine()
        ys, _ = m.process((u @ (1 << np.arange(k))).tolist(), 0)
        equal((np.asarray(ys, dtype=int)[:, None] >> np.arange(n) & 1).ravel(), want)
    return any(bits) and _label(spec) + " " + K

@check("C01", st.builds(lambda c: dict(code=c), conv_spec(max_nu=6, max_sigma=14)), quick=1200, thorough=15000)
def reported_parameters(c):
    spec = c["code"]
    code = build(spec)
    P, q = pq(spec)
    k, n = dims(spec)
    nu = nus(spec)
    if spec["t"] == "high":
        nu = [max(pdeg(h), pdeg(spec["h"][-1])) for h in spec["h"][:-1]]
        deg = max(pdeg(h) for h in spec["h"])
    else:
        deg = sum(nu)
    equal(code.constraint_lengths, nu)
    assert code.overall_constraint_length == sum(nu)
    assert code.memory_order == max(nu)
    assert code.degree == deg
    G = code.generator_matrix
    assert G.shape == (k, n)
    for i in range(k):
        for j in range(n):
            want = komm.BinaryPolynomialFraction(P[i][j], q[i])
            assert G[i, j] == want, (i, j, G[i, j], want)
    raises(ValueError, code.encode_with_state, [0] * k, [0] * (deg + 1))
    raises(ValueError, code.encode_with_state, [0] * k, [[0] * deg])
    if k > 1: raises(ValueError, code.encode, [0] * (k + 1))
    # the representation rebuilds an equal encoder
    code2 = eval(repr(code), {"ConvolutionalCode": komm.ConvolutionalCode, "LowRateConvolutionalCode": komm.LowRateConvolutionalCode, "HighRateConvolutionalCode": komm.HighRateConvolutionalCode})
    x = [(i * 7 + i // 3) % 2 for i in range(8 * k)]
    equal(code2.encode(x), code.encode(x))
    return _label(spec)

@st.composite
def fsm_case(draw):
    c = draw(conv_spec(max_nu=3, max_sigma=5))
    k = dims(c)[0]
    T = draw(st.integers(1, 12))
    return dict(code=c, bits=draw(st.lists(st.integers(0, 1), min_size=k * T, max_size=k * T)))

@check("C01", fsm_case(), quick=600, thorough=8000)
def finite_state_machine_describes_the_encoder(c):
    code = build(c["code"])
    k, n = dims(c["code"])
    m = code.finite_state_machine()
    sg = code.degree
    assert m.num_states == 2 ** sg and m.num_input_symbols == 2 ** k
    assert m.transitions.shape == m.outputs.shape == (2 ** sg, 2 ** k)
    A, B, C, D = code.state_space_representation()
    for s in range(2 ** sg):
        sv = np.array([(s >> i) & 1 for i in range(sg)], dtype=int)
        for x in range(2 ** k):
            uv = np.array([(x >> i) & 1 for i in range(k)], dtype=int)
            ns = (sv @ A + uv @ B) % 2
            v = (sv @ C + uv @ D) % 2
            assert int(m.transitions[s, x]) == sum(int(b) << i for i, b in enumerate(ns))
            assert int(m.outputs[s, x]) == sum(int(b) << i for i, b in enumerate(v))
    bits = c["bits"]
    xs = [sum(b << i for i, b in enumerate(bits[t:t + k])) for t in range(0, len(bits), k)]
    ys, fs = m.process(xs, 0)
    want = series_encode(c["code"], bits)
    equal([(int(y) >> j) & 1 for y in ys for j in range(n)], want)
    return any(bits) and _label(c["code"])

@st.composite
def large_fsm_case(draw):
    t = draw(st.sampled_from(["low", "conv", "high", "k2", "wide", "wide"]))
    d = draw(st.integers(7, 10))
    r = lambda: draw(st.integers(0, 2 ** (d + 1) - 1)) | 1
    if t == "wide":
        d = draw(st.integers(1, 4)); n = draw(st.integers(5, 12))
        c = dict(t="low", g=[r() for _ in range(n)]) if draw(st.booleans()) else dict(t="conv", P=[[r() & draw(st.integers(0, 2 ** (d + 1) - 1)) for _ in range(n)] for _ in range(2)], q=[r(), r()])
    elif t == "low": c = dict(t="low", g=[r() | 1 << d, r()])
    elif t == "high": c = dict(t="high", h=[r() | 1 << d, r(), r()])
    elif t == "conv": c = dict(t="conv", P=[[r() | 1 << d, r()]], q=[r()])
    else: c = dict(t="conv", P=[[0b100001, 1, 6], [0, 0b10011, 0b11]], q=None)
    k = dims(c)[0]
    return dict(code=c, bits=draw(st.lists(st.integers(0, 1), min_size=40 * k, max_size=40 * k)))

@check("C01", large_fsm_case(), quick=40, thorough=200, weight=2)
def large_state_machines(c):
    """Encoders with 2^7 to 2^10 states or up to 12 outputs: the machine follows the encoder from any state."""
    code = build(c["code"]); k, n = dims(c["code"])
    m = code.finite_state_machine(); sg = code.degree
    assert m.num_states == 2 ** sg
    bits = c["bits"]
    equal(code.encode(bits), series_encode(c["code"], bits))
    xs = [sum(b << i for i, b in enumerate(bits[t:t + k])) for t in range(0, len(bits), k)]
    ys, fs = m.process(xs, 0)
    equal([(int(y) >> j) & 1 for y in ys for j in range(n)], series_encode(c["code"], bits))
    A, B, C, D = [np.asarray(x) for x in code.state_space_representation()]
    S = (np.arange(2 ** sg)[:, None] >> np.arange(sg)) & 1
    for x in range(2 ** k):
        uv = np.array([(x >> i) & 1 for i in range(k)])
        equal(m.transitions[:, x], ((S @ A + uv @ B) % 2) @ (1 << np.arange(sg)))
        equal(m.outputs[:, x], ((S @ C + uv @ D) % 2) @ (1 << np.arange(n)))
    return any(bits) and _label(c["code"])

# ---------------------------------------------------------------------------------- C02
rule("C02", "Non-trivial: full-rank encoders with memory (label: catastrophic or not).",
     ["encoders with full-rank generator matrix, k <= 3, at most 2^10 states, at most 62 outputs",
      "reference: zero-output cycles and shortest paths on an independently built trellis"])

def _zero_cycle(g):
    """Is there a zero-output cycle with a non-zero input? (Reachability closure on zero-output edges.)"""
    adj = {s: {e[1] for e in es if e[2] == 0} for s, es in g.items()}
    def reach(a):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x); todo += adj[x]
        return seen
    for s, es in g.items():
        for u, s1, v in es:
            if v == 0 and u != 0 and s in reach(s1): return True
    return False

def _free_distance(g, zero):
    """min weight of a non-zero output sequence (finite or infinite input), started in the zero state."""
    alive = set(g)                      # states with an infinite zero-output continuation
    while True:
        nxt = {s for s in alive if any(v == 0 and s1 in alive for _, s1, v in g[s])}
        if nxt == alive: break
        alive = nxt
    silent = {zero}                     # reached with no output so far
    todo = [zero]
    while todo:
        s = todo.pop()
        for _, s1, v in g[s]:
            if v == 0 and s1 not in silent: silent.add(s1); todo.append(s1)
    INF = math.inf
    d = {s: INF for s in g}
    for s in silent:
        for _, s1, v in g[s]:
            if v: d[s1] = min(d[s1], v.bit_count())
    changed = True
    while changed:                      # Bellman-Ford
        changed = False
        for s in g:
            if d[s] == INF: continue
            for _, s1, v in g[s]:
                w = d[s] + v.bit_count()
                if w < d[s1]: d[s1] = w; changed = True
    return min(d[s] for s in alive)

@check("C02", st.builds(lambda c: dict(code=c), conv_spec(max_nu=3, max_sigma=6, rank=True)), quick=900, thorough=15000)
def catastrophicity(c):
    code = build(c["code"])
    g = Ref(c["code"]).graph()
    cat = _zero_cycle(g)
    got = code.is_catastrophic()
    assert isinstance(got, (bool, np.bool_)) and bool(got) == cat, f"is_catastrophic() = {got}, trellis says {cat}"
    return sum(nus(c["code"])) > 0 and ("catastrophic" if cat else "non-catastrophic")

@check("C02", st.builds(lambda c: dict(code=c), conv_spec(max_nu=3, max_sigma=6, rank=True)), quick=700, thorough=10000)
def free_distance(c):
    code = build(c["code"])
    r = Ref(c["code"])
    g = r.graph()
    want = _free_distance(g, r.zero())
    got = code.free_distance()
    assert got == want, f"free_distance() = {got}, minimum output weight is {want}"
    return sum(nus(c["code"])) > 0 and ("catastrophic" if _zero_cycle(g) else "non-catastrophic")

@st.composite
def heavy_encoder(draw):
    """Many states, or so many outputs that the weights of paths reach the hundreds."""
    kind = draw(st.sampled_from(["states", "states2", "wide", "wide", "wide-fb", "rows"]))
    if kind == "states":
        d = draw(st.integers(7, 10)); n = draw(st.integers(2, 4))
        P = [[draw(st.integers(0, 2 ** (d + 1) - 1)) | (2 ** d + 1 if j == 0 else 0) for j in range(n)]]
        return dict(t="conv", P=P, q=[draw(st.integers(0, 2 ** d - 1)) * 2 + 1] if draw(st.booleans()) else None)
    if kind == "states2":
        ds = [draw(st.integers(2, 4)) for _ in range(2)]; n = draw(st.integers(2, 4))
        c = dict(t="conv", P=[[draw(st.integers(0, 2 ** (d + 1) - 1)) | (2 ** d if j == i else 0) for j in range(n)] for i, d in enumerate(ds)], q=None)
    elif kind == "rows":
        ds = [draw(st.integers(1, 3)) for _ in range(3)]; n = draw(st.integers(10, 40))
        c = dict(t="conv", P=[[draw(st.integers(0, 2 ** (d + 1) - 1)) | (2 ** d if j == i else 0) for j in range(n)] for i, d in enumerate(ds)], q=None)
    else:
        d = draw(st.integers(1, 7)); n = draw(st.integers(20, 60))
        base = draw(st.lists(st.integers(0, 2 ** d - 1).map(lambda x, d=d: x << 1 | 1), min_size=2, max_size=5))
        if draw(st.booleans()): d, base = draw(st.sampled_from([(6, [0o133, 0o171]), (8, [0o561, 0o753]), (5, [0o47, 0o53, 0o75]), (6, [0o133, 0o165, 0o171])])); n = draw(st.integers(45, 62))
        g = [base[draw(st.integers(0, len(base) - 1))] if draw(st.integers(0, 5)) else draw(st.integers(0, 2 ** (d + 1) - 1)) for _ in range(n)]
        g[0] |= 2 ** d | 1
        c = dict(t="low", g=g) if kind == "wide" else dict(t="conv", P=[g], q=[draw(st.integers(0, 2 ** d - 1)) * 2 + 1])
    return c if full_rank(c) else dict(t="low", g=[0o133, 0o171] * 20)

@check("C02", st.builds(lambda c: dict(code=c), heavy_encoder()), quick=60, thorough=1500, weight=4)
def free_distance_of_large_encoders(c):
    code = build(c["code"])
    r = Ref(c["code"])
    g = r.graph()
    want = _free_distance(g, r.zero())
    assert code.free_distance() == want, f"free_distance() = {code.free_distance()}, minimum output weight is {want}"
    return "above 255" if want > 255 else "above 127" if want > 127 else "many states" if len(g) > 64 else "smaller"

@check("C02", st.builds(lambda c: dict(code=c), conv_spec(max_nu=8, max_sigma=40, max_k=3, rank=True)), quick=500, thorough=10000)
def catastrophicity_of_large_encoders(c):
    """Larger encoders, by determinants: the last invariant factor of G is the ratio of the gcds of the k x k
    and (k-1) x (k-1) minors; its reduced numerator is a power of D iff the encoder is non-catastrophic."""
    from ..convs import det
    from ..gen import pgcd, pmul, pdivmod
    P, q = pq(c["code"])
    k, n = len(P), len(P[0])
    big = 1
    for x in q: big = pdivmod(pmul(big, x), pgcd(big, x))[0]
    M = [[pmul(p, pdivmod(big, b)[0]) for p in r] for r, b in zip(P, q)]
    def minors(m):
        d = 0
        for rows in itertools.combinations(range(k), m):
            for js in itertools.combinations(range(n), m): d = pgcd(d, det([[M[i][j] for j in js] for i in rows]))
        return d
    num = pdivmod(minors(k), minors(k - 1) if k > 1 else 1)[0]
    num = pdivmod(num, pgcd(num, big))[0]
    cat = (num & (num - 1)) != 0
    assert bool(build(c["code"]).is_catastrophic()) == cat
    return k >= 2 and ("catastrophic" if cat else "non-catastrophic")

# ---------------------------------------------------------------------------------- C03
rule("C03", "Non-trivial: terminated code of an encoder with memory and an injective encoding (label: mode and construction).",
     ["dimension up to 14, at most 2^5 states"])

@st.composite
def term_case(draw, modes=("direct-truncation", "zero-termination", "tail-biting"), max_dim=12, max_sigma=5, max_k=3):
    c = draw(conv_spec(max_nu=3, max_sigma=max_sigma, max_k=max_k, max_n=4, rank=True))
    k = dims(c)[0]
    h = draw(st.integers(1, max(1, max_dim // k)))
    return dict(code=c, h=h, mode=draw(st.sampled_from(list(modes))), seed=draw(st.integers(0, 10 ** 6)))

def _mats(code):
    return [np.asarray(m) for m in code.state_space_representation()]

def _possible_codewords(conv, h, mode, u):
    """Set of codewords (tuples) the definition allows for message u."""
    A, B, C, D = _mats(conv)
    k, sg, n = conv.num_input_bits, conv.degree, conv.num_output_bits
    U = np.asarray(u, dtype=int).reshape(-1, k)
    def run(s):
        out = []
        for x in U:
            out += ((s @ C + x @ D) % 2).tolist()
            s = (s @ A + x @ B) % 2
        return out, s
    if mode == "direct-truncation":
        return {tuple(run(np.zeros(sg, dtype=int))[0])}
    if mode == "tail-biting":
        res = set()
        for bits in itertools.product([0, 1], repeat=sg):
            o, s = run(np.array(bits, dtype=int))
            if tuple(s.tolist()) == bits: res.add(tuple(o))
        return res
    o, s = run(np.zeros(sg, dtype=int))
    front = {(tuple(s.tolist()), tuple(o))}
    for _ in range(conv.memory_order):
        nxt = set()
        for s, o in front:
            sv = np.array(s, dtype=int)
            for x in itertools.product([0, 1], repeat=k):
                xv = np.array(x, dtype=int)
                nxt.add((tuple(((sv @ A + xv @ B) % 2).tolist()), o + tuple(((sv @ C + xv @ D) % 2).tolist())))
        front = nxt
    return {o for s, o in front if not any(s)}

@check("C03", term_case(), quick=500, thorough=6000, weight=3)
def terminated_code_is_the_trellis_code(c):
    spec, h, mode = c["code"], c["h"], c["mode"]
    conv = build(spec)
    k0, n0 = dims(spec)
    mu = max(nus(spec)) if spec["t"] != "high" else max(pdeg(x) for x in spec["h"][:-1] + [spec["h"][-1]])
    mu = conv.memory_order
    if mode == "zero-termination" and k0 * mu > 9: raise Skip("tail enumeration too large")
    dim, length = h * k0, (h + (mu if mode == "zero-termination" else 0)) * n0
    units = np.eye(dim, dtype=int)
    allowed = [_possible_codewords(conv, h, mode, u) for u in units]
    if any(not a for a in allowed):
        # some message has no tail-biting path: the construction must be refused, not silently broken
        def attempt():
            return komm.TerminatedConvolutionalCode(build(spec), h, mode).generator_matrix
        raises(ValueError, attempt)
        return "impossible tail-biting"
    code = komm.TerminatedConvolutionalCode(conv, h, mode)
    assert (code.length, code.dimension, code.redundancy) == (length, dim, length - dim)
    assert abs(code.rate - dim / length) < 1e-12
    G = np.asarray(code.generator_matrix)
    is_int_array(G)
    assert G.shape == (dim, length)
    for u, row, a in zip(units, G, allowed):
        assert tuple(row.tolist()) in a, f"unit message {u.tolist()} -> {row.tolist()}"
    rng = np.random.default_rng(c["seed"])
    U = rng.integers(0, 2, (4, dim))
    V = code.encode(U)
    assert V.shape == (4, length)
    for u, v in zip(U, V):
        assert tuple(v.tolist()) in _possible_codewords(conv, h, mode, u), (u.tolist(), v.tolist())
    equal(V, U @ G % 2)
    equal(code.encode(np.concatenate([U[0], U[1]])), np.concatenate([V[0], V[1]]))
    equal(code.encode(U.reshape(2, 2 * dim)), V.reshape(2, 2 * length))
    equal(code.encode(U.reshape(2, 2, dim)), V.reshape(2, 2, length))
    if gf2_rank(G) < dim: return "non-injective"
    H = np.asarray(code.check_matrix)
    assert H.shape == (length - dim, length) and not (G @ H.T % 2).any() and gf2_rank(H) == length - dim
    assert not code.check(V).any()
    equal(code.inverse_encode(V), U)
    R = rng.integers(0, 2, (3, length))
    S = code.check(R)
    equal(S, R @ H.T % 2)
    for r, s in zip(R, S):
        if s.any(): raises(ValueError, code.inverse_encode, r)
    if dim <= 8 and length <= 16:
        words = {tuple((np.array(u) @ G % 2).tolist()) for u in itertools.product([0, 1], repeat=dim)}
        assert {tuple(w) for w in np.asarray(code.codewords()).tolist()} == words
        assert code.minimum_distance() == min(sum(w) for w in words if any(w))
    if sum(max(x, 0) for x in nus(spec)) == 0: return "memoryless " + mode
    return mode + " " + _label(spec)

@st.composite
def long_term_case(draw):
    c = draw(conv_spec(max_nu=6, max_sigma=8, max_k=2, max_n=3, rank=True, min_sigma=1))
    return dict(code=c, h=draw(st.sampled_from([15, 40, 70, 100, 150, 220])) + draw(st.integers(0, 9)), mode=draw(st.sampled_from(["zero-termination", "zero-termination", "direct-truncation", "tail-biting"])), seed=draw(st.integers(0, 10 ** 6)))

@check("C03", long_term_case(), quick=60, thorough=800, weight=2)
def long_blocks_are_trellis_paths(c):
    """Long messages: the codeword is a path of the trellis which carries the message and ends as the mode demands."""
    spec, h, mode = c["code"], c["h"], c["mode"]
    conv = build(spec); k, n = dims(spec); sg = conv.degree; mu = conv.memory_order
    A, B, C, D = _mats(conv)
    def next_and_out(s, x): return tuple(((s @ A + x @ B) % 2).tolist()), tuple(((s @ C + x @ D) % 2).tolist())
    states = list(itertools.product([0, 1], repeat=sg)); inputs = list(itertools.product([0, 1], repeat=k))
    step = {(s, x): next_and_out(np.array(s, dtype=int), np.array(x, dtype=int)) for s in states for x in inputs}
    rng = np.random.default_rng(c["seed"])
    code = komm.TerminatedConvolutionalCode(conv, h, mode)
    U = np.concatenate([rng.integers(0, 2, (3, h * k)), (rng.random((1, h * k)) < 0.05).astype(int)])
    if mode == "tail-biting":
        # s -> s A^h + f(u) must be solvable for every message the code is to accept
        M = np.eye(sg, dtype=int)
        for _ in range(h): M = M @ A % 2
        K = (M + np.eye(sg, dtype=int)) % 2; R = [B]
        for _ in range(min(h, sg) - 1): R.append(R[-1] @ A % 2)      # the states messages lead to (they span no more after that)
        if gf2_rank(np.vstack([K] + R)) > gf2_rank(K):
            raises(ValueError, lambda: komm.TerminatedConvolutionalCode(build(spec), h, mode).encode(U[0])); return "impossible tail-biting"
    V = code.encode(U)
    assert V.shape == (4, (h + (mu if mode == "zero-termination" else 0)) * n)
    for u, v in zip(U, V):
        xs, ys = [tuple(b) for b in u.reshape(h, k).tolist()], [tuple(b) for b in v.reshape(-1, n).tolist()]
        ok = False
        for s0 in (states if mode == "tail-biting" else states[:1]):
            s = s0
            for x, y in zip(xs, ys):
                s, o = step[s, x]
                if o != y: break
            else:
                front = {s}
                for y in ys[h:]: front = {step[t, x][0] for t in front for x in inputs if step[t, x][1] == y}
                ok = ok or {"tail-biting": s == s0, "zero-termination": states[0] in front, "direct-truncation": True}[mode]
        assert ok, f"{mode}: the codeword of a message of {h} blocks is not an admissible path"
    equal(code.encode((U[0] + U[3]) % 2), (V[0] + V[3]) % 2)
    return mode + (" recursive" if spec["t"] == "high" or any(b > 1 for b in pq(spec)[1]) else "")

@check("C03", cases=lambda tier: [dict(mode=m) for m in ["zero", "tailbiting", "", "direct"]])
def unknown_modes_are_rejected(c):
    raises(ValueError, komm.TerminatedConvolutionalCode, komm.ConvolutionalCode([[7, 5]]), 3, c["mode"])
    return True

# ---------------------------------------------------------------------------------- C04
rule("C04", "Non-trivial: encoder with memory, received word that is not a codeword (hard) or noisy L-values (soft).",
     ["dimension up to 9 bits (exhaustive reference over all messages)", "BCJR L-values compared while |L| < 500"])

@st.composite
def dec_case(draw, kinds=("gauss", "ints", "ties", "big", "noiseless", "erased", "close", "wide")):
    c = draw(term_case(modes=("direct-truncation", "zero-termination"), max_dim=7, max_sigma=4, max_k=2))
    c["kind"] = draw(st.sampled_from(list(kinds)))
    c["scale"] = draw(st.sampled_from([0.1, 1.0, 1.0, 5.0, 1e-6, 1e4, 1e9]))
    return c

def _codebook(c):
    conv = build(c["code"])
    code = komm.TerminatedConvolutionalCode(conv, c["h"], c["mode"])
    dim = code.dimension
    U = np.array(list(itertools.product([0, 1], repeat=dim)), dtype=int)
    spec = c["code"]
    if c["mode"] == "direct-truncation":
        V = np.array([series_encode(spec, u.tolist()) for u in U])
    elif _unique_tail(conv):
        G = np.asarray(code.generator_matrix)     # validated by C03
        V = U @ G % 2
    else:
        # Recorded finding (see ambiguous_tails): when several tails drive the encoder to the zero state the
        # decoders search over all of them, although the code uses one. Here: optimality over the trellis.
        pairs = []
        for u in U:
            for v in sorted(_possible_codewords(conv, c["h"], c["mode"], u)): pairs.append((u, v))
        if len(pairs) > 4096: raise Skip("too many paths")
        U = np.array([p[0] for p in pairs]); V = np.array([p[1] for p in pairs])
        if c["mode"] == "zero-termination": _count_paths(conv)
    return code, U, V

def _unique_tail(conv):
    A, B, _, _ = _mats(conv)
    rows, X = [], B
    for _ in range(conv.memory_order): rows.append(X); X = X @ A % 2
    if not rows: return True
    M = np.vstack(rows)
    return gf2_rank(M) == M.shape[0] if M.shape[1] else M.shape[0] == 0

def _count_paths(conv):
    """BCJR sums over paths, not over distinct words: refuse encoders where several tails give one word."""
    A, B, C, D = _mats(conv)
    k, n, mu = conv.num_input_bits, conv.num_output_bits, conv.memory_order
    units = []
    for t in range(mu):
        s, o = np.zeros(conv.degree, dtype=int), None
        for i in range(k): units.append((t, i))
    rows = []
    for t, i in units:
        s = np.zeros(conv.degree, dtype=int); out = []
        for tt in range(mu):
            x = np.zeros(k, dtype=int)
            if tt == t: x[i] = 1
            out += ((s @ C + x @ D) % 2).tolist(); s = (s @ A + x @ B) % 2
        rows.append(out + s.tolist())
    if rows and gf2_rank(np.array(rows)) < len(rows): raise Skip("several tails give the same word")

def _llr(c, rng, V, length):
    v = V[rng.integers(0, len(V))]
    k = c["kind"]
    if k == "noiseless": return (1 - 2 * v) * float(rng.choice([0.5, 1.0, 3.0, 30.0]))
    if k == "ints": return rng.integers(-3, 4, length).astype(float)
    if k == "ties": return (1 - 2 * (v ^ (rng.random(length) < 0.25))) * 1.0
    if k == "close": return (1 - 2 * (v ^ (rng.random(length) < 0.25))) * (1 + 10.0 ** -rng.integers(6, 10) * rng.normal(size=length)) * c["scale"]
    if k == "wide": return (1 - 2 * (v ^ (rng.random(length) < 0.25))) * 10.0 ** rng.integers(-4, 5, size=length) * c["scale"]
    if k == "big": return (1 - 2 * v) * 20.0 + rng.normal(size=length) * 15
    x = (1 - 2 * v) + rng.normal(size=length) * 0.8
    if k == "erased": x[rng.random(length) < 0.3] = 0.0
    return x * c["scale"]

@check("C04", dec_case(), quick=500, thorough=8000, weight=2)
def viterbi_hard_is_minimum_distance(c):
    code, U, V = _codebook(c)
    rng = np.random.default_rng(c["seed"])
    dec = komm.ViterbiDecoder(code)
    n = code.length
    flips = rng.random((4, n)) < rng.choice([0.0, 0.05, 0.2, 0.5], size=(4, 1))
    R = V[rng.integers(0, len(V), 4)] ^ flips
    D = np.asarray(dec.decode(R))
    is_int_array(D)
    assert D.shape == (4, code.dimension)
    for r, d in zip(R, D):
        dist = (V != r).sum(axis=1)
        got = dist[(U == d).all(axis=1)].min()
        assert got == dist.min(), f"received {r.tolist()}: decoded at distance {got}, minimum {dist.min()}"
    # blocks and shapes
    equal(dec.decode(R.reshape(-1)), D.reshape(-1))
    equal(dec.decode(R.reshape(2, 2 * n)), D.reshape(2, -1))
    equal(dec.decode(R.reshape(2, 2, n).tolist()), D.reshape(2, 2, -1))
    return bool(flips.any()) and _label(c["code"]) + " " + c["mode"]

@check("C04", dec_case(), quick=500, thorough=8000, weight=2)
def viterbi_soft_is_maximum_correlation(c):
    code, U, V = _codebook(c)
    rng = np.random.default_rng(c["seed"])
    dec = komm.ViterbiDecoder(code, input_type="soft")
    n = code.length
    L = np.array([_llr(c, rng, V, n) for _ in range(2)])
    if c["kind"] == "noiseless":
        mag = float(rng.choice([1e-3, 1.0, 1e3, 1e6]))
        i = int(rng.integers(0, len(V)))
        L[0] = (1 - 2 * V[i]) * mag
    D = np.asarray(dec.decode(L))
    assert D.shape == (2, code.dimension) and set(np.unique(D).tolist()) <= {0, 1}
    for l, d in zip(L, D):
        corr = (1 - 2 * V) @ l
        got = corr[(U == d).all(axis=1)].max()
        assert got >= corr.max() - 1e-11 * np.abs(l).sum(), f"L-values {l.tolist()}: correlation {got} < {corr.max()}"
    equal(dec.decode(L.reshape(-1)), D.reshape(-1))
    equal(dec.decode(L.reshape(1, 2, n)), D.reshape(1, 2, -1))
    return _label(c["code"]) + " " + c["kind"]

@check("C04", dec_case(), quick=500, thorough=8000, weight=3)
def bcjr_is_exact_map(c):
    code, U, V = _codebook(c)
    rng = np.random.default_rng(c["seed"])
    n, k = code.length, code.dimension
    L = np.array([_llr(c, rng, V, n) for _ in range(2)])
    soft = np.asarray(komm.BCJRDecoder(code).decode(L))
    assert soft.shape == (2, k)
    hard = np.asarray(komm.BCJRDecoder(code, output_type="hard").decode(L))
    is_int_array(hard)
    for l, out, hb in zip(L, soft, hard):
        lp = 0.5 * ((1 - 2 * V) @ l)            # log p(l | codeword) up to a constant
        want = np.array([np.logaddexp.reduce(lp[U[:, i] == 0]) - np.logaddexp.reduce(lp[U[:, i] == 1]) for i in range(k)])
        tol = 1e-14 * np.abs(l).sum()               # rounding of the path metrics
        for i in range(k):
            if abs(want[i]) < 500:
                assert abs(out[i] - want[i]) <= 1e-6 + tol + 1e-9 * abs(want[i]), f"bit {i}: L-value {out[i]}, exact {want[i]} for {l.tolist()}"
                if abs(want[i]) > 1e-6 + tol: assert hb[i] == (want[i] < 0)
            elif abs(want[i]) > 500 + tol:
                assert out[i] * want[i] > 0 and abs(out[i]) > 400 and hb[i] == (want[i] < 0)
    equal(np.asarray(komm.BCJRDecoder(code).decode(L.reshape(-1))), soft.reshape(-1))
    return _label(c["code"]) + " " + c["kind"]

@check("C04", cases=lambda tier: [
    dict(decoder="viterbi", code=dict(t="conv", P=[[1, 1], [0, 2]], q=None), h=1, r=[0, 0, 1, 1]),
    dict(decoder="bcjr", code=dict(t="conv", P=[[1, 1], [0, 2]], q=None), h=1, r=[1.0, -0.5, -2.0, -1.0])])
def ambiguous_tails(c):
    """Zero termination when several tails drive the encoder to the zero state (unequal constraint lengths)."""
    code = komm.TerminatedConvolutionalCode(build(c["code"]), c["h"], "zero-termination")
    U = np.array(list(itertools.product([0, 1], repeat=code.dimension)))
    V = U @ np.asarray(code.generator_matrix) % 2
    r = np.array(c["r"])
    if c["decoder"] == "viterbi":
        d = komm.ViterbiDecoder(code).decode(r)
        dist = (V != r).sum(axis=1)
        got = dist[(U == d).all(axis=1)].min()
        assert got == dist.min(), f"decoded at distance {got}, minimum {dist.min()}"
    else:
        lp = 0.5 * ((1 - 2 * V) @ r)
        want = [np.logaddexp.reduce(lp[U[:, i] == 0]) - np.logaddexp.reduce(lp[U[:, i] == 1]) for i in range(code.dimension)]
        close(komm.BCJRDecoder(code).decode(r), want)
    return True

@check("C04", cases=lambda tier: [dict(i=i) for i in range(1)])
def unsupported_configurations_are_rejected(c):
    conv = komm.ConvolutionalCode([[7, 5]])
    tb = komm.TerminatedConvolutionalCode(conv, 4, "tail-biting")
    raises(NotImplementedError, komm.ViterbiDecoder, tb)
    raises(NotImplementedError, komm.BCJRDecoder, tb)
    zt = komm.TerminatedConvolutionalCode(conv, 4, "zero-termination")
    raises(ValueError, komm.ViterbiDecoder, zt, "other")
    raises(ValueError, komm.BCJRDecoder, zt, "other")
    return True

@st.composite
def long_case(draw):
    c = draw(conv_spec(max_nu=4, max_sigma=5, max_k=2, max_n=4, rank=True))
    return dict(code=c, h=draw(st.integers(10, 60)), mode=draw(st.sampled_from(["direct-truncation", "zero-termination"])),
                seed=draw(st.integers(0, 10 ** 6)), soft=draw(st.booleans()))

@check("C04", long_case(), quick=120, thorough=2000, weight=3)
def long_blocks_agree_with_a_reference_viterbi(c):
    """Blocks too long to enumerate: the decoded codeword's metric equals the trellis optimum computed
    independently, and noiseless blocks decode to the message when encoding is injective."""
    spec = c["code"]
    conv = build(spec)
    code = komm.TerminatedConvolutionalCode(conv, c["h"], c["mode"])
    k0, n0 = dims(spec)
    rng = np.random.default_rng(c["seed"])
    u = rng.integers(0, 2, code.dimension)
    v = np.asarray(code.encode(u))
    n = code.length
    l = (1 - 2.0 * v) + rng.normal(size=n) * 0.9 if c["soft"] else None
    r = v ^ (rng.random(n) < 0.1)
    dec = komm.ViterbiDecoder(code, input_type="soft" if c["soft"] else "hard")
    x = l if c["soft"] else r
    cost = (lambda bits: float((l * bits).sum())) if c["soft"] else (lambda bits: float((r != bits).sum()))
    d = np.asarray(dec.decode(x))
    got = cost(np.asarray(code.encode(d)))
    # reference trellis search on the library-independent machine
    A, B, C, D = _mats(conv)
    sg = conv.degree
    T = c["h"] + (conv.memory_order if c["mode"] == "zero-termination" else 0)
    best = {(0,) * sg: 0.0}
    steps = {}
    for t in range(T):
        nxt = {}
        seg = slice(t * n0, (t + 1) * n0)
        for s, m in best.items():
            for xi in itertools.product([0, 1], repeat=k0):
                key = (s, xi)
                if key not in steps:
                    sv, xv = np.array(s, dtype=int), np.array(xi, dtype=int)
                    steps[key] = (tuple(((sv @ A + xv @ B) % 2).tolist()), (sv @ C + xv @ D) % 2)
                s1, o = steps[key]
                w = m + (float((l[seg] * o).sum()) if c["soft"] else float((r[seg] != o).sum()))
                if w < nxt.get(s1, math.inf): nxt[s1] = w
        best = nxt
    opt = min(best.values()) if c["mode"] == "direct-truncation" else best[(0,) * sg]
    if c["mode"] == "zero-termination":
        # the code fixes one tail per message while the trellis may offer several equivalent ones
        assert got >= opt - 1e-6
        if _unique_tail(conv): assert got <= opt + 1e-6, (got, opt)
    else:
        assert abs(got - opt) <= 1e-6, (got, opt)
    y = v if not c["soft"] else (1.0 - 2 * v) * float(rng.choice([0.01, 1, 1000]))
    if c["mode"] == "zero-termination" or gf2_rank(D) == k0:
        if c["mode"] == "direct-truncation" or _unique_tail(conv):
            equal(np.asarray(dec.decode(y)), u)
    return _label(spec) + (" soft" if c["soft"] else " hard")

# ---------------------------------------------------------------------------------- C05
rule("C05", "Non-trivial: encoder with memory and a stream longer than the traceback (label: noise and start state).",
     ["at most 2^4 states, traceback length 1..20"])

@st.composite
def stream_case(draw):
    c = draw(conv_spec(max_nu=3, max_sigma=4, max_k=2, max_n=3, rank=True))
    tau = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 12, 20]))
    T = draw(st.integers(1, 30))
    return dict(code=c, tau=tau, T=T, cuts=draw(st.lists(st.integers(0, T), max_size=5)), soft=draw(st.booleans()),
                noise=draw(st.sampled_from([0.0, 0.0, 0.05, 0.3])), scale=draw(st.sampled_from([1.0, 1.0, 1e-6, 1e7])), wide=draw(st.booleans()), state=draw(st.integers(0, 15)),
                seed=draw(st.integers(0, 10 ** 6)))

@check("C05", stream_case(), quick=700, thorough=10000)
def streaming_viterbi(c):
    spec = c["code"]
    conv = build(spec)
    k, n = dims(spec)
    sg = conv.degree
    tau, T = c["tau"], c["T"]
    s0 = c["state"] % (2 ** sg)
    rng = np.random.default_rng(c["seed"])
    u = rng.integers(0, 2, k * T)
    v, _ = conv.encode_with_state(u, np.array([(s0 >> i) & 1 for i in range(sg)], dtype=int))
    v = np.asarray(v)
    if c["soft"]:
        x = ((1.0 - 2 * v) + rng.normal(size=v.size) * 2 * c["noise"]) * c["scale"]
        if c["wide"]: x *= 10.0 ** rng.integers(-4, 5, size=v.size)
    else: x = v ^ (rng.random(v.size) < c["noise"])
    kw = dict(traceback_length=tau, state=s0, input_type="soft" if c["soft"] else "hard")
    whole = np.asarray(komm.ViterbiStreamDecoder(conv, **kw).decode(x))
    assert whole.shape == (k * T,) and set(np.unique(whole).tolist()) <= {0, 1}
    d = komm.ViterbiStreamDecoder(conv, **kw)
    cuts = [0] + sorted(c["cuts"]) + [T]
    parts = [np.asarray(d.decode(x[a * n:b * n])) for a, b in zip(cuts, cuts[1:])]
    equal(np.concatenate(parts), whole)
    # each decision is the branch, tau steps back, of some best path from the start state
    A, B, C, D = _mats(conv)
    S = 2 ** sg
    nxt, out = np.zeros((S, 2 ** k), dtype=int), np.zeros((S, 2 ** k, n), dtype=int)
    for s in range(S):
        sv = np.array([(s >> i) & 1 for i in range(sg)], dtype=int)
        for a in range(2 ** k):
            uv = np.array([(a >> i) & 1 for i in range(k)], dtype=int)
            nxt[s, a] = sum(int(b) << i for i, b in enumerate((sv @ A + uv @ B) % 2))
            out[s, a] = (sv @ C + uv @ D) % 2
    Z = np.asarray(x, dtype=float).reshape(T, n)
    gam = np.array([[[float((z * out[s, a]).sum()) if c["soft"] else float((z != out[s, a]).sum()) for a in range(2 ** k)] for s in range(S)] for z in Z])
    alpha = np.full((T + 1, S), np.inf); alpha[0, s0] = 0
    for t in range(T):
        for s in range(S):
            if alpha[t, s] == np.inf: continue
            for a in range(2 ** k):
                s1 = nxt[s, a]
                alpha[t + 1, s1] = min(alpha[t + 1, s1], alpha[t, s] + gam[t, s, a])
    W = whole.reshape(T, k)
    if T >= tau: assert not W[:tau].any() or tau == 0, "the first traceback_length blocks are the idle (zero) blocks"
    for t in range(tau, T):
        beta = np.zeros(S)
        for t1 in range(t, t - tau, -1):
            b = np.full(S, np.inf)
            for s in range(S):
                for a in range(2 ** k): b[s] = min(b[s], gam[t1, s, a] + beta[nxt[s, a]])
            beta = b
        t0 = t - tau
        best = alpha[t + 1].min()
        a = sum(int(b) << i for i, b in enumerate(W[t]))
        val = min(alpha[t0, s] + gam[t0, s, a] + beta[nxt[s, a]] for s in range(S))
        assert val <= best + 1e-11 * np.abs(Z).sum(), f"step {t}: decided input {a} for step {t0} is on no best path ({val} > {best})"
    if c["noise"] == 0 and gf2_rank(D) == k:
        equal(W[tau:], u.reshape(T, k)[:max(T - tau, 0)])
    return sg > 0 and T > tau and ("noisy" if c["noise"] else "noiseless") + (" start!=0" if s0 else " start=0")

@st.composite
def long_stream_case(draw):
    c = draw(conv_spec(max_nu=4, max_sigma=5, max_k=2, max_n=4, rank=True))
    T = draw(st.integers(100, 400))
    return dict(code=c, tau=draw(st.sampled_from([3, 10, 25, 60])), T=T, cuts=draw(st.lists(st.integers(0, T), max_size=6)), soft=draw(st.booleans()),
                burst=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)))

@check("C05", long_stream_case(), quick=25, thorough=400, weight=2)
def long_streams(c):
    """Long streams: independence of chunking, and every noiseless block comes back tau steps later,
    also after a stretch of very reliable or very unreliable values."""
    spec = c["code"]; conv = build(spec); k, n = dims(spec); tau, T = c["tau"], c["T"]
    if 2 ** conv.degree * 2 ** k * T > 16000: T = max(tau + 5, 16000 // 2 ** (conv.degree + k))
    rng = np.random.default_rng(c["seed"])
    u = rng.integers(0, 2, k * T); v = np.asarray(conv.encode(u))
    if c["soft"]:
        x = (1.0 - 2 * v) * rng.uniform(0.5, 2, v.size)
        if c["burst"]: x[: v.size // 4] *= 1e9
    else: x = v
    kw = dict(traceback_length=tau, input_type="soft" if c["soft"] else "hard")
    whole = np.asarray(komm.ViterbiStreamDecoder(conv, **kw).decode(x))
    d = komm.ViterbiStreamDecoder(conv, **kw)
    cuts = [0] + sorted(min(a, T) for a in c["cuts"]) + [T]
    equal(np.concatenate([np.asarray(d.decode(x[a * n:b * n])) for a, b in zip(cuts, cuts[1:])]), whole)
    D = _mats(conv)[3]
    if gf2_rank(D) == k: equal(whole.reshape(T, k)[tau:], u.reshape(T, k)[:T - tau])
    return conv.degree > 0 and ("soft" if c["soft"] else "hard")

# ---- the number format of received values does not matter (quantised, possibly saturated L-values)
@st.composite
def quantised_trellis_case(draw):
    return dict(code=draw(conv_spec(max_nu=3, max_sigma=4, max_k=2, max_n=3, rank=True)), h=draw(st.integers(1, 8)), mode=draw(st.sampled_from(["zero-termination", "direct-truncation"])),
                d=draw(st.sampled_from(["viterbi", "bcjr", "hard"])), fmt=draw(st.sampled_from(["int8", "int16", "int32", "float16", "float32", "uint8", "bool"])), b=draw(st.integers(1, 3)), seed=draw(st.integers(0, 2 ** 32 - 1)),
                pow=draw(st.sampled_from([0, 0, 0, -1000, -540, -100, 100, 520, 900])))

def _received(c, rng, shape):
    if c["d"] == "hard" or c["fmt"] in ("uint8", "bool"): return rng.integers(0, 2, shape), c["fmt"]
    hi = {"int8": 127, "float16": 31, "int16": 2 ** 15 - 1}.get(c["fmt"], 2 ** 20)
    L = rng.integers(-hi - 1, hi + 1, shape)
    return np.where(rng.random(shape) < rng.choice([0, 0.5, 0.9]), np.where(L < 0, -hi - 1, hi), L), c["fmt"]

@check("C04", quantised_trellis_case(), quick=300, thorough=4000)
def quantised_inputs_of_trellis_decoders(c):
    try: code = komm.TerminatedConvolutionalCode(build(c["code"]), c["h"], c["mode"])
    except ValueError: raise Skip()
    if c["mode"] == "zero-termination" and not _unique_tail(code.convolutional_code): raise Skip("several tails")
    rng = np.random.default_rng(c["seed"])
    L, fmt = _received(c, rng, (c["b"], code.length))
    dec = komm.BCJRDecoder(code) if c["d"] == "bcjr" else komm.ViterbiDecoder(code, input_type="hard" if c["d"] == "hard" else "soft")
    y = L * 2.0 ** c["pow"] if c["pow"] and c["d"] == "viterbi" else L.astype(fmt)        # any unit
    got, want = np.asarray(dec.decode(y)), np.asarray(dec.decode(L.astype(int if c["d"] == "hard" else float)))
    if c["d"] == "bcjr": close(got, want, 1e-6, 1e-6)
    else:                 # another optimal answer is as good as the one given for real numbers
        V, W = np.asarray(code.encode(got)), np.asarray(code.encode(want))
        x = L if c["d"] != "hard" else 2 * L - 1
        s = 1 if c["d"] != "hard" else -1
        equal(s * (x * (1 - 2 * V)).sum(axis=1), s * (x * (1 - 2 * W)).sum(axis=1))
    return fmt + " " + c["d"]

@check("C05", quantised_trellis_case(), quick=200, thorough=3000)
def quantised_streams(c):
    conv = build(c["code"]); n = conv.num_output_bits
    rng = np.random.default_rng(c["seed"])
    L, fmt = _received(c, rng, (3 * c["h"] * n,))
    kw = dict(traceback_length=c["b"], input_type="hard" if c["d"] == "hard" else "soft")
    one, two = komm.ViterbiStreamDecoder(conv, **kw), komm.ViterbiStreamDecoder(conv, **kw)
    for i in range(3):          # the chunks of one stream may come in different formats
        x = L[i * c["h"] * n:(i + 1) * c["h"] * n]
        y = x * 2.0 ** c["pow"] if c["pow"] and c["d"] != "hard" else x.astype(fmt if i != 1 else "int64")
        equal(one.decode(y), two.decode(x.astype(int if c["d"] == "hard" else float)))
    return fmt + " " + c["d"]

# ---- encoders with many inputs, outputs or states, against vectorised dynamic programming
@st.composite
def big_encoder(draw):
    kind = draw(st.sampled_from(["inputs", "inputs", "states", "states", "outputs"]))
    if kind == "inputs":
        k = draw(st.integers(7, 10)); d = draw(st.integers(1, 2 if k < 9 else 1))
        h = draw(st.lists(st.integers(0, 2 ** (d + 1) - 1), min_size=k + 1, max_size=k + 1)); h[-1] |= 1; h[0] |= 2 ** d
        c = dict(t="high", h=h)
    elif kind == "states":
        d = draw(st.integers(8, 10)); g = [draw(st.integers(0, 2 ** d - 1)) | 1, 2 ** d | draw(st.integers(0, 2 ** d - 1))]
        c = draw(st.sampled_from([dict(t="low", g=g), dict(t="conv", P=[g], q=None), dict(t="conv", P=[g], q=[g[1] | 1])]))
    else:
        d = draw(st.integers(1, 3)); n = draw(st.integers(8, 12)); g = draw(st.lists(st.integers(0, 2 ** (d + 1) - 1), min_size=n, max_size=n)); g[0] |= 1; g[-1] |= 2 ** d
        c = dict(t="low", g=g)
    return dict(code=c, kind=kind, T=draw(st.integers(3, 8 if kind == "inputs" else 16)), soft=draw(st.booleans()), noise=draw(st.sampled_from([0.0, 0.03, 0.1, 0.3])),
                tau=draw(st.integers(1, 4)), mode=draw(st.sampled_from(["zero-termination", "direct-truncation"])), seed=draw(st.integers(0, 2 ** 32 - 1)))

def _tables(conv):
    """Next states and output bits of every (state, input) pair, bit i of an index being element i."""
    A, B, C, D = _mats(conv); sg, k = A.shape[0], D.shape[0]
    bits = lambda m: (np.arange(2 ** m)[:, None] >> np.arange(m)) & 1
    s, x = bits(sg), bits(k)
    nxt = (((s @ A)[:, None] + (x @ B)[None]) % 2) @ (1 << np.arange(sg))
    return nxt.astype(int).reshape(2 ** sg, 2 ** k), ((s @ C)[:, None] + (x @ D)[None]) % 2

def _branch(out, z, soft): return out @ z.astype(float) if soft else (out != z).sum(axis=-1).astype(float)

def _noisy(c, rng, v):
    if c["soft"]: return (1.0 - 2 * v) + rng.normal(size=v.size) * 4 * c["noise"]
    return v ^ (rng.random(v.size) < c["noise"])

@check("C04", big_encoder(), quick=40, thorough=500, weight=3)
def encoders_with_many_inputs_states_or_outputs(c):
    conv = build(c["code"]); n, k = conv.num_output_bits, conv.num_input_bits; rng = np.random.default_rng(c["seed"])
    code = komm.TerminatedConvolutionalCode(conv, c["T"], c["mode"])
    nxt, out = _tables(conv); S, X = nxt.shape
    u = rng.integers(0, 2, code.dimension); v = np.asarray(code.encode(u)); x = _noisy(c, rng, v)
    dec = komm.ViterbiDecoder(code, input_type="soft" if c["soft"] else "hard")
    d = np.asarray(dec.decode(x)); assert d.shape == u.shape
    cost = lambda b: float((x * b).sum()) if c["soft"] else float((x != b).sum())
    a = np.full(S, np.inf); a[0] = 0
    for z in x.reshape(-1, n):
        b = np.full(S, np.inf); np.minimum.at(b, nxt.ravel(), (a[:, None] + _branch(out, z, c["soft"])).ravel()); a = b
    zt = c["mode"] == "zero-termination"
    opt = a[0] if zt else a.min(); got = cost(np.asarray(code.encode(d)))
    assert got >= opt - 1e-6 and (got <= opt + 1e-6 or (zt and not _unique_tail(conv))), f"decoded codeword has metric {got}, the best one {opt}"
    if c["noise"] == 0 and (zt or gf2_rank(_mats(conv)[3]) == k) and (not zt or _unique_tail(conv)): equal(d, u)
    if c["kind"] != "inputs" or S * X <= 1024:
        L = x if c["soft"] else 2.0 * (1 - 2 * x)
        L = np.clip(L, -20, 20); Z = L.reshape(-1, n); m = [0.5 * ((1 - 2 * out) @ z) for z in Z]; N = len(m)
        la, lb = np.full((N + 1, S), -np.inf), np.full((N + 1, S), -np.inf); la[0, 0] = 0
        if zt: lb[N, 0] = 0
        else: lb[N] = 0
        with np.errstate(all="ignore"):
            for t in range(N): np.logaddexp.at(la[t + 1], nxt.ravel(), (la[t][:, None] + m[t]).ravel())
            for t in range(N - 1, -1, -1): lb[t] = np.logaddexp.reduce(m[t] + lb[t + 1][nxt], axis=1)
            want = []
            for t in range(c["T"]):
                w = np.logaddexp.reduce(la[t][:, None] + m[t] + lb[t + 1][nxt], axis=0); idx = np.arange(X)
                for i in range(k): want.append(np.logaddexp.reduce(w[(idx >> i) & 1 == 0]) - np.logaddexp.reduce(w[(idx >> i) & 1 == 1]))
        got = np.asarray(komm.BCJRDecoder(code).decode(L))
        if not zt or _unique_tail(conv): close(got, np.array(want), 1e-6, 1e-6)
    return c["kind"] + (" soft" if c["soft"] else " hard")

@check("C05", big_encoder(), quick=30, thorough=400, weight=3)
def streams_of_large_encoders(c):
    conv = build(c["code"]); n, k = conv.num_output_bits, conv.num_input_bits; rng = np.random.default_rng(c["seed"])
    nxt, out = _tables(conv); S, X = nxt.shape; tau = c["tau"]; T = c["T"] + tau; s0 = int(rng.integers(0, S)); sg = conv.degree
    u = rng.integers(0, 2, k * T); v, _ = conv.encode_with_state(u, (s0 >> np.arange(sg)) & 1); x = _noisy(c, rng, np.asarray(v))
    d = komm.ViterbiStreamDecoder(conv, traceback_length=tau, state=s0, input_type="soft" if c["soft"] else "hard")
    cut = n * int(rng.integers(0, T + 1))
    got = np.concatenate([np.asarray(d.decode(p)) for p in (x[:cut], x[cut:])]).reshape(T, k)
    idx = got @ (1 << np.arange(k)); assert not got[:tau].any()
    gam = [_branch(out, z, c["soft"]) for z in x.reshape(T, n)]
    al = np.full((T + 1, S), np.inf); al[0, s0] = 0
    for t in range(T): np.minimum.at(al[t + 1], nxt.ravel(), (al[t][:, None] + gam[t]).ravel())
    for t in range(tau, T):
        be = np.zeros(S)
        for r in range(t, t - tau, -1): be = (gam[r] + be[nxt]).min(axis=1)
        i = int(idx[t]); val = (al[t - tau] + gam[t - tau][:, i] + be[nxt[:, i]]).min()
        assert val <= al[t + 1].min() + 1e-9, f"step {t}: decision {i} is on no best path ({val} > {al[t + 1].min()})"
    return c["kind"] + (" soft" if c["soft"] else " hard")
