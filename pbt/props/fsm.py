"""F01: finite-state machines."""
import itertools, math
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from ..gen import equal, close, is_int_array, pmf

rule("F01", "Non-trivial: more than one state and more than one input symbol, sequence longer than one "
            "(label: whether parallel transitions or unreachable states occur).",
     ["reference: enumeration of every input sequence from every start state (at most 4096 paths)"])

@st.composite
def machine(draw, max_states=4, max_inputs=3, max_out=4):
    S = draw(st.integers(1, max_states)); X = draw(st.integers(1, max_inputs))
    kind = draw(st.sampled_from(["rand", "rand", "shift", "parallel", "perm"]))
    row = lambda hi: draw(st.lists(st.integers(0, hi), min_size=X, max_size=X))
    if kind == "shift": T = [[(s * X + x) % S for x in range(X)] for s in range(S)]
    elif kind == "parallel": T = [[draw(st.integers(0, S - 1))] * X for _ in range(S)]
    elif kind == "perm": T = [[(s + x) % S for x in range(X)] for s in range(S)]
    else: T = [row(S - 1) for _ in range(S)]
    return dict(T=T, Y=[row(max_out - 1) for _ in range(S)])

def _label(m):
    T = m["T"]
    if len(T) < 2 or len(T[0]) < 2: return None
    par = any(len(set(r)) < len(r) for r in T)
    unr = len({s for r in T for s in r}) < len(T)
    return "parallel" * par + " unreachable" * unr or "simple"

@st.composite
def process_case(draw):
    m = draw(machine(6, 4, 6))
    S, X = len(m["T"]), len(m["T"][0])
    return dict(m=m, xs=draw(st.lists(st.integers(0, X - 1), max_size=20)), s=draw(st.integers(0, S - 1)),
                moore=draw(st.lists(st.integers(0, 5), min_size=S, max_size=S)), cut=draw(st.integers(0, 20)))

@check("F01", process_case(), quick=3000, thorough=40000)
def processing_steps_through_the_tables(c):
    T, Y = c["m"]["T"], c["m"]["Y"]
    S, X = len(T), len(T[0])
    m = komm.MealyMachine(T, Y)
    assert (m.num_states, m.num_input_symbols, m.num_output_symbols) == (S, X, max(map(max, Y)) + 1)
    equal(m.transitions, T); equal(m.outputs, Y)
    s, out, mout = c["s"], [], []
    for x in c["xs"]:
        out.append(Y[s][x]); s = T[s][x]; mout.append(c["moore"][s])
    o, f = m.process(c["xs"], c["s"])
    equal(o, out); is_int_array(o)
    assert f == s
    mo = komm.MooreMachine(T, c["moore"])
    assert (mo.num_states, mo.num_input_symbols, mo.num_output_symbols) == (S, X, max(c["moore"]) + 1)
    o, f = mo.process(np.array(c["xs"], dtype=int), c["s"])
    equal(o, mout)
    assert f == s
    cut = min(c["cut"], len(c["xs"]))
    for M, w in ((m, out), (mo, mout)):
        o1, f1 = M.process(c["xs"][:cut], c["s"])
        o2, f2 = M.process(c["xs"][cut:], f1)
        assert o1.tolist() + o2.tolist() == w and f2 == s
    ie, oe = np.asarray(m.input_edges), np.asarray(m.output_edges)
    assert ie.shape == oe.shape == (S, S)
    for a in range(S):
        for b in range(S):
            xs = [x for x in range(X) if T[a][x] == b]
            if not xs: assert ie[a, b] == -1 and oe[a, b] == -1
            else:
                assert ie[a, b] in xs
                assert oe[a, b] == Y[a][ie[a, b]]
    m2 = eval(repr(m), {"MealyMachine": komm.MealyMachine})
    equal(m2.transitions, T); equal(m2.outputs, Y)
    return len(c["xs"]) > 1 and _label(c["m"])

@st.composite
def trellis_case(draw):
    m = draw(machine(4, 3, 4))
    S, X = len(m["T"]), len(m["T"][0])
    L = draw(st.integers(1, 5))
    kind = draw(st.sampled_from(["gauss", "ints", "zero", "large", "huge", "tiny", "close"]))
    init = draw(st.sampled_from(["none", "one", "finite", "mixed"]))
    return dict(m=m, L=L, kind=kind, init=init, seed=draw(st.integers(0, 10 ** 6)))

def _metrics(c, rng):
    L = c["L"]
    nY = max(map(max, c["m"]["Y"])) + 1
    if c["kind"] == "gauss": return rng.normal(size=(L, nY)) * 2
    if c["kind"] == "ints": return rng.integers(-2, 3, (L, nY)).astype(float)
    if c["kind"] == "huge": return rng.normal(size=(L, nY)) * 1e9
    if c["kind"] == "tiny": return rng.normal(size=(L, nY)) * 1e-9
    if c["kind"] == "close": return 1.0 + 1e-8 * rng.normal(size=(L, nY))
    if c["kind"] == "zero": return np.zeros((L, nY))
    return rng.normal(size=(L, nY)) * 200

@check("F01", trellis_case(), quick=1500, thorough=20000)
def viterbi_is_optimal_for_every_final_state(c):
    T, Y = c["m"]["T"], c["m"]["Y"]
    S, X, L = len(T), len(T[0]), c["L"]
    rng = np.random.default_rng(c["seed"])
    M = _metrics(c, rng)
    m = komm.MealyMachine(T, Y)
    init = None
    if c["init"] == "one": init = np.full(S, np.inf); init[rng.integers(0, S)] = 0.0
    elif c["init"] == "finite": init = rng.normal(size=S)
    elif c["init"] == "mixed": init = np.where(rng.random(S) < 0.5, np.inf, rng.integers(0, 3, S)); init[rng.integers(0, S)] = 1.0
    kw = {} if init is None else dict(initial_metrics=init.tolist() if c["seed"] % 2 else init)
    xs_hat, fm = m.viterbi(observed=list(range(L)), metric_function=lambda y, z: float(M[z, y]), **kw)
    xs_hat, fm = np.asarray(xs_hat), np.asarray(fm)
    assert xs_hat.shape == (L, S) and fm.shape == (S,)
    i0 = np.zeros(S) if init is None else init
    best = np.full(S, np.inf)
    cost = {}
    for s0 in range(S):
        if i0[s0] == np.inf: continue
        for xs in itertools.product(range(X), repeat=L):
            s, w = s0, i0[s0]
            for t, x in enumerate(xs):
                w += M[t, Y[s][x]]; s = T[s][x]
            best[s] = min(best[s], w)
            cost[(xs, s)] = min(cost.get((xs, s), np.inf), w)
    for s in range(S):
        if best[s] == np.inf:
            assert fm[s] == np.inf, f"state {s} is unreachable but has metric {fm[s]}"
            continue
        tol = 1e-12 * (abs(best[s]) + np.abs(M).sum() + (0 if init is None else np.abs(init[np.isfinite(init)]).sum()))
        assert abs(fm[s] - best[s]) <= tol, f"final metric of state {s} is {fm[s]}, optimum {best[s]}"
        got = cost.get((tuple(xs_hat[:, s].tolist()), s))
        assert got is not None, f"sequence {xs_hat[:, s].tolist()} does not lead to state {s}"
        assert abs(got - best[s]) <= tol, f"sequence for state {s} has metric {got}, optimum {best[s]}"
    return L > 1 and _label(c["m"])

def _lopsided(rng, S):
    p = 10.0 ** -rng.uniform(2, 300, S); k = rng.integers(0, S); p[k] = 0.0; p[k] = 1.0 - p.sum()
    return p

@check("F01", trellis_case(), quick=1500, thorough=20000)
def forward_backward_is_exact(c):
    T, Y = c["m"]["T"], c["m"]["Y"]
    S, X, L = len(T), len(T[0]), c["L"]
    rng = np.random.default_rng(c["seed"])
    M = _metrics(c, rng)
    m = komm.MealyMachine(T, Y)
    kw = {}
    ip = np.ones((L, X)) / X; a0 = np.ones(S) / S; bL = np.ones(S) / S
    if rng.random() < 0.6:
        ip = rng.dirichlet(np.ones(X), size=L)
        if X > 1 and rng.random() < 0.4:
            ip[0] = np.eye(X)[rng.integers(0, X)]
        if X > 1 and rng.random() < 0.4:                # inputs that are almost, but not quite, impossible
            tiny = 10.0 ** -rng.uniform(2, 300, (L, X)); keep = rng.integers(0, X, L)
            tiny[np.arange(L), keep] = 0.0; tiny[np.arange(L), keep] = 1.0 - tiny.sum(axis=1)
            ip = tiny
        kw["input_priors"] = ip.tolist() if rng.random() < 0.5 else ip
    if rng.random() < 0.6:
        a0 = np.eye(S)[rng.integers(0, S)] if rng.random() < 0.5 else rng.dirichlet(np.ones(S)) if S == 1 or rng.random() < 0.6 else _lopsided(rng, S)
        kw["initial_state_distribution"] = a0
    if rng.random() < 0.6:
        bL = np.eye(S)[rng.integers(0, S)] if rng.random() < 0.5 else rng.dirichlet(np.ones(S)) if S == 1 or rng.random() < 0.6 else _lopsided(rng, S)
        kw["final_state_distribution"] = bL
    terms = [[[] for _ in range(X)] for _ in range(L)]
    with np.errstate(divide="ignore"): lip, la, lb = np.log(ip), np.log(a0), np.log(bL)
    for s0 in range(S):
        for xs in itertools.product(range(X), repeat=L):
            s, w = s0, la[s0]
            for t, x in enumerate(xs):
                w += M[t, Y[s][x]] + lip[t, x]; s = T[s][x]
            w += lb[s]
            if w > -np.inf:
                for t, x in enumerate(xs): terms[t][x].append(w)
    if not any(terms[0]): raise Skip("no admissible path")
    want = np.array([[np.logaddexp.reduce(v) if v else -np.inf for v in row] for row in terms])
    want = np.exp(want - want.max(axis=1, keepdims=True)); want /= want.sum(axis=1, keepdims=True)
    got = np.asarray(m.forward_backward(observed=list(range(L)), metric_function=lambda y, z: float(M[z, y]), **kw))
    assert got.shape == (L, X)
    if c["kind"] == "huge": close(got, want, rtol=1e-5, atol=1e-5)
    else: close(got, want, rtol=1e-7, atol=1e-9)
    return L > 1 and _label(c["m"])

@st.composite
def stream_case(draw):
    c = draw(trellis_case())
    c["L"] = draw(st.integers(1, 12)); c["tau"] = draw(st.integers(1, 6))
    c["cuts"] = draw(st.lists(st.integers(0, 12), max_size=3))
    return c

@check("F01", stream_case(), quick=800, thorough=10000)
def streaming_viterbi_follows_a_best_path(c):
    T, Y = np.array(c["m"]["T"]), np.array(c["m"]["Y"])
    S, X, L, tau = T.shape[0], T.shape[1], c["L"], c["tau"]
    rng = np.random.default_rng(c["seed"])
    M = _metrics(c, rng)
    m = komm.MealyMachine(T, Y)
    s0 = int(rng.integers(0, S))
    def memory():
        d = dict(paths=np.zeros((S, tau + 1), dtype=int), metrics=np.full((S, tau + 1), np.inf))
        d["metrics"][s0, -1] = 0.0
        return d
    f = lambda y, z: float(M[z, y])
    whole = np.asarray(m.viterbi_streaming(list(range(L)), f, memory()))
    mem = memory()
    cuts = [0] + sorted(min(x, L) for x in c["cuts"]) + [L]
    parts = [np.asarray(m.viterbi_streaming(list(range(a, b)), f, mem)) for a, b in zip(cuts, cuts[1:]) if b > a]
    equal(np.concatenate(parts), whole)
    alpha = np.full((L + 1, S), np.inf); alpha[0, s0] = 0
    for t in range(L):
        for s in range(S):
            for x in range(X): alpha[t + 1, T[s, x]] = min(alpha[t + 1, T[s, x]], alpha[t, s] + M[t, Y[s, x]])
    for t in range(tau, L):
        beta = np.zeros(S)
        for u in range(t, t - tau, -1): beta = np.array([min(M[u, Y[s, x]] + beta[T[s, x]] for x in range(X)) for s in range(S)])
        x = int(whole[t])
        assert 0 <= x < X
        val = min(alpha[t - tau, s] + M[t - tau, Y[s, x]] + beta[T[s, x]] for s in range(S))
        assert val <= alpha[t + 1].min() + 1e-12 * np.abs(M).sum(), f"step {t}: input {x} is on no best path"
    return L > tau and _label(c["m"])

@st.composite
def large_case(draw):
    return dict(S=draw(st.sampled_from([5, 9, 17, 40])), X=draw(st.sampled_from([2, 3, 5])), L=draw(st.sampled_from([7, 40, 90])),
                kind=draw(st.sampled_from(["gauss", "ints", "large", "offset"])), shape=draw(st.sampled_from(["rand", "perm", "parallel"])), seed=draw(st.integers(0, 10 ** 6)))

@check("F01", large_case(), quick=50, thorough=800, weight=3)
def large_machines_against_dynamic_programming(c):
    """Machines and sequences far beyond enumeration, against a vectorised dynamic program."""
    S, X, L = c["S"], c["X"], c["L"]
    if S * X * L > 9000: L = 9000 // (S * X)
    rng = np.random.default_rng(c["seed"])
    nY = int(rng.integers(2, 9))
    if c["shape"] == "perm": T = (np.arange(S)[:, None] + rng.permutation(S)[:X]) % S
    elif c["shape"] == "parallel": T = np.repeat(rng.integers(0, S, (S, 1)), X, axis=1); T[:, 0] = rng.integers(0, S, S)
    else: T = rng.integers(0, S, (S, X))
    Y = rng.integers(0, nY, (S, X)); Y[0, 0] = nY - 1
    m = komm.MealyMachine(T, Y)
    M = {"gauss": rng.normal(size=(L, nY)), "ints": rng.integers(0, 3, (L, nY)) * 1.0, "large": 1e4 * rng.normal(size=(L, nY)), "offset": rng.normal(size=(L, nY)) - 60.0}[c["kind"]]
    f = lambda y, z: float(M[z, y])
    xs = rng.integers(0, X, 200); s = int(rng.integers(0, S)); s0 = s; out = []
    for x in xs: out.append(Y[s, x]); s = T[s, x]
    o, fs = m.process(xs, s0); equal(o, out); assert fs == s
    init = np.where(rng.random(S) < 0.5, np.inf, rng.normal(size=S)); init[s0] = 0.0
    a = init.copy()
    for t in range(L):
        b = np.full(S, np.inf); np.minimum.at(b, T.ravel(), (a[:, None] + M[t][Y]).ravel()); a = b
    xh, fm = m.viterbi(np.arange(L), f, init)
    tol = 1e-12 * (np.abs(M).sum() + np.abs(init[np.isfinite(init)]).sum())
    assert (np.isinf(fm) == np.isinf(a)).all()
    fin = np.isfinite(a)
    assert np.all(np.abs(fm[fin] - a[fin]) <= tol)
    reach = {s1: i for s1, i in enumerate(init) if np.isfinite(i)}
    for s1 in np.flatnonzero(fin)[:6]:
        # cost of the returned input sequence over every admissible start state that ends in s1
        cost = np.inf
        for st0, w in reach.items():
            q = st0
            for t in range(L): w += M[t, Y[q, xh[t, s1]]]; q = T[q, xh[t, s1]]
            if q == s1: cost = min(cost, w)
        assert abs(cost - a[s1]) <= tol, (s1, cost, a[s1])
    ip = rng.dirichlet(np.ones(X), size=L); a0 = rng.dirichlet(np.ones(S)); bL = rng.dirichlet(np.ones(S))
    la = np.empty((L + 1, S)); lb = np.empty((L + 1, S)); la[0] = np.log(a0); lb[L] = np.log(bL)
    G = [M[t][Y] + np.log(ip[t]) for t in range(L)]
    for t in range(L):
        v = la[t][:, None] + G[t]; top = v.max()
        with np.errstate(divide="ignore"):
            b = np.full(S, -np.inf); np.logaddexp.at(b, T.ravel(), v.ravel()); la[t + 1] = b
    for t in range(L - 1, -1, -1): lb[t] = np.logaddexp.reduce(G[t] + lb[t + 1][T], axis=1)
    want = np.array([np.logaddexp.reduce(la[t][:, None] + G[t] + lb[t + 1][T], axis=0) for t in range(L)])
    want = np.exp(want - want.max(axis=1, keepdims=True)); want /= want.sum(axis=1, keepdims=True)
    got = m.forward_backward(np.arange(L), f, ip, a0, bL)
    close(got, want, rtol=1e-5, atol=1e-7)
    return c["shape"]


@st.composite
def long_case(draw):
    return dict(S=draw(st.integers(1, 8)), X=draw(st.integers(1, 3)), L=draw(st.sampled_from([600, 1100, 2100, 4200, 5000])),
                kind=draw(st.sampled_from(["gauss", "ints", "large", "offset", "fine"])), seed=draw(st.integers(0, 10 ** 6)))

@check("F01", long_case(), quick=14, thorough=200, weight=3)
def long_sequences_against_dynamic_programming(c):
    """Thousands of steps: final metrics and posteriors keep double precision, and the returned paths are optimal."""
    S, X, L = c["S"], c["X"], c["L"]
    L = min(L, 24000 // (S * X))
    rng = np.random.default_rng(c["seed"]); nY = int(rng.integers(2, 5))
    T = rng.integers(0, S, (S, X)); T[:, 0] = (np.arange(S) + 1) % S
    Y = rng.integers(0, nY, (S, X)); Y[0, 0] = nY - 1
    m = komm.MealyMachine(T, Y)
    M = {"gauss": rng.normal(size=(L, nY)), "ints": rng.integers(0, 3, (L, nY)) * 1.0, "large": 1e4 * rng.normal(size=(L, nY)), "offset": rng.normal(size=(L, nY)) + 60.0, "fine": 1 + 1e-6 * rng.normal(size=(L, nY))}[c["kind"]]
    f = lambda y, z: float(M[z, y])
    init = rng.normal(size=S); init[rng.integers(0, S)] = 0.0
    a = init.copy()
    for t in range(L):
        b = np.full(S, np.inf); np.minimum.at(b, T.ravel(), (a[:, None] + M[t][Y]).ravel()); a = b
    xh, fm = m.viterbi(np.arange(L), f, init)
    tol = 1e-13 * (np.abs(M).max(axis=1).sum() + np.abs(init).sum()) + 1e-13 * np.sqrt(L)
    fin = np.isfinite(a)
    assert (np.isinf(fm) == ~fin).all() and (np.abs(fm[fin] - a[fin]) <= tol).all(), f"final metrics {fm}, optimum {a}"
    for s1 in np.flatnonzero(fin):
        cost = np.inf
        for q in range(S):
            s, w = q, init[q]
            for t in range(L): w += M[t, Y[s, xh[t, s1]]]; s = T[s, xh[t, s1]]
            if s == s1: cost = min(cost, w)
        assert abs(cost - a[s1]) <= tol, f"the sequence for state {s1} has metric {cost}, optimum {a[s1]}"
    ip = rng.dirichlet(np.ones(X), size=L); la = np.empty((L + 1, S)); lb = np.zeros((L + 1, S)); la[0] = -np.log(S); lb[L] = -np.log(S)
    G = [M[t][Y] + np.log(ip[t]) for t in range(L)]
    for t in range(L):
        b = np.full(S, -np.inf); v = la[t][:, None] + G[t]
        with np.errstate(all="ignore"): np.logaddexp.at(b, T.ravel(), v.ravel())
        la[t + 1] = b
    for t in range(L - 1, -1, -1): lb[t] = np.logaddexp.reduce(G[t] + lb[t + 1][T], axis=1)
    want = np.array([np.logaddexp.reduce(la[t][:, None] + G[t] + lb[t + 1][T], axis=0) for t in range(L)])
    want = np.exp(want - want.max(axis=1, keepdims=True)); want /= want.sum(axis=1, keepdims=True)
    close(m.forward_backward(np.arange(L), f, ip), want, rtol=1e-4 if c["kind"] == "large" else 1e-6, atol=1e-7)
    return c["kind"]


@st.composite
def alphabet_case(draw):
    return dict(S=draw(st.sampled_from([1, 2, 3, 130, 260, 300])), X=draw(st.sampled_from([2, 3, 130, 260, 300])), nY=draw(st.sampled_from([2, 7, 200, 300, 70000])), L=draw(st.integers(1, 6)), seed=draw(st.integers(0, 10 ** 6)))

@check("F01", alphabet_case(), quick=25, thorough=300, weight=3)
def many_states_inputs_or_outputs(c):
    """Hundreds of states, inputs or output symbols (beyond every narrow integer format)."""
    S, X, nY, L = c["S"], c["X"], c["nY"], c["L"]
    while S * X * L > 30000:
        if L > 1: L -= 1
        elif S > X: S //= 2
        else: X //= 2
    rng = np.random.default_rng(c["seed"])
    T = rng.integers(0, S, (S, X)); Y = rng.integers(0, nY, (S, X)); Y[-1, -1] = nY - 1
    m = komm.MealyMachine(T, Y)
    assert (m.num_states, m.num_input_symbols, m.num_output_symbols) == (S, X, nY)
    xs = rng.integers(0, X, L); s0 = int(rng.integers(0, S)); s, ys = s0, []
    for x in xs: ys.append(int(Y[s, x])); s = int(T[s, x])
    o, f = m.process(xs, s0); equal(o, ys); assert f == s
    M = rng.random((L, nY)); M[np.arange(L), ys] = -1.0          # the driven path is the unique best sequence of outputs
    f = lambda y, z: float(M[z, y])
    init = np.full(S, np.inf); init[s0] = 0.0
    a = init.copy()
    for t in range(L):
        b = np.full(S, np.inf); np.minimum.at(b, T.ravel(), (a[:, None] + M[t][Y]).ravel()); a = b
    xh, fm = m.viterbi(np.arange(L), f, init)
    fin = np.isfinite(a); assert (np.isfinite(fm) == fin).all(); close(np.asarray(fm)[fin], a[fin], 1e-12, 1e-12)
    for s1 in rng.permutation(np.flatnonzero(fin))[:20].tolist() + [s]:
        q, w = s0, 0.0
        for t in range(L): w += M[t, Y[q, xh[t, s1]]]; q = T[q, xh[t, s1]]
        assert q == s1 and abs(w - a[s1]) <= 1e-12, f"the sequence for state {s1} ends in {q} with metric {w}, optimum {a[s1]}"
    mem = dict(paths=np.zeros((S, 2), dtype=int), metrics=np.full((S, 2), np.inf)); mem["metrics"][s0, -1] = 0.0
    got = m.viterbi_streaming(np.arange(L), f, mem)
    # one step of delay: the decision at t is the input at t - 1 on a best path of length t + 1
    al = np.full((L + 1, S), np.inf); al[0, s0] = 0
    for t in range(L): np.minimum.at(al[t + 1], T.ravel(), (al[t][:, None] + M[t][Y]).ravel())
    for t in range(1, L):
        be = M[t][Y].min(axis=1); i = int(got[t]); assert 0 <= i < X
        assert (al[t - 1] + M[t - 1][Y[:, i]] + be[T[:, i]]).min() <= al[t + 1].min() + 1e-12, f"step {t}: input {i} is on no best path"
    post = np.asarray(m.forward_backward(np.arange(L), lambda y, z: -float(M[z, y]), initial_state_distribution=np.eye(S)[s0]))
    G = [-M[t][Y] for t in range(L)]
    la = np.full((L + 1, S), -np.inf); la[0, s0] = 0; lb = np.zeros((L + 1, S))
    with np.errstate(all="ignore"):
        for t in range(L): np.logaddexp.at(la[t + 1], T.ravel(), (la[t][:, None] + G[t]).ravel())
        for t in range(L - 1, -1, -1): lb[t] = np.logaddexp.reduce(G[t] + lb[t + 1][T], axis=1)
        want = np.array([np.logaddexp.reduce(la[t][:, None] + G[t] + lb[t + 1][T], axis=0) for t in range(L)])
    want = np.exp(want - want.max(axis=1, keepdims=True)); want /= want.sum(axis=1, keepdims=True)
    close(post, want, 1e-8, 1e-12)
    return f"{S} states, {X} inputs"
