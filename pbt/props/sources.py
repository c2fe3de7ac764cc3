"""R01-R02: Markov chains and memoryless sources."""
import math
from fractions import Fraction
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from ..gen import equal, close, raises, is_int_array, pmf, floats, layout, rigged
from .channels import within, rounded, ROUND

rule("R01", "Non-trivial: at least two states (label: structure of the chain).",
     ["up to 12 states (18 in the thorough tier); rows are integer weights over their sum, so positivity is unambiguous",
      "the period of a state to which the chain never returns is not compared", "a chain is absorbing when every state can reach an absorbing one"])
rule("R02", "Non-trivial: at least one random symbol drawn from at least two possible ones (label: kind).", ["frequency checks allow 7 standard deviations"])

@st.composite
def weights(draw, nmax=12):
    """Integer weight matrix with a structured support."""
    kind = draw(st.sampled_from(["sparse", "sparse", "dense", "cyclic", "absorbing", "absorbing", "classes", "perm", "identity", "wielandt", "one"]))
    n = 1 if kind == "one" else draw(st.integers(2, nmax))
    w = lambda: draw(st.integers(1, 9)) if not draw(st.booleans()) else draw(st.sampled_from([1, 1, 100, 10 ** 4]))
    W = [[0] * n for _ in range(n)]
    if kind == "dense":
        W = [[draw(st.integers(0, 3)) for _ in range(n)] for _ in range(n)]
    elif kind == "cyclic":
        d = draw(st.integers(1, n)); blk = [i % d for i in range(n)]
        for i in range(n):
            nxt = [j for j in range(n) if blk[j] == (blk[i] + 1) % d]
            for j in draw(st.lists(st.sampled_from(nxt), min_size=1, max_size=len(nxt), unique=True)): W[i][j] = w()
    elif kind == "wielandt":
        for i in range(n): W[i][(i + 1) % n] = 1
        W[n - 1][1 % n] = 1
    elif kind == "perm":
        for i, j in enumerate(draw(st.permutations(range(n)))): W[i][j] = 1
    elif kind in ("identity", "one"):
        for i in range(n): W[i][i] = 1
    else:
        absb = set(draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=max(1, n // 2)))) if kind == "absorbing" else set()
        rank = draw(st.permutations(range(n)))
        for i in range(n):
            if i in absb: W[i][i] = 1; continue
            pool = [j for j in range(n) if kind != "classes" or rank[j] // 3 >= rank[i] // 3]
            for j in draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3)): W[i][j] = w()
            if kind == "absorbing" and draw(st.booleans()): W[i][draw(st.sampled_from(sorted(absb)))] = w()
    for i in range(n):
        if sum(W[i]) == 0: W[i][i] = 1
    if kind not in ("one", "identity") and draw(st.booleans()):
        p = draw(st.permutations(range(n)))
        W = [[W[p[i]][p[j]] for j in range(n)] for i in range(n)]
    return dict(kind=kind, W=W)

def exact(W): return [[Fraction(x, sum(r)) for x in r] for r in W]
def matrix(W): return [[float(x) for x in r] for r in exact(W)]

def reach(W):
    n = len(W); R = []
    for i in range(n):
        seen, todo = {i}, [i]
        while todo:
            u = todo.pop()
            for v in range(n):
                if W[u][v] and v not in seen: seen.add(v); todo.append(v)
        R.append(seen)
    return R

def solve(A, B):
    """Gauss-Jordan over the rationals: X with A X = B (A square and regular)."""
    n = len(A); M = [list(a) + list(b) for a, b in zip(A, B)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        inv = 1 / M[c][c]; M[c] = [x * inv for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]; M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]

def model(W):
    """Everything MarkovChain documents, from the support and the exact probabilities."""
    n, R, P = len(W), reach(W), exact(W)
    m = dict(R=R, n=n)
    m["classes"] = sorted({frozenset(j for j in range(n) if j in R[i] and i in R[j]) for i in range(n)}, key=min)
    m["transient"] = {i for i in range(n) if any(i not in R[j] for j in R[i])}
    m["absorbing"] = {i for i in range(n) if P[i][i] == 1}
    m["irreducible"] = len(m["classes"]) == 1
    m["is_absorbing"] = bool(m["absorbing"]) and all(R[i] & m["absorbing"] for i in range(n))
    per = []
    for i in range(n):
        g, cur = 0, {i}
        for k in range(1, 2 * n * n + 2):
            cur = {v for u in cur for v in range(n) if W[u][v]}
            if i in cur:
                g = math.gcd(g, k)
                if g == 1: break
        per.append(g)
    m["period"] = per
    m["aperiodic"] = all(p == 1 for p in per)
    m["regular"] = m["irreducible"] and m["aperiodic"]
    if m["regular"]:
        S = [frozenset([i]) for i in range(n)]; k = 0
        while not all(len(s) == n for s in S) or k == 0:
            S = [frozenset(v for u in s for v in range(n) if W[u][v]) for s in S]; k += 1
        m["index"] = k
    if m["irreducible"]:
        A = [[P[i][j] - (i == j) for i in range(n)] for j in range(n)]
        A[-1] = [Fraction(1)] * n
        m["pi"] = [float(x[0]) for x in solve(A, [[Fraction(int(j == n - 1))] for j in range(n)])]
    if m["is_absorbing"]:
        T, A = sorted(m["transient"]), sorted(m["absorbing"])
        I = lambda a, b: Fraction(int(a == b))
        N = solve([[I(i, j) - P[i][j] for j in T] for i in T], [[I(i, j) for j in T] for i in T]) if T else []
        m["N"] = np.array([[float(x) for x in r] for r in N]).reshape(len(T), len(T))
        m["t"] = np.array([float(sum(r)) for r in N])
        m["B"] = np.array([[float(sum(r[k] * P[T[k]][j] for k in range(len(T)))) for j in A] for r in N]).reshape(len(T), len(A))
    return m

def q_accessible(ch, m):
    for i in range(m["n"]): assert ch.accessible_states_from(i) == m["R"][i], f"accessible from {i}"
def q_classes(ch, m):
    got = ch.communicating_classes()
    assert sorted(map(sorted, got)) == sorted(map(sorted, m["classes"])), f"classes {got}"
def q_irreducible(ch, m): assert ch.is_irreducible() is m["irreducible"]
def q_stationary(ch, m):
    if not m["irreducible"]: return raises(NotImplementedError, ch.stationary_distribution)
    close(ch.stationary_distribution(), m["pi"], 1e-6, 1e-9)
def q_transient(ch, m):
    assert ch.transient_states() == m["transient"]
    assert ch.recurrent_states() == set(range(m["n"])) - m["transient"]
def q_absorbing(ch, m):
    assert ch.absorbing_states() == m["absorbing"]
    assert ch.is_absorbing() is m["is_absorbing"]
def q_regular(ch, m): assert ch.is_regular() is m["regular"]
def q_index(ch, m):
    if not m["regular"]: return raises(ValueError, ch.index_of_primitivity)
    assert ch.index_of_primitivity() == m["index"], f"{ch.index_of_primitivity()} != {m['index']}"
def q_visits(ch, m):
    if not m["is_absorbing"]: return raises(ValueError, ch.mean_number_of_visits)
    close(ch.mean_number_of_visits(), m["N"], 1e-5, 1e-9)
def q_time(ch, m):
    if not m["is_absorbing"]: return raises(ValueError, ch.mean_time_to_absorption)
    close(ch.mean_time_to_absorption(), m["t"], 1e-5, 1e-9)
def q_probs(ch, m):
    if not m["is_absorbing"]: return raises(ValueError, ch.absorption_probabilities)
    close(ch.absorption_probabilities(), m["B"], 1e-5, 1e-7)
def q_period(ch, m):
    for i in range(m["n"]):
        if m["period"][i]: assert ch.period(i) == m["period"][i], f"period of {i}: {ch.period(i)} != {m['period'][i]}"
def q_aperiodic(ch, m):
    if all(m["period"]): assert ch.is_aperiodic() is m["aperiodic"]
def q_matrix(ch, m):
    assert ch.num_states == m["n"]
def q_simulate(ch, m): ch.simulate(0, 3)
def q_spoil(ch, m):
    """The caller is free to edit the sets and lists it was given."""
    ch.accessible_states_from(0).clear(); ch.transient_states().add(99); ch.recurrent_states().clear(); ch.absorbing_states().add(77)
    cl = ch.communicating_classes(); cl[0].clear(); cl.clear()

QUERIES = [q_accessible, q_classes, q_irreducible, q_stationary, q_transient, q_absorbing, q_regular, q_index, q_visits, q_time, q_probs,
           q_period, q_aperiodic, q_matrix, q_simulate, q_spoil]

@st.composite
def chain_case(draw, nmax=12):
    c = draw(weights(nmax))
    return dict(c=c, order=draw(st.permutations(range(len(QUERIES)))), form=draw(st.sampled_from(["list", "array"])))

def run_chain(c):
    W = c["c"]["W"]; m = model(W); P = matrix(W)
    ch = komm.MarkovChain(P if c["form"] == "list" else np.array(P))
    other = komm.MarkovChain([[0.5, 0.5], [1.0, 0.0]])
    close(ch.transition_matrix, P, 0, 0)
    for k in c["order"]:
        QUERIES[k](ch, m)
        assert other.is_irreducible() and other.period(0) == 1
    for q in QUERIES: q(ch, m)                     # and again, now that everything is cached
    close(ch.transition_matrix, P, 0, 0)
    return m["n"] > 1 and ("absorbing" if m["is_absorbing"] else "regular" if m["regular"] else "irreducible" if m["irreducible"] else "reducible")

@check("R01", chain_case(), quick=3000, thorough=20000, weight=4)
def chain_analysis(c): return run_chain(c)

@check("R01", chain_case(18), quick=300, thorough=5000, weight=2)
def larger_chains(c): return run_chain(c)

@st.composite
def rare_case(draw):
    """Chains with a few extremely unlikely transitions (down to 1e-300), which still count as transitions."""
    c = draw(weights(8)); W = c["W"]; n = len(W)
    tiny = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from([6, 9, 12, 13, 15, 16, 18, 30, 100, 200, 300])), min_size=1, max_size=n))
    return dict(W=W, tiny=[list(t) for t in tiny], order=draw(st.permutations(range(len(QUERIES)))), form=draw(st.sampled_from(["list", "array"])))

@check("R01", rare_case(), quick=1200, thorough=15000, weight=4)
def rare_transitions(c):
    W = [[Fraction(x) for x in r] for r in c["W"]]; n = len(W); base = [[x > 0 for x in r] for r in W]
    used, total = False, 0
    for i, j, e in c["tiny"]:
        if total + e > 305: continue                            # products of the rare probabilities must be floats, too
        rest = [k for k in range(n) if base[i][k] and k != j]
        if not rest: continue                                   # the row keeps an ordinary transition
        if rest == [i]: e = min(e, 15)                          # a self-transition of probability one is absorbing, so keep it visibly below one
        W[i][j] = Fraction(1, 10 ** e) * sum(W[i]); base[i][j] = False; used = True; total += e
    if not used: return False
    m = model(W); P = matrix(W)
    if any((P[i][i] == 1) != (i in m["absorbing"]) for i in range(n)): return False
    assert all((x > 0) == (y > 0) for r, q in zip(P, W) for x, y in zip(r, q))
    ch = komm.MarkovChain(P if c["form"] == "list" else np.array(P))
    slow = m["is_absorbing"] and m["N"].size and m["N"].max() > 1e8
    for k in list(c["order"]) + list(range(len(QUERIES))):
        q = QUERIES[k]
        if slow and q in (q_visits, q_time, q_probs): continue   # the linear system itself is ill-conditioned
        q(ch, m)
    return "absorbing" if m["is_absorbing"] else "regular" if m["regular"] else "irreducible" if m["irreducible"] else "reducible"

@st.composite
def bigchain_case(draw):
    return dict(k=draw(st.sampled_from(["ring", "ring", "wielandt", "birth", "gcd", "classes", "absorbing", "absorbing", "ladder", "dense", "sparse"])),
                n=draw(st.integers(13, 70)), d=draw(st.integers(2, 9)), r=draw(st.sampled_from([0.5, 0.1, 0.01, 1e-3])), seed=draw(st.integers(0, 2 ** 32)),
                form=draw(st.sampled_from(["array", "list", "fortran", "readonly"])), start=draw(st.integers(0, 12)))

def big_matrix(c):
    rng = np.random.default_rng(c["seed"]); k, n, d = c["k"], c["n"], c["d"]
    W = np.zeros((n, n)); w = lambda: 10.0 ** rng.uniform(-3, 0)
    if k in ("ring", "wielandt", "gcd"):
        for i in range(n): W[i, (i + 1) % n] = w()
        if k == "wielandt": W[n - 1, 1] = w()
        elif k == "gcd":                                   # two cycles whose lengths have a chosen common divisor
            n = n // d * d; W = W[:n, :n]; W[n - 1] = 0; W[n - 1, 0] = w(); m = d * int(rng.integers(1, n // d + 1)); W[m - 1, 0] += w()
        elif rng.random() < 0.6: W[rng.integers(0, n), rng.integers(0, n)] += w()
    elif k == "birth":
        for i in range(n):
            if i + 1 < n: W[i, i + 1] = c["r"]
            if i: W[i, i - 1] = 0.5
            W[i, i] = 1 - W[i].sum() if rng.random() < 2 else 0
    elif k == "ladder":
        for i in range(n): W[i, i] = w(); W[i, max(i - 1, 0)] += w(); W[i, 0] += 1e-9 * (i == n - 1)
        W[0] = 0; W[0, 0] = 1
    elif k == "dense": W = rng.dirichlet(np.ones(n), n)
    else:
        W = (rng.random((n, n)) < (1.5 / n if k != "sparse" else 2.5 / n)) * 10.0 ** rng.uniform(-2, 0, (n, n))
        if k == "absorbing":
            for a in rng.choice(n, d, replace=False): W[a] = 0; W[a, a] = 1; W[rng.integers(0, n, 4), a] += 0.3
            for a in range(n):
                if W[a, a] == 1 and W[a].sum() == 1: continue
        if k == "classes": W *= (np.arange(n)[:, None] // 8 <= np.arange(n) // 8)
        for i in range(n):
            if W[i].sum() == 0: W[i, i] = 1
    perm = rng.permutation(len(W)) if rng.random() < 0.6 else np.arange(len(W))
    W = W[np.ix_(perm, perm)]
    P = W / W.sum(axis=1, keepdims=True)
    return P

def gth(P):
    """Stationary distribution by elimination without subtractions (accurate entry by entry)."""
    A = P.astype(float).copy(); n = len(A)
    for k in range(n - 1, 0, -1):
        A[:k, k] /= A[k, :k].sum(); A[:k, :k] += np.outer(A[:k, k], A[k, :k])
    x = np.ones(n)
    for k in range(1, n): x[k] = x[:k] @ A[:k, k]
    return x / x.sum()

@st.composite
def wide_case(draw):
    """Weights spread over many orders of magnitude: absorption (or mixing) takes astronomically long."""
    n = draw(st.integers(2, 7)); kind = draw(st.sampled_from(["absorbing", "absorbing", "ladder", "ladder", "irreducible"]))
    w = lambda: draw(st.integers(1, 9)) * 10 ** draw(st.integers(0, 13))
    W = [[0] * n for _ in range(n)]
    if kind == "ladder":
        n = draw(st.integers(4, 40)); W = [[0] * n for _ in range(n)]; up, down = draw(st.integers(1, 9)), draw(st.integers(1, 99)) * draw(st.sampled_from([1, 1, 100]))
        ends = draw(st.sampled_from([(0, n - 1), (n - 1,), (0,)]))
        for i in range(n):
            if i in ends: W[i][i] = 1; continue
            if i + 1 < n: W[i][i + 1] = up
            W[i][max(i - 1, 0)] += down
    else:
        absb = set(draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=max(1, n // 2)))) if kind == "absorbing" else set()
        for i in range(n):
            if i in absb: W[i][i] = 1; continue
            for j in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4)): W[i][j] += w()
            W[i][(i + 1) % n] += w()
    if draw(st.booleans()):
        q = draw(st.permutations(range(n))); W = [[W[q[i]][q[j]] for j in range(n)] for i in range(n)]
    return dict(kind=kind, W=W)

def exact_visits(W, T):
    """(I - Q)^-1 over the rationals (only the transient states)."""
    P = exact(W); t = len(T)
    return solve([[Fraction(int(i == j)) - P[i][j] for j in T] for i in T], [[Fraction(int(i == j)) for j in T] for i in T]) if t else []

@check("R01", wide_case(), quick=400, thorough=5000, weight=2)
def widely_spread_probabilities(c):
    W = c["W"]; n = len(W); P = exact(W); ch = komm.MarkovChain(matrix(W)); R = reach(W)
    absb = sorted(i for i in range(n) if P[i][i] == 1); T = sorted(i for i in range(n) if any(i not in R[j] for j in R[i]))
    assert ch.absorbing_states() == set(absb) and ch.transient_states() == set(T)
    if absb and set(T) | set(absb) == set(range(n)):
        N = exact_visits(W, T)
        if N and max(map(max, N)) > 10 ** 200: raise Skip()
        tt = [sum(r) for r in N]; B = [[sum(r[k] * P[T[k]][j] for k in range(len(T))) for j in absb] for r in N]
        f = lambda M, sh: np.array([[float(x) for x in r] for r in M]).reshape(sh)
        near = lambda got, want: close(got, want, 1e-9, 1e-300)
        near(ch.mean_number_of_visits(), f(N, (len(T), len(T)))); near(ch.mean_time_to_absorption(), np.array([float(x) for x in tt]))
        near(ch.absorption_probabilities(), f(B, (len(T), len(absb))))
        return bool(T) and c["kind"] + "-absorbing"
    if all(len(r) == n for r in R):
        A = [[P[i][j] - (i == j) for i in range(n)] for j in range(n)]; A[-1] = [Fraction(1)] * n
        pi = [x[0] for x in solve(A, [[Fraction(int(j == n - 1))] for j in range(n)])]
        close(ch.stationary_distribution(), np.array([float(x) for x in pi]), 1e-9, 1e-300)
        return c["kind"] + "-irreducible"
    return False

@check("R01", bigchain_case(), quick=250, thorough=4000, weight=12)
def big_chains(c):
    P = big_matrix(c); n = len(P); adj = P > 0
    ch = komm.MarkovChain(P.tolist() if c["form"] == "list" else P if c["form"] == "array" else layout(P, c["form"]))
    R = adj | np.eye(n, dtype=bool)
    for k in range(n): R |= R[:, k:k + 1] & R[k]
    S = [set(np.flatnonzero(R[i]).tolist()) for i in range(n)]
    for i in range(n): assert ch.accessible_states_from(i) == S[i]
    M = R & R.T
    classes = {frozenset(np.flatnonzero(M[i]).tolist()) for i in range(n)}
    got = ch.communicating_classes(); assert len(got) == len(classes) and {frozenset(x) for x in got} == classes
    trans = {i for i in range(n) if not R[np.flatnonzero(R[i]), i].all()}
    assert ch.transient_states() == trans and ch.recurrent_states() == set(range(n)) - trans
    absb = {i for i in range(n) if adj[i].sum() == 1 and adj[i, i]}
    if all(P[i, i] == 1 or i not in absb for i in range(n)) and not any(P[i, i] == 1 for i in range(n) if i not in absb):
        assert ch.absorbing_states() == absb
    irr = len(classes) == 1
    assert ch.is_irreducible() is irr
    # periods: breadth-first levels inside each class
    per = [0] * n
    for cl in classes:
        root = min(cl); lev = {root: 0}; todo = [root]; g = 0
        while todo:
            nxt = []
            for u in todo:
                for v in np.flatnonzero(adj[u]).tolist():
                    if v not in cl: continue
                    if v in lev: g = math.gcd(g, lev[u] + 1 - lev[v])
                    else: lev[v] = lev[u] + 1; nxt.append(v)
            todo = nxt
        for i in cl: per[i] = g
    order = [(c["start"] + 7 * i) % n for i in range(n)] if math.gcd(7, n) == 1 else list(range(n))
    for i in order:
        if per[i]: assert ch.period(i) == per[i], f"period of {i}: {ch.period(i)} != {per[i]}"
    if all(per): assert ch.is_aperiodic() is (set(per) == {1})
    reg = irr and set(per) == {1}
    assert ch.is_regular() is reg
    if reg:
        rows = [sum(1 << j for j in np.flatnonzero(adj[i]).tolist()) for i in range(n)]; cur, k, full = rows[:], 1, (1 << n) - 1
        def step(x):
            y = 0
            while x: b = x & -x; y |= rows[b.bit_length() - 1]; x ^= b
            return y
        while any(x != full for x in cur): cur = [step(x) for x in cur]; k += 1
        assert ch.index_of_primitivity() == k, f"index {ch.index_of_primitivity()} != {k}"
    else: raises(ValueError, ch.index_of_primitivity)
    if irr:
        pi = np.asarray(ch.stationary_distribution())
        assert pi.shape == (n,) and (pi >= 0).all(), f"stationary distribution has negative entries: {pi.min()}"
        close(pi, gth(P), 1e-6, 1e-12); close(pi @ P, pi, 1e-7, 1e-13)
        komm.DiscreteMemorylessSource(pi)
        lab = "regular" if reg else "periodic"
    else: lab = "reducible"
    is_abs = bool(absb) and all(S[i] & absb for i in range(n))
    if ch.absorbing_states() == absb:
        assert ch.is_absorbing() is is_abs
        if is_abs:
            T, A = sorted(trans), sorted(absb); Q = P[np.ix_(T, T)]
            N = np.asarray(ch.mean_number_of_visits()); B = np.asarray(ch.absorption_probabilities()); t = np.asarray(ch.mean_time_to_absorption())
            assert N.shape == Q.shape and B.shape == (len(T), len(A)) and t.shape == (len(T),)
            sc = max(1.0, np.abs(N).max(initial=0)); eps = 1e-10 * sc
            assert (N >= 0).all() and (B >= 0).all() and (t > 1 - 1e-9).all(), "negative mean visits, times or probabilities"
            close(B.sum(axis=1), np.ones(len(T)), 0, 1e-9)
            if sc < 1e6:
                close(N, np.eye(len(T)) + Q @ N, 1e-8, eps); close(t, 1 + Q @ t, 1e-8, eps * max(1, len(T)))
                close(B, Q @ B + P[np.ix_(T, A)], 1e-7, 1e-9 * sc)
            lab = "absorbing"
        else: raises(ValueError, ch.mean_number_of_visits); raises(ValueError, ch.absorption_probabilities)
    return c["k"] + "-" + lab

def small_supports(tier):
    import itertools
    for n in (1, 2, 3):
        for rows in itertools.product(range(1, 2 ** n), repeat=n):
            yield dict(c=dict(kind="all", W=[[(r >> j) & 1 for j in range(n)] for r in rows]), order=[], form="list")
    if tier != "quick":
        for rows in itertools.product(range(1, 16), repeat=4):
            yield dict(c=dict(kind="all", W=[[(r >> j) & 1 for j in range(4)] for r in rows]), order=[], form="list")

@check("R01", cases=small_supports, weight=2)
def all_small_supports(c): return run_chain(c)

@st.composite
def bad_chain(draw):
    return dict(W=draw(weights(5))["W"], how=draw(st.sampled_from(["sum", "neg", "rect", "ndim", "ndim3"])))

@check("R01", bad_chain(), quick=500, thorough=3000)
def invalid_chains_rejected(c):
    P = matrix(c["W"]); n = len(P)
    if c["how"] == "sum": P[-1][0] += 0.01
    elif c["how"] == "neg": P[0][0] -= 2; P[0][-1] += 2; P = P if n > 1 else [[-1.0]]
    elif c["how"] == "rect": P = [r + [0.0] for r in P]
    elif c["how"] == "ndim": P = P[0]
    else: P = [P, P]
    raises(ValueError, komm.MarkovChain, P)
    return c["how"]

# ---- sampling --------------------------------------------------------------------------------
@st.composite
def sim_case(draw):
    c = draw(weights(8))
    return dict(c=c, init=draw(st.integers(0, len(c["W"]) - 1)), steps=draw(st.one_of(st.integers(0, 4), st.integers(5, 60))), seed=draw(st.integers(0, 2 ** 32)))

@check("R02", sim_case(), quick=2500, thorough=25000, weight=2)
def simulated_paths(c):
    W = c["c"]["W"]; P = np.array(matrix(W)); m_abs = None; i0 = c["init"]
    g = lambda: np.random.default_rng(c["seed"])
    ch = komm.MarkovChain(P, rng=g())
    x = np.asarray(ch.simulate(i0, c["steps"])); is_int_array(x)
    assert x.shape == (c["steps"],)
    if c["steps"]: assert x[0] == i0
    assert all(W[a][b] for a, b in zip(x[:-1], x[1:])), f"impossible transition in {x.tolist()}"
    equal(komm.MarkovChain(P, rng=g()).simulate(initial_state=i0, steps=c["steps"]), x)
    komm.global_rng.set(g()); ch2 = komm.MarkovChain(P); komm.global_rng.set(np.random.default_rng(c["seed"] + 1))
    equal(ch2.simulate(i0, c["steps"]), x)
    R = reach(W); A = {i for i in range(len(W)) if sum(W[i]) == W[i][i]}
    if not A or not all(r & A for r in R):
        raises(ValueError, ch.simulate_until_absorption, i0)
        lab = "path"
    else:
        if max(max(r) / min(v for v in r if v) for r in W) > 1000: return "path"     # could take very long
        y = np.asarray(komm.MarkovChain(P, rng=g()).simulate_until_absorption(i0)); is_int_array(y)
        assert y.ndim == 1 and y[0] == i0 and int(y[-1]) in A and not any(int(v) in A for v in y[:-1]), f"path {y.tolist()}, absorbing {A}"
        assert all(W[a][b] for a, b in zip(y[:-1], y[1:]))
        equal(komm.MarkovChain(P, rng=g()).simulate_until_absorption(initial_state=i0), y)
        lab = "absorbed"
    return c["steps"] > 1 and lab

@st.composite
def rounded_case(draw):
    n = draw(st.integers(1, 6)); k = draw(st.sampled_from(["source", "chain", "absorb"]))
    return dict(k=k, P=[draw(pmf(n, n, zeros=True)) for _ in range(1 if k == "source" else n)], how=draw(ROUND), seed=draw(st.integers(0, 2 ** 32)),
                pad=draw(st.booleans()), draw=draw(st.sampled_from(["", "smallest", "largest"])), at=draw(st.integers(0, 8)))

@check("R02", rounded_case(), quick=1200, thorough=12000)
def probabilities_given_to_a_few_digits(c):
    """Probabilities that are accepted can be sampled from: they need to add up to one only up to rounding, and
    the smallest and the largest number a generator can draw lead to possible symbols as well."""
    P = np.array(c["P"]); n = P.shape[1]
    if c["pad"]:                                 # impossible first and last symbols
        P = np.hstack([np.zeros((len(P), 1)), P, np.zeros((len(P), 1))]); n += 2
        if c["k"] != "source": P = np.vstack([P[0], P, P[-1]])
    if c["k"] == "absorb":                       # every state may step to a new absorbing one
        P = np.hstack([P * 0.75, np.full((n, 1), 0.25)]); P = np.vstack([P, np.eye(n + 1)[-1]]); n += 1
    Q = rounded(P, c["how"]); g = lambda: rigged(c["seed"], c["at"], c["draw"] == "largest") if c["draw"] else np.random.default_rng(c["seed"])
    if c["k"] == "absorb": Q[-1] = np.eye(n)[-1]
    off = bool((np.abs(Q.astype(float).sum(axis=1) - 1) > 1e-8).any())
    if c["k"] == "source":
        try: src = komm.DiscreteMemorylessSource(Q[0], rng=g())
        except ValueError: return None           # too far from one
        x = np.asarray(src.emit(40)); is_int_array(x)
        assert x.shape == (40,) and (Q[0][x] > 0).all()
        return (off or c["pad"]) and "source" + c["draw"]
    try: ch = komm.MarkovChain(Q, rng=g())
    except ValueError: return None
    if c["k"] == "chain":
        x = np.asarray(ch.simulate(0, 30)); assert x.shape == (30,)
    else:
        x = np.asarray(ch.simulate_until_absorption(0)); assert x[-1] == n - 1 and (x[:-1] != n - 1).all()
    is_int_array(x); assert x[0] == 0 and (Q[x[:-1], x[1:]] > 0).all(), f"impossible path {x.tolist()}"
    return (off or c["pad"]) and c["k"] + c["draw"]

@st.composite
def simstat_case(draw):
    n = draw(st.integers(2, 4))
    return dict(P=[draw(pmf(n, n, zeros=False)) for _ in range(n)], init=draw(st.integers(0, n - 1)), seed=draw(st.integers(0, 2 ** 32)))

@check("R02", simstat_case(), quick=100, thorough=1500, weight=3)
def path_frequencies(c):
    P = np.array(c["P"]); n = len(P)
    ch = komm.MarkovChain(P, rng=np.random.default_rng(c["seed"]))
    x = np.asarray(ch.simulate(c["init"], 4000)); y = np.asarray(ch.simulate(c["init"], 4000))
    for z in (x, y):
        for i in range(n):
            at = int((z[:-1] == i).sum())
            for j in range(n): within(int(((z[:-1] == i) & (z[1:] == j)).sum()), at, min(P[i, j], 1.0), f"transition {i}->{j}")
        # second-order: the step does not depend on the state before
        for i in range(n):
            for a in range(n):
                sel = (z[1:-1] == i) & (z[:-2] == a); at = int(sel.sum())
                for j in range(n): within(int((sel & (z[2:] == j)).sum()), at, min(P[i, j], 1.0), f"{a}->{i}->{j}")
    if max(p.max() for p in P) < 0.99: assert not np.array_equal(x, y), "two simulations of one generator repeat"
    return "markov"

@st.composite
def bulk_case(draw):
    return dict(n=draw(st.integers(5, 400)), k=draw(st.sampled_from(["chain", "chain", "source"])), steps=draw(st.sampled_from([3000, 9000])), sharp=draw(st.sampled_from([0.02, 0.3, 5.0])),
                shape=draw(st.sampled_from([[30000], [3, 10000], [10, 30, 100], [200000]])), seed=draw(st.integers(0, 2 ** 32)))

@check("R02", bulk_case(), quick=60, thorough=800, weight=8)
def long_runs_and_large_alphabets(c):
    rng = np.random.default_rng(c["seed"]); n = c["n"]
    if c["k"] == "source":
        p = rng.gamma(c["sharp"], size=n) + 1e-12; p[rng.random(n) < 0.2] = 0; p[0] += 1e-3; p /= p.sum()
        X = np.asarray(komm.DiscreteMemorylessSource(p, rng=np.random.default_rng(c["seed"])).emit(tuple(c["shape"])))
        assert X.shape == tuple(c["shape"]); x = X.ravel(); is_int_array(x)
        assert (x >= 0).all() and (x < n).all() and (p[x] > 0).all()
        f = rng.standard_normal(n); f -= p @ f; v = p @ (f * f); N = x.size
        for seg in (slice(None), slice(0, N // 2), slice(N // 2, None), slice(0, None, 3)):
            for i, q in enumerate(p): within(int((x[seg] == i).sum()), x[seg].size, min(q, 1.0), f"symbol {i}")
        mx = np.abs(f).max() ** 2
        for lag in sorted({1, 2, 4096, 2 ** 16, *(int(np.prod(X.shape[i:])) for i in range(X.ndim))}):
            if lag < N: assert abs((f[x[lag:]] * f[x[:-lag]]).sum()) <= 7 * v * math.sqrt(N - lag) + 15 * mx, f"symbols {lag} apart are correlated"
        return "source"
    P = rng.gamma(c["sharp"], size=(n, n)) + 1e-13; P[rng.random((n, n)) < 0.5] = 0; P[np.arange(n), rng.integers(0, n, n)] += 1e-2; P /= P.sum(axis=1, keepdims=True)
    ch = komm.MarkovChain(P, rng=np.random.default_rng(c["seed"]))
    i0 = int(rng.integers(0, n)); x = np.asarray(ch.simulate(np.int64(i0) if c["seed"] % 2 else i0, c["steps"]))
    assert x.shape == (c["steps"],) and x[0] == i0 and (P[x[:-1], x[1:]] > 0).all()
    f = (rng.random((n, n)) < 0.5) * 1.0; mu = (P * f).sum(axis=1); var = mu * (1 - mu)
    g = f[x[:-1], x[1:]] - mu[x[:-1]]
    for seg in (slice(None), slice(0, len(g) // 2), slice(len(g) // 2, None)):
        assert abs(g[seg].sum()) <= 7 * math.sqrt(var[x[:-1]][seg].sum()) + 8, "transitions do not follow the matrix"
    for j in range(n):
        e = P[x[:-1], j]; assert abs((x[1:] == j).sum() - e.sum()) <= 7 * math.sqrt((e * (1 - e)).sum()) + 8, f"visits to {j}"
    return "chain"

@st.composite
def rerun_case(draw):
    return dict(n=draw(st.integers(1, 60)), k=draw(st.sampled_from(["chain", "source", "source", "absorb"])), steps=draw(st.sampled_from([500, 2000, 6000, 12000, 30000])),
                shape=draw(st.sampled_from([[70000], [300, 200], [2, 40000], [20, 30, 100], [600, 100], [1, 60000], [60000, 1], [7, 11, 13, 17]])), glob=draw(st.booleans()), seed=draw(st.integers(0, 2 ** 32)))

@check("R02", rerun_case(), quick=90, thorough=1500, weight=8)
def long_runs_are_reproducible(c):
    """Equal generator states give equal long runs; every part of a long run follows the law by itself."""
    rng = np.random.default_rng(c["seed"]); n = c["n"]; P = rng.dirichlet(np.full(n, 0.7), n) + 1e-6; P /= P.sum(axis=1, keepdims=True)
    def make(new, seed):
        if not c["glob"]: return new(np.random.default_rng(seed))
        komm.global_rng.set(np.random.default_rng(seed)); o = new(None); komm.global_rng.set(np.random.default_rng(999)); return o
    if c["k"] == "absorb":
        Q = np.zeros((n + 1, n + 1)); Q[:n, :n] = P * (1 - 1 / c["steps"]); Q[:n, n] = 1 / c["steps"]; Q[n, n] = 1; Q /= Q.sum(axis=1, keepdims=True)
        new = lambda g: komm.MarkovChain(Q, rng=g); runs = [np.asarray(make(new, s).simulate_until_absorption(0)) for s in (1, 1, 2)]
        for x in runs: assert x[0] == 0 and x[-1] == n and (x[:-1] < n).all()
    elif c["k"] == "chain":
        new = lambda g: komm.MarkovChain(P, rng=g); runs = [np.asarray(make(new, s).simulate(0, c["steps"])) for s in (1, 1, 2)]
    else:
        new = lambda g: komm.DiscreteMemorylessSource(P[0], rng=g); runs = [np.asarray(make(new, s).emit(tuple(c["shape"]))) for s in (1, 1, 2)]
    equal(runs[0], runs[1])
    if n > 1 and c["k"] != "absorb": assert not np.array_equal(runs[0], runs[2]), "different seeds give the same run"
    x = runs[0]
    if n > 1 and c["k"] == "source":
        f = rng.standard_normal(n); f -= P[0] @ f; v = P[0] @ (f * f); mx = np.abs(f).max()
        g = f[x]
        for ax in range(g.ndim):                                # sums along every axis, and blocks of the flattened run
            sums = g.sum(axis=ax); assert (np.abs(sums) <= 8 * math.sqrt(v * g.shape[ax]) + 12 * mx).all(), f"symbols along axis {ax} do not follow the pmf"
        fl = g.ravel()
        for L in (50, 1000, 5000):
            b = fl[:fl.size // L * L].reshape(-1, L).sum(axis=1); assert (np.abs(b) <= 8 * math.sqrt(v * L) + 12 * mx).all(), f"a block of {L} symbols does not follow the pmf"
            assert (b * b).mean() <= v * L * (1 + 8 * math.sqrt(3 / len(b)) + 12 * mx * mx / (v * L)), "blocks vary too much"
            if len(b) >= 40: assert (b * b).mean() >= v * L * (1 - 8 * math.sqrt(2 / len(b))), "blocks vary too little"
    return n > 1 and c["k"]

@st.composite
def absstat_case(draw):
    n = draw(st.integers(1, 3)); k = draw(st.integers(1, 2))
    W = [[draw(st.integers(0, 3)) for _ in range(n)] + [draw(st.integers(0, 3)) for _ in range(k)] for _ in range(n)]
    for r in W: r[n] += 1
    for i in range(k): W.append([int(j == n + i) for j in range(n + k)])
    p = draw(st.permutations(range(n + k)))
    return dict(W=[[W[p[i]][p[j]] for j in range(n + k)] for i in range(n + k)], seed=draw(st.integers(0, 2 ** 32)))

@check("R02", absstat_case(), quick=60, thorough=600, weight=3)
def absorption_matches_analysis(c):
    W = c["W"]; m = model(W); T, A = sorted(m["transient"]), sorted(m["absorbing"])
    if not T: return False
    ch = komm.MarkovChain(matrix(W), rng=np.random.default_rng(c["seed"]))
    runs = 600
    for r, i in enumerate(T):
        ends, lens = [], []
        for _ in range(runs):
            y = ch.simulate_until_absorption(i); ends.append(int(y[-1])); lens.append(len(y) - 1)
        for s, a in enumerate(A): within(ends.count(a), runs, min(max(m["B"][r, s], 0.0), 1.0), f"absorption {i}->{a}")
        sd = max(1.0, float(np.std(lens)))
        assert abs(np.mean(lens) - m["t"][r]) <= 8 * sd / math.sqrt(runs) + 0.2, f"mean time from {i}: {np.mean(lens)} vs {m['t'][r]}"
    return "absorbing"

@st.composite
def dms_case(draw):
    p = draw(pmf(1, 8))if draw(st.booleans()) else draw(st.integers(1, 9))
    return dict(p=p, shape=draw(st.sampled_from([None, 0, 1, 7, [3], [2, 3], [1, 2, 2], [0], [2, 0]])), seed=draw(st.integers(0, 2 ** 32)))

@check("R02", dms_case(), quick=2000, thorough=20000)
def memoryless_emission(c):
    p = c["p"] if isinstance(c["p"], list) else [1 / c["p"]] * c["p"]; n = len(p)
    g = lambda: np.random.default_rng(c["seed"]); arg = c["p"]
    sh = tuple(c["shape"]) if isinstance(c["shape"], list) else c["shape"]
    s = komm.DiscreteMemorylessSource(arg, rng=g())
    close(s.pmf, p, 1e-12, 0); assert s.cardinality == n
    want = -sum(x * math.log(x) for x in p if x > 0)
    for base, l in ((2.0, math.log(2)), ("e", 1.0), (3.0, math.log(3))): close(s.entropy_rate(base), want / l, 1e-9, 1e-12)
    close(s.entropy_rate(), want / math.log(2), 1e-9, 1e-12)
    x = np.asarray(s.emit() if sh is None else s.emit(sh)); is_int_array(x)
    assert x.shape == ((1,) if sh is None else (sh,) if isinstance(sh, int) else sh), f"shape {x.shape} for {sh}"
    assert all(0 <= v < n and p[v] > 0 for v in x.ravel().tolist())
    equal(komm.DiscreteMemorylessSource(np.array(arg) if isinstance(arg, list) else arg, rng=g()).emit(shape=sh), x)
    komm.global_rng.set(g()); s2 = komm.DiscreteMemorylessSource(arg); komm.global_rng.set(np.random.default_rng(c["seed"] + 1))
    equal(s2.emit(sh), x)
    # a second call continues the stream
    if n > 1 and max(p) < 0.9: assert not np.array_equal(s.emit(60), s.emit(60))
    return x.size > 0 and max(p) < 1 and ("uniform" if isinstance(c["p"], int) else "pmf")

@st.composite
def dmsstat_case(draw): return dict(p=draw(pmf(2, 6)), seed=draw(st.integers(0, 2 ** 32)), shape=draw(st.sampled_from([[20000], [100, 200], [20, 10, 100]])))

@check("R02", dmsstat_case(), quick=200, thorough=3000)
def emission_frequencies(c):
    s = komm.DiscreteMemorylessSource(c["p"], rng=np.random.default_rng(c["seed"])); p = np.array(c["p"])
    a = np.asarray(s.emit(tuple(c["shape"]))); x = a.ravel(); N = x.size
    for i, q in enumerate(p): within(int((x == i).sum()), N, min(q, 1.0), f"symbol {i}")
    for i in range(p.size):
        for j in range(p.size): 
            q = p[i] * p[j]; cnt = int(((x[:-1] == i) & (x[1:] == j)).sum())
            assert abs(cnt - (N - 1) * q) <= 7 * math.sqrt(N * q * (1 - q) * 3) + 12, f"pair {(i, j)}: {cnt} vs {(N - 1) * q}"
    if a.ndim > 1 and p.max() < 0.9: assert not np.array_equal(a[0], a[1]), "rows repeat"
    return p.max() < 1 and "freq"

@st.composite
def baddms_case(draw):
    return dict(p=draw(st.sampled_from([0, -1, [0.5, 0.6], [1.5, -0.5], [[0.5, 0.5]], [0.4, 0.5], []])))

@check("R02", baddms_case(), quick=50, thorough=50)
def invalid_sources_rejected(c):
    raises(ValueError, komm.DiscreteMemorylessSource, c["p"]); return True
