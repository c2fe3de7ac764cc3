"""Block-code specifications (JSON) -> komm objects, with independent reference matrices."""
import itertools
import numpy as np
import komm
from hypothesis import strategies as st
from .gen import *

def row_bits(v, n): return [(v >> i) & 1 for i in range(n)]

@st.composite
def full_rank(draw, k, n):
    """Full-rank k x n binary matrix: [I P] with mixed rows and permuted columns."""
    P = [draw(st.integers(0, 2 ** (n - k) - 1)) for _ in range(k)]
    M = np.array([[int(i == j) for j in range(k)] + row_bits(P[i], n - k) for i in range(k)], dtype=int).reshape(k, n)
    if k > 1 and draw(st.booleans()):
        for _ in range(draw(st.integers(1, 2 * k))):
            i, j = draw(st.integers(0, k - 1)), draw(st.integers(0, k - 1))
            if i != j: M[i] = (M[i] + M[j]) % 2
    if draw(st.booleans()):
        perm = draw(st.permutations(range(n)))
        M = M[:, list(perm)]
    return M.tolist()

def divisors(n):
    """All divisors of X^n + 1 over GF(2), as ints."""
    f = (1 << n) | 1
    irr, g, d = [], f, 1
    while pdeg(g) >= 1:
        for v in range(2, 1 << (pdeg(g) + 1)):
            if v.bit_length() > 1 and pmod(g, v) == 0:
                irr.append(v); g = pdivmod(g, v)[0]; break
    out = {1}
    for p in irr: out |= {pmul(x, p) for x in out}
    return sorted(out)
_DIV = {n: divisors(n) for n in range(1, 19)}

def _bose(mu):
    n = 2 ** mu - 1
    out, seen = [], set()
    for i in range(1, n + 1):
        cos = frozenset((i * 2 ** j) % n for j in range(mu))
        if cos not in seen and i >= 2: out.append(i)
        seen.add(cos)
    return out
BOSE = {mu: _bose(mu) for mu in range(2, 8)}

@st.composite
def general_spec(draw, nmax=10, kmax=None, mmin=0):
    t = draw(st.sampled_from(["G", "H", "sys", "cyc", "G", "sys"]))
    if t == "cyc":
        n = draw(st.one_of(st.integers(2, nmax), st.sampled_from([x for x in (7, 14, 15) if x <= nmax] or [nmax])))   # lengths with non-self-reciprocal factors
        opts = [g for g in _DIV[n] if pdeg(g) <= n - 1 and pdeg(g) >= mmin and (kmax is None or n - pdeg(g) <= kmax)]
        if opts:
            g = draw(st.sampled_from(opts))
            by = draw(st.sampled_from(["g", "h"]))
            return dict(t=t, n=n, p=g if by == "g" else pdivmod((1 << n) | 1, g)[0], by=by, sys=draw(st.booleans()))
        t = "G"
    n = draw(st.integers(max(1, mmin + 1), nmax))
    k = draw(st.integers(1, min(n - mmin, kmax or n)))
    if t == "G": return dict(t=t, M=draw(full_rank(k, n)))
    if t == "H":
        if n - k == 0: return dict(t="G", M=draw(full_rank(k, n)))
        return dict(t=t, M=draw(full_rank(n - k, n)))
    P = [row_bits(draw(st.integers(0, 2 ** (n - k) - 1)), n - k) for _ in range(k)]
    kind = draw(st.sampled_from(["left", "right", "list", "list", "perm"]))
    if kind in ("left", "right"): K = kind
    else:
        K = list(draw(st.permutations(range(n))))[:k]
        if kind == "list": K = sorted(K)
    return dict(t=t, P=P, K=K)

FAMILIES = (
    [dict(t="rep", n=n) for n in range(1, 12)] + [dict(t="spc", n=n) for n in range(2, 12)]
    + [dict(t="ham", mu=m, ext=e) for m in (2, 3) for e in (False, True)]
    + [dict(t="sim", kappa=m, ext=e) for m in (2, 3) for e in (False, True)]
    + [dict(t="rm", rho=r, mu=m) for m in (1, 2, 3) for r in range(m)]
    + [dict(t="cw", n=n) for n in range(2, 11)]
    + [dict(t="lex", n=n, d=d) for n in range(1, 9) for d in range(1, n + 1)]
    + [dict(t="bch", mu=m, delta=d) for m in (2, 3) for d in BOSE[m]])
BIG = ([dict(t="ham", mu=4, ext=e) for e in (False, True)] + [dict(t="sim", kappa=4, ext=e) for e in (False, True)]
       + [dict(t="rm", rho=r, mu=4) for r in range(4)] + [dict(t="bch", mu=4, delta=d) for d in BOSE[4]]
       + [dict(t="golay", ext=e) for e in (False, True)] + [dict(t="cw", n=16), dict(t="rep", n=17), dict(t="spc", n=15)]
       + [dict(t="bch", mu=5, delta=d) for d in BOSE[5]] + [dict(t="ham", mu=5, ext=False), dict(t="rm", rho=2, mu=5)])

@st.composite
def polar_spec(draw, mumax=3):
    mu = draw(st.integers(1, mumax))
    n = 2 ** mu
    mask = draw(st.integers(0, 2 ** n - 2))
    return dict(t="polar", mu=mu, frozen=[i for i in range(n) if mask >> i & 1])

def any_spec(nmax=10, big=False):
    opts = [general_spec(nmax), general_spec(nmax), st.sampled_from(FAMILIES), polar_spec(3)]
    if big: opts.append(st.sampled_from(BIG))
    return st.one_of(*opts)

def build(s):
    t = s["t"]
    if t == "G": return komm.BlockCode(generator_matrix=s["M"])
    if t == "H": return komm.BlockCode(check_matrix=s["M"])
    if t == "sys":
        P = np.array(s["P"], dtype=int)
        return komm.SystematicBlockCode(parity_submatrix=P, information_set=s["K"])
    if t == "cyc":
        return komm.CyclicCode(s["n"], **{"generator_polynomial" if s["by"] == "g" else "check_polynomial": s["p"]}, systematic=s["sys"])
    if t == "rep": return komm.RepetitionCode(s["n"])
    if t == "spc": return komm.SingleParityCheckCode(s["n"])
    if t == "ham": return komm.HammingCode(s["mu"], extended=s["ext"])
    if t == "sim": return komm.SimplexCode(s["kappa"], extended=s["ext"])
    if t == "golay": return komm.GolayCode(extended=s["ext"])
    if t == "rm": return komm.ReedMullerCode(s["rho"], s["mu"])
    if t == "cw": return komm.CordaroWagnerCode(s["n"])
    if t == "lex": return komm.Lexicode(s["n"], s["d"])
    if t == "bch": return komm.BCHCode(s["mu"], s["delta"])
    if t == "polar": return komm.PolarCode(s["mu"], frozen=s["frozen"])
    raise KeyError(t)

def as_ints(M):
    """Rows -> Python ints (bit i = column i)."""
    return [sum(int(b) << i for i, b in enumerate(r)) for r in np.asarray(M).tolist()]

def span_ints(rows):
    """List S with S[u] = sum of rows picked by the bits of u (LSB-first)."""
    S = [0]
    for r in rows: S += [x ^ r for x in S]
    return S

def rank_ints(rows):
    rows, r = list(rows), 0
    while rows:
        p = rows.pop()
        if p:
            r += 1; low = p & -p
            rows = [x ^ p if x & low else x for x in rows]
    return r
