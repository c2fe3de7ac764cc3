"""Convolutional-code specs (JSON) with an independent reference realisation on Python ints.

spec: {"t":"conv","P":[[p_ij]],"q":[q_i]|None} | {"t":"low","g":[...]} | {"t":"high","h":[...]}
The reference is a controllable-form shift register per input row (per generator-matrix row), built from
the documented generator matrix only: w_i = u_i / q_i, v_j = sum_i p_ij w_i."""
import itertools
import komm
from hypothesis import strategies as st
from .gen import pmul, pdeg

def build(c):
    if c["t"] == "low": return komm.LowRateConvolutionalCode(c["g"])
    if c["t"] == "high": return komm.HighRateConvolutionalCode(c["h"])
    if c["q"] is None: return komm.ConvolutionalCode(c["P"])
    return komm.ConvolutionalCode(c["P"], c["q"])

def pq(c):
    """Numerator matrix and per-row denominators of the documented generator matrix."""
    if c["t"] == "low": return [list(c["g"])], [1]
    if c["t"] == "high":
        h = c["h"]; n = len(h)
        return [[h[-1] if i == j else 0 for j in range(n - 1)] + [h[i]] for i in range(n - 1)], [h[-1]] * (n - 1)
    return [list(r) for r in c["P"]], list(c["q"]) if c["q"] is not None else [1] * len(c["P"])

def dims(c):
    P, q = pq(c)
    return len(P), len(P[0])

def nus(c):
    P, q = pq(c)
    return [max(max(pdeg(p) for p in r), pdeg(b)) for r, b in zip(P, q)]

def det(M):
    k = len(M)
    r = 0
    for perm in itertools.permutations(range(k)):
        t = 1
        for i in range(k): t = pmul(t, M[i][perm[i]])
        r ^= t
    return r

def full_rank(c):
    P, _ = pq(c)
    k, n = len(P), len(P[0])
    if k > n: return False
    return any(det([[r[j] for j in js] for r in P]) for js in itertools.combinations(range(n), k))

class Ref:
    """Reference machine. State: tuple of ints, bit d-1 of entry i is w_i[t-d]."""
    def __init__(self, c):
        self.P, self.q = pq(c)
        self.k, self.n = len(self.P), len(self.P[0])
        self.nu = nus(c)
        self.mask = [(1 << v) - 1 for v in self.nu]

    def zero(self): return (0,) * self.k

    def step(self, s, u):
        """u: int, bit i is input i. Returns (next state, output int with bit j = output j)."""
        v, ns = 0, []
        for i in range(self.k):
            w = ((u >> i) & 1) ^ ((s[i] << 1 & self.q[i]).bit_count() & 1)
            reg = s[i] << 1 | w
            for j in range(self.n):
                v ^= ((reg & self.P[i][j]).bit_count() & 1) << j
            ns.append(reg & self.mask[i])
        return tuple(ns), v

    def run(self, bits, s=None):
        s = s or self.zero()
        out = []
        for t in range(0, len(bits), self.k):
            u = sum(b << i for i, b in enumerate(bits[t:t + self.k]))
            s, v = self.step(s, u)
            out += [(v >> j) & 1 for j in range(self.n)]
        return out, s

    def graph(self):
        """All reachable states: dict state -> list of (input, next, output)."""
        g, todo = {}, [self.zero()]
        while todo:
            s = todo.pop()
            if s in g: continue
            g[s] = [(u, *self.step(s, u)) for u in range(2 ** self.k)]
            todo += [e[1] for e in g[s]]
        return g

def series_encode(c, bits):
    """Output bits by power-series arithmetic modulo D^T."""
    P, q = pq(c)
    k, n = len(P), len(P[0])
    T = len(bits) // k
    mod = (1 << T) - 1
    V = [0] * n
    for i in range(k):
        u = sum(bits[t * k + i] << t for t in range(T))
        inv = 0
        rem = 1
        for t in range(T):           # 1/q as a power series
            if rem >> t & 1:
                inv |= 1 << t
                rem ^= q[i] << t
        w = pmul(u, inv) & mod
        for j in range(n): V[j] ^= pmul(w, P[i][j]) & mod
    return [(V[j] >> t) & 1 for t in range(T) for j in range(n)]

@st.composite
def conv_spec(draw, max_nu=3, max_sigma=5, max_k=3, max_n=4, rank=False, min_sigma=0):
    for _ in range(6):
        t = draw(st.sampled_from(["conv", "conv", "conv", "low", "high"]))
        if t == "low":
            n = draw(st.integers(1, max_n))
            d = min(draw(st.integers(0, max_nu + 1)), max_sigma)
            g = draw(st.lists(st.integers(0, 2 ** (d + 1) - 1), min_size=n, max_size=n))
            if not any(g): g[draw(st.integers(0, n - 1))] = 2 ** d
            c = dict(t="low", g=g)
        elif t == "high":
            n = draw(st.integers(2, min(max_n, max_k + 1)))
            d = min(draw(st.integers(0, max_nu)), max_sigma)
            h = draw(st.lists(st.integers(0, 2 ** (d + 1) - 1), min_size=n, max_size=n))
            h[-1] |= 1
            c = dict(t="high", h=h)
        else:
            k = draw(st.integers(1, max_k))
            n = draw(st.integers(k if rank else 1, max(max_n, k)))
            P, q = [], []
            left = max_sigma
            fb = draw(st.sampled_from(["none", "some", "all"]))
            for i in range(k):
                d = min(draw(st.integers(0, max_nu)), left)
                left -= d
                style = draw(st.sampled_from(["rand", "rand", "common", "sparse"]))
                if style == "common" and d >= 1:
                    f = draw(st.integers(2, 3))
                    row = [pmul(f, draw(st.integers(0, 2 ** d - 1))) for _ in range(n)]
                elif style == "sparse":
                    row = [draw(st.sampled_from([0, 0, 1, 2 ** d])) for _ in range(n)]
                else:
                    row = draw(st.lists(st.integers(0, 2 ** (d + 1) - 1), min_size=n, max_size=n))
                P.append(row)
                q.append(draw(st.integers(0, 2 ** d - 1)) * 2 + 1 if fb == "all" or (fb == "some" and draw(st.booleans())) else 1)
            c = dict(t="conv", P=P, q=None if fb == "none" else q)
        if rank and not full_rank(c): continue
        if sum(nus(c)) < min_sigma: continue
        if min(nus(c)) < 0: continue
        return c
    return dict(t="conv", P=[[7, 5]], q=None)
