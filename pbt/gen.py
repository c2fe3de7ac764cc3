"""Shared generators (JSON-able cases) and small reference helpers."""
import itertools, math
import numpy as np
from hypothesis import strategies as st

def ints(lo, hi): return st.integers(lo, hi)

def bits(n): return st.lists(st.integers(0, 1), min_size=n, max_size=n)

def floats(lo, hi): return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)

@st.composite
def pmf(draw, min_size=2, max_size=8, zeros=True, deep=False):
    """Valid pmfs of several kinds: random, tied, nearly uniform, dyadic-ish, skewed, with zeros, deterministic."""
    n = draw(st.integers(min_size, max_size))
    kind = draw(st.sampled_from(["rand", "ties", "skew", "uniform", "zeros", "det", "geo", "near"] if zeros
                                else ["rand", "ties", "skew", "uniform", "geo", "near"]))
    if deep and kind in ("skew", "geo") and draw(st.booleans()):  # tails far below the rounding of the total
        e = draw(st.sampled_from([8, 17, 25, 60]))
        w = [draw(st.integers(1, 3)) * 10.0 ** -draw(st.sampled_from([0, 0, e, e, e + 1, 2 * e])) for _ in range(n)]
        return [x / math.fsum(w) for x in w]
    if kind == "uniform": w = [1.0] * n
    elif kind == "near":  # close to uniform, not equal to it
        e = draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-6]))
        w = [1.0 + e * draw(st.integers(-9, 9)) / 10 for _ in range(n)]
    elif kind == "ties": w = draw(st.lists(st.integers(1, 4), min_size=n, max_size=n))
    elif kind == "skew": w = [10.0 ** draw(st.integers(-6, 0)) for _ in range(n)]
    elif kind == "geo":
        r = draw(st.sampled_from([0.5, 0.618, 0.3, 0.9]))
        w = [r ** i for i in range(n)]
        if draw(st.booleans()): w = w[::-1]
    elif kind == "zeros":
        w = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
        if sum(w) == 0: w[draw(st.integers(0, n - 1))] = 1
    elif kind == "det":
        w = [0] * n; w[draw(st.integers(0, n - 1))] = 1
    else: w = draw(st.lists(st.integers(1, 1000), min_size=n, max_size=n))
    s = math.fsum(w)
    return [x / s for x in w]

def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f"shape {a.shape} != {b.shape}"
    if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=False):
        raise AssertionError(f"not close:\n got {a.tolist()}\n want {b.tolist()}")

# Containers for integer/bit arrays: nested lists, several dtypes and memory layouts (same logical content).
CONT = st.sampled_from(["list", "int64", "uint8", "int32", "int8", "bool", "fortran", "strided", "reversed", "readonly"])
def layout(a, cont):
    a = np.asarray(a)
    if cont == "list": return a.tolist()
    if cont == "fortran": return np.asfortranarray(a).reshape(a.shape, order="F")
    if cont == "strided":
        b = np.full(a.shape[:-1] + (2 * a.shape[-1],), 1, dtype=a.dtype) if a.ndim else a
        if a.ndim == 0: return a
        b[..., ::2] = a; return b[..., ::2]
    if cont == "reversed": return np.ascontiguousarray(a[..., ::-1])[..., ::-1] if a.ndim else a
    if cont == "readonly":
        b = a.copy(); b.flags.writeable = False; return b
    return a.astype(cont)

def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f"shape {a.shape} != {b.shape}"
    if not np.array_equal(a, b):
        raise AssertionError(f"not equal:\n got {a.tolist()}\n want {b.tolist()}")

def raises(exc, fn, *a, **k):
    try:
        r = fn(*a, **k)
    except exc:
        return
    raise AssertionError(f"expected {exc} but got result {r!r}")

def is_int_array(a):
    a = np.asarray(a)
    assert np.issubdtype(a.dtype, np.integer), f"expected an integer array, got dtype {a.dtype}"

# ---- GF(2)[X] reference on Python ints -------------------------------------------------
def pmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1; b >>= 1
    return r
def pdeg(a): return a.bit_length() - 1
def pdivmod(a, b):
    assert b
    q = 0; db = pdeg(b)
    while a and pdeg(a) >= db:
        s = pdeg(a) - db
        q |= 1 << s; a ^= b << s
    return q, a
def pmod(a, b): return pdivmod(a, b)[1]
def pgcd(a, b):
    while b: a, b = b, pmod(a, b)
    return a
def ppowmod(a, e, m):
    r = pmod(1, m); a = pmod(a, m)
    while e:
        if e & 1: r = pmod(pmul(r, a), m)
        a = pmod(pmul(a, a), m); e >>= 1
    return r
def factorint(n):
    f, p = {}, 2
    while p * p <= n:
        while n % p == 0: f[p] = f.get(p, 0) + 1; n //= p
        p += 1
    if n > 1: f[n] = f.get(n, 0) + 1
    return f
def pirreducible(f):
    n = pdeg(f)
    if n < 1: return False
    x = 2
    t = x
    for i in range(1, n + 1):
        t = pmod(pmul(t, t), f)
        if i <= n // 2 and pgcd(f, t ^ x) != 1: return False
    return True
def pprimitive(f):
    n = pdeg(f)
    if n < 1 or not pirreducible(f): return False
    if f == 2: return False
    order = 2 ** n - 1
    return all(ppowmod(2, order // p, f) != pmod(1, f) for p in factorint(order))

# ---- GF(2) linear algebra reference (rows as ints) ---------------------------------------
def rows_to_ints(M): return [int("".join(str(int(x)) for x in r), 2) if len(r) else 0 for r in np.asarray(M).tolist()]
def gf2_rank(M):
    rows, r = rows_to_ints(M), 0
    rows = [x for x in rows]
    while rows:
        p = rows.pop()
        if p:
            r += 1
            low = p & -p
            rows = [x ^ p if x & low else x for x in rows]
    return r
def span_set(G):
    """All codewords (as tuples) of the row space of G, independent of the library."""
    G = np.asarray(G, dtype=int)
    k = G.shape[0]
    out = set()
    for u in itertools.product([0, 1], repeat=k):
        out.add(tuple((np.array(u, dtype=int) @ G % 2).tolist()) if k else tuple([0] * G.shape[1]))
    return out

# ---- generators with a chosen extreme draw ---------------------------------------------------
_PCG, _M128 = 0x2360ED051FC65DA44385DF649FCCF645, 1 << 128

def rigged(seed, k, ones):
    """A PCG64 generator whose (k+1)-th 64-bit output is 0 or 2^64 - 1 (the smallest or largest draw there is)."""
    g = np.random.PCG64(seed); s = g.state
    hi = (seed * 0x9E3779B97F4A7C15 + 0x123456789ABCDEF) % 2 ** 64
    post = hi << 64 | (hi ^ (2 ** 64 - 1) if ones else hi)
    s["state"]["state"] = (post - s["state"]["inc"]) * pow(_PCG, -1, _M128) % _M128
    g.state = s
    if k: g.advance(_M128 - k)
    return np.random.Generator(g)
