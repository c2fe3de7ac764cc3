"""L05: integer codes."""
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule
from ..gen import equal, raises, is_int_array

rule("L05", "Non-trivial: a sequence of at least two integers, or a malformed/truncated stream (label: stream kind).",
     ["Fibonacci integers up to 2^62, unary integers up to 300"])

FIB = [1, 2]
while FIB[-1] < 2 ** 64: FIB.append(FIB[-1] + FIB[-2])

def zeck(n):
    i = max(j for j in range(len(FIB)) if FIB[j] <= n)
    bits = [0] * (i + 1)
    for j in range(i, -1, -1):
        if FIB[j] <= n: bits[j] = 1; n -= FIB[j]
    assert n == 0
    return bits + [1]

fib_int = st.one_of(st.integers(1, 60), st.integers(1, 10 ** 6), st.integers(1, 2 ** 62),
                    st.sampled_from(FIB[:85]).map(lambda f: f), st.sampled_from(FIB[1:85]).map(lambda f: max(1, f - 1)))

def parse_fib(y):
    out, w = [], []
    for b in y:
        w.append(b)
        if len(w) >= 2 and w[-1] == 1 == w[-2]:
            out.append(sum(FIB[i] for i, c in enumerate(w[:-1]) if c)); w = []
    return None if w else out

def parse_unary(y):
    out, n = [], 0
    for b in y:
        if b: n += 1
        else: out.append(n); n = 0
    return None if n else out

def dtcast(x, dt): return list(x) if dt == "list" else tuple(x) if dt == "tuple" else np.array(x, dtype=dt)

def common(code, xs, ref, low, c, dt2):
    want = [b for n in xs for b in ref(n)]
    y = code.encode(dtcast(xs, c["dt"]))
    is_int_array(y); equal(y, want)
    z = code.decode(dtcast(want, dt2))
    is_int_array(z); equal(z, xs)
    raises(ValueError, code.encode, xs + [low - 1])
    raises(ValueError, code.encode, [low - 2] + xs)
    raises(ValueError, code.decode, want + [2]); raises(ValueError, code.decode, [-1] + want)
    return len(xs) >= 2

C = lambda ints: st.fixed_dictionaries(dict(xs=st.lists(ints, max_size=12), dt=st.sampled_from(["list", "int64", "tuple"]),
                                            dt2=st.sampled_from(["list", "int64", "uint8", "int8", "tuple"])))

@check("L05", C(fib_int), quick=4000, thorough=40000)
def fibonacci_roundtrip(c): return common(komm.FibonacciCode(), c["xs"], zeck, 1, c, c["dt2"])

@check("L05", C(st.one_of(st.integers(0, 10), st.integers(0, 300))), quick=3000, thorough=30000)
def unary_roundtrip(c): return common(komm.UnaryCode(), c["xs"], lambda n: [1] * n + [0], 0, c, c["dt2"])

@check("L05", st.fixed_dictionaries(dict(xs=st.lists(st.one_of(st.integers(0, 40000), st.sampled_from([255, 256, 257, 1023, 1025, 32767, 32768, 65535, 65537])), min_size=1, max_size=5),
                                         dt=st.sampled_from(["list", "int64", "int32", "uint32"]))), quick=200, thorough=2000, weight=2)
def unary_long_runs(c):
    xs, code = c["xs"], komm.UnaryCode()
    want = np.concatenate([np.array([1] * n + [0]) for n in xs])
    y = code.encode(dtcast(xs, c["dt"])); is_int_array(y); equal(y, want)
    z = code.decode(want); is_int_array(z); equal(z, xs)
    raises(ValueError, code.decode, want[:-1]) if xs[-1] else None
    return len(xs) >= 2

@check("L05", st.fixed_dictionaries(dict(xs=st.lists(st.integers(0, 127), max_size=300), dt=st.sampled_from(["int8", "uint8", "int16", "uint16", "uint64"]))), quick=300, thorough=3000)
def narrow_integer_arrays(c):
    xs = c["xs"]
    for code, ref, shift in ((komm.UnaryCode(), lambda n: [1] * n + [0], 0), (komm.FibonacciCode(), zeck, 1)):
        v = [min(127, x + shift) for x in xs]
        y = code.encode(dtcast(v, c["dt"])); is_int_array(y); equal(y, [b for n in v for b in ref(n)])
        z = code.decode(y.astype(c["dt"])); is_int_array(z); equal(z, v)
    return len(xs) >= 2

@check("L05", st.fixed_dictionaries(dict(y=st.lists(st.integers(0, 1), max_size=40), close=st.booleans())), quick=5000, thorough=50000)
def arbitrary_streams(c):
    lab = ""
    for code, parse, tail in ((komm.FibonacciCode(), parse_fib, [1, 1]), (komm.UnaryCode(), parse_unary, [0])):
        y = c["y"] + (tail if c["close"] else [])
        r = parse(y)
        if r is None: raises(ValueError, code.decode, y); lab += " refused"
        else:
            equal(code.decode(y), r); equal(code.encode(r), y) ; lab += " parsed"
    return lab.strip()

@check("L05", cases=lambda tier: range(0, 20000 if tier == "thorough" else 3000))
def every_small_integer(n):
    f, u = komm.FibonacciCode(), komm.UnaryCode()
    if n:
        w = f.encode([n]).tolist()
        assert w == zeck(n)
        assert w[-2:] == [1, 1] and not any(a == b == 1 for a, b in zip(w[:-2], w[1:-1]))
        assert f.decode(w).tolist() == [n]
    if n < 400:
        w = u.encode([n]).tolist()
        assert w == [1] * n + [0] and u.decode(w).tolist() == [n]
    return True
