"""X01: operations leave their arguments alone, are repeatable, and do not depend on the container of an argument.

A case is a small history: a few objects of the zoo below are constructed, then operations are applied to
them in the drawn order.  The reference for each step is the same operation applied to a freshly constructed
object with plain contiguous int64/float64 arguments."""
import functools, inspect, itertools, math
from fractions import Fraction
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from ..gen import pmul
from .. import codes, convs

rule("X01", "Non-trivial: at least two operations on the same object, at least one of which takes an argument "
            "(label: kind of the first object; for functions the function and container).",
     ["stochastic operations and the stateful stream decoder are excluded (H02, R02, C05)",
      "writing into an array returned by the library is the caller's own change of it and is not exercised",
      "integer containers are drawn among those that can represent the values; floating-point results may differ by rounding"])

I_FORMS = ["int64", "list", "tuple", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "ro", "strided", "neg", "fortran", "big"]
F_FORMS = ["float64", "list", "tuple", "ro", "strided", "neg", "fortran", "big"]

class Arr:
    """A numeric array argument whose container is varied."""
    def __init__(self, a): self.a = np.asarray(a)
    def plain(self): return np.array(self.a, dtype=np.int64 if self.a.dtype.kind in "iub" else self.a.dtype, order="C")
    def form(self, f):
        a = self.plain()
        if f in ("int64", "float64"): return a
        if f == "list": return a.tolist()
        if f == "tuple":
            tup = lambda v: tuple(map(tup, v)) if isinstance(v, list) else v
            return tup(a.tolist())
        if f == "ro": a.setflags(write=False); return a
        if f == "strided":
            if a.ndim == 0: return a
            b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype); b[..., ::2] = a
            return b[..., ::2]
        if f == "neg": return a if a.ndim == 0 else np.ascontiguousarray(a[..., ::-1])[..., ::-1]
        if f == "fortran": return np.asfortranarray(a)
        if f == "big": return a.astype(a.dtype.newbyteorder(">"))
        if a.dtype.kind != "i": return a
        t = np.dtype(f)
        if a.size and (a.min() < np.iinfo(t).min or a.max() > np.iinfo(t).max): return a
        return a.astype(t)

def give(args, f): return [x.form(f) if isinstance(x, Arr) else x for x in args]
def plain(args): return give(args, "int64")

def snap(v):
    """Deep immutable picture of a value (arguments and results)."""
    if isinstance(v, np.ndarray): return ("arr", v.dtype.kind, np.array(v, copy=True), v.dtype)
    if isinstance(v, (list, tuple)): return ("seq", type(v).__name__, [snap(x) for x in v])
    if isinstance(v, dict): return ("dict", [(snap(k), snap(x)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)): return ("set", sorted(map(repr, v)))
    if isinstance(v, (bool, np.bool_)): return ("num", bool(v))
    if isinstance(v, (int, float, complex, np.number)): return ("num", v.item() if isinstance(v, np.number) else v)
    if isinstance(v, BaseException): return ("exc", type(v).__name__)
    if inspect.isgenerator(v): return snap(list(v))
    if isinstance(v, komm.MealyMachine): return ("fsm", snap(v.transitions), snap(v.outputs))
    if hasattr(v, "generator_matrix") and hasattr(v, "length"): return ("code", snap(v.generator_matrix))
    assert not inspect.isroutine(v) and "functools" not in repr(type(v)), v
    return ("obj", repr(v))

TIGHT = "tight"              # the same computation on the same values
KIND = {"i": "n", "u": "n", "b": "n", "f": "f", "c": "c", "O": "O"}
def same(x, y, loose=True):
    if x[0] != y[0]: return False
    if x[0] == "arr":
        a, b = x[2], y[2]
        if a.shape != b.shape: return False
        if KIND.get(a.dtype.kind) != KIND.get(b.dtype.kind) and not (loose and x[3] == np.float64 and b.dtype.kind in "iub"): return False
        if a.dtype.kind in "iubO" or not loose: return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
        if a.size == 0: return True
        if loose is TIGHT: return bool(np.allclose(a, b, rtol=1e-11, atol=1e-15, equal_nan=True))
        fin = np.abs(b[np.isfinite(b)])
        return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12 * (1 + (fin.max() if fin.size else 0)), equal_nan=True))
    if x[0] == "seq": return x[1] == y[1] and len(x[2]) == len(y[2]) and all(same(p, q, loose) for p, q in zip(x[2], y[2]))
    if x[0] == "dict": return len(x[1]) == len(y[1]) and all(same(p[0], q[0], loose) and same(p[1], q[1], loose) for p, q in zip(x[1], y[1]))
    if x[0] == "num":
        a, b = x[1], y[1]
        if isinstance(a, bool) != isinstance(b, bool): return False
        if a == b or (a != a and b != b): return True
        if loose is TIGHT: return not (isinstance(a, int) and isinstance(b, int)) and abs(a - b) <= 1e-15 + 1e-11 * abs(b)
        return loose and not (isinstance(a, int) and isinstance(b, int)) and abs(a - b) <= 1e-12 + 1e-9 * abs(b)
    if x[0] in ("fsm", "code"): return all(same(p, q, loose) for p, q in zip(x[1:], y[1:]))
    return x == y

def run(fn, obj, args):
    try: return fn(obj, *args)
    except (ValueError, TypeError, AssertionError, IndexError, NotImplementedError, ZeroDivisionError, KeyError, OverflowError, RuntimeError, np.linalg.LinAlgError) as e: return e

class Subject:
    """build(*args) -> object; ops: list of (name, fn(obj, *args), args(rng, fresh) -> list)."""
    def __init__(self, build, args, ops): self.build, self.args, self.ops = build, args, ops
    def fresh(self): return self.build(*plain(self.args))

NOARG_SKIP = {"rng", "transmit", "emit", "simulate", "cache_bit", "ambient", "metric_function"}
def no_args(o, skip=()):
    """Every public attribute and every public method callable without arguments, as operations."""
    out = []
    for name in sorted(n for n in dir(type(o)) if not n.startswith("_") and n not in NOARG_SKIP and n not in skip and not n.startswith("from_")):
        a = inspect.getattr_static(type(o), name)
        if isinstance(a, (staticmethod, classmethod)): continue
        if inspect.isfunction(a) or isinstance(a, functools._lru_cache_wrapper):
            ps = list(inspect.signature(a).parameters.values())[1:]
            if all(p.default is not p.empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in ps):
                out.append((name + "()", lambda o, n=name: getattr(o, n)(), lambda r, o: []))
        else:
            out.append((name, lambda o, n=name: getattr(o, n), lambda r, o: []))
    return out

def rbits(r, *shape): return Arr(r.integers(0, 2, shape))
def rsh(r, k, lead=True):
    """Random shape ending in a positive multiple of k."""
    s = (k * int(r.integers(1, 4)),)
    return ((int(r.integers(1, 4)),) + s) if lead and r.integers(3) == 0 else s

# ---- block codes and decoders -------------------------------------------------------------------
SPECS = ([s for s in codes.FAMILIES if not (s["t"] == "lex" and s["n"] > 6)] +
         [dict(t="cyc", n=7, p=11, by="g", sys=y) for y in (False, True)] + [dict(t="cyc", n=7, p=23, by="h", sys=True), dict(t="cyc", n=6, p=9, by="g", sys=False)] +
         [dict(t="polar", mu=2, frozen=[0, 1]), dict(t="polar", mu=3, frozen=[0, 1, 2, 4]), dict(t="polar", mu=3, frozen=[0, 3, 5])] +
         [dict(t="bch", mu=4, delta=d) for d in (3, 5, 7)] + [dict(t="rm", rho=1, mu=4)])

def block_ops(o):
    k, n = o.dimension, o.length
    ops = no_args(o, skip=("bch_syndrome",) + (() if n - k <= 10 else ("coset_leaders", "coset_leader_weight_distribution", "covering_radius"))
                  + (() if k <= 8 else ("codewords", "codeword_weight_distribution", "minimum_distance", "packing_radius")))
    ops += [("encode", lambda o, x: o.encode(x), lambda r, o: [rbits(r, *rsh(r, k))]),
            ("check", lambda o, x: o.check(x), lambda r, o: [rbits(r, *rsh(r, n))]),
            ("inverse_encode", lambda o, x: o.inverse_encode(x), lambda r, o: [Arr(o.encode(r.integers(0, 2, rsh(r, k))))]),
            ("inverse_encode_any", lambda o, x: o.inverse_encode(x), lambda r, o: [rbits(r, n)]),
            ("project_word", lambda o, x: o.project_word(x), lambda r, o: [rbits(r, *rsh(r, n))]),
            ("rebuild_G", lambda o: komm.BlockCode(generator_matrix=o.generator_matrix).check_matrix, lambda r, o: []),
            ("check_own_rows", lambda o: o.check(o.generator_matrix), lambda r, o: []),
            ("encode_bad_length", lambda o, x: o.encode(x), lambda r, o: [rbits(r, k * int(r.integers(1, 3)) + int(r.integers(0, 2)))])]
    if n > k: ops.append(("rebuild_H", lambda o: komm.BlockCode(check_matrix=o.check_matrix).generator_matrix, lambda r, o: []))
    hard = lambda r, o: [rbits(r, *rsh(r, n))]
    soft = lambda r, o: [Arr(r.normal(0, 2, rsh(r, n)))]
    def D(name, mk, arg): ops.append((name, lambda o, x: mk(o).decode(x), arg))
    if k <= 6:
        D("exhaustive_hard", lambda o: komm.ExhaustiveSearchDecoder(o, "hard"), hard)
        D("exhaustive_soft", lambda o: komm.ExhaustiveSearchDecoder(o, "soft"), soft)
    if 0 < n - k <= 8: D("syndrome", komm.SyndromeTableDecoder, hard)
    if isinstance(o, komm.SingleParityCheckCode): D("wagner", komm.WagnerDecoder, soft)
    if isinstance(o, komm.ReedMullerCode):
        D("reed_hard", lambda o: komm.ReedDecoder(o, "hard"), hard); D("reed_soft", lambda o: komm.ReedDecoder(o, "soft"), soft)
    if isinstance(o, komm.BCHCode): D("berlekamp", komm.BerlekampDecoder, lambda r, o: [Arr((o.encode(r.integers(0, 2, k)) + (r.permutation(n) < r.integers(0, 2))) % 2)])
    if isinstance(o, komm.PolarCode):
        D("sc_hard", lambda o: komm.SCDecoder(o, "hard"), soft); D("sc_soft", lambda o: komm.SCDecoder(o, "soft"), soft)
    if n - k <= 6 and k <= 6:
        ops.append(("slepian", lambda o, i, j: (lambda s: (s.row(i), s.col(j), s.entry(i, j)))(komm.SlepianArray(o)),
                    lambda r, o: [int(r.integers(0, 2 ** (n - k))), int(r.integers(0, 2 ** k))]))
    return ops

def _full_rank(r, k, n):
    M = np.hstack([np.eye(k, dtype=int), r.integers(0, 2, (k, n - k))])[:, r.permutation(n)]
    for _ in range(3):
        i, j = r.integers(0, k, 2)
        if i != j: M[i] = (M[i] + M[j]) % 2
    return M

def z_block(r):
    t = r.integers(5)
    if t == 0:
        n = int(r.integers(1, 9)); k = int(r.integers(1, n + 1))
        return Subject(lambda M: komm.BlockCode(generator_matrix=M), [Arr(_full_rank(r, k, n))], block_ops)
    if t == 1:
        n = int(r.integers(2, 9)); k = int(r.integers(1, n))
        return Subject(lambda M: komm.BlockCode(check_matrix=M), [Arr(_full_rank(r, n - k, n))], block_ops)
    if t == 2:
        n = int(r.integers(2, 9)); k = int(r.integers(1, n))
        P = Arr(r.integers(0, 2, (k, n - k)))
        if r.integers(2): return Subject(komm.SystematicBlockCode, [P, ["left", "right"][r.integers(2)]], block_ops)
        return Subject(komm.SystematicBlockCode, [P, Arr(r.permutation(n)[:k])], block_ops)
    s = SPECS[r.integers(len(SPECS))]
    if s["t"] == "polar": return Subject(lambda f: komm.PolarCode(s["mu"], frozen=f), [Arr(s["frozen"])], block_ops)
    return Subject(lambda: codes.build(s), [], block_ops)

# ---- convolutional codes ------------------------------------------------------------------------
CONVS = [dict(t="conv", P=[[7, 5]], q=None), dict(t="conv", P=[[7, 5]], q=[7]), dict(t="conv", P=[[3, 2, 3], [2, 1, 1]], q=None),
         dict(t="conv", P=[[3, 1, 0], [0, 2, 7]], q=[1, 5]), dict(t="low", g=[5, 7, 7]), dict(t="low", g=[3, 0]), dict(t="high", h=[3, 2, 7]),
         dict(t="high", h=[1, 3]), dict(t="conv", P=[[1, 1]], q=None), dict(t="conv", P=[[5, 3]], q=None), dict(t="conv", P=[[13, 15]], q=[11])]
def _conv_subject(c, extra):
    if c["t"] == "low": return Subject(lambda g: extra(komm.LowRateConvolutionalCode(g)), [Arr(c["g"])], None)
    if c["t"] == "high": return Subject(lambda h: extra(komm.HighRateConvolutionalCode(h)), [Arr(c["h"])], None)
    if c["q"] is None: return Subject(lambda P: extra(komm.ConvolutionalCode(P)), [Arr(c["P"])], None)
    return Subject(lambda P, q: extra(komm.ConvolutionalCode(P, q)), [Arr(c["P"]), Arr(c["q"])], None)

def random_conv(r):
    k, n, t = [(1, 2), (1, 3), (2, 2), (2, 3)][r.integers(4)] + (int(r.integers(6)),)
    if t == 0: return dict(t="low", g=r.integers(1, 16, n).tolist())
    if t == 1: return dict(t="high", h=(2 * r.integers(0, 8, n) + 1).tolist())
    P = r.integers(1, 16 if k == 1 else 6, (k, n)).tolist()
    return dict(t="conv", P=P, q=None if t < 4 else (2 * r.integers(0, 7 if k == 1 else 3, k) + 1).tolist())

def conv_ops(o):
    k, n, m = o.num_input_bits, o.num_output_bits, o.degree
    def stream(o, x):
        return komm.ViterbiStreamDecoder(o, traceback_length=5).decode(x)
    # the order of the MealyMachine's queries does not matter either
    return no_args(o) + [
        ("encode", lambda o, x: o.encode(x), lambda r, o: [rbits(r, *rsh(r, k, False))]),
        ("encode_bad_length", lambda o, x: o.encode(x), lambda r, o: [rbits(r, k + 1)]),
        ("encode_with_state", lambda o, x, s: o.encode_with_state(x, s), lambda r, o: [rbits(r, *rsh(r, k, False)), rbits(r, m)]),
        ("stream", stream, lambda r, o: [rbits(r, n * int(r.integers(1, 8)))]),
        ("fsm_process", lambda o, x, s: o.finite_state_machine().process(x, s), lambda r, o: [Arr(r.integers(0, 2 ** k, 6)), int(r.integers(0, 2 ** m))]),
        ("terminate", lambda o, x: komm.TerminatedConvolutionalCode(o, 3, "direct-truncation").encode(x), lambda r, o: [rbits(r, 3 * k)])]

def z_conv(r):
    if r.integers(2): s = _conv_subject(CONVS[r.integers(len(CONVS))], lambda o: o)
    else: s = _conv_subject(random_conv(r), lambda o: o)
    s.ops = conv_ops
    return s

def term_ops(o):
    ops = [op for op in block_ops(o)]
    n = o.length
    for nm in ("hard", "soft"):
        ops.append(("viterbi_" + nm, lambda o, x, nm=nm: komm.ViterbiDecoder(o, nm).decode(x),
                    lambda r, o, nm=nm: [rbits(r, *rsh(r, n)) if nm == "hard" else Arr(r.normal(0, 2, rsh(r, n)))]))
        ops.append(("bcjr_" + nm, lambda o, x, nm=nm: komm.BCJRDecoder(o, nm).decode(x), lambda r, o: [Arr(r.normal(0, 2, rsh(r, n)))]))
    return ops

def z_term(r):
    c = CONVS[[0, 1, 2, 4, 6, 9][r.integers(6)]] if r.integers(2) else random_conv(r)
    mode = ["direct-truncation", "zero-termination", "tail-biting"][r.integers(3)]
    h = int(r.integers(4, 6))
    s = _conv_subject(c, lambda o: komm.TerminatedConvolutionalCode(o, h if convs.dims(c)[0] == 1 else 3, mode))
    s.ops = term_ops
    return s

def z_decoder(r):
    """Decoder objects kept across calls, together with their code."""
    t = int(r.integers(9))
    hard = lambda n: lambda r, o: [rbits(r, *rsh(r, n))]
    soft = lambda n: lambda r, o: [Arr(r.normal(0, 2, rsh(r, n)))]
    def mk(code, dec, arg):
        def ops(o):
            n = o[0].length
            return ([("decode", lambda o, x: o[1].decode(x), arg(n))] * 4
                    + [("decode_bad_length", lambda o, x: o[1].decode(x), lambda r, o: [rbits(r, n + 1)])]
                    + [(nm, lambda o, *a, f=f: f(o[0], *a), lambda r, o, g=g: g(r, o[0])) for nm, f, g in block_ops(o[0])])
        return Subject(lambda: (lambda c: (c, dec(c)))(code()), [], ops)
    P = lambda s: lambda: codes.build(s)
    small = SPECS[r.integers(len(SPECS))]
    while True:
        o = codes.build(small)
        if o.dimension <= 6 and 1 <= o.redundancy <= 8: break
        small = SPECS[r.integers(len(SPECS))]
    if t == 0: return mk(P(small), lambda c: komm.ExhaustiveSearchDecoder(c, "hard"), hard)
    if t == 1: return mk(P(small), lambda c: komm.ExhaustiveSearchDecoder(c, "soft"), soft)
    if t == 2: return mk(P(small), komm.SyndromeTableDecoder, hard)
    if t == 3: return mk(P(dict(t="rm", rho=int(r.integers(0, 3)), mu=3)), lambda c: komm.ReedDecoder(c, "hard"), hard)
    if t == 4: return mk(P(dict(t="rm", rho=int(r.integers(0, 3)), mu=3)), lambda c: komm.ReedDecoder(c, "soft"), soft)
    if t == 5: return mk(P(dict(t="spc", n=int(r.integers(2, 7)))), komm.WagnerDecoder, soft)
    if t == 6: return mk(P(dict(t="polar", mu=3, frozen=[0, 1, 2])), lambda c: komm.SCDecoder(c, "hard"), soft)
    c = CONVS[[0, 1, 2, 4, 9][r.integers(5)]]; mode = ["direct-truncation", "zero-termination", "tail-biting"][r.integers(3)]
    T = lambda: komm.TerminatedConvolutionalCode(convs.build(c), 4 if convs.dims(c)[0] == 1 else 3, mode)
    if t == 7:
        w = ["hard", "soft"][r.integers(2)]
        return mk(T, lambda c: komm.ViterbiDecoder(c, w), hard if w == "hard" else soft)
    return mk(T, lambda c: komm.BCJRDecoder(c, "soft"), soft)

# ---- finite-state machines ----------------------------------------------------------------------
def dist(y, z): return float(abs(int(y) - z) if np.ndim(z) == 0 else np.abs(z).sum())
def loglik(y, z): return -float(y - z) ** 2

def z_fsm(r):
    S, X = int(r.integers(1, 5)), int(r.integers(1, 4))
    T = Arr(r.integers(0, S, (S, X)))
    if r.integers(3) == 0:
        return Subject(komm.MooreMachine, [T, Arr(r.integers(0, 4, S))], lambda o: no_args(o) + [
            ("process", lambda o, x, s: o.process(x, s), lambda r, o: [Arr(r.integers(0, X, int(r.integers(0, 8)))), int(r.integers(0, S))])])
    pm = lambda r, *s: (lambda a: Arr(a / a.sum(axis=-1, keepdims=True)))(r.random(s) + 0.05)
    def bound(o, x): return o.forward_backward(x, loglik)
    return Subject(komm.MealyMachine, [T, Arr(r.integers(0, 4, (S, X)))], lambda o: no_args(o) + [
        ("process", lambda o, x, s: o.process(x, s), lambda r, o: [Arr(r.integers(0, X, int(r.integers(0, 8)))), int(r.integers(0, S))]),
        ("viterbi", lambda o, x: o.viterbi(x, dist), lambda r, o: [Arr(r.normal(1, 1, 5))]),
        ("viterbi_metrics", lambda o, x, m: o.viterbi(x, dist, m), lambda r, o: [Arr(r.normal(1, 1, 5)), Arr(r.random(S))]),
        ("viterbi_hard", lambda o, x: o.viterbi(x, lambda y, z: float((y - int(z)) ** 2)), lambda r, o: [Arr(r.integers(0, 4, 5))]),
        ("fb", bound, lambda r, o: [Arr(r.normal(1, 1, 4))]),
        ("fb_all", lambda o, x, p, i, f: o.forward_backward(x, loglik, p, i, f), lambda r, o: [Arr(r.normal(1, 1, 4)), pm(r, 4, X), pm(r, S), Arr(np.ones(S) / S)])])

# ---- lossless -----------------------------------------------------------------------------------
def rpmf(r, n):
    a = r.integers(0 if r.integers(3) == 0 else 1, 6, n).astype(float)
    if a.sum() == 0: a[0] = 1
    return Arr(a / a.sum())

def fv_ops(o):
    S, b = o.source_cardinality, o.source_block_size
    return no_args(o) + [
        ("encode", lambda o, x: o.encode(x), lambda r, o: [Arr(r.integers(0, S, b * int(r.integers(0, 6))))]),
        ("decode", lambda o, x: o.decode(x), lambda r, o: [Arr(o.encode(r.integers(0, S, b * int(r.integers(0, 6)))))]),
        ("rate", lambda o, p: o.rate(p), lambda r, o: [rpmf(r, S)]),
        ("encode_bad", lambda o, x: o.encode(x), lambda r, o: [Arr(r.integers(0, S + 2, b * 3))])]

def z_fv(r):
    t = r.integers(6)
    S = int(r.integers(2, 5)); b = int(r.integers(1, 3))
    if t == 0: return Subject(lambda p, w, a: komm.HuffmanCode(p, b, w, a), [rpmf(r, S), ["high", "low"][r.integers(2)], ["tree", "canonical"][r.integers(2)]], fv_ops)
    if t == 1: return Subject(lambda p: komm.ShannonCode(p, b), [Arr(np.full(S, 1 / S)) if r.integers(2) else (lambda a: Arr(a / a.sum()))(r.integers(1, 5, S))], fv_ops)
    if t == 2: return Subject(lambda p: komm.FanoCode(p, b), [rpmf(r, S)], fv_ops)
    if t == 3: return Subject(lambda l: komm.FixedToVariableCode.from_lengths(l), [Arr([[1, 2, 2], [1, 2, 3, 3], [2, 2, 2, 2], [1, 1]][r.integers(4)])], fv_ops)
    W = [[(0,), (1, 0), (1, 1)], [(1,), (0, 1), (0, 0, 1)], [(0,), (0, 1), (1, 1)], [(0, 0), (0, 1), (1, 0), (1, 1)], [(0,), (1,), (2, 0), (2, 1)]][r.integers(5)]
    if t == 4: return Subject(lambda w: komm.FixedToVariableCode.from_codewords(w), [list(W)], fv_ops)
    return Subject(lambda m: komm.FixedToVariableCode.from_enc_mapping(m), [{(i,): w for i, w in enumerate(W)}], fv_ops)

def vf_ops(o):
    S, T, b = o.source_cardinality, o.target_cardinality, o.target_block_size
    return no_args(o) + [
        ("encode", lambda o, x: o.encode(x), lambda r, o: [Arr(r.integers(0, S, int(r.integers(1, 9))))]),
        ("decode", lambda o, x: o.decode(x), lambda r, o: [Arr(o.encode(r.integers(0, S, int(r.integers(1, 9)))))]),
        ("decode_any", lambda o, x: o.decode(x), lambda r, o: [Arr(r.integers(0, T, b * int(r.integers(1, 4))))]),
        ("rate", lambda o, p: o.rate(p), lambda r, o: [(lambda a: Arr(a / a.sum()))(r.integers(1, 6, S))])]

def z_vf(r):
    S = int(r.integers(2, 4))
    if r.integers(2): return Subject(lambda p: komm.TunstallCode(p, int(3 + S // 3)), [(lambda a: Arr(a / a.sum()))(r.integers(1, 6, S))], vf_ops)
    W = [[(0, 0, 0), (0, 0, 1), (0, 1), (1,)], [(0,), (1, 0), (1, 1)], [(0,), (1,), (2, 0), (2, 1), (2, 2)], [(1,), (0, 1), (0, 0)]][r.integers(4)]
    return Subject(lambda w: komm.VariableToFixedCode.from_sourcewords(w), [list(W)], vf_ops)

def lz_ops(o):
    S = o.source_cardinality
    mk = lambda r: r.integers(0, S, int(r.integers(1, int(r.integers(2, 26))))) if r.integers(3) else np.tile(r.integers(0, S, 3), 6)
    ops = [("encode", lambda o, x: o.encode(x), lambda r, o: [Arr(mk(r))]),
           ("decode", lambda o, x: o.decode(x), lambda r, o: [Arr(o.encode(mk(r)))])] * 2
    if hasattr(o, "source_to_tokens"):
        ops += [("s2t", lambda o, x: o.source_to_tokens(x), lambda r, o: [Arr(mk(r))]),
                ("t2s", lambda o, t: o.tokens_to_source(t), lambda r, o: [list(o.source_to_tokens(mk(r)))]),
                ("t2t", lambda o, t: o.tokens_to_target(t), lambda r, o: [list(o.source_to_tokens(mk(r)))]),
                ("tt", lambda o, x: o.target_to_tokens(x), lambda r, o: [Arr(o.encode(mk(r)))])]
    return ops

def z_lz(r):
    S, T = int(r.integers(2, 5)), int(r.integers(2, 4))
    t = r.integers(4)
    if t < 2:
        C = [komm.LempelZiv77Code, komm.LempelZivSSCode][t]
        ss, la = int(r.integers(2, 9)), int(r.integers(1, 6))
        kw = dict(search_size=ss, lookahead_size=la, source_cardinality=S, target_cardinality=T)
        if r.integers(2): return Subject(lambda b: C(**kw, search_buffer=b), [Arr(r.integers(0, S, ss))], lz_ops)
        return Subject(lambda: C(**kw), [], lz_ops)
    return Subject(lambda: [komm.LempelZiv78Code, komm.LempelZivWelchCode][t - 2](S, T), [], lz_ops)

def z_int(r):
    C, hi = [(komm.FibonacciCode, 300), (komm.UnaryCode, 12)][r.integers(2)]
    lo = 1 if C is komm.FibonacciCode else 0
    mk = lambda r: r.integers(lo, hi, int(r.integers(1, 8)))
    return Subject(C, [], lambda o: [("encode", lambda o, x: o.encode(x), lambda r, o: [Arr(mk(r))]),
                                     ("decode", lambda o, x: o.decode(x), lambda r, o: [Arr(o.encode(mk(r)))])])

# ---- modulation ---------------------------------------------------------------------------------
def lab_ops(o):
    m, M = o.num_bits, o.cardinality
    return no_args(o) + [
        ("i2b", lambda o, x: o.indices_to_bits(x), lambda r, o: [Arr(r.integers(0, M, rsh(r, 1)))]),
        ("b2i", lambda o, x: o.bits_to_indices(x), lambda r, o: [rbits(r, *rsh(r, m))]),
        ("marginalize", lambda o, x: o.marginalize(x), lambda r, o: [Arr(r.random(rsh(r, M)) + 0.01)])]

def z_lab(r):
    t = r.integers(6); m = int(r.integers(1, 4))
    bm = lambda m, p: (p[:, None] >> np.arange(m)) & 1
    if t == 0: return Subject(lambda: komm.NaturalLabeling(m), [], lab_ops)
    if t == 1: return Subject(lambda: komm.ReflectedLabeling(m), [], lab_ops)
    if t == 2: return Subject(lambda: komm.ReflectedRectangularLabeling((m, int(r.integers(1, 3)) if False else 2)), [], lab_ops)
    if t == 3: return Subject(komm.Labeling, [Arr(bm(m, r.permutation(2 ** m)))], lab_ops)
    if t == 4: return Subject(lambda A, B: komm.ProductLabeling.from_matrices(A, B), [Arr(bm(m, r.permutation(2 ** m))), Arr(bm(1, r.permutation(2)))], lab_ops)
    return Subject(lambda A: komm.ProductLabeling(komm.Labeling(A), repeat=2), [Arr(bm(min(m, 2), r.permutation(2 ** min(m, 2))))], lab_ops)

def const_ops(o):
    N, M, cx = o.dimension, o.order, np.iscomplexobj(o.matrix)
    pts = lambda r: (lambda s: Arr(r.normal(0, 2, s) + 1j * r.normal(0, 2, s) if cx else r.normal(0, 2, s)))(rsh(r, N))
    pr = lambda r: (lambda a: Arr(a / a.sum()))(r.random(M) + 0.05)
    return no_args(o) + [
        ("i2s", lambda o, x: o.indices_to_symbols(x), lambda r, o: [Arr(r.integers(0, M, rsh(r, 1)))]),
        ("ci", lambda o, x: o.closest_indices(x), lambda r, o: [pts(r)]),
        ("cs", lambda o, x: o.closest_symbols(x), lambda r, o: [pts(r)]),
        ("ci_own", lambda o: o.closest_indices(np.ravel(o.matrix)), lambda r, o: []),
        ("mean_p", lambda o, p: o.mean(p), lambda r, o: [pr(r)]),
        ("energy_p", lambda o, p: o.mean_energy(p), lambda r, o: [pr(r)]),
        ("posteriors", lambda o, x: o.posteriors(x, 0.7), lambda r, o: [pts(r)]),
        ("posteriors_p", lambda o, x, p: o.posteriors(x, 0.7, p), lambda r, o: [pts(r), pr(r)])]

def z_const(r):
    t = r.integers(12)
    off, a, b = float(r.random()), 1 + float(r.random()), 1 + float(r.random())
    M = 2 ** int(r.integers(1, 5))
    if r.integers(3) == 0: off, a, b = 0.0, 1.0, 2.0
    B = [lambda: komm.PAMConstellation(M, a), lambda: komm.ASKConstellation(M, a, off), lambda: komm.PSKConstellation(M, a, off),
         lambda: komm.QAMConstellation(16, a, off), lambda: komm.QAMConstellation((4, 2), (a, b)), lambda: komm.CrossQAMConstellation(32, a, off),
         lambda: komm.APSKConstellation((4, M), (a, a + b), (0.0, off)), lambda: komm.OrthogonalConstellation(M, a), lambda: komm.SimplexConstellation(M, a),
         lambda: komm.BiorthogonalConstellation(M, a)]
    if t < 10: return Subject(B[t], [], const_ops)
    Mx = r.normal(0, 1, (int(r.integers(1, 6)), int(r.integers(1, 3))))
    if t == 11: Mx = Mx + 1j * r.normal(0, 1, Mx.shape)
    if r.integers(3) == 0: Mx = np.array([[0, 1], [2, -3], [4, 4]])
    return Subject(komm.Constellation, [Arr(Mx)], const_ops)

# ---- channels, sources, pulses, quantizers, sequences --------------------------------------------
def z_channel(r):
    t = r.integers(4); p = float(r.random())
    rows = lambda a, b: (lambda m: Arr(m / m.sum(axis=1, keepdims=True)))(r.integers(1, 6, (a, b)))
    def ops(o):
        return no_args(o) + [("mi", lambda o, p: o.mutual_information(p), lambda r, o: [rpmf(r, o.input_cardinality)]),
                             ("mi_e", lambda o, p: o.mutual_information(p, "e"), lambda r, o: [rpmf(r, o.input_cardinality)]),
                             ("cap3", lambda o: o.capacity(3), lambda r, o: [])]
    if t == 0: return Subject(lambda: komm.BinarySymmetricChannel(p), [], ops)
    if t == 1: return Subject(lambda: komm.BinaryErasureChannel(p), [], ops)
    if t == 2: return Subject(lambda: komm.ZChannel(p), [], ops)
    return Subject(komm.DiscreteMemorylessChannel, [rows(int(r.integers(2, 4)), int(r.integers(2, 4)))], ops)

def z_source(r):
    if r.integers(3) == 0: return Subject(komm.DiscreteMemorylessSource, [rpmf(r, int(r.integers(2, 6)))], lambda o: no_args(o) + [("entropy_e", lambda o: o.entropy_rate("e"), lambda r, o: [])])
    n = int(r.integers(1, 6)); thin = [0.6, 1.0][r.integers(2)]
    P = np.zeros((n, n))
    for i in range(n):
        w = r.integers(0, 3, n) * (r.random(n) < thin)
        if w.sum() == 0: w[r.integers(n)] = 1
        P[i] = w / w.sum()
    if r.integers(3) == 0: P[-1] = np.eye(n)[-1]
    return Subject(komm.MarkovChain, [Arr(P)], lambda o: no_args(o) + [
        ("acc", lambda o, i: o.accessible_states_from(i), lambda r, o: [int(r.integers(n))]),
        ("period", lambda o, i: o.period(i), lambda r, o: [int(r.integers(n))])])

def z_pulse(r):
    a = float(r.random())
    B = [lambda: komm.RectangularPulse([0.5, 1.0, a][int(10 * a) % 3]), lambda: komm.ManchesterPulse(), lambda: komm.SincPulse(), lambda: komm.RaisedCosinePulse(a),
         lambda: komm.RootRaisedCosinePulse(a) if hasattr(komm, "RootRaisedCosinePulse") else komm.RaisedCosinePulse(a).root(), lambda: komm.GaussianPulse(0.5 + a), lambda: komm.BeaulieuPulse(a)]
    x = lambda r: [Arr(np.round(r.normal(0, 2, rsh(r, 1)), 3) if r.integers(2) else r.integers(-3, 4, rsh(r, 1)))]
    return Subject(B[r.integers(len(B))], [], lambda o: [op for op in no_args(o, skip=("taps",))] + [
        (nm, lambda o, t, nm=nm: getattr(o, nm)(t), lambda r, o: x(r)) for nm in ("waveform", "spectrum", "autocorrelation", "energy_spectral_density")
        if not (nm in ("autocorrelation", "energy_spectral_density") and isinstance(o, komm.BeaulieuPulse))]
        + [("taps", lambda o, n, s: o.taps(n, s), lambda r, o: [int(r.integers(1, 5)), (-2, 3)])])

def unif_pdf(x): return np.where(np.abs(x) <= 1, 0.5, 0.0)
def gauss_pdf(x): return np.exp(-np.asarray(x) ** 2 / 2) / math.sqrt(2 * math.pi)
def z_quant(r):
    t = r.integers(4)
    L, u, v = int(r.integers(2, 6)), float(r.random()), int(r.integers(2))
    ops = lambda o: no_args(o) + [(nm, lambda o, x, nm=nm: getattr(o, nm)(x), lambda r, o: [Arr(r.normal(0, 2, rsh(r, 1))) if r.integers(2) else Arr(r.integers(-4, 5, rsh(r, 1)))]) for nm in ("digitize", "quantize")] + [
        ("mse", lambda o: o.mean_squared_error(gauss_pdf, (-4, 4), 64), lambda r, o: [])]
    if t == 0: return Subject(lambda: komm.UniformQuantizer(L, 0.5 + u, 0.1 + u), [], ops)
    if t == 1: return Subject(lambda: [komm.UniformQuantizer.mid_tread, komm.UniformQuantizer.mid_riser][v](L, 0.75 + u), [], ops)
    if t == 2 and r.integers(3) == 0: return Subject(lambda: komm.LloydMaxQuantizer([gauss_pdf, unif_pdf][v], [(-3, 3), (-1 + u / 4, 1)][v], 3), [], ops)
    if r.integers(2): return Subject(komm.ScalarQuantizer, [Arr([-3, 0, 1, 5][:L]), Arr([-1, 0, 2][:min(L, 4) - 1])], ops)
    lv = np.sort(r.normal(0, 1, L))
    return Subject(komm.ScalarQuantizer, [Arr(lv), Arr((lv[1:] + lv[:-1]) / 2)], ops)

def seq_ops(o):
    return no_args(o) + [(nm + str(z), lambda o, x, nm=nm, z=z: getattr(o, nm)(x, normalized=z), lambda r, o: [Arr(r.integers(-9, 10, int(r.integers(1, 5))))])
                         for nm in ("autocorrelation", "cyclic_autocorrelation") for z in (False, True)]
def z_seq(r):
    t = r.integers(7)
    if t == 0: return Subject(lambda b: komm.BinarySequence(bit_sequence=b), [Arr(r.integers(0, 2, int(r.integers(1, 12))))], seq_ops)
    if t == 1: return Subject(lambda b: komm.BinarySequence(polar_sequence=b), [Arr(1 - 2 * r.integers(0, 2, int(r.integers(1, 12))))], seq_ops)
    w, v = int(r.integers(0, 30)), int(r.integers(0, 2))
    if t == 2: return Subject(lambda: komm.BarkerSequence([2, 3, 4, 5, 7, 11, 13][w % 7]), [], seq_ops)
    if t == 3: return Subject(lambda: komm.LFSRSequence.maximum_length_sequence(2 + w % 4, 1 + v) if w < 15 else komm.LFSRSequence(
        [0b10011, 0b11001, 0b11111, 0b1011, 0b1101][w % 5], 1 + v), [], seq_ops)
    if t == 4: return Subject(lambda: komm.WalshHadamardSequence([4, 8][v], ["natural", "sequency"][w % 2], w % [4, 8][v]), [], seq_ops)
    if t == 5: return Subject(lambda: komm.ZadoffChuSequence([7, 9][v], 1 + w % 6), [], seq_ops)
    return Subject(komm.ComplexSequence, [Arr(r.normal(0, 1, 6) + 1j * r.normal(0, 1, 6)) if r.integers(2) else Arr(r.integers(-3, 4, 5))], seq_ops)

ZOO = dict(block=z_block, block2=z_block, conv=z_conv, term=z_term, decoder=z_decoder, fsm=z_fsm, fv=z_fv, vf=z_vf, lz=z_lz, integer=z_int, labeling=z_lab,
           constellation=z_const, channel=z_channel, source=z_source, pulse=z_pulse, quantizer=z_quant, sequence=z_seq)

@st.composite
def history(draw):
    kind = draw(st.sampled_from(sorted(ZOO)))
    objs = [[kind, draw(st.integers(0, 200)), draw(st.sampled_from(I_FORMS))]]
    for _ in range(draw(st.integers(0, 2))):
        if draw(st.booleans()): objs.append([kind, objs[0][1] if draw(st.booleans()) else draw(st.integers(0, 200)), draw(st.sampled_from(I_FORMS))])
        else: objs.append([draw(st.sampled_from(sorted(ZOO))), draw(st.integers(0, 200)), draw(st.sampled_from(I_FORMS))])
    ops = draw(st.lists(st.tuples(st.integers(0, len(objs) - 1), st.integers(0, 59), st.integers(0, 300), st.sampled_from(I_FORMS)).map(list), min_size=2, max_size=12))
    if draw(st.booleans()): ops += [list(o) for o in ops[:draw(st.integers(1, 3))]]   # the same operation again, later
    return dict(objs=objs, ops=ops)

def subject(kind, variant): return ZOO[kind](np.random.default_rng([variant, len(kind)]))

@check("X01", history(), quick=2500, thorough=30000, weight=8)
def histories_on_shared_objects(c):
    live, log = [], []           # log: (description, value held by the caller, snapshot)
    for kind, variant, form in c["objs"]:
        s = subject(kind, variant)
        args = give(s.args, form)
        for a in args: log.append((f"constructor argument of {kind}:{variant}", a, snap(a)))
        o = run(lambda _, *a: s.build(*a), None, args)
        f = run(lambda _, *a: s.build(*a), None, plain(s.args))
        if isinstance(f, BaseException): raise Skip
        assert not isinstance(o, BaseException), f"{kind}:{variant} constructed from {form} arguments raises {o!r}"
        live.append((s, o, s.ops(f)))
    used, with_args = set(), False
    deep = False
    for i, op, seed, form in c["ops"]:
        s, o, ops = live[i]
        name, fn, mk = ops[op % len(ops)]
        fresh = s.fresh()
        argv = run(lambda o: mk(np.random.default_rng(seed), o), fresh, [])
        if isinstance(argv, BaseException): continue       # e.g. tail-biting impossible: nothing to encode
        args = give(argv, form)
        before = [snap(a) for a in args]
        fresh = s.fresh()
        want = snap(run(fn, fresh, plain(argv)))
        got_v = run(fn, o, args)
        got = snap(got_v)
        where = f"{c['objs'][i][0]}:{c['objs'][i][1]}.{name} with {form} arguments"
        for a, b in zip(args, before): assert same(snap(a), b, False), f"{where} modified its argument: {b} -> {snap(a)}"
        assert same(got, want), f"{where}: got {got}\n fresh object gives {want}"
        for d, v, b in log: assert same(snap(v), b, False), f"{where} changed the {d}: {b} -> {snap(v)}"
        log.append((f"result of {name}", got_v, got))
        deep |= i in used; used.add(i); with_args |= bool(argv)
    return deep and with_args and c["objs"][0][0]

# ---- functions -----------------------------------------------------------------------------------
def _cx(r, *s): return Arr(r.normal(0, 1, s) + 1j * r.normal(0, 1, s))
FUNCS = {
    "bits_to_int": (lambda x: komm.bits_to_int(x), lambda r: [rbits(r, *rsh(r, 1), int(r.integers(1, 70)))]),
    "bits_to_int_msb": (lambda x: komm.bits_to_int(x, bit_order="MSB-first"), lambda r: [rbits(r, int(r.integers(1, 40)))]),
    "int_to_bits": (lambda x, w: komm.int_to_bits(x, w), lambda r: [Arr(r.integers(0, 256, rsh(r, 1))), int(r.integers(8, 70))]),
    "int_to_bits_msb": (lambda x, w: komm.int_to_bits(x, w, bit_order="MSB-first"), lambda r: [Arr(r.integers(0, 2 ** 20, rsh(r, 1))), 20]),
    "autocorrelation": (lambda x, s: komm.autocorrelation(x, s), lambda r: [Arr(r.integers(-100, 101, 9)) if r.integers(2) else _cx(r, 6), Arr(r.integers(-9, 9, 4))]),
    "cyclic_autocorrelation": (lambda x, s: komm.cyclic_autocorrelation(x, s), lambda r: [Arr(r.integers(-100, 101, 9)) if r.integers(2) else _cx(r, 6), Arr(r.integers(-9, 9, 4))]),
    "autocorrelation_n": (lambda x: komm.autocorrelation(x, normalized=True), lambda r: [Arr(r.integers(1, 101, 9))]),
    "cyclic_autocorrelation_n": (lambda x: komm.cyclic_autocorrelation(x, normalized=True), lambda r: [Arr(r.integers(1, 101, 9))]),
    "convolve": (lambda x, y, m: komm.convolve(x, y, mode=m), lambda r: [Arr(r.integers(-6, 7, 7)), Arr(r.integers(0, 6, 3)) if r.integers(2) else Arr(r.normal(0, 1, 3)), ["full", "valid", "same"][r.integers(3)]]),
    "convolve_axis": (lambda x, y: komm.convolve(x, y, axis=0), lambda r: [Arr(r.integers(0, 6, (5, 2))), Arr(r.integers(0, 6, 3))]),
    "fourier_transform": (lambda x: komm.fourier_transform(x, 0.1), lambda r: [Arr(r.integers(-9, 10, rsh(r, 4))) if r.integers(2) else _cx(r, *rsh(r, 3))]),
    "fourier_transform_nfft": (lambda x: komm.fourier_transform(x, 0.1, nfft=16), lambda r: [Arr(r.integers(-9, 10, rsh(r, 4)))]),
    "compress": (lambda x: komm.sampling_rate_compress(x, 2, 1), lambda r: [Arr(r.integers(0, 100, rsh(r, 3)))]),
    "expand": (lambda x: komm.sampling_rate_expand(x, 3, 1), lambda r: [Arr(r.integers(0, 100, rsh(r, 3))) if r.integers(2) else _cx(r, 4)]),
    "expand_axis": (lambda x: komm.sampling_rate_expand(x, 2, axis=0), lambda r: [Arr(r.normal(0, 1, (3, 2)))]),
    "boxplus": (lambda a, b: komm.boxplus(a, b), lambda r: [Arr(r.normal(0, 3, 4)), Arr(r.normal(0, 3, 4)) if r.integers(2) else Arr(r.integers(-100, 101, 4))]),
    "gaussian_q": (lambda a: komm.gaussian_q(a), lambda r: [Arr(r.normal(0, 3, rsh(r, 1))) if r.integers(2) else Arr(r.integers(-5, 6, 4))]),
    "gaussian_q_inv": (lambda a: komm.gaussian_q_inv(a), lambda r: [Arr(r.random(rsh(r, 1)))]),
    "marcum_q": (lambda m, a, b: komm.marcum_q(m, a, b), lambda r: [int(r.integers(1, 4)), Arr(r.random(3) * 3), Arr(r.integers(0, 5, 3))]),
    "entropy": (lambda p: komm.entropy(p), lambda r: [rpmf(r, int(r.integers(1, 6)))]),
    "entropy_int": (lambda p: komm.entropy(p), lambda r: [Arr(np.eye(4, dtype=int)[r.integers(4)])]),
    "relative_entropy": (lambda p, q: komm.relative_entropy(p, q, "e"), lambda r: [rpmf(r, 4), (lambda a: Arr(a / a.sum()))(r.random(4) + 0.1)]),
    "poly_from_coefficients": (lambda c: komm.BinaryPolynomial.from_coefficients(c), lambda r: [rbits(r, int(r.integers(1, 80)))]),
    "poly_from_exponents": (lambda c: komm.BinaryPolynomial.from_exponents(c), lambda r: [Arr(r.permutation(100)[:int(r.integers(1, 6))])]),
    "conv_params": (lambda P, q: komm.ConvolutionalCode(P, q).state_space_representation(), lambda r: [Arr(r.integers(1, 256, (2, 3))), Arr(2 * r.integers(0, 120, 2) + 1)]),
    "low_rate": (lambda g, x: komm.LowRateConvolutionalCode(g).encode(x), lambda r: [Arr(r.integers(1, 128, 3)), rbits(r, 20)]),
    "high_rate": (lambda g: komm.HighRateConvolutionalCode(g).generator_matrix, lambda r: [Arr(2 * r.integers(0, 60, 3) + 1)]),
    "dmc_dirac": (lambda M: komm.DiscreteMemorylessChannel(M).capacity(), lambda r: [Arr(np.eye(3, dtype=int)[r.integers(0, 3, 3)])]),
    "markov_perm": (lambda M: (lambda m: (m.communicating_classes(), m.is_regular(), m.absorbing_states(), m.stationary_distribution()))(komm.MarkovChain(M)), lambda r: [Arr(np.eye(3, dtype=int)[np.roll(np.arange(3), 1)])]),
    "huffman_dirac": (lambda p: komm.HuffmanCode(p).enc_mapping, lambda r: [Arr(np.eye(3, dtype=int)[r.integers(3)])]),
}

@st.composite
def func_case(draw):
    return dict(f=draw(st.sampled_from(sorted(FUNCS))), seed=draw(st.integers(0, 10 ** 6)), forms=draw(st.lists(st.sampled_from(I_FORMS), min_size=2, max_size=4)))

@check("X01", func_case(), quick=6000, thorough=60000, weight=2)
def functions_on_any_container(c):
    fn, mk = FUNCS[c["f"]]
    argv = mk(np.random.default_rng(c["seed"]))
    want = snap(run(lambda _, *a: fn(*a), None, plain(argv)))
    for f in c["forms"]:
        args = give(argv, f)
        before = [snap(a) for a in args]
        got = snap(run(lambda _, *a: fn(*a), None, args))
        for a, b in zip(args, before): assert same(snap(a), b, False), f"{c['f']} modified its {f} argument: {b} -> {snap(a)}"
        assert same(got, want), f"{c['f']} on {f}: got {got}\n int64/float64 gives {want}"
    return f"{c['f']}"

# ---- no state outside the objects ------------------------------------------------------------------
class Sibling:
    """A generator whose draws are those of `seed` except the `at`-th, which is altered in the given way: the zoo
    builds an object that differs from the base object in one parameter (a permutation, an entry, a last digit)."""
    def __init__(self, seed, at=-1, how=0): self.r, self.at, self.how, self.n = np.random.default_rng(seed), at, how, -1    # at = 8: every real parameter, in the last digits
    def hit(self): self.n += 1; return self.n == self.at != 8
    def _array(self, a, lo=None, hi=None):
        a = np.array(a, copy=True); f = a.reshape(-1)
        if f.size == 0: return a
        if self.how % 4 == 0: f[:] = np.roll(f, 1)
        elif self.how % 4 == 1: f[:] = f[::-1]
        elif a.dtype.kind in "iu" and lo is not None: f[-1] = lo + (f[-1] - lo + 1) % (hi - lo)
        elif a.dtype.kind == "f": f[-1] = f[-1] * (1 + [1e-7, 0.1][self.how % 2])
        return a
    def integers(self, lo, hi=None, size=None):
        if hi is None: lo, hi = 0, lo
        v = self.r.integers(lo, hi, size)
        if not self.hit(): return v
        if np.ndim(v): return self._array(v, lo, hi)
        return lo + (int(v) - lo + 1 + self.how % 2) % (hi - lo)
    def _float(self, v):
        if self.at == 8: return v if np.ndim(v) else v * (1 - [1e-7, 1e-9][self.how % 2])
        if not self.hit(): return v
        return self._array(v) if np.ndim(v) else v * (1 - [1e-7, 1e-3, 0.1, 0.5][self.how % 4])
    def random(self, size=None): return self._float(self.r.random(size))
    def normal(self, m=0.0, s=1.0, size=None): return self._float(self.r.normal(m, s, size))
    def permutation(self, n):
        v = self.r.permutation(n)
        return self._array(v) if self.hit() else v

def _step(kind, spec, op, seed):
    """One operation in the current process: build the subject, derive the arguments, run; a snapshot of the result."""
    variant, at, how = spec
    if kind == "function":
        fn, mk = FUNCS[sorted(FUNCS)[variant % len(FUNCS)]]
        return snap(run(lambda _, *a: fn(*a), None, plain(mk(Sibling(seed, at, how)))))
    s = ZOO[kind](Sibling([variant, len(kind)], at, how))
    if at == 8:                       # real-valued parameters differ in the last digits only
        for a in s.args:
            if isinstance(a, Arr) and a.a.dtype.kind == "f" and a.a.ndim and a.a.shape[-1] > 1:
                a.a = a.a.copy(); f = a.a.reshape(-1, a.a.shape[-1])[how % (a.a.size // a.a.shape[-1])]
                i, j = np.argsort(-np.abs(f), kind="stable")[:2]; e = [1e-8, 1e-12][how % 2] * abs(f[j])
                f[i] += e; f[j] -= e
    if at == 9:                       # the same numbers in another order: equivalent codes, relabelled alphabets and states
        for a in s.args:
            if isinstance(a, Arr) and a.a.ndim:
                ax = -1 if how % 2 == 0 or a.a.ndim == 1 else 0
                a.a = [lambda x: np.roll(x, 1, ax), lambda x: np.flip(x, ax), lambda x: np.take(x, np.random.default_rng(how).permutation(x.shape[ax]), ax)][how % 3](a.a)
    o = run(lambda _, *a: s.build(*a), None, plain(s.args))
    if isinstance(o, BaseException): return snap(o)
    ops, out = s.ops(o), []
    ref = s.fresh()                   # arguments are derived from another object of the same kind
    for d in range(3 if kind in HEAVY else 8):
        name, fn, mk = ops[(op + d) % len(ops)]
        argv = run(lambda o: mk(np.random.default_rng(seed + d), o), ref, [])
        out.append(snap(argv if isinstance(argv, BaseException) else run(fn, s.fresh(), plain(argv))))
    return ("seq", "step", out)

def forked(steps, step=None):
    """The snapshots of the steps, computed in order by a forked process in which nothing else has run."""
    import gc, os, pickle, resource
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r); gc.disable(); resource.setrlimit(resource.RLIMIT_CPU, (50, 55))
            with np.errstate(all="ignore"): out = [(step or _step)(*st_) for st_ in steps]
            with os.fdopen(w, "wb") as f: pickle.dump(out, f)
            code = 0
        finally: os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f: data = f.read()
    _, status = os.waitpid(pid, 0)
    assert status == 0 and data, f"process running {steps} ended with status {status}"
    return pickle.loads(data)

def _twin_step(spec, how, seed):
    """All operations of a linear code given by its generator matrix: as it is, with its columns permuted, or by another basis."""
    r = np.random.default_rng(spec); n = int(r.integers(4, 9)); k = int(r.integers(2, min(n, 5))); G = _full_rank(r, k, n)
    p = np.random.default_rng([spec, how])
    if how == 1: G = np.cumsum(G, axis=0) % 2
    elif how: G = G[:, p.permutation(n)] if how % 2 else np.roll(G, how // 2, axis=1)
    out = []
    for name, fn, mk in block_ops(komm.BlockCode(generator_matrix=G)):
        o = komm.BlockCode(generator_matrix=G)
        argv = run(lambda o: mk(np.random.default_rng(seed), o), komm.BlockCode(generator_matrix=G), [])
        out.append(snap(argv if isinstance(argv, BaseException) else run(fn, o, plain(argv))))
    return ("seq", "step", out)

@check("X01", st.fixed_dictionaries(dict(spec=st.integers(0, 10 ** 6), hows=st.lists(st.integers(0, 9), min_size=2, max_size=5, unique=True), seed=st.integers(0, 40))), quick=70, thorough=1500, weight=6)
def equivalent_codes_in_one_process(c):
    """Codes with equal parameters, equal weight distributions or even equal sets of codewords are still different codes:
    what one answers does not depend on which of them was used before."""
    steps = [(c["spec"], h, c["seed"]) for h in c["hows"]]
    one, two = forked(steps, _twin_step), forked(steps[::-1], _twin_step)[::-1]
    for st_, a, b in zip(steps, one, two):
        assert same(a, b, TIGHT), f"of {steps}, {st_} gives {a} in this order\n and in the opposite order {b}"
    return "twins"

# ---- objects whose real parameters differ only in late digits
def _obs_const(o):
    M = o.order; pr = np.arange(1, M + 1) / (M * (M + 1) / 2); idx = np.arange(M); y = np.linspace(-2, 2, 3 * o.dimension).reshape(3, o.dimension)
    if np.iscomplexobj(o.matrix): y = y + 0.3j
    return [lambda: o.matrix, lambda: o.mean(), lambda: o.mean(pr), lambda: o.mean_energy(), lambda: o.mean_energy(pr), lambda: o.minimum_distance(), lambda: o.indices_to_symbols(idx),
            lambda: o.closest_indices(y.ravel()), lambda: o.posteriors(y.ravel(), 2.0), lambda: o.posteriors(y.ravel(), 2.0, pr)]
def _obs_pulse(o):
    t = np.array([-1.7, -0.3, 0.0, 0.4, 1.0, 2.6])
    return [lambda: o.waveform(t), lambda: o.spectrum(t / 5), lambda: o.energy(), lambda: o.autocorrelation(t), lambda: o.energy_spectral_density(t / 5), lambda: o.taps(4, (-2, 2)), lambda: o.root().waveform(t), lambda: o.root().spectrum(t / 5)]
def _obs_quant(o):
    x = np.linspace(-3, 3, 41)
    return [lambda: o.levels, lambda: o.thresholds, lambda: o.quantize(x), lambda: o.digitize(x), lambda: o.mean_squared_error(lambda z: np.exp(-np.abs(z)) / 2, (-8, 8))]
def _obs_channel(o): return [lambda: o.transition_matrix, lambda: o.capacity(), lambda: o.mutual_information([0.3, 0.7])]
def _obs_dms(o): return [lambda: o.pmf, lambda: o.entropy_rate(), lambda: o.entropy_rate("e")]
def _obs_mc(o): return [lambda: o.transition_matrix, lambda: o.stationary_distribution(), lambda: o.is_regular(), lambda: o.index_of_primitivity(), lambda: o.communicating_classes()]
def _obs_code(p): return lambda o: [lambda: o.rate(p), lambda: getattr(o, "enc_mapping", None) or o.dec_mapping]
def _simplexed(v): v = np.abs(v) + 1e-3; return (v / v.sum()).tolist()
NEAR = {                            # name: (number of real parameters, build, observations)
    "psk": (2, lambda p, i: komm.PSKConstellation(2 ** (1 + i % 4), abs(p[0]), p[1]), _obs_const),
    "pam": (1, lambda p, i: komm.PAMConstellation(2 ** (1 + i % 4), abs(p[0])), _obs_const),
    "ask": (2, lambda p, i: komm.ASKConstellation(2 ** (1 + i % 3), abs(p[0]), p[1]), _obs_const),
    "qam": (2, lambda p, i: komm.QAMConstellation([4, 16][i % 2], abs(p[0]), p[1]), _obs_const),
    "qam2": (3, lambda p, i: komm.QAMConstellation((2, 4), (abs(p[0]), abs(p[1])), p[2]), _obs_const),
    "cross": (2, lambda p, i: komm.CrossQAMConstellation(32, abs(p[0]), p[1]), _obs_const),
    "apsk": (4, lambda p, i: komm.APSKConstellation((4, 8), (abs(p[0]), abs(p[1]) + 2), (p[2], p[3])), _obs_const),
    "orth": (1, lambda p, i: komm.OrthogonalConstellation(2 + i % 4, abs(p[0])), _obs_const),
    "biorth": (1, lambda p, i: komm.BiorthogonalConstellation(2 * (1 + i % 3), abs(p[0])), _obs_const),
    "simplex": (1, lambda p, i: komm.SimplexConstellation(2 + i % 4, abs(p[0])), _obs_const),
    "const": (6, lambda p, i: komm.Constellation(np.reshape(p, (3, 2))), _obs_const),
    "rc": (1, lambda p, i: komm.RaisedCosinePulse(abs(p[0]) % 1), _obs_pulse),
    "beaulieu": (1, lambda p, i: komm.BeaulieuPulse(abs(p[0]) % 1), _obs_pulse),
    "gauss": (1, lambda p, i: komm.GaussianPulse(abs(p[0])), lambda o: _obs_pulse(o)[:6]),
    "rect": (1, lambda p, i: komm.RectangularPulse(abs(p[0]) % 1), lambda o: _obs_pulse(o)[:6]),
    "uniform": (2, lambda p, i: komm.UniformQuantizer(2 + i, abs(p[0]), p[1]), _obs_quant),
    "scalar": (3, lambda p, i: komm.ScalarQuantizer(sorted(p), [(sorted(p)[0] + sorted(p)[1]) / 2, (sorted(p)[1] + sorted(p)[2]) / 2]), _obs_quant),
    "bsc": (1, lambda p, i: komm.BinarySymmetricChannel(abs(p[0]) % 1), _obs_channel),
    "bec": (1, lambda p, i: komm.BinaryErasureChannel(abs(p[0]) % 1), _obs_channel),
    "z": (1, lambda p, i: komm.ZChannel(abs(p[0]) % 1), _obs_channel),
    "dmc": (6, lambda p, i: komm.DiscreteMemorylessChannel([_simplexed(p[:3]), _simplexed(p[3:])]), _obs_channel),
    "dms": (4, lambda p, i: komm.DiscreteMemorylessSource(_simplexed(p)), _obs_dms),
    "markov": (9, lambda p, i: komm.MarkovChain([_simplexed(p[:3]), _simplexed(p[3:6]), _simplexed(p[6:])]), _obs_mc),
    "huffman": (4, lambda p, i: komm.HuffmanCode(_simplexed(p), 1 + i % 2), _obs_code([0.1, 0.2, 0.3, 0.4])),
    "shannon": (4, lambda p, i: komm.ShannonCode(_simplexed(p), 1 + i % 2), _obs_code([0.1, 0.2, 0.3, 0.4])),
    "fano": (4, lambda p, i: komm.FanoCode(_simplexed(p), 1 + i % 2), _obs_code([0.1, 0.2, 0.3, 0.4])),
    "tunstall": (3, lambda p, i: komm.TunstallCode(_simplexed(p), 3), _obs_code([0.2, 0.3, 0.5])),
}

def _near_step(kind, seed, i, which, eps):
    n, build, obs = NEAR[kind]; r = np.random.default_rng(seed)
    p = np.round(r.normal(0, 1, n), [2, 12][seed % 2]) + 0.05; p[which % n] += eps
    o = run(lambda _: build(p.tolist(), i), None, [])
    return ("seq", "near", [snap(o)] if isinstance(o, BaseException) else [snap(run(lambda _: f(), None, [])) for f in obs(o)])

@st.composite
def near_case(draw):
    eps = [0.0, 1.0, -1.0] + [s * 10.0 ** -e for e in range(3, 15) for s in (1, -1)]
    return dict(kind=draw(st.sampled_from(sorted(NEAR))), seed=draw(st.integers(0, 10 ** 6)), i=draw(st.integers(0, 5)),
                vs=draw(st.lists(st.tuples(st.integers(0, 8), st.sampled_from(eps)), min_size=3, max_size=8, unique=True)))

@check("X01", near_case(), quick=300, thorough=4000, weight=3)
def nearly_equal_objects_in_one_process(c):
    """Objects whose parameters differ from the fourth to the fourteenth digit are different objects: what one answers does
    not depend on which of them was used before."""
    steps = [(c["kind"], c["seed"], c["i"], w, e) for w, e in c["vs"]]
    one, two = forked(steps, _near_step), forked(steps[::-1], _near_step)[::-1]
    for st_, a, b in zip(steps, one, two):
        assert same(a, b, TIGHT), f"of {steps}, {st_} gives {a} in this order\n and in the opposite order {b}"
    return c["kind"] if any(x[0] != "exc" for a in one for x in a[2]) else False

CODING = ["block", "block2", "conv", "term", "decoder", "fsm"]
SIGNAL = ["labeling", "constellation", "constellation", "pulse", "sequence"]
SOURCE = ["fv", "vf", "lz", "integer"]
HEAVY = CODING + ["channel", "quantizer"]
KINDS = sorted(ZOO) + ["function"]
@st.composite
def isolated_case(draw, kinds):
    """Operations on a base object and its siblings (and now and then on another object of the zoo)."""
    kind = draw(st.sampled_from(kinds))
    var, op, seed = st.integers(0, 400), st.integers(0, 59), st.integers(0, 40)
    base = draw(var)
    common = draw(st.lists(st.tuples(op, seed), min_size=1, max_size=3))
    steps = []
    for _ in range(draw(st.integers(2, 6 if kind in HEAVY else 12))):
        k = kind if draw(st.integers(0, 7)) else draw(st.sampled_from(KINDS))
        v = base if draw(st.integers(0, 3)) else draw(var)
        o, s = draw(st.sampled_from(common)) if draw(st.integers(0, 4)) else (draw(op), draw(seed))
        if draw(st.integers(0, 2)) == 0: s = draw(seed)
        steps.append([k, [v, draw(st.sampled_from([-1, -1, -1, -1, 8, 8, 8, 9, 9, 9, 9, 0, 1, 2, 3, 4, 5, 6, 7])), draw(st.integers(0, 7))], o, s])
    return dict(steps=steps)

def both_orders(c):
    """The same operations in two processes of their own, in opposite orders."""
    steps = c["steps"]
    one, two = forked(steps), forked(steps[::-1])[::-1]
    for st_, a, b in zip(steps, one, two):
        assert same(a, b, TIGHT), f"of {steps}, {st_} gives {a} in this order\n and in the opposite order {b}"
    good = sum(a[0] == "seq" and any(x[0] != "exc" for x in a[2]) or a[0] != "exc" for a in one)
    return c["steps"][0][0] if good >= 2 else False

@check("X01", isolated_case(CODING), quick=450, thorough=6000, weight=6)
def coding_does_not_depend_on_the_process_history(c): return both_orders(c)
@check("X01", isolated_case(SOURCE), quick=700, thorough=6000, weight=6)
def source_coding_does_not_depend_on_the_process_history(c): return both_orders(c)
@check("X01", isolated_case(SIGNAL), quick=700, thorough=6000, weight=6)
def modulation_does_not_depend_on_the_process_history(c): return both_orders(c)
@check("X01", isolated_case([k for k in KINDS if k not in CODING + SOURCE + SIGNAL]), quick=500, thorough=6000, weight=6)
def answers_do_not_depend_on_the_process_history(c): return both_orders(c)
