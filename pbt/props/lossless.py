"""L01-L04: lossless source codes."""
import heapq, itertools, math
from fractions import Fraction
import numpy as np
import komm
from hypothesis import strategies as st
from ..runner import check, rule, Skip
from ..gen import equal, close, raises, is_int_array, pmf

rule("L01", "Non-trivial: at least three codewords, or a refused/boundary case (label: classification of the code or kind of lengths).",
     ["unique decodability is decided in the reference by breadth-first search over residual suffixes",
      "is_fully_covering reference: enumeration of all source sequences of the maximal word length"])
rule("L02", "Non-trivial: at least three source words; label: distribution kind/ties and block size.",
     ["Huffman reference: merging with exact rational weights of the float probabilities; Fano splits compared with relative tolerance 1e-9 (any minimising split accepted)"])
rule("L03", "Non-trivial: the message has at least two source words.",
     ["decoding of uniquely decodable codes that are not prefix-free is documented as not implemented and is left out"])
rule("L04", "Non-trivial: the sequence has length at least 4 (label: whether a match, an overlapping match or a trailing partial word occurs).",
     ["the source symbols and the search buffer lie in the source alphabet; at most 1114111 symbols",
      "which of several equally long LZ77/LZSS matches is pointed at is left free"])

W = lambda ws: [tuple(w) for w in ws]

# ---- reference predicates ------------------------------------------------------------------
def ref_prefix_free(ws):
    return all(not (i != j and b[:len(a)] == a) for i, a in enumerate(ws) for j, b in enumerate(ws))

def ref_ud(ws):
    """No two different sequences of words (by index) have the same concatenation."""
    if len(set(ws)) < len(ws): return False
    todo, seen = [], set()
    for a in ws:
        for b in ws:
            if a != b and b[:len(a)] == a: todo.append(b[len(a):])
    while todo:
        s = todo.pop()
        if s in seen: continue
        seen.add(s)
        for w in ws:
            if w == s: return False
            if s[:len(w)] == w: todo.append(s[len(w):])
            elif w[:len(s)] == s: todo.append(w[len(s):])
    return True

def ref_covering(ws, S):
    L = max(map(len, ws))
    if S ** L > 5000: raise Skip
    have = set(ws)
    return all(any(x[:i] in have for i in range(1, L + 1)) for x in itertools.product(range(S), repeat=L))

# ---- generators ----------------------------------------------------------------------------
@st.composite
def tree_words(draw, D, n_expand, extra=True):
    """Leaves of a random complete D-ary tree: complete prefix-free set."""
    leaves = [(d,) for d in range(D)]
    for _ in range(n_expand):
        w = leaves.pop(draw(st.integers(0, len(leaves) - 1)))
        if len(w) > 6: w, leaves = min(leaves + [w], key=len), sorted(leaves + [w], key=len)[1:]
        leaves += [w + (d,) for d in range(D)]
    return leaves

@st.composite
def words(draw, min_size=2, max_size=7):
    """Word sets: random, prefix-free (complete or not), reversed prefix-free, perturbed, duplicates."""
    D = draw(st.integers(2, 3))
    kind = draw(st.sampled_from(["random", "tree", "pruned", "suffix", "perturbed", "suffix+1", "concat"]))
    if kind == "random":
        if draw(st.integers(0, 2)) == 0:      # few words of unequal lengths: long dangling chains
            a, b = draw(st.integers(1, 3)), draw(st.integers(4, 11))
            ws = [[0] * a] + [draw(st.lists(st.integers(0, 1), min_size=2, max_size=b)) for _ in range(draw(st.integers(1, 4)))]
            return ws + [[0] * b + [1]] if draw(st.booleans()) else ws + [[1]]
        return draw(st.lists(st.lists(st.integers(0, D - 1), min_size=1, max_size=4), min_size=min_size, max_size=max_size))
    ws = draw(tree_words(D, draw(st.integers(0, 4))))
    if kind != "tree":
        drop = draw(st.integers(0, max(0, len(ws) - 2)))
        for _ in range(drop): ws.pop(draw(st.integers(0, len(ws) - 1)))
    if kind in ("suffix", "suffix+1"): ws = [w[::-1] for w in ws]
    ws = ws[:max_size + 2]
    if kind in ("perturbed", "suffix+1"):
        i = draw(st.integers(0, len(ws) - 1))
        w = list(ws[i])
        op = draw(st.integers(0, 2))
        if op == 0: w.append(draw(st.integers(0, D - 1)))
        elif op == 1 and len(w) > 1: w.pop()
        else: w[draw(st.integers(0, len(w) - 1))] = draw(st.integers(0, D - 1))
        ws[i] = tuple(w)
    if kind == "concat":
        ws.append(ws[draw(st.integers(0, len(ws) - 1))] + ws[draw(st.integers(0, len(ws) - 1))])
    order = draw(st.permutations(range(len(ws))))
    ws = [list(ws[i]) for i in order]
    return ws if len(ws) >= min_size else ws + [[D - 1] * 6]

def _klass(ws):
    return ("prefix-free" if ref_prefix_free(ws) else "UD-not-prefix-free" if ref_ud(ws) else "not-UD")

# ---- L01 -------------------------------------------------------------------------------------
@st.composite
def relabelled_words(draw):
    """The same word sets, sometimes over symbols with several digits or far apart."""
    ws = draw(words()); m = draw(st.sampled_from([(0, 1, 2)] * 4 + [(0, 2, 1), (1, 10, 11), (0, 1, 12), (1, 11, 111), (1, 0, 10), (7, 255, 256), (2, 3, 300)]))
    return [[m[x] for x in w] for w in ws]

@st.composite
def chain_words(draw):
    """Few, long words whose dangling suffixes form chains of tens of steps."""
    n = draw(st.integers(8, 60)); d = draw(st.integers(2, 7)); z, o = draw(st.sampled_from([(0, 1), (1, 0)]))
    kind = draw(st.integers(0, 3))
    ws = [[o], [o] + [z] * n, [z] * d] if kind == 0 else [[o, z] * n + [o], [o, z], [z, o] * draw(st.integers(1, n)) + [o]] if kind == 1 else [[z] * d, [z] * (d + 1 + draw(st.integers(0, 3))) + [o], [o] + [z] * n] if kind == 2 else [[z], [z] * n + [o], [o] * d]
    if draw(st.booleans()): ws.append([z] * draw(st.integers(1, d + 1)) + [o])
    if draw(st.booleans()): ws.append([o] * draw(st.integers(1, 3)) + [z])
    out = []
    for w in ws:
        if w not in out: out.append(w)
    if draw(st.booleans()): out = [w[::-1] for w in out]
    return [out[i] for i in draw(st.permutations(range(len(out))))]

@check("L01", chain_words(), quick=600, thorough=6000, weight=3)
def long_chains_of_dangling_suffixes(c):
    ws = W(c); code = komm.FixedToVariableCode.from_codewords(ws)
    assert bool(code.is_prefix_free()) == ref_prefix_free(ws), "is_prefix_free"
    assert bool(code.is_uniquely_decodable()) == ref_ud(ws), "is_uniquely_decodable"
    vf = komm.VariableToFixedCode.from_sourcewords(ws)
    assert bool(vf.is_prefix_free()) == ref_prefix_free(ws)
    return _klass(ws)

@check("L01", relabelled_words(), quick=6000, thorough=60000, weight=2)
def fixed_to_variable_classification(c):
    ws = W(c)
    top = max(max(w) for w in ws)
    if top == 0: code = komm.FixedToVariableCode(len(ws), 2, 1, {(i,): w for i, w in enumerate(ws)})
    else: code = komm.FixedToVariableCode.from_codewords(ws)
    assert (code.source_cardinality, code.source_block_size, code.size) == (len(ws), 1, len(ws))
    assert code.target_cardinality == max(2, top + 1)
    assert code.codewords == ws and code.lengths == [len(w) for w in ws]
    assert bool(code.is_prefix_free()) == ref_prefix_free(ws), "is_prefix_free"
    assert bool(code.is_uniquely_decodable()) == ref_ud(ws), "is_uniquely_decodable"
    D = code.target_cardinality
    close(code.kraft_parameter(), float(sum(Fraction(1, D ** len(w)) for w in ws)), rtol=1e-12)
    if ref_ud(ws): assert code.kraft_parameter() <= 1 + 1e-9
    return _klass(ws) if len(ws) > 2 else None

# words all zero (target cardinality 1) are refused
@check("L01", st.lists(st.integers(1, 4), min_size=2, max_size=4), quick=60, thorough=200)
def unary_alphabet_is_refused(ls):
    raises(ValueError, komm.FixedToVariableCode.from_codewords, [(0,) * l for l in ls])
    raises(ValueError, komm.VariableToFixedCode.from_sourcewords, [(0,) * l for l in ls])
    return "refused"

@st.composite
def enc_map_case(draw):
    S = draw(st.integers(2, 3)); k = draw(st.integers(1, 3 if S == 2 else 2)); D = draw(st.integers(2, 4))
    keys = list(itertools.product(range(S), repeat=k))
    vals = [draw(st.lists(st.integers(0, D - 1), min_size=1, max_size=5)) for _ in keys]
    return dict(S=S, k=k, D=D, vals=vals, order=draw(st.permutations(range(len(keys)))), pmf=draw(pmf(S, S)))

@check("L01", enc_map_case(), quick=3000, thorough=30000)
def encoding_mappings_and_rate(c):
    S, k, D = c["S"], c["k"], c["D"]
    keys = list(itertools.product(range(S), repeat=k)); vals = W(c["vals"])
    ref = dict(zip(keys, vals))
    p = c["pmf"]
    want = sum(math.prod(p[i] for i in x) * len(w) for x, w in ref.items()) / k
    mapping = {keys[i]: vals[i] for i in c["order"]}
    codes = [komm.FixedToVariableCode(S, D, k, dict(mapping))]
    if max(max(w) for w in vals) >= 1:
        codes.append(komm.FixedToVariableCode.from_enc_mapping(dict(mapping)))
        codes.append(komm.FixedToVariableCode.from_codewords(vals, source_cardinality=S))
    for code in codes:
        assert (code.source_cardinality, code.source_block_size, code.size) == (S, k, S ** k)
        assert dict(code.enc_mapping) == ref
        assert list(code.codewords) == vals and list(code.lengths) == list(map(len, vals))
        close(code.rate(p), want, rtol=1e-9, atol=1e-12)
        close(code.rate(np.array(p)), want, rtol=1e-9, atol=1e-12)
    # domain must be all k-tuples; codewords non-empty and in range
    for i in (0, len(keys) - 1):
        bad = dict(mapping); bad.pop(keys[i])
        raises(ValueError, komm.FixedToVariableCode, S, D, k, bad)
        bad = dict(mapping); bad[keys[i]] = (D,)
        raises(ValueError, komm.FixedToVariableCode, S, D, k, bad)
        bad = dict(mapping); bad[keys[i]] = (-1,)
        raises(ValueError, komm.FixedToVariableCode, S, D, k, bad)
        bad = dict(mapping); bad[keys[i]] = ()
        raises(ValueError, komm.FixedToVariableCode, S, D, k, bad)
    if len(vals) > 2: raises(ValueError, komm.FixedToVariableCode.from_codewords, vals[:-1], source_cardinality=S) if (S ** k - 1) not in [S ** j for j in range(1, 9)] else None
    raises(ValueError, codes[0].rate, [q * 0.5 for q in p])
    return f"S{S}k{k}" + (" unordered" if list(c["order"]) != sorted(c["order"]) else "")

@st.composite
def lengths_case(draw):
    D = draw(st.integers(2, 4))
    kind = draw(st.sampled_from(["random", "complete", "over", "long", "longover", "random"]))
    if kind == "random": L = draw(st.lists(st.integers(1, 6), min_size=2, max_size=9))
    else:
        L = [1] * D
        for _ in range(draw(st.integers(0, 5))):
            l = L.pop(draw(st.integers(0, len(L) - 1))); L += [l + 1] * D
        if kind.startswith("long"):
            for _ in range(draw(st.integers(20, 90))):
                l = max(L); L.remove(l); L += [l + 1] * D
        if kind.endswith("over"):
            if draw(st.booleans()): L.append(max(L) + draw(st.integers(0, 2)))
            else:
                i = L.index(max(L)); L[i] -= 1
                if L[i] < 1: L[i] = 1; L.append(1)
        elif draw(st.booleans()) and len(L) > 2: L.pop(draw(st.integers(0, len(L) - 1)))
        L = [L[i] for i in draw(st.permutations(range(len(L))))]
    return dict(D=D, L=L)

def ref_canonical(L, D):
    order = sorted(range(len(L)), key=lambda i: (L[i], i))
    out, v, prev = [None] * len(L), 0, 0
    for i in order:
        v *= D ** (L[i] - prev); prev = L[i]
        w, t = [], v
        for _ in range(L[i]): w.append(t % D); t //= D
        assert t == 0
        out[i] = tuple(w[::-1]); v += 1
    return out

@check("L01", lengths_case(), quick=3000, thorough=30000)
def codes_from_lengths_are_canonical(c):
    D, L = c["D"], c["L"]
    kraft = sum(Fraction(1, D ** l) for l in L)
    mk = lambda L: komm.FixedToVariableCode.from_lengths(L, target_cardinality=D)
    if kraft > 1:
        raises(ValueError, mk, L)
        return "refused"
    code = mk(L)
    assert code.lengths == L and code.target_cardinality == D
    assert code.codewords == ref_canonical(L, D), "not the canonical code"
    assert ref_prefix_free(code.codewords) and code.is_prefix_free() and code.is_uniquely_decodable()
    close(code.kraft_parameter(), float(kraft), rtol=1e-12)
    equal(np.array(mk(np.array(L)).lengths), L)
    for bad in (0, -1):
        raises(ValueError, mk, L[:-1] + [bad])
    n = len(L)
    if n == 4 or n == 8 or n == 9:
        S = 3 if n == 9 else 2
        code = komm.FixedToVariableCode.from_lengths(L, source_cardinality=S, target_cardinality=D)
        assert code.source_block_size == round(math.log(n, S)) and code.lengths == L
        assert dict(code.enc_mapping) == dict(zip(itertools.product(range(S), repeat=code.source_block_size), ref_canonical(L, D)))
    return ("complete" if kraft == 1 else "incomplete") + (" long" if max(L) > 20 else "")

@st.composite
def vtf_case(draw):
    ws = draw(relabelled_words())
    D = draw(st.integers(2, 3))
    return dict(ws=ws, D=D, p=draw(st.lists(st.integers(1, 9), min_size=3, max_size=3)), order=draw(st.permutations(range(len(ws)))))

@check("L01", vtf_case(), quick=6000, thorough=60000, weight=2)
def variable_to_fixed_classification(c):
    ws, D = W(c["ws"]), c["D"]
    S = max(max(w) for w in ws) + 1
    if S < 2: raise Skip
    code = komm.VariableToFixedCode.from_sourcewords(ws, target_cardinality=D)
    n = 1
    while D ** n < len(ws): n += 1
    assert (code.source_cardinality, code.target_cardinality, code.target_block_size, code.size) == (S, D, n, len(ws))
    keys = list(itertools.product(range(D), repeat=n))[:len(ws)]
    assert dict(code.dec_mapping) == dict(zip(keys, ws)) and code.sourcewords == ws and code.lengths == list(map(len, ws))
    code2 = komm.VariableToFixedCode(D, S, n, {keys[i]: ws[i] for i in c["order"]})
    w = [c["p"][i % 3] for i in range(S)]; p = [x / sum(w) for x in w]
    k = sum(len(w) * math.prod(p[s] for s in w) for w in ws)
    for x in (code, code2):
        assert bool(x.is_prefix_free()) == ref_prefix_free(ws), "is_prefix_free"
        assert bool(x.is_uniquely_encodable()) == ref_ud(ws), "is_uniquely_encodable"
        assert bool(x.is_fully_covering()) == ref_covering(ws, S), "is_fully_covering"
        close(x.rate(p), n / k, rtol=1e-9)
        assert dict(x.dec_mapping) == dict(zip(keys, ws))
    m = dict(zip(keys, ws))
    raises(ValueError, komm.VariableToFixedCode, D, S, n, {**m, keys[0]: (S,)})
    raises(ValueError, komm.VariableToFixedCode, D, S, n, {**m, keys[0]: ()})
    raises(ValueError, komm.VariableToFixedCode, D, S, n, {**m, (D,) * n: (0,)})
    raises(ValueError, komm.VariableToFixedCode, D, S, n, {**m, (0,) * (n + 1): (0,)})
    if len(ws) < 3: return None
    return _klass(ws) + (" covering" if ref_covering(ws, S) else "")

# ---- L02 -------------------------------------------------------------------------------------
def ext(p, k):
    out = [1.0]
    keys = list(itertools.product(range(len(p)), repeat=k))
    return keys, [math.prod(Fraction(p[i]) for i in x) for x in keys]

def huffman_cost(q):
    h = list(q); heapq.heapify(h); t = Fraction(0)
    while len(h) > 1:
        a = heapq.heappop(h); b = heapq.heappop(h)
        t += a + b; heapq.heappush(h, a + b)
    return t

def H2(p): return -sum(x * math.log2(x) for x in p if x > 0)

def block_pmf(max_words=70, max_size=9, zeros=True):
    @st.composite
    def f(draw):
        p = draw(pmf(2, max_size, zeros=zeros, deep=True))
        k = 1
        while len(p) ** (k + 1) <= max_words and min(x for x in p if x > 0) ** (k + 1) > 1e-280 and draw(st.booleans()): k += 1
        return dict(p=p, k=k)
    return f()

def _plab(c):
    p = c["p"]
    if len(p) ** c["k"] < 3: return None
    return f"k{c['k']}" + (" ties" if len(set(p)) < len(p) else "") + (" zeros" if 0 in p else "")

@check("L02", block_pmf(), quick=2500, thorough=20000, weight=3)
def huffman_is_optimal(c):
    p, k = c["p"], c["k"]
    keys, q = ext(p, k)
    opt = huffman_cost(q)
    h = H2(p)
    for policy in ("high", "low"):
        prev = None
        for assignment in ("tree", "canonical"):
            code = komm.HuffmanCode(p, source_block_size=k, policy=policy, assignment=assignment)
            assert (code.source_cardinality, code.source_block_size, code.target_cardinality) == (len(p), k, 2)
            ws, L = list(code.codewords), list(code.lengths)
            assert list(code.enc_mapping) == keys and list(code.enc_mapping.values()) == ws
            assert all(len(w) == l and l >= 1 and set(w) <= {0, 1} for w, l in zip(ws, L))
            assert ref_prefix_free(ws) if len(ws) <= 81 else True
            assert code.is_prefix_free() and code.is_uniquely_decodable()
            cost = sum(a * l for a, l in zip(q, L))
            assert abs(float(cost - opt)) <= 1e-12, f"expected length {float(cost)} but the optimum is {float(opt)}"
            assert sum(Fraction(1, 2 ** l) for l in L) == 1, "Huffman tree is not full"
            R = code.rate(p)
            close(R, float(opt) / k, rtol=1e-9)
            assert h - 1e-7 <= R < h + 1 / k + 1e-7, (h, R)
            if assignment == "canonical":
                assert L == prev, "assignment changes the lengths"
                assert ws == ref_canonical(L, 2), "not canonical"
            prev = L
            if assignment == "tree":
                # bit 1 goes to the less probable of two siblings
                wt = {}
                for w, a in zip(ws, q):
                    for i in range(len(w) + 1): wt[w[:i]] = wt.get(w[:i], 0) + a
                for w in list(wt):
                    if w and w[-1] == 0 and w[:-1] + (1,) in wt:
                        assert float(wt[w[:-1] + (1,)] - wt[w]) <= 1e-9, "bit 1 labels the more probable node"
    return _plab(c)

@check("L02", st.lists(st.integers(0, 4), min_size=2, max_size=7).filter(lambda w: sum(w) > 0), quick=1500, thorough=12000)
def huffman_policies_break_ties(w):
    """'high' gives the shallowest and 'low' never a shallower tree; exact (dyadic-sum) weights."""
    s = sum(w); t = 1
    while t < s: t *= 2
    w = list(w); w[0] += t - s
    p = [x / t for x in w]
    n = len(p)
    profiles = {(1, 1)}
    for _ in range(n - 2):
        profiles = {tuple(sorted(pr[:i] + pr[i + 1:] + (pr[i] + 1,) * 2)) for pr in profiles for i in range(len(pr))}
    sw = sorted(w, reverse=True)
    cost = {pr: sum(a * b for a, b in zip(sw, pr)) for pr in profiles}
    best = [pr for pr in profiles if cost[pr] == min(cost.values())]
    hi = komm.HuffmanCode(p, policy="high").lengths; lo = komm.HuffmanCode(p, policy="low").lengths
    for L in (hi, lo): assert tuple(sorted(L)) in best or sum(a * b for a, b in zip(w, L)) == min(cost.values())
    assert max(hi) == min(max(b) for b in best), f"'high' is not the shallowest: {hi}"
    assert sum(hi) == min(sum(b) for b in best), f"'high' has not the least total length: {hi}"
    assert max(lo) >= max(hi) and sum(lo) >= sum(hi), (hi, lo)
    return f"{len(best)} optimal profiles" if len(best) > 1 else None

@st.composite
def big_ties(draw):
    k = draw(st.integers(1, 4)); n = draw(st.sampled_from([20, 100, 300, 513, 600, 1000]))
    w = [draw(st.sampled_from([1, 1, 2, 3, 4])) for _ in range(k)]
    return dict(w=w, n=n, seed=draw(st.integers(0, 2 ** 20)), block=draw(st.sampled_from([1, 1, 2])))

@check("L02", big_ties(), quick=40, thorough=600, weight=6)
def huffman_policies_of_large_alphabets(c):
    """Two-queue construction on exact integer weights: leaves first gives the least total and greatest length."""
    r = np.random.default_rng(c["seed"]); w = r.choice(c["w"], c["n"] if c["block"] == 1 else max(3, int(math.sqrt(c["n"])))).astype(int).tolist()
    s = sum(w); t = 1
    while t < s: t *= 2
    w[0] += t - s; p = [x / t for x in w]; B = c["block"]
    W2 = [int(x) for x in np.multiply.outer(w, w).ravel()] if B == 2 else w
    def two_queue(leaves_first):
        from collections import deque
        order = sorted(range(len(W2)), key=lambda i: W2[i]); q1 = deque((W2[i], [i]) for i in order); q2 = deque(); L = [0] * len(W2)
        def pop():
            if not q2: return q1.popleft()
            if not q1: return q2.popleft()
            return q1.popleft() if (q1[0][0] <= q2[0][0] if leaves_first else q1[0][0] < q2[0][0]) else q2.popleft()
        while len(q1) + len(q2) > 1:
            a, b = pop(), pop()
            for i in a[1] + b[1]: L[i] += 1
            q2.append((a[0] + b[0], a[1] + b[1]))
        return L
    ref = two_queue(True); alt = two_queue(False)
    hi = komm.HuffmanCode(p, B, policy="high").lengths; lo = komm.HuffmanCode(p, B, policy="low").lengths
    opt = sum(a * b for a, b in zip(W2, ref))
    for L in (hi, lo): assert sum(a * b for a, b in zip(W2, L)) == opt, "not optimal"
    assert max(hi) == max(ref) and sum(hi) == sum(ref), f"'high' is not the shallowest: {max(hi)}, {sum(hi)} instead of {max(ref)}, {sum(ref)}"
    assert sum(lo) >= sum(hi) and max(lo) >= max(hi), f"'low' is shallower than 'high': {max(lo)}, {sum(lo)} against {max(hi)}, {sum(hi)}"
    return sum(alt) > sum(ref) and f"n{c['n']}"

def _ceil_log2_inv(a):
    l = 1
    while Fraction(1, 2 ** l) > a: l += 1
    return l

@check("L02", block_pmf(60, 9, zeros=False), quick=2500, thorough=20000)
def shannon_lengths(c):
    p, k = c["p"], c["k"]
    keys, q = ext(p, k)
    if sum(Fraction(1, 2 ** (_ceil_log2_inv(a))) for a in q) > 1: return None  # the floats of p sum to slightly more than 1
    code = komm.ShannonCode(p, source_block_size=k)
    assert list(code.enc_mapping) == keys
    L = code.lengths
    for a, l in zip(q, L):
        want = 0
        while Fraction(1, 2 ** want) > a: want += 1
        ok = {max(1, want)}
        lg = math.log2(1 / float(a))
        if abs(lg - round(lg)) < 1e-9: ok = {max(1, round(lg)), max(1, round(lg) + 1)} if Fraction(1, 2 ** max(0, round(lg))) != a else ok
        assert l in ok, f"length {l} for probability {float(a)}, expected {ok}"
    assert list(code.codewords) == ref_canonical(L, 2)
    assert ref_prefix_free(code.codewords) and code.is_prefix_free() and code.is_uniquely_decodable()
    R = code.rate(p)
    close(R, float(sum(a * l for a, l in zip(q, L))) / k)
    assert H2(p) - 1e-7 <= R < H2(p) + 1 / k + 1e-7 or max(p) > 0.5
    raises(ValueError, komm.ShannonCode, [*p, 0.0])
    return _plab(c)

def fano_profiles(q, tol=1e-9):
    """All length profiles (in the given order) obtained by minimising splits."""
    from functools import lru_cache
    @lru_cache(None)
    def f(lo, hi):
        if hi - lo == 1: return frozenset({(0,)})
        half = sum(q[lo:hi]) / 2
        c, ds = 0.0, []
        for i in range(lo, hi - 1):
            c += q[i]; ds.append(abs(c - half))
        out = set()
        for i, d in enumerate(ds):
            if d <= min(ds) + tol * 2 * half:
                m = lo + i + 1
                for a in f(lo, m):
                    for b in f(m, hi):
                        out.add(tuple(x + 1 for x in a + b))
                        if len(out) > 3000: raise Skip
        return frozenset(out)
    return f(0, len(q))

@check("L02", block_pmf(16, 10), quick=2000, thorough=15000)
def fano_splits(c):
    p, k = c["p"], c["k"]
    keys, q = ext(p, k)
    q = [float(x) for x in q]
    code = komm.FanoCode(p, source_block_size=k)
    assert list(code.enc_mapping) == keys
    L = code.lengths
    assert list(code.codewords) == ref_canonical(L, 2)
    assert ref_prefix_free(code.codewords) and code.is_prefix_free() and code.is_uniquely_decodable()
    assert sum(Fraction(1, 2 ** l) for l in L) == 1
    profs = fano_profiles(sorted(q, reverse=True))
    srt = sorted(q, reverse=True)
    def key(pairs):  # multiset of (probability class, length)
        return sorted((float(f"{a:.9e}"), l) for a, l in pairs)
    mine = key(zip(q, L))
    def same(a, b): return all(abs(x[0] - y[0]) <= 1e-8 * max(x[0], 1e-300) + 1e-300 and x[1] == y[1] for x, y in zip(a, b))
    if not any(same(mine, key(zip(srt, pr))) for pr in profs):
        raise AssertionError(f"lengths {L} for {q} do not come from most even splits")
    R = code.rate(p)
    close(R, sum(a * l for a, l in zip(q, L)) / k)
    assert R >= H2(p) - 1e-7 and R <= H2(p) + 2 / k
    return _plab(c)

@st.composite
def tunstall_case(draw):
    p = draw(pmf(2, 6))
    lo = max(1, math.ceil(math.log2(len(p))))
    return dict(p=p, n=draw(st.sampled_from([None] + list(range(lo, 8)))))

@check("L02", st.fixed_dictionaries(dict(p=pmf(2, 4, zeros=False), n=st.integers(8, 12))), quick=100, thorough=1000, weight=2)
def large_tunstall_dictionaries_are_optimal(c):
    p, n = c["p"], c["n"]
    S = len(p)
    ws = list(komm.TunstallCode(p, n).sourcewords)
    K = (2 ** n - 1) // (S - 1)
    assert len(ws) == 1 + K * (S - 1) == len(set(ws)), "wrong number of source words"
    assert sum(Fraction(1, S ** len(w)) for w in ws) == 1
    h, tot = [-1.0], []
    for _ in range(K):
        a = -heapq.heappop(h); tot.append(a)
        for x in p: heapq.heappush(h, -a * x)
    mean = math.fsum(len(w) * math.prod(p[s] for s in w) for w in ws)
    assert abs(mean - math.fsum(tot)) <= 1e-11 * mean, f"expected source-word length {mean}, attainable {math.fsum(tot)}"
    return f"n{n}"

@check("L02", tunstall_case(), quick=2000, thorough=15000)
def tunstall_is_optimal(c):
    p, n = c["p"], c["n"]
    S = len(p)
    code = komm.TunstallCode(p) if n is None else komm.TunstallCode(p, n)
    if n is None: n = next(i for i in range(1, 9) if 2 ** i >= S)
    assert (code.target_block_size, code.source_cardinality, code.target_cardinality) == (n, S, 2)
    ws = list(code.sourcewords)
    assert len(ws) <= 2 ** n and len(set(ws)) == len(ws)
    assert ref_prefix_free(ws)
    # complete tree: every internal node has all S children
    internal = {w[:i] for w in ws for i in range(len(w))}
    assert all(v + (s,) in internal or v + (s,) in set(ws) for v in internal for s in range(S))
    assert code.is_fully_covering() and code.is_prefix_free() and code.is_uniquely_encodable()
    # optimum: expected length = sum of the probabilities of the internal nodes; take the heaviest
    K = (2 ** n - 1) // (S - 1)          # number of internal nodes
    h, tot = [-Fraction(1)], Fraction(0)
    for _ in range(K):
        a = -heapq.heappop(h); tot += a
        for x in p: heapq.heappush(h, -a * Fraction(x))
    mean = sum(len(w) * math.prod(Fraction(p[s]) for s in w) for w in ws)
    assert abs(float(mean - tot)) <= 1e-12 * float(tot), f"expected source-word length {float(mean)}, attainable {float(tot)}"
    close(code.rate(p), n / float(mean))
    assert code.rate(p) >= H2(p) - 1e-9
    assert all(len(y) == n and set(y) <= {0, 1} for y in code.dec_mapping)
    # target words in lexicographic order of the source words, as documented by the examples
    if 2 ** (n - 1) >= 1 and n > 1: raises(ValueError, komm.TunstallCode, [1 / (2 ** (n - 1) + 1)] * (2 ** (n - 1) + 1), n - 1)
    return f"n{n}" + (" ties" if len(set(p)) < S else "") + (" fits exactly" if (2 ** n - 1) % (S - 1) == 0 else "") if n > 1 else None

# ---- L03 -------------------------------------------------------------------------------------
@st.composite
def ftv_code(draw):
    kind = draw(st.sampled_from(["tree", "tree", "huffman", "shannon", "fano", "lengths", "ud"]))
    if kind in ("huffman", "shannon", "fano"):
        c = draw(block_pmf(30, 6, zeros=kind != "shannon"))
        return dict(t=kind, **c, policy=draw(st.sampled_from(["high", "low"])), a=draw(st.sampled_from(["tree", "canonical"])))
    S = draw(st.integers(2, 4)); k = draw(st.integers(1, 2 if S < 4 else 1)); D = draw(st.integers(2, 3))
    N = S ** k
    ws = draw(tree_words(D, max(0, -(-(N - D) // (D - 1))) + draw(st.integers(0, 2))))
    perm = draw(st.permutations(range(len(ws))))
    ws = [list(ws[i]) for i in perm][:N]
    if kind == "lengths": return dict(t=kind, L=[len(w) for w in ws], S=S, D=D)
    if kind == "ud": ws = [w[::-1] for w in ws]
    return dict(t="map", ws=ws, S=S)

def build_ftv(c):
    if c["t"] == "huffman": return komm.HuffmanCode(c["p"], c["k"], c["policy"], c["a"])
    if c["t"] == "shannon":
        if min(c["p"]) < 1e-7 and sum(Fraction(1, 2 ** _ceil_log2_inv(a)) for a in ext(c["p"], c["k"])[1]) > 1: raise Skip  # the floats of p sum to slightly more than 1
        return komm.ShannonCode(c["p"], c["k"])
    if c["t"] == "fano": return komm.FanoCode(c["p"], c["k"])
    if c["t"] == "lengths": return komm.FixedToVariableCode.from_lengths(c["L"], source_cardinality=c["S"], target_cardinality=c["D"])
    if max(max(w) for w in c["ws"]) == 0: raise Skip
    return komm.FixedToVariableCode.from_codewords(W(c["ws"]), source_cardinality=c["S"])

@st.composite
def ftv_msg(draw):
    c = draw(ftv_code())
    return dict(code=c, msg=draw(st.lists(st.integers(0, 10 ** 6), max_size=25)), dt=draw(st.sampled_from(["list", "int64", "uint8", "tuple", "int8"])),
                cut=draw(st.integers(0, 100)), pos=draw(st.integers(0, 100)))

def as_input(x, dt):
    return list(x) if dt == "list" else tuple(x) if dt == "tuple" else np.array(x, dtype=dt)

@check("L03", ftv_msg(), quick=5000, thorough=50000, weight=2)
def fixed_to_variable_roundtrip(c):
    code = build_ftv(c["code"])
    S, k, D = code.source_cardinality, code.source_block_size, code.target_cardinality
    msg = [m % S for m in c["msg"]]
    msg = msg[:len(msg) // k * k]
    m = dict(code.enc_mapping)
    want = [s for i in range(0, len(msg), k) for s in m[tuple(msg[i:i + k])]]
    out = code.encode(as_input(msg, c["dt"]))
    is_int_array(out); equal(out, want)
    if len(msg) >= 1: raises(ValueError, code.encode, msg + [0] * ((k - 1) or 1) if k > 1 else msg + [S])
    raises(ValueError, code.encode, msg[:-1] + [S] if msg else [S] * k)
    raises(ValueError, code.encode, msg[:-1] + [-1] if msg else [-1] * k)
    if not ref_prefix_free(list(m.values())): return "ud" if len(msg) > 1 else None
    back = code.decode(as_input(want, c["dt"]))
    is_int_array(back); equal(back, msg)
    inv = {v: x for x, v in m.items()}
    # arbitrary stream: parse by the prefix property or be refused
    def parse(y):
        r, w = [], ()
        for s in y:
            w += (s,)
            if w in inv: r += inv[w]; w = ()
        return None if w else r
    y = list(want)
    if y and c["cut"] % 2: y = y[:c["pos"] % (len(y) + 1)]
    elif y: y[c["pos"] % len(y)] = (y[c["pos"] % len(y)] + 1 + c["cut"]) % D
    r = parse(y)
    if r is None: raises(ValueError, code.decode, y)
    else: equal(code.decode(y), r)
    raises(ValueError, code.decode, want + [D])
    return c["code"]["t"] + (" refused" if r is None else "") if len(msg) >= 2 * k else None

@st.composite
def vtf_msg(draw):
    kind = draw(st.sampled_from(["tree", "tunstall"]))
    if kind == "tunstall": code = dict(t=kind, **draw(tunstall_case()))
    else:
        S = draw(st.integers(2, 3)); D = draw(st.integers(2, 3))
        ws = draw(tree_words(S, draw(st.integers(0, 5))))
        code = dict(t=kind, ws=[list(ws[i]) for i in draw(st.permutations(range(len(ws))))], D=D)
    return dict(code=code, msg=draw(st.lists(st.integers(0, 10 ** 6), max_size=30)), dt=draw(st.sampled_from(["list", "int64", "uint8", "tuple"])),
                stream=draw(st.lists(st.integers(0, 10 ** 6), max_size=8)))

@check("L03", vtf_msg(), quick=5000, thorough=50000, weight=2)
def variable_to_fixed_roundtrip(c):
    cc = c["code"]
    if cc["t"] == "tunstall": code = komm.TunstallCode(cc["p"]) if cc["n"] is None else komm.TunstallCode(cc["p"], cc["n"])
    else: code = komm.VariableToFixedCode.from_sourcewords(W(cc["ws"]), target_cardinality=cc["D"])
    S, n, D = code.source_cardinality, code.target_block_size, code.target_cardinality
    msg = [m % S for m in c["msg"]]
    dec = dict(code.dec_mapping); inv = {x: y for y, x in dec.items()}
    out, w = [], ()
    for s in msg:
        w += (s,)
        if w in inv: out += inv[w]; w = ()
    got = code.encode(as_input(msg, c["dt"]))
    is_int_array(got)
    assert got.size == len(out) + (n if w else 0), "wrong number of target symbols"
    equal(got[:len(out)], out)
    if w:
        last = dec[tuple(got[len(out):].tolist())]
        assert last[:len(w)] == w, "trailing partial word completed with a word that does not start with it"
    back = code.decode(got)
    is_int_array(back)
    equal(back[:len(msg)], msg)
    if not w: equal(back, msg)
    raises(ValueError, code.encode, msg + [S])
    raises(ValueError, code.encode, msg + [-1])
    words_ = [list(dec)[i % len(dec)] for i in c["stream"]]
    y = [s for v in words_ for s in v]
    b = code.decode(as_input(y, c["dt"]))
    is_int_array(b); equal(b, [s for v in words_ for s in dec[v]])
    equal(code.encode(b), y)
    if n > 1: raises(ValueError, code.decode, y + [0])
    missing = [v for v in itertools.product(range(D), repeat=n) if v not in dec]
    if missing: raises(ValueError, code.decode, y + list(missing[0]))
    raises(ValueError, code.decode, y + [D] * n)
    return cc["t"] + (" partial" if w else "") if len(msg) >= 3 else None

@check("L03", words(), quick=3000, thorough=20000)
def ambiguous_codes_are_refused(c):
    ws = W(c)
    if max(max(w) for w in ws) == 0: raise Skip
    ftv = komm.FixedToVariableCode.from_codewords(ws); vtf = komm.VariableToFixedCode.from_sourcewords(ws)
    ud, S = ref_ud(ws), max(max(w) for w in ws) + 1
    if not ud:
        raises(ValueError, ftv.encode, [0, 1]); raises(ValueError, ftv.decode, list(ws[0]))
    else:
        equal(ftv.encode([1, 0, 1]), ws[1] + ws[0] + ws[1])
    if not ud or not ref_covering(ws, S):
        raises(ValueError, vtf.encode, list(ws[0])); raises(ValueError, vtf.decode, [0] * vtf.target_block_size)
        return "refused"
    return _klass(ws)

@st.composite
def large_code(draw):
    """Large alphabets, long codewords, long words, long messages (given by a seed)."""
    t = draw(st.sampled_from(["flat", "comb", "huffman", "shannon", "fano", "vtf-comb", "tunstall", "vtf-flat"]))
    N = draw(st.integers(130, 340)) if t in ("flat", "vtf-flat") else draw(st.integers(20, 130))
    D = draw(st.integers(2, 3))
    if t in ("flat", "vtf-flat") and draw(st.booleans()):      # exact powers of larger target alphabets
        D = draw(st.integers(2, 18)); N = draw(st.sampled_from([D ** j for j in range(1, 12) if 4 <= D ** j <= 2500]))
    return dict(t=t, N=N, a=draw(st.sampled_from([0.3, 1.0, 2.5])), D=D, n=draw(st.integers(8, 11)),
                len=draw(st.integers(1, 400)), seed=draw(st.integers(0, 10 ** 6)), dt=draw(st.sampled_from(["list", "int64", "uint16", "tuple"])))

@check("L03", large_code(), quick=160, thorough=2500, weight=3)
def large_codes_roundtrip(c):
    t, N, D = c["t"], c["N"], c["D"]
    r = np.random.default_rng(c["seed"])
    w = np.arange(1, N + 1.0) ** -c["a"]; r.shuffle(w); p = (w / w.sum()).tolist()
    perm = r.permutation(N)
    if t in ("vtf-comb", "vtf-flat", "tunstall"):
        if t == "tunstall":
            p = [0.9, 0.1] if N % 2 else [0.05, 0.8, 0.15]
            code = komm.TunstallCode(p, c["n"])
        elif t == "vtf-flat": code = komm.VariableToFixedCode.from_sourcewords([(i,) for i in perm.tolist()], target_cardinality=D)
        else:
            ws = [(0,) * i + (1,) for i in range(N - 1)] + [(0,) * (N - 1)]
            code = komm.VariableToFixedCode.from_sourcewords([ws[i] for i in perm], target_cardinality=D)
        ws = list(code.sourcewords); n = code.target_block_size
        assert t == "tunstall" or n == ceil_log(len(ws), D), f"{len(ws)} sourcewords over {D} target symbols take blocks of {ceil_log(len(ws), D)}, not {n}"
        pick = r.integers(0, len(ws), max(1, min(c["len"], 2000 // max(map(len, ws)))))
        msg = [s for i in pick for s in ws[i]]
        cut = int(r.integers(0, max(map(len, ws))))
        longest = max(ws, key=len)
        tail = longest[:cut]
        y = [s for i in pick for s in digits(int(i), D if t != "tunstall" else 2, n)]
        got = code.encode(as_input(msg, c["dt"]))
        is_int_array(got); equal(got, y)
        back = code.decode(as_input(y, c["dt"])); is_int_array(back); equal(back, msg)
        if 0 < cut < len(longest):
            got = code.encode(msg + list(tail)); equal(got[:len(y)], y); assert got.size == len(y) + n
            i = undigits(got[len(y):].tolist(), D if t != "tunstall" else 2)
            assert ws[i][:cut] == tail, "the trailing partial word is completed by a word that does not start with it"
        return f"{t} {'long words' if max(map(len, ws)) > 32 else ''}"
    if t == "flat":
        l = ceil_log(N, D); L = [l] * N
        code = komm.FixedToVariableCode.from_lengths(L, target_cardinality=D)
    elif t == "comb":
        L = (list(range(1, N)) + [N - 1]); L = [L[i] for i in perm]
        code = komm.FixedToVariableCode.from_lengths(L, target_cardinality=D)
    else: code = dict(huffman=komm.HuffmanCode, shannon=komm.ShannonCode, fano=komm.FanoCode)[t](p)
    cw = list(code.codewords)
    assert code.source_cardinality == N == len(cw)
    if t in ("flat", "comb"): assert cw == ref_canonical(L, D)
    msg = r.integers(0, N, min(c["len"], 3000 // max(map(len, cw)) + 1)).tolist()
    msg[-1] = int(np.argmax([len(w_) for w_ in cw]))
    y = [s for m in msg for s in cw[m]]
    got = code.encode(as_input(msg, c["dt"])); is_int_array(got); equal(got, y)
    back = code.decode(as_input(y, c["dt"])); is_int_array(back); equal(back, msg)
    if len(cw[msg[-1]]) > 1: raises(ValueError, code.decode, y[:-1])
    raises(ValueError, code.encode, msg + [N])
    return f"{t} {'long words' if max(map(len, cw)) > 32 else ''}"

@check("L03", cases=lambda tier: [dict(D=D, N=n) for D in range(2, 40) for j in range(1, 12) if D ** j <= (3200 if tier == "quick" else 40000)
                                  for n in (D ** j - 1, D ** j, D ** j + 1) if n >= 2])
def flat_codes_of_every_target_alphabet(c):
    """Sizes at and next to the powers of the target cardinality: blocks are as short as the sourcewords allow."""
    D, N = c["D"], c["N"]; w = ceil_log(N, D)
    code = komm.VariableToFixedCode.from_sourcewords([(i,) for i in range(N)], target_cardinality=D)
    assert (code.target_block_size, code.target_cardinality, code.source_cardinality, code.size) == (w, D, N, N)
    if N > 260: return "large"        # answering is_fully_covering takes quadratic time
    x = [0, N - 1, N // 2, 1 % N, N - 1]; y = [d for i in x for d in digits(i, D, w)]
    equal(code.encode(x), y); equal(code.decode(y), x)
    return w > 1 and ("power" if N == D ** w else "other")

# ---- L04 -------------------------------------------------------------------------------------
def ceil_log(n, b):
    k = 0
    while b ** k < n: k += 1
    return k

def digits(v, b, w):
    out = []
    for _ in range(w): out.append(v % b); v //= b
    assert v == 0, "value does not fit its field"
    return out[::-1]

def undigits(d, b):
    v = 0
    for x in d: v = v * b + x
    return v

@st.composite
def sequence(draw, X, max_len=60):
    kind = draw(st.sampled_from(["rand", "rand", "runs", "period", "const", "copy", "fewsyms"]))
    sym = st.integers(0, X - 1)
    if kind == "rand": return draw(st.lists(sym, max_size=max_len))
    if kind == "const": return [draw(sym)] * draw(st.integers(0, max_len))
    if kind == "period":
        u = draw(st.lists(sym, min_size=1, max_size=5)); n = draw(st.integers(0, max_len))
        return (u * n)[:n]
    if kind == "runs":
        out = []
        for _ in range(draw(st.integers(0, 8))): out += [draw(sym)] * draw(st.integers(1, 9))
        return out
    if kind == "fewsyms":
        a = draw(st.lists(sym, min_size=2, max_size=2)); return [a[b] for b in draw(st.lists(st.integers(0, 1), max_size=max_len))]
    u = draw(st.lists(sym, min_size=1, max_size=12)); v = draw(st.lists(sym, max_size=4))
    return u + v + u[draw(st.integers(0, len(u) - 1)):] + u + v

CARD = st.one_of(st.integers(2, 4), st.sampled_from([2, 3, 5, 8, 9, 25, 27, 125, 216, 256, 255, 257, 300, 5000]))
BIGCARD = st.sampled_from([0xD800, 0xE001, 2 ** 16, 0x110000, 0x110001, 2 ** 21, 10 ** 9, 2 ** 31 + 1, 2 ** 40])
SIZES = st.one_of(st.integers(1, 9), st.sampled_from([1, 2, 16, 25, 125, 216, 64]))

@st.composite
def lz_window(draw):
    X = draw(st.one_of(CARD, CARD, CARD, BIGCARD)); Y = draw(st.integers(2, 6)); S = draw(SIZES); L = draw(SIZES)
    buf = draw(st.one_of(st.none(), st.lists(st.integers(0, X - 1), min_size=S, max_size=S))) if S <= 9 else None
    return dict(X=X, Y=Y, S=S, L=L, buf=buf, x=draw(sequence(X)), dt=draw(st.sampled_from(["list", "int64", "tuple"])))

def _match_at(full, i, start, l): return all(full[start + j] == full[i + j] for j in range(l))
def _longest(full, i, S, lmax):
    return max((max((l for l in range(lmax + 1) if _match_at(full, i, s, l)), default=0) for s in range(i - S, i)), default=0)

@check("L04", lz_window(), quick=3000, thorough=30000, weight=2)
def lz77(c):
    X, Y, S, L, x = c["X"], c["Y"], c["S"], c["L"], c["x"]
    code = komm.LempelZiv77Code(search_size=S, lookahead_size=L, source_cardinality=X, target_cardinality=Y, search_buffer=c["buf"])
    assert code.window_size == S + L
    src = as_input(x, c["dt"])
    buf = c["buf"] or [0] * S
    full = buf + x
    toks = code.source_to_tokens(src)
    i, lab = S, set()
    for (p, l, s) in toks:
        assert 0 <= p < S and 0 <= l < L and 0 <= s < X, f"token out of range {(p, l, s)}"
        assert i + l < len(full), "token runs past the sequence"
        assert _match_at(full, i, i - S + p, l), "token does not match the history"
        assert full[i + l] == s, "wrong innovation symbol"
        best = _longest(full, i, S, min(L - 1, len(full) - 1 - i))
        assert l == best, f"match of length {l} where {best} is available"
        if l: lab.add("overlap" if p + l > S else "match")
        i += l + 1
    assert i == len(full), "tokens do not cover the sequence"
    wp, wl, wx = ceil_log(S, Y), ceil_log(L, Y), ceil_log(X, Y)
    want = [d for (p, l, s) in toks for d in digits(p, Y, wp) + digits(l, Y, wl) + digits(s, Y, wx)]
    y = code.encode(src)
    is_int_array(y); equal(y, want)
    equal(code.tokens_to_target(toks), want)
    assert [tuple(t) for t in code.target_to_tokens(y)] == [tuple(t) for t in toks]
    for z in (code.decode(y), code.decode(y.tolist()), code.tokens_to_source(toks)):
        is_int_array(z); equal(z, x)
    raises(ValueError, code.encode, x + [X]); raises(ValueError, code.encode, [-1] + x)
    return " ".join(sorted(lab)) or "literal" if len(x) >= 4 else None

@check("L04", lz_window(), quick=3000, thorough=30000, weight=2)
def lzss(c):
    X, Y, S, L, x = c["X"], c["Y"], c["S"], c["L"], c["x"]
    code = komm.LempelZivSSCode(search_size=S, lookahead_size=L, source_cardinality=X, target_cardinality=Y, search_buffer=c["buf"])
    assert code.window_size == S + L
    wp, wl, wx = ceil_log(S, Y), ceil_log(L, Y), ceil_log(X, Y)
    be = -(-(1 + wp + wl) // (1 + wx))
    assert code.break_even == be, f"break-even {code.break_even}, documented {be}"
    src = as_input(x, c["dt"])
    buf = c["buf"] or [0] * S
    full = buf + x
    toks = code.source_to_tokens(src)
    i, lab, want = S, set(), []
    for t in toks:
        best = _longest(full, i, S, min(L, len(full) - i))
        if t[0] == 1:
            _, p, l = t
            assert 1 <= p <= S and 1 <= l <= L and i + l <= len(full), f"token out of range {t}"
            assert _match_at(full, i, i - p, l), "reference does not match the history"
            assert l == best >= be, f"reference of length {l}, longest {best}, break-even {be}"
            want += [1] + digits(p - 1, Y, wp) + digits(l - 1, Y, wl)
            lab.add("overlap" if l > p else "match"); i += l
        else:
            assert t[0] == 0 and t[1] == full[i]
            assert best < be, "literal where a reference pays off"
            want += [0] + digits(t[1], Y, wx); i += 1
    assert i == len(full)
    y = code.encode(src)
    is_int_array(y); equal(y, want)
    assert [tuple(map(int, t)) for t in code.target_to_tokens(y)] == [tuple(map(int, t)) for t in toks]
    for z in (code.decode(y), code.decode(y.tolist()), code.tokens_to_source(toks)):
        is_int_array(z); equal(z, x)
    raises(ValueError, code.encode, x + [X]); raises(ValueError, code.encode, [-1] + x)
    return " ".join(sorted(lab)) or "literal" if len(x) >= 4 else None

def long_sequence(seed, X, n, maxcopy):
    """Random noise, runs, and copies of earlier segments (overlapping ones included)."""
    r = np.random.default_rng(seed)
    x = []
    few = min(X, int(r.choice([2, 3, 300, 10 ** 6])))
    alpha = r.choice(X, few, replace=False).tolist() if X <= 10 ** 6 else list(range(few))
    while len(x) < n:
        k = r.integers(0, 4)
        m = int(min(n - len(x), 1 + r.exponential(maxcopy / 2)))
        if k == 0 or not x: x += [alpha[i] for i in r.integers(0, few, m)]
        elif k == 1: x += [alpha[r.integers(0, few)]] * m
        else:
            d = int(r.integers(1, len(x) + 1)) if k == 2 else int(r.integers(1, min(len(x), 6) + 1))
            for _ in range(m): x.append(x[-d])
    return x

@st.composite
def lz_long(draw):
    X = draw(st.sampled_from([2, 3, 4, 200, 256, 257, 1000, 70000, 2 ** 22])); Y = draw(st.sampled_from([2, 2, 3, 4, 10]))
    S, L = draw(st.sampled_from([(10, 300), (100, 600), (255, 256), (256, 255), (257, 257), (300, 500), (1000, 64), (1000, 300), (4095, 16), (5000, 16), (9000, 10)]))
    n = draw(st.integers(300, 1200 if L > 200 else 3000)) if S < 2000 else draw(st.integers(5000, 12000))
    return dict(X=X, Y=Y, S=S, L=L, n=n, seed=draw(st.integers(0, 10 ** 6)), buf=draw(st.booleans()), dt=draw(st.sampled_from(["list", "int64", "int32"])))

def _lz_setup(c, C):
    X, Y, S, L = c["X"], c["Y"], c["S"], c["L"]
    x = long_sequence(c["seed"], X, c["n"], min(2 * L, 800))
    buf = long_sequence(c["seed"] + 1, X, S, 50) if c["buf"] else None
    code = C(search_size=S, lookahead_size=L, source_cardinality=X, target_cardinality=Y, search_buffer=buf)
    full = (buf or [0] * S) + x
    return code, x, full, "".join(map(chr, full)) if X < 0xD800 else None

@check("L04", lz_long(), quick=120, thorough=1500, weight=3)
def lz77_large_windows(c):
    X, Y, S, L = c["X"], c["Y"], c["S"], c["L"]
    code, x, full, text = _lz_setup(c, komm.LempelZiv77Code)
    toks = code.source_to_tokens(as_input(x, c["dt"]))
    i = S
    far = long = False
    for p, l, s in toks:
        assert 0 <= p < S and 0 <= l < L and i + l < len(full)
        st_ = i - S + p
        assert all(full[st_ + j] == full[i + j] for j in range(l)) and full[i + l] == s, "token does not describe the sequence"
        if text and l + 1 < L and i + l + 1 < len(full):
            assert text.find(text[i:i + l + 1], i - S, i + l) < 0, "a longer match is available"
        far |= l > 1 and p < S - 4096; long |= l >= 256
        i += l + 1
    assert i == len(full)
    wp, wl, wx = ceil_log(S, Y), ceil_log(L, Y), ceil_log(X, Y)
    want = [d for (p, l, s) in toks for d in digits(p, Y, wp) + digits(l, Y, wl) + digits(s, Y, wx)]
    y = code.encode(x); is_int_array(y); equal(y, want)
    z = code.decode(y); is_int_array(z); equal(z, x)
    return "windows" + (" far" if far else "") + (" long" if long else "")

@check("L04", lz_long(), quick=120, thorough=1500, weight=3)
def lzss_large_windows(c):
    X, Y, S, L = c["X"], c["Y"], c["S"], c["L"]
    code, x, full, text = _lz_setup(c, komm.LempelZivSSCode)
    toks = code.source_to_tokens(as_input(x, c["dt"]))
    wp, wl, wx = ceil_log(S, Y), ceil_log(L, Y), ceil_log(X, Y)
    be = -(-(1 + wp + wl) // (1 + wx))
    i, want = S, []
    far = long = False
    for t in toks:
        if t[0] == 1:
            _, p, l = t
            assert 1 <= p <= S and be <= l <= L and i + l <= len(full)
            assert all(full[i - p + j] == full[i + j] for j in range(l)), "reference does not match the history"
            if text and l < L and i + l < len(full):
                assert text.find(text[i:i + l + 1], i - S, i + l) < 0, "a longer match is available"
            want += [1] + digits(p - 1, Y, wp) + digits(l - 1, Y, wl)
            far |= p > 4096; long |= l >= 256
            i += l
        else:
            assert t[0] == 0 and t[1] == full[i]
            if text and be <= L and i + be <= len(full):
                assert text.find(text[i:i + be], i - S, i + be - 1) < 0, "literal where a reference pays off"
            want += [0] + digits(t[1], Y, wx); i += 1
    assert i == len(full)
    y = code.encode(x); is_int_array(y); equal(y, want)
    z = code.decode(y); is_int_array(z); equal(z, x)
    return "windows" + (" far" if far else "") + (" long" if long else "")

@check("L04", st.fixed_dictionaries(dict(X=st.sampled_from([2, 4, 16, 256, 1000]), Y=st.sampled_from([2, 3, 10]), n=st.sampled_from([9000, 30000, 90000]),
                                         seed=st.integers(0, 10 ** 6), noise=st.booleans())), quick=8, thorough=120, weight=6)
def dictionaries_with_thousands_of_phrases(c):
    X, Y = c["X"], c["Y"]
    r = np.random.default_rng(c["seed"])
    x = r.integers(0, X, c["n"]).tolist() if c["noise"] else long_sequence(c["seed"], X, c["n"], 40)
    t78, want = ref_lz78(x, X, Y)
    code = komm.LempelZiv78Code(X, Y)
    y = code.encode(x); is_int_array(y); equal(y, want); equal(code.decode(y), x)
    want, _ = ref_lzw(x, X, Y)
    code = komm.LempelZivWelchCode(X, Y)
    y = code.encode(x); is_int_array(y); equal(y, want); equal(code.decode(y), x)
    return f"{len(t78) // 1000 * 1000}+ phrases"

@st.composite
def lz_dict(draw, long=False):
    X = draw(CARD); Y = draw(st.integers(2, 10))
    if long: X = draw(st.integers(2, 4)); Y = draw(st.sampled_from([2, 3, 5, 6]))
    x = draw(sequence(X))
    if long:
        r = np.random.default_rng(draw(st.integers(0, 10 ** 6)))
        x = r.integers(0, X, draw(st.integers(200, 2500))).tolist() if draw(st.booleans()) else [0] * draw(st.integers(200, 6000))
    return dict(X=X, Y=Y, x=x, dt=draw(st.sampled_from(["list", "int64", "tuple"])))

def ref_lz78(x, X, Y):
    d, toks, w = {(): 0}, [], ()
    for s in x:
        if w + (s,) in d: w += (s,)
        else:
            toks.append((d[w], s)); d[w + (s,)] = len(d); w = ()
    out = []
    M = ceil_log(X, Y)
    for i, (p, s) in enumerate(toks): out += digits(p, Y, ceil_log(i + 1, Y)) + digits(s, Y, M)
    if w: out += digits(d[w], Y, ceil_log(len(toks) + 1, Y)); toks.append((d[w], -1))
    return toks, out

def _lz78(c):
    X, Y, x = c["X"], c["Y"], c["x"]
    code = komm.LempelZiv78Code(X, Y)
    src = as_input(x, c["dt"])
    toks, want = ref_lz78(x, X, Y)
    y = code.encode(src)
    is_int_array(y); equal(y, want)
    got = [tuple(map(int, t)) for t in code.source_to_tokens(src)]
    assert got == toks, f"tokens {got} instead of {toks}"
    equal(code.tokens_to_target(toks), want)
    assert [tuple(map(int, t)) for t in code.target_to_tokens(y)] == toks
    for z in (code.decode(y), code.decode(y.tolist()), code.tokens_to_source(toks)):
        is_int_array(z); equal(z, x)
    raises(ValueError, code.encode, x + [X]); raises(ValueError, code.encode, [-1] + x)
    return ("partial" if toks and toks[-1][1] < 0 else "whole") if len(x) >= 4 else None

def ref_lzw(x, X, Y):
    d, out, w = {(s,): s for s in range(X)}, [], ()
    kwkwk, last = False, None
    for s in x:
        if w + (s,) in d: w += (s,); continue
        out += digits(d[w], Y, ceil_log(len(d), Y)); kwkwk |= d[w] == len(d) - 1 and len(d) > X
        d[w + (s,)] = len(d); w = (s,)
    if w: out += digits(d[w], Y, ceil_log(len(d), Y)); kwkwk |= d[w] == len(d) - 1 and len(d) > X
    return out, kwkwk

def _lzw(c):
    X, Y, x = c["X"], c["Y"], c["x"]
    code = komm.LempelZivWelchCode(X, Y)
    want, kw = ref_lzw(x, X, Y)
    y = code.encode(as_input(x, c["dt"]))
    is_int_array(y); equal(y, want)
    for z in (code.decode(y), code.decode(y.tolist())):
        is_int_array(z); equal(z, x)
    raises(ValueError, code.encode, x + [X]); raises(ValueError, code.encode, [-1] + x)
    return ("KwKwK" if kw else "plain") if len(x) >= 4 else None

@check("L04", lz_dict(), quick=3000, thorough=30000)
def lz78(c): return _lz78(c)
@check("L04", lz_dict(), quick=3000, thorough=30000)
def lzw(c): return _lzw(c)
@check("L04", lz_dict(long=True), quick=120, thorough=1500)
def lz78_long(c): return _lz78(c)
@check("L04", lz_dict(long=True), quick=120, thorough=1500)
def lzw_long(c): return _lzw(c)

@check("L04", cases=lambda tier: [dict(cls=k, n=n) for k in ("77", "SS", "78", "W") for n in (-1, 0, 1)])
def invalid_parameters(c):
    n = c["n"]
    if c["cls"] in ("77", "SS"):
        C = komm.LempelZiv77Code if c["cls"] == "77" else komm.LempelZivSSCode
        ok = dict(search_size=4, lookahead_size=4, source_cardinality=2, target_cardinality=2)
        for k in ok:
            if n < 1 or "cardinality" in k: raises(ValueError, C, **{**ok, k: n})
        raises(ValueError, C, **ok, search_buffer=[0] * (4 + (n or 2)))
    else:
        C = komm.LempelZiv78Code if c["cls"] == "78" else komm.LempelZivWelchCode
        raises(ValueError, C, n, 2); raises(ValueError, C, 2, n)
    return "refused"
