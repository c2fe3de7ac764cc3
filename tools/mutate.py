#!/opt/venv/bin/python
"""Mutation sweep: mutate.py OUT.jsonl [-j N] [--sample F] [--seed S] [FILE-SUBSTRINGS..]
Systematic small changes of src/komm; those that pass the repository's tests are run against the checks."""
import ast, json, os, random, shutil, subprocess, sys, concurrent.futures as cf, threading, queue
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); REPO = "/repo"
PY = "/opt/venv/bin/python"
PROPS = {"_algebra": "A02 A03 A04", "_channels": "H01 H02", "_constellations": "M02 M03", "_error_control_block": "B01 B02 B03 D01", "_error_control_convolutional": "C01 C02 C03 C04 C05",
         "_error_control_decoders": "D01 D02 C04", "_finite_state_machine": "F01 C04 C05", "_integer_coding": "L05", "_labelings": "M01", "_lossless_coding": "L01 L02 L03 L04", "_pulses": "P01",
         "_quantization": "Q01 Q02", "_sequences_binary": "S01", "_sequences_complex": "S02", "_sources": "R01 R02", "_util": "A01 U01 U02 U03 B01 B02 M01 H01 R01 S01 D01"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "//", ast.Pow: "*", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|"}
UNWRAP = {"abs", "sorted", "round", "int", "float", "tuple", "list", "asarray", "array", "sort", "unique", "absolute", "isclose", "reversed", "set", "ceil", "floor", "real", "conj", "log2", "sqrt", "exp", "log", "sum", "max", "min", "maximum", "minimum", "mod"}

def mutants(path):
    src = open(path, encoding="utf8").read(); lines = src.split("\n"); off = [0]
    b = [l.encode() for l in lines]
    for l in lines: off.append(off[-1] + len(l) + 1)
    def pos(line, col): return off[line - 1] + len(b[line - 1][:col].decode())
    def seg(n): return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    def text(n): a, z = seg(n); return src[a:z]
    out = []
    def add(n, new, what, a=None, z=None):
        if a is None: a, z = seg(n)
        if src[a:z] != new: out.append((a, z, new, what, n.lineno))
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list: skip.update(map(id, ast.walk(d)))
            for ar in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                if ar.annotation: skip.update(map(id, ast.walk(ar.annotation)))
            if n.returns: skip.update(map(id, ast.walk(n.returns)))
            if n.name in ("__repr__", "__str__", "_minors_gcd"): skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.AnnAssign): skip.update(map(id, ast.walk(n.annotation)))
        if isinstance(n, ast.Raise) and n.exc is not None: skip.update(map(id, ast.walk(n.exc)))
        if isinstance(n, ast.JoinedStr): skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Subscript) and isinstance(n.value, (ast.Name, ast.Attribute)) and "rray" in text(n.value) and "." not in text(n.value): skip.update(map(id, ast.walk(n)))
    for n in ast.walk(tree):
        if id(n) in skip: continue
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            operands = [n.left] + n.comparators
            for i, o in enumerate(n.ops):
                a, z = seg(operands[i])[1], seg(operands[i + 1])[0]
                if "(" in src[a:z] or ")" in src[a:z]: continue
                add(n, f" {CMP[type(o)]} ", "cmp", a, z)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, z = seg(n.left)[1], seg(n.right)[0]
            s = src[a:z]
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}[type(n.op)]
            if s.count(sym) == 1: add(n, s.replace(sym, BIN[type(n.op)]), "bin", a, z)
            elif sym in s: pass
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool): add(n, str(not n.value), "bool")
            elif isinstance(n.value, int): add(n, str(n.value + 1), "const"); n.value >= 1 and add(n, str(n.value - 1), "const")
            elif isinstance(n.value, float): add(n, repr(n.value * 2 if n.value else 1.0), "const")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)): add(n, "(" + text(n.operand) + ")", "unary")
        elif isinstance(n, ast.BoolOp):
            a, z = seg(n.values[0])[1], seg(n.values[1])[0]
            s = src[a:z]; k = "and" if isinstance(n.op, ast.And) else "or"
            if s.count(k) == 1: add(n, s.replace(k, "or" if k == "and" else "and"), "boolop", a, z)
        elif isinstance(n, ast.Call):
            fn = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if fn in UNWRAP and n.args: add(n, "(" + text(n.args[0]) + ")", "unwrap")
            if isinstance(n.func, ast.Attribute) and fn in ("copy", "astype", "conj", "tolist"): add(n, "(" + text(n.func.value) + ")", "unwrap")
            if isinstance(n.func, ast.Attribute) and fn in ("any", "all"):
                p = seg(n.func)[1]; add(n, {"any": "all", "all": "any"}[fn], "anyall", p - 3, p)
            if getattr(n.func, "id", "") in ("any", "all"): add(n, {"any": "all", "all": "any"}[fn], "anyall", *seg(n.func))
            if fn in ("max", "min", "argmax", "argmin", "maximum", "minimum"):
                p = seg(n.func)[1]; new = fn.replace("max", "@").replace("min", "max").replace("@", "min"); add(n, new, "minmax", p - len(fn), p)
            items = sorted(n.args + [k for k in n.keywords], key=lambda x: (x.lineno, x.col_offset))
            for i, k in enumerate(items):
                if isinstance(k, ast.keyword) and k.arg:
                    a, z = seg(k)
                    if i > 0: a = seg(items[i - 1])[1]
                    add(n, "", f"kw", a, z)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, "False", "cond", *seg(n.test))
            if not isinstance(n, ast.While): add(n.test, "True", "cond", *seg(n.test))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): add(n, "pass", "del")
    seen = set(); res = []
    for m in out:
        if m[:3] in seen: continue
        seen.add(m[:3])
        new = src[:m[0]] + m[2] + src[m[1]:]
        try: compile(new, path, "exec")
        except SyntaxError: continue
        res.append(m)
    return res

def diffline(path, m):
    src = open(path, encoding="utf8").read(); ls = src[:m[0]].count("\n")
    new = src[:m[0]] + m[2] + src[m[1]:]
    return src.split("\n")[ls].strip(), new.split("\n")[ls].strip()

def run(cmd, env, cwd, t):
    try: return subprocess.run(cmd, env=env, cwd=cwd, capture_output=True, text=True, timeout=t).returncode
    except subprocess.TimeoutExpired: return 99

def work(w, q, out, lock):
    c = f"/tmp/mut/w{w}"; shutil.rmtree(c, ignore_errors=True); subprocess.run(["cp", "-a", REPO, c], check=True)
    base = dict(os.environ, PYTHONPATH=c + "/src", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TQDM_DISABLE="1", PYTHONHASHSEED="0")
    pt = [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--benchmark-disable", "--randomly-seed=42", "--randomly-dont-reorganize"]
    while True:
        try: rel, m = q.get_nowait()
        except queue.Empty: break
        p = f"{c}/src/komm/{rel}"; orig = open(f"{REPO}/src/komm/{rel}", encoding="utf8").read()
        open(p, "w", encoding="utf8").write(orig[:m[0]] + m[2] + orig[m[1]:])
        pkg = rel.split("/")[0]; a, z = diffline(f"{REPO}/src/komm/{rel}", m)
        r = dict(file=rel, line=m[4], kind=m[3], old=a, new=z, a=m[0], z=m[1], text=m[2])
        try:
            near = [x for x in (f"tests/{pkg[1:]}", f"src/komm/{pkg}") if os.path.exists(f"{c}/{x}")]
            rc = run(pt + near, base, c, 240)
            if rc: r["status"] = "killed-by-tests"
            else:
                rc = run(pt + ["-n", "2"], base, c, 400)
                if rc: r["status"] = "killed-by-tests"
                else:
                    r["status"] = "SURVIVED"; r["tried"] = []
                    for pr in PROPS.get(pkg, "").split() + ["X03", "X02", "X04"]:
                        r["tried"].append(pr)
                        e = dict(os.environ, KOMM_REPO=c, KOMM_PBT_EVIDENCE=f"/tmp/mut/ev{w}", VERIF_SEED="1")
                        rc = run([V + "/run.py", "check", pr], e, V, 900)
                        if rc: r["status"] = "caught"; r["by"] = pr; r["rc"] = rc; break
        finally: open(p, "w", encoding="utf8").write(orig)
        with lock: out.write(json.dumps(r) + "\n"); out.flush()
    shutil.rmtree(c, ignore_errors=True); shutil.rmtree(f"/tmp/mut/ev{w}", ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]; J = 6; F = 1.0; SEED = 0
    for o in ("-j", "--sample", "--seed"):
        if o in a:
            i = a.index(o); v = a[i + 1]; del a[i:i + 2]
            if o == "-j": J = int(v)
            elif o == "--sample": F = float(v)
            else: SEED = int(v)
    dst, subs = a[0], a[1:]
    done = set()
    if os.path.exists(dst):
        for l in open(dst): d = json.loads(l); done.add((d["file"], d["a"], d["z"], d["text"]))
    files = sorted(os.path.relpath(os.path.join(r, f), REPO + "/src/komm") for r, _, fs in os.walk(REPO + "/src/komm") for f in fs if f.endswith(".py") and not f.startswith("__"))
    files = [f for f in files if "/" in f and not f.startswith("abc") and (not subs or any(s in f for s in subs))]
    todo = [(f, m) for f in files for m in mutants(f"{REPO}/src/komm/{f}") if (f, *m[:3]) not in done]
    random.Random(SEED).shuffle(todo)
    todo = todo[: int(len(todo) * F)]
    print(len(todo), "mutants"); os.makedirs("/tmp/mut", exist_ok=True)
    if os.environ.get("COUNT"): sys.exit()
    q = queue.Queue(); [q.put(t) for t in todo]; lock = threading.Lock()
    with open(dst, "a") as out:
        ts = [threading.Thread(target=work, args=(w, q, out, lock)) for w in range(J)]
        [t.start() for t in ts]; [t.join() for t in ts]
