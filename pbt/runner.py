"""Shared machinery: registration of sub-checks, deterministic generation, hang guard,
shrinking, replay files, known findings, evidence."""
from __future__ import annotations
import hashlib, importlib, json, math, multiprocessing, os, signal, sys, time, traceback, warnings

warnings.simplefilter("ignore")
PROPERTIES = {}          # id -> list[SubCheck]
RULES = {}               # id -> textual rule
ASSUME = {}              # id -> list[str]
HANG_CPU_S = float(os.environ.get("KOMM_PBT_HANG_S", "60"))


class Hang(BaseException):
    """The code under test consumed HANG_CPU_S seconds of CPU on one generated case."""


class StopShrink(BaseException):
    pass


class Skip(Exception):
    """Raised by an oracle when a case lies outside its domain (counted, never a failure)."""


class SubCheck:
    def __init__(self, prop, name, oracle, strategy=None, cases=None, quick=200, thorough=2000,
                 weight=1.0, nontrivial=None):
        self.prop, self.name, self.oracle = prop, name, oracle
        self.strategy, self.cases = strategy, cases
        self.quick, self.thorough, self.weight = quick, thorough, weight


def rule(prop, text, assumptions=()):
    RULES[prop] = text
    ASSUME[prop] = list(assumptions)


def check(prop, strategy=None, cases=None, quick=200, thorough=2000, weight=1.0, name=None):
    """Register oracle(case) -> bool|str|None.  Return value: falsy = trivial case;
    True or a string label = non-trivial (label feeds the class histogram)."""
    def deco(fn):
        PROPERTIES.setdefault(prop, []).append(
            SubCheck(prop, name or fn.__name__, fn, strategy, cases, quick, thorough, weight))
        return fn
    return deco


def jdump(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"), ensure_ascii=True)


def _alarm(signum, frame):
    raise Hang(f"no result after {HANG_CPU_S:.0f} s of CPU time on one case")


def run_case(sub, case):
    """Runs the oracle on one case under the CPU-time guard."""
    import komm, numpy as np
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU_S)
    try:
        komm.global_rng.set(np.random.default_rng(12345))
        with np.errstate(all="ignore"):
            return sub.oracle(case)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.seen = set()
        self.labels = {}
        self.samples = []

    def note(self, case, res):
        self.evaluations += 1
        if not res:
            self.labels["trivial"] = self.labels.get("trivial", 0) + 1
            return
        lab = res if isinstance(res, str) else "nontrivial"
        self.labels[lab] = self.labels.get(lab, 0) + 1
        text = jdump(case)
        h = hashlib.blake2b(text.encode(), digest_size=8).digest()
        if h not in self.seen:
            self.seen.add(h)
            n = len(self.seen)
            if len(text) <= 1500 and (len(self.samples) < 2 or (n & (n - 1)) == 0 and len(self.samples) < 4):
                self.samples.append(case)


def known_match(sub, case, known):
    key = jdump(case)
    for k in known:
        if k.get("property") == sub.prop and k.get("check") == sub.name and jdump(k.get("case")) == key:
            return k
    return None


def run_sub(args):
    """Worker: run one sub-check; returns a plain dict."""
    prop, index, seed, tier, known = args
    sub = PROPERTIES[prop][index]
    t0 = time.time()
    st = Stats()
    out = dict(name=sub.name, index=index, failure=None, error=None)
    best = {}

    def evaluate(case):
        if known_match(sub, case, known):
            return
        try:
            res = run_case(sub, case)
        except Skip:
            st.skipped += 1
            return
        except Hang as e:
            best.update(case=case, msg="HANG: " + str(e), hang=True)
            raise
        except RecursionError as e:
            msg = "RecursionError: " + str(e)
            _keep(best, case, msg)
            raise AssertionError(msg)
        except MemoryError as e:
            _keep(best, case, "MemoryError")
            raise AssertionError("MemoryError")
        except Exception as e:
            msg = f"{type(e).__name__}: {e}"
            tb = traceback.format_exc(limit=6)
            _keep(best, case, msg[:2000] + "\n" + tb[-2500:])
            raise
        st.note(case, res)

    try:
        n = sub.quick if tier == "quick" else sub.thorough
        if sub.cases is not None:
            failed = False
            for case in sub.cases(tier):
                try:
                    evaluate(case)
                except Exception:
                    failed = True
                    break
        else:
            _hypothesis(sub, evaluate, seed, n, best)
    except Hang:
        pass
    except StopShrink:
        pass
    except Exception:
        if not best:
            out["error"] = traceback.format_exc()
    if best:
        out["failure"] = dict(case=best["case"], msg=best["msg"])
    out.update(evaluations=st.evaluations, skipped=st.skipped, distinct=len(st.seen), labels=st.labels,
               samples=st.samples, wall=time.time() - t0)
    return out


def _keep(best, case, msg):
    now = time.time()
    text = jdump(case)
    if not best:
        best.update(first=now, size=len(text), case=case, msg=msg)
    elif len(text) <= best.get("size", 10**9):
        best.update(size=len(text), case=case, msg=msg)
    if now - best.get("first", now) > 40:
        raise StopShrink()


def _hypothesis(sub, evaluate, seed, n, best):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    # Hypothesis' span mutator mostly repeats sub-values (duplicate operands); plain random
    # generation explores these numeric domains better.
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    if hasattr(ConjectureRunner, "generate_mutations_from"):
        ConjectureRunner.generate_mutations_from = lambda self, data: None
    strat = sub.strategy() if callable(sub.strategy) and not hasattr(sub.strategy, "example") else sub.strategy

    def body(case):
        if best and time.time() - best.get("first", 0) > 40:
            raise StopShrink()
        evaluate(case)

    digest = hashlib.sha256(f"{seed}/{sub.prop}/{sub.name}".encode()).digest()
    hseed = int.from_bytes(digest[:8], "big")
    test = given(strat)(body)
    test = hypothesis.seed(hseed)(test)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    print_blob=False, phases=[Phase.generate, Phase.shrink],
                    verbosity=hypothesis.Verbosity.quiet)(test)
    try:
        test()
    except (Hang, StopShrink):
        raise
    except Exception:
        if best:
            return
        raise


def load_all():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("pbt.props." + f[:-3])


def load_known(here):
    path = os.path.join(here, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def _child(conn, job):
    try:
        import resource
        lim = 8 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    try:
        conn.send(run_sub(job))
    except BaseException:
        conn.send(dict(name=PROPERTIES[job[0]][job[1]].name, index=job[1], failure=None,
                       error=traceback.format_exc(), evaluations=0, skipped=0, distinct=0,
                       labels={}, samples=[], wall=0.0))
    conn.close()


def run_jobs(jobs, nproc, wall):
    """One forked process per sub-check, at most nproc at a time."""
    from multiprocessing.connection import wait as mpwait
    ctx = multiprocessing.get_context("fork")
    deadline = time.time() + wall
    pending, live, results = list(jobs), {}, []

    def blank(job, err):
        return dict(name=PROPERTIES[job[0]][job[1]].name, index=job[1], failure=None, error=err,
                    evaluations=0, skipped=0, distinct=0, labels={}, samples=[], wall=0.0)

    while pending or live:
        while pending and len(live) < nproc:
            job = pending.pop(0)
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(w, job), daemon=True)
            p.start()
            w.close()
            live[r] = (p, job)
        ready = mpwait(list(live), timeout=max(0.0, min(5.0, deadline - time.time())))
        for r in ready:
            p, job = live.pop(r)
            try:
                results.append(r.recv())
            except EOFError:
                p.join()
                results.append(blank(job, f"worker died with exit code {p.exitcode}"))
            p.join()
        if time.time() > deadline:
            for r, (p, job) in live.items():
                p.kill()
                results.append(blank(job, "wall-clock budget exhausted: inconclusive"))
            for job in pending:
                results.append(blank(job, "wall-clock budget exhausted: not started"))
            break
    return results


def cmd_check(prop, tier, here):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    load_all()
    if prop not in PROPERTIES:
        print(f"unknown property {prop}", file=sys.stderr)
        return 2
    import komm  # noqa: F401  (import errors are harness errors, not violations)
    only = os.environ.get("KOMM_PBT_ONLY")
    known = [k for k in load_known(here) if k.get("status") == "known"]
    subs = PROPERTIES[prop]
    jobs = [(prop, i, seed, tier, known) for i in range(len(subs)) if not only or subs[i].name in only.split(",")]
    jobs.sort(key=lambda j: -subs[j[1]].weight)
    nproc = int(os.environ.get("KOMM_PBT_JOBS", "0")) or min(len(jobs), max(1, os.cpu_count() or 1))
    results = run_jobs(jobs, nproc, float(os.environ.get("KOMM_PBT_WALL_S", "840" if tier == "quick" else "1e9")))
    results.sort(key=lambda r: r["index"])
    errors = [r for r in results if r["error"]]
    failures = [r for r in results if r["failure"]]
    # known findings: re-run each listed case and say whether it still fails
    for k in known:
        if k.get("property") != prop:
            continue
        sub = next((s for s in subs if s.name == k.get("check")), None)
        if sub is None:
            continue
        try:
            run_case(sub, k["case"])
        except Skip:
            pass
        except (Exception, Hang):
            print(f"KNOWN-FINDING: property={prop} {k.get('what', '')}")
    coverage = dict(
        evaluations=sum(r["evaluations"] for r in results),
        distinct_nontrivial=sum(r["distinct"] for r in results),
        rule=RULES.get(prop, "Hypothesis-generated cases; non-trivial as labelled by the oracle."),
        samples=[dict(check=r["name"], case=s) for r in results for s in r["samples"][:2]][:40],
        skipped=sum(r["skipped"] for r in results),
        checks=[dict(name=r["name"], evaluations=r["evaluations"], distinct_nontrivial=r["distinct"],
                     skipped=r["skipped"], classes=r["labels"], wall_s=round(r["wall"], 2)) for r in results],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
              assumptions=ASSUME.get(prop, []), wall_s=round(time.time() - t0, 2), violations=len(failures))
    evdir = os.environ.get("KOMM_PBT_EVIDENCE") or os.path.join(here, "evidence")   # tools/seedtest.py only
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    for r in results:
        print(f"  {prop}.{r['name']}: {r['evaluations']} cases, {r['distinct']} distinct non-trivial, "
              f"{r['wall']:.1f} s{' FAILED' if r['failure'] else ''}{' ERROR' if r['error'] else ''}")
    if failures:
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        for r in failures:
            path = os.path.join(rdir, f"{prop}-{r['name']}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump(dict(property=prop, check=r["name"], seed=seed, tier=tier, **r["failure"]), f, indent=1)
            print(f"--- {prop}.{r['name']} case: {jdump(r['failure']['case'])[:1500]}")
            print("    " + r["failure"]["msg"].replace("\n", "\n    ")[:3000])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for r in errors:
            print(f"harness error in {prop}.{r['name']}:\n{r['error']}", file=sys.stderr)
        return 2
    print(f"OK {prop} {tier} seed={seed} evaluations={coverage['evaluations']} "
          f"nontrivial={coverage['distinct_nontrivial']} wall={ev['wall_s']}s")
    return 0


def cmd_replay(path):
    load_all()
    d = json.load(open(path, encoding="utf-8"))
    sub = next(s for s in PROPERTIES[d["property"]] if s.name == d["check"])
    try:
        r = run_case(sub, d["case"])
    except Skip as e:
        print("case skipped:", e)
        return 0
    except (Exception, Hang) as e:
        traceback.print_exc()
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("case holds:", r)
    return 0


def main(argv, here):
    if argv[:1] == ["check"]:
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
        return cmd_check(argv[1], tier, here)
    if argv[:1] == ["replay"]:
        return cmd_replay(argv[1])
    if argv[:1] == ["list"]:
        load_all()
        for p in sorted(PROPERTIES):
            print(p, [s.name for s in PROPERTIES[p]])
        return 0
    print(__doc__)
    return 2
