"""Runner:  python -m symx.run C01 [--tier quick|thorough] [--only substring] [-v]"""
import argparse
import importlib
import itertools
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["OMP_NUM_THREADS"] = os.environ["OPENBLAS_NUM_THREADS"] = os.environ["MKL_NUM_THREADS"] = "1"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)


class Sc:
    """one scenario: a polymorphic function with fixed (concrete) shape parameters"""

    def __init__(self, name, fn, kw=None, tier="quick", **opts):
        self.name, self.fn, self.kw, self.tier, self.opts = name, fn, kw or {}, tier, opts


def load_real():
    """the real package, unpatched, from REPO's working tree"""
    import atexit
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix="symx-mpl-")
    os.environ["MPLCONFIGDIR"] = d
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    sys.path.insert(0, REPO)
    sys.path.append(VT)
    import cvxpy
    import numpy
    import pandas
    import scipy.cluster.hierarchy
    import scipy.optimize
    import scipy.spatial.distance
    import sklearn.covariance
    import matplotlib.pyplot
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import pypfopt
        for m in ("base_optimizer", "objective_functions", "exceptions", "expected_returns", "risk_models", "black_litterman",
                  "discrete_allocation", "hierarchical_portfolio", "plotting"):
            importlib.import_module("pypfopt." + m)
    assert os.path.abspath(pypfopt.__file__).startswith(os.path.abspath(REPO)), pypfopt.__file__
    return pypfopt


# ------------------------------------------------------------------ replay child
def replay_loop(conn, fn, kw, pf, timeout):
    from symx import harness
    while True:
        try:
            m = conn.recv()
        except EOFError:
            return
        if m is None:
            return
        wit, choices = m
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            r = harness.run_concrete(fn, kw, wit, choices, pf)
        except BaseException as e:
            r = dict(claims={}, obs={}, bad_assume=[], err="replay: " + "".join(traceback.format_exception(e))[-1500:], missing=[], trace=[])
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            conn.send(r)
        except OSError:
            return


class Replayer:
    def __init__(self, fn, kw, pf, timeout=60):
        self.a, b = mp.Pipe()
        self.p = mp.Process(target=self._go, args=(b, fn, kw, pf, timeout), daemon=True)
        self.p.start()
        b.close()

    def _go(self, b, fn, kw, pf, timeout):
        self.a.close()

        def alarm(*a):
            raise TimeoutError("replay timed out")
        signal.signal(signal.SIGALRM, alarm)
        replay_loop(b, fn, kw, pf, timeout)

    def run(self, wit, choices):
        self.a.send((wit, choices))
        return self.a.recv()

    def close(self):
        try:
            self.a.send(None)
            self.p.join(2)
        except Exception:
            pass
        if self.p.is_alive():
            self.p.kill()


# ------------------------------------------------------------------ symbolic child
def run_scenario(sc, pf, seed, tier):
    """executed in a forked process; returns a result dict"""
    t0 = time.time()
    rep = Replayer(sc.fn, sc.kw, pf)
    from symx import core as C, explore, harness, loader, pdpatch
    pdpatch.install()
    opts = dict(seed=seed, validate=3 if tier == "quick" else 12, query_ms=20000 if tier == "quick" else 60000,
                wall=200 if tier == "quick" else 1500, witnesses=6 if tier == "quick" else 10)
    opts.update(sc.opts)
    if tier != "quick":
        opts.update(opts.pop("thorough", {}))
    opts.pop("thorough", None)
    ex = explore.Explorer(opts)
    res = dict(name=sc.name, claims={}, violations=[], problems=[], validated=0, paths=0, functions=[], samples=[], claim_checks=0)
    funcs = set()
    mon = sys.monitoring
    tid = 4
    mon.use_tool_id(tid, "symx")
    root = os.path.join(REPO, "pypfopt") + os.sep

    def on_start(code, off):
        if code.co_filename.startswith(root):
            funcs.add(code.co_filename[len(root):-3].replace(os.sep, ".") + "." + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, on_start)
    mon.set_events(tid, mon.events.PY_START)
    cache = {}
    cur = {}

    first_at = []

    def body():
        S = harness.Sym(ex, pkg, opts)
        cur["S"] = S
        sc.fn(S, **sc.kw)

    def wit_json(w):
        return {k: str(v) for k, v in sorted(w.items())}

    def failing(r, first=None):
        """a claim that fails in a real run whose inputs meet the assumptions"""
        if r["err"] is not None or r["bad_assume"]:
            return None
        ks = [k for k, c in r["claims"].items() if not c[0]]
        return (first if first in ks else ks[0]) if ks else None

    def check_enough():
        """confirmed violations settle the verdict: the rest of the scenario need not be decided"""
        if not sc.known and (len(res["violations"]) >= 3 or (res["violations"] and time.time() - first_at[0] > 20)):
            raise Enough

    def note(name, r, w, S):
        first_at.append(time.time())
        if not any(v["claim"] == name for v in res["violations"]):
            res["violations"].append(dict(claim=name, scenario=sc.name, witness=wit_json(w), choices=list(S.choices),
                                          detail=r["claims"][name][1], obs=r["obs"], trace=r["trace"]))
        res["claims"][name] = "violated"

    def stuck(exc=None):
        """the encoding cannot follow the code beyond this point: replay inputs that lead here.
        An exception outside every guarded call, in the encoding and in the real run alike, means that
        the code returned something the property's formulas cannot be evaluated on (or failed on inputs
        the property covers)"""
        S = cur.get("S")
        if S is None or not S.names or res["violations"]:
            return
        C.ACTIVE[0] = None
        for w in ex.models(None, list(S.names), S.boxes, want=3, tries=9, ms=3000):
            r = rep.run(w, S.choices)
            bad = failing(r)
            if bad:
                note(bad, r, w, S)
                return
            if exc is not None and r.get("errtype") == type(exc).__name__ and not r["bad_assume"]:
                r["claims"]["well.formed"] = (False, r["err"][-600:])
                note("well.formed", r, w, S)
                return

    def edge(names, S):
        """models without margins, asked for only if those with margins did not do"""
        yield from ex.models(None, names, S.boxes, want=2, tries=9, ms=3000, margin=0)

    def on_path():
        S = cur["S"]
        names = list(S.names)
        if not S.claims:
            return
        # 1. claims
        check_enough()
        pck = frozenset(ex.pckeys)
        ex.lemmas = []
        for name, alts, _ in S.claims:
            check_enough()
            if name == "?":
                ex.hint(alts[0])
                continue
            res["claim_checks"] += 1
            verdict = None
            for ms in ([1000, None] if len(alts) > 1 else [None]):
                for a in alts:
                    key = (explore.bkey(a), pck, len(ex.lemmas), ms)
                    if key not in cache:
                        cache[key] = ex.prove_timed(a, name, ms)
                    verdict = cache[key]
                    if verdict == "proved":
                        break
                if verdict == "proved":
                    break
            if verdict != "proved" and len(alts) > 1:
                alt = C.b_or(*alts)
                key = (explore.bkey(alt), pck, len(ex.lemmas))
                if key not in cache:
                    cache[key] = ex.prove_timed(alt, name)
                verdict = cache[key]
            if verdict == "proved":
                res["claims"].setdefault(name, "proved")
                continue
            # not proved: look for a reproducible counterexample
            done = [v for v in res["violations"] if v["claim"] == name]
            if done:
                continue
            alt = alts[0] if len(alts) == 1 else C.b_or(*alts)
            tried, conf = 0, False
            tl = time.time() + opts.get("cex_s", 60)
            last = None
            for w in ex.models(alt, names, S.boxes, want=opts["witnesses"], tries=opts.get("tries", 24), ms=min(opts["query_ms"], 6000), wide=verdict == "refuted"):
                tried += 1
                r = rep.run(w, S.choices)
                last = (w, r)
                bad = failing(r, name)
                if bad:
                    note(bad, r, w, S)
                    res["claims"][name] = "violated"
                    conf = True
                    break
                if time.time() > tl:
                    break
            if not conf:
                res["claims"][name] = "inconclusive"
                res["problems"].append("claim %s: %s, %d witnesses, none reproduced%s" % (
                    name, verdict, tried, "" if last is None else ": last " + json.dumps(dict(
                        w=wit_json(last[0]), err=last[1]["err"], bad=last[1]["bad_assume"], c=last[1]["claims"].get(name), trace=last[1]["trace"]))[:1500]))
        # 2. validation of the encoding on a witness of this path
        if res["validated"] < opts["validate"]:
            ok = None
            for w in itertools.chain(ex.models(None, names, S.boxes, want=3, tries=9, ms=3000), edge(names, S)):
                r = rep.run(w, S.choices)
                if r["bad_assume"]:
                    continue
                bad = failing(r)
                if bad:
                    note(bad, r, w, S)
                    break
                env = {}
                for nm, v in w.items():
                    env[nm] = float(v)
                bad = []
                for nm, v in S.obs:
                    try:
                        a = harness.sym_tolist(v, env)
                    except (ZeroDivisionError, OverflowError, ValueError) as e:
                        a = "?" + repr(e)
                    b = r["obs"].get(nm)
                    if not harness.agree(a, b):
                        bad.append("%s: encoded %s, real %s" % (nm, str(a)[:200], str(b)[:200]))
                if r["err"] is not None:
                    bad.append(r["err"])
                # an observation mismatch where a claim is violated anyway needs no further validation
                if not bad:
                    ok = True
                    if len(res["samples"]) < 2:
                        res["samples"].append(dict(scenario=sc.name, witness=wit_json(w), observed={k: r["obs"][k] for k in list(r["obs"])[:4]}))
                    break
                ok = (bad, wit_json(w), r["trace"])
            if ok is True:
                res["validated"] += 1
            elif ok is not None:
                # a real run that violates a claim on this witness is itself a counterexample
                res["mismatch"] = res.get("mismatch", 0) + 1
                res["problems"].append("encoding mismatch: %s" % json.dumps(ok)[:2500])
            else:
                res["novalid"] = res.get("novalid", 0) + 1

    try:
        pkg = loader.load()
        # formatting the package's messages etc.
        ex.run(body, on_path)
    except Enough:
        pass
    except C.Budget as e:
        res["problems"].append("budget: %s" % e)
    except C.SymEscape as e:
        tb = traceback.extract_tb(e.__traceback__)
        res["problems"].append("escape: %s @ %s" % (e, "; ".join("%s:%d" % (os.path.basename(x.filename), x.lineno) for x in tb[-9:])))
        try:
            stuck()
        except BaseException as e2:
            res["problems"].append("stuck: %r" % e2)
    except BaseException as e:
        res["problems"].append("error: " + "".join(traceback.format_exception(e))[-3000:])
        try:
            stuck(e)
        except BaseException as e2:
            res["problems"].append("stuck: %r" % e2)
    mon.set_events(tid, 0)
    if ex.stats["paths"] == 0:
        res["problems"].append("no feasible path")
    elif not res["claims"]:
        res["problems"].append("no claim reached")
    elif res["validated"] == 0 and opts["validate"] and not res["problems"] and not res["violations"]:
        res["problems"].append("no path witness could be replayed")
    rep.close()
    res.update(paths=ex.stats["paths"], stats=ex.stats, functions=sorted(funcs), wall=time.time() - t0)
    res["assumed_nonzero"] = len(ex.assumed_nonzero)
    return res


class Enough(Exception):
    pass


def child(sc, pf, seed, tier, conn):
    try:
        r = run_scenario(sc, pf, seed, tier)
    except BaseException as e:
        r = dict(name=sc.name, claims={}, violations=[], problems=["error: " + "".join(traceback.format_exception(e))[-3000:]], validated=0,
                 paths=0, functions=[], samples=[], stats={}, wall=0, claim_checks=0)
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                d = json.loads(l[len("finding: "):])
                if d["property"] == prop:
                    out.append(d)
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    pf = load_real()
    import z3
    from symx import core, explore, harness, loader, cpshim     # noqa  (shared by the forked children)
    m = importlib.import_module("checks." + a.prop.lower())
    scs = [s for s in m.SCENARIOS if (a.tier == "thorough" or s.tier == "quick") and (not a.only or a.only in s.name)]
    assert len(set(s.name for s in m.SCENARIOS)) == len(m.SCENARIOS), "scenario names"
    kf = known_findings(a.prop)
    for s in scs:
        s.known = any(d["scenario"] == s.name for d in kf)
    found = []
    budget = 820 if a.tier == "quick" else 6000
    pend, live, results = list(reversed(scs)), {}, []
    while pend or live:
        while pend and len(live) < a.j:
            s = pend.pop()
            ca, cb = mp.Pipe(False)
            p = mp.Process(target=child, args=(s, pf, seed, a.tier, cb))
            p.start()
            cb.close()
            live[ca] = (p, s, time.time())
        for c in mp.connection.wait(list(live), timeout=1):
            p, s, t = live.pop(c)
            try:
                r = c.recv()
            except EOFError:
                r = dict(name=s.name, claims={}, violations=[], problems=["scenario process died"], validated=0, paths=0, functions=[],
                         samples=[], stats={}, wall=time.time() - t, claim_checks=0)
            p.join(5)
            results.append(r)
            found += [time.time() for v in r["violations"] if not any(d["scenario"] == v["scenario"] and d["claim"] == v["claim"] for d in kf)]
            if a.v:
                print("%-46s %5.1fs paths %d claims %s val %d %s%s" % (
                    r["name"], r["wall"], r["paths"], "/".join("%d %s" % (sum(v == k for v in r["claims"].values()), k) for k in
                                                             ("proved", "violated", "inconclusive") if any(v == k for v in r["claims"].values())),
                    r["validated"], "VIOL " if r["violations"] else "", "PROBLEM" if r["problems"] else ""), flush=True)
                for v in r["violations"]:
                    print("    violated %s  %s" % (v["claim"], json.dumps(dict(w=v["witness"], d=v["detail"], obs=v["obs"]))[:900]))
                for x in r["problems"]:
                    print("    problem:", x[:3000])
        if found and (len(found) >= int(os.environ.get("SYMX_FIRST", 5)) or time.time() - found[0] > 45):
            for c, (p, s, t) in live.items():
                p.kill()
            break
        if time.time() - t0 > budget:
            for c, (p, s, t) in live.items():
                p.kill()
                results.append(dict(name=s.name, claims={}, violations=[], problems=["check ran out of time"], validated=0, paths=0, functions=[],
                                    samples=[], stats={}, wall=time.time() - t, claim_checks=0))
            break
    return report(a.prop, a.tier, seed, scs, results, t0, m)


def report(prop, tier, seed, scs, results, t0, m):
    known = known_findings(prop)
    viol, kf = [], []
    for r in results:
        for v in r["violations"]:
            k = [d for d in known if d["scenario"] == v["scenario"] and d["claim"] == v["claim"]]
            (kf if k else viol).append((v, k[0] if k else None))
    problems = [(r["name"], x) for r in results for x in r["problems"]]
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)

    def tot(k):
        return sum(r["stats"].get(k, 0) for r in results)
    cov = dict(
        states=sum(r["paths"] for r in results), transitions=tot("decisions") + sum(r["claim_checks"] for r in results),
        traces_validated_against_impl=sum(r["validated"] for r in results),
        samples=[s for r in results for s in r["samples"]][:12] or ["none"],
        meaning="states: symbolic paths explored to the end; transitions: branch decisions taken on symbolic values plus claims decided "
                "at path ends; traces: path witnesses re-run on the real package with equal observations",
        scenarios=[dict(name=r["name"], paths=r["paths"], claims=r["claims"], validated=r["validated"], wall_s=round(r["wall"], 2)) for r in results],
        bounds=getattr(m, "BOUNDS", ""), outside=getattr(m, "OUTSIDE", ""),
        functions_encoded=sorted({f for r in results for f in r["functions"]}),
        claims_decided=sum(r["claim_checks"] for r in results),
        solver=dict(queries=tot("feas_queries") + tot("by_solver"), obligations=tot("obligations"), by_normal_form=tot("by_normal_form"),
                    by_solver=tot("by_solver"), feasibility=tot("feas_queries"), infeasible_paths=tot("infeasible"), solver_s=round(tot("solver_s"), 2)),
        inconclusive=[{"scenario": n, "what": x[:500]} for n, x in problems],
        violations=[v for v, _ in viol], known=[v for v, _ in kf])
    doc = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 2))
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1, default=str)
    for v, k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d scenarios, %d paths, %d claims decided, %d traces validated, %d solver-proved, %.1fs (solver %.1fs)" % (
        prop, tier, len(results), cov["states"], cov["claims_decided"], cov["traces_validated_against_impl"], tot("by_solver"), doc["wall_s"], tot("solver_s")))
    if viol:
        for n, (v, _) in enumerate(viol[:5]):
            p = os.path.join(ev, "%s.violation%d.json" % (prop, n))
            with open(p, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("   scenario %s, claim %s, inputs %s" % (v["scenario"], v["claim"], json.dumps(v["witness"])[:600]))
            print("   %s" % v["detail"][:500])
        return 1
    if problems:
        for n, x in problems:
            print("INCONCLUSIVE property=%s scenario=%s: %s" % (prop, n, x[:800]))
        # what was explored held; without an answer for most scenarios there is no verdict
        return 2 if 2 * len({n for n, _ in problems}) > len(results) else 0
    if len(results) < len(scs):
        return 2
    return 0


def replay(path, prop):
    """re-run a violation file on the real package"""
    pf = load_real()
    from symx import harness
    v = json.load(open(path))
    m = importlib.import_module("checks." + prop.lower())
    sc = [s for s in m.SCENARIOS if s.name == v["scenario"]][0]
    r = harness.run_concrete(sc.fn, sc.kw, {k: Fraction(x) for k, x in v["witness"].items()}, v["choices"], pf)
    print(json.dumps(dict(claim=v["claim"], result=r["claims"].get(v["claim"]), obs=r["obs"]), indent=1, default=str))
    return 0 if r["claims"].get(v["claim"], (False,))[0] else 1


if __name__ == "__main__":
    if "--selftest" in sys.argv:
        sys.path.append(VT)
        from symx import selftest
        sys.exit(selftest.main())
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2], os.path.basename(sys.argv[2]).split(".")[0]))
    sys.exit(main())
