from symx.run import Sc
from checks.opt import METHODS, build, check, run, target

BOUNDS = "2 assets, 2-3 periods, two symbolic targets / risk aversions; histories of 2-4 operations on one optimiser; real arithmetic"
OUTSIDE = "the numerical solver (assumed to return a feasible minimiser); nonconvex_objective (no problem is kept); float rounding"


def start(S, kind, method, mn=False, **kw):
    o = build(S, kind, n=2, **kw)
    t1 = target(S, o, method, "t")
    if kind == "EF" and method == "efficient_return":
        pass
    out = run(o, method, t1, mn or None)
    if not out.ok:          # rejected target: decided by the property of the method
        S.dead()
    return o, t1, out


def resolve(S, kind, method, mn=False, times=2, **kw):
    """the same method again with new targets: each time the documented problem for that target"""
    o, t1, out = start(S, kind, method, mn, **kw)
    for k in range(2, times + 1):
        t = target(S, o, method, "t%d" % k)
        w0 = S.flat(o.ef.weights)
        n0 = len(S.problems)
        out = run(o, method, t, mn or None)
        if not out.ok:
            # only a rejection of the target itself; the portfolio is kept
            S.claim("error.is.ValueError%d" % k, out.raised("ValueError"))
            S.claim("rejected.does.not.solve%d" % k, len(S.problems) == n0)
            if kind == "EF" and method == "max_quadratic_utility":
                S.claim("rejected.only.if.invalid%d" % k, S.le(t, 0))
            if kind == "EF" and method == "efficient_return":
                # the first accepted target had to be attainable; the cached maximum decides
                S.claim("rejected.only.if.larger%d" % k, S.lt(t1, t))
            if kind == "EF" and method == "efficient_risk":
                S.claim("rejected.only.if.smaller%d" % k, S.or_(S.lt(t, t1), S.lt(t, 0)))
            if kind == "SV" and method == "efficient_return":
                S.claim("rejected.only.if.larger%d" % k, S.or_(S.lt(t1, t), S.lt(t, 0)))
            S.claim("weights.kept%d" % k, S.eqs(o.ef.weights, w0))
            return
        S.claim("solved.again%d" % k, len(S.problems) == n0 + 1)
        check(o, out, method, t, mn, tag="#%d" % k)


def zeromax(S):
    """the largest attainable return is exactly 0"""
    S.solution_plan = lambda k, cap: [[1, 0]] if k == 0 else None
    cov = S.psd("c", 2)
    ef = S.pf.EfficientFrontier([0.0, -0.25], cov)
    t1, t2 = S.real("t1", lo=-1, hi=0), S.real("t2", lo=-1, hi=0)
    S.assume(S.and_(S.le(t1, 0), S.le(t2, 0)))
    out = S.call(ef.efficient_return, S.frac(t1))
    S.claim("first", out.ok)
    out = S.call(ef.efficient_return, S.frac(t2))
    S.claim("second", out.ok)


GUARDS = ["add_objective", "add_constraint", "add_sector", "neutral", "other"]


def guard(S, kind, method, g, mn=False, **kw):
    """after an optimisation the problem cannot be altered"""
    o, t1, out = start(S, kind, method, mn, **kw)
    ef = o.ef
    w0 = S.flat(ef.weights)
    b = S.real("gb", lo=0, hi=1)
    others = []
    if g == "add_objective":
        r = [S.call(ef.add_objective, S.pf.objective_functions.L2_reg, gamma=b)]
    elif g == "add_constraint":
        r = [S.call(ef.add_constraint, lambda w: w[0] <= b)]
    elif g == "add_sector":
        r = [S.call(ef.add_sector_constraints, {"AAA": "x", "BBB": "x"}, {}, {"x": b})]
    elif g == "neutral":
        t = t1
        r = [run(o, method, t, not mn)]
    else:
        others = [m for m in METHODS[kind] + (["max_sharpe", "_max_return"] if kind == "EF" else []) + ["convex_objective", "convex_nosum"] if m != method or t1 is None]
        i = S.choose(len(others), "other")
        m = others[i]
        if m == "convex_objective":
            r = [S.call(ef.convex_objective, lambda w: S.cp.sum_squares(w))]
        elif m == "convex_nosum":
            r = [S.call(ef.convex_objective, lambda w: S.cp.sum_squares(w), weights_sum_to_one=False)]
        elif m == "max_sharpe":
            S.assume(S.lt(0, S.smax(*o.mu)))
            r = [S.call(ef.max_sharpe)]
        elif m == "_max_return":
            r = [S.call(ef._max_return)]
        else:
            r = [run(o, m, S.real("tt", lo=.25, hi=2) if target(S, o, m, "tt") is not None else None, mn or None)]
    for x in r:
        S.claim("raises", not x.ok)
    S.claim("weights.kept", S.eqs(ef.weights, w0))
    if t1 is None:
        return
    t2 = target(S, o, method, "t2")
    if kind == "EF" and method == "efficient_return":
        S.assume(S.le(t2, t1))
    n0 = len(S.problems)
    out = run(o, method, t2, mn or None)
    if out.ok:
        check(o, out, method, t2, mn, tag="#after")
    elif g != "other":
        # nothing was altered, so the same optimisation still works
        S.claim("still.solvable", out.raised("ValueError"))


SCENARIOS = [Sc("zero-max-return", zeromax)]
for kind in ("EF", "SV", "CVAR", "CDAR"):
    for m in METHODS[kind]:
        kw = dict(kind=kind, method=m)
        full = dict(kw, bounds="short" if kind in ("EF", "CVAR") else "list", cons=["le"], objs=["l2"])
        if kind == "SV":
            full.update(freq="sym", bench="sym", T=3)
        if kind in ("CVAR", "CDAR"):
            full.update(beta="sym", T=2)
        if target.__call__ and not m.startswith("min_"):
            SCENARIOS.append(Sc("resolve-%s-%s" % (kind, m), resolve, full))
            SCENARIOS.append(Sc("resolve3-%s-%s" % (kind, m), resolve, dict(full, times=3), tier="thorough"))
            SCENARIOS.append(Sc("resolve-neutral-%s-%s" % (kind, m), resolve, dict(kw, mn=True, bounds="short")))
        for g in GUARDS:
            if g == "neutral" and m.startswith("min_"):
                continue
            SCENARIOS.append(Sc("%s-%s-%s" % (g, kind, m), guard, dict(kw, g=g, bounds="short")))
