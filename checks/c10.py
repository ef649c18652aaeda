from symx.run import Sc
from checks.opt import METHODS, build, check, run, target

BOUNDS = "2 assets, 2 periods; every optimiser and method, every solver status at the first or second solve; symbolic data; real arithmetic"
OUTSIDE = "which class is raised when cvxpy itself gives up (its SolverError passes through or is wrapped); nonconvex_objective (scipy reports no such status)"

STATUS = ["infeasible", "unbounded", "infeasible_inaccurate", "unbounded_inaccurate", "user_limit", "solver_error", "infeasible_or_unbounded", "DCPError", "SolverError"]
GOOD = ["optimal", "optimal_inaccurate"]


def call(S, o, method, tt="t"):
    if method == "max_sharpe":
        S.assume(S.lt(0, S.smax(*o.mu)))
        return S.call(o.ef.max_sharpe)
    if method == "convex_objective":
        return S.call(o.ef.convex_objective, lambda w: S.cp.sum_squares(w))
    t = target(S, o, method, tt)
    if t is not None and method == "max_quadratic_utility":
        S.assume(S.lt(0, t))
    if o.kind == "EF" and method == "efficient_risk":
        s = o.cov[0, 0] + o.cov[1, 1] - 2 * o.cov[0, 1]
        S.assume(S.lt(0, s))
        S.assume(S.and_(S.lt(0, t), S.le(o.cov[0, 0] * o.cov[1, 1] - o.cov[0, 1] * o.cov[0, 1], t * t * s)))
    if o.kind == "SV" and method == "efficient_return":
        S.assume(S.and_(S.le(0, t), S.le(t, S.smax(*o.mu))))
    if o.kind == "EF" and method == "efficient_return":
        S.assume(S.le(t, S.smin(*o.mu)))
    return run(o, method, t)


def refused(out, st):
    return out.raised("OptimizationError", *(["SolverError"] if st == "SolverError" else []))


def fails(S, kind, method, at=0):
    """the at-th solve fails"""
    o = build(S, kind, n=2)
    st = STATUS[S.choose(len(STATUS), "status")]
    S.status_plan = lambda k: st if k == at else "optimal"
    if kind == "EF" and method == "efficient_return" and at:
        S.solution_plan = lambda k, cap: [[1, 0]] if k == 0 else None
    out = call(S, o, method)
    S.claim("fails", not out.ok)
    S.claim("is.OptimizationError", refused(out, st))
    S.claim("no.weights", o.ef.weights is None)
    S.claim("solved", len(S.problems) == at + 1)
    if o.ef.weights is None:
        S.claim("no.clean.weights", not S.call(o.ef.clean_weights).ok)


def again(S, kind, method):
    """succeeds, then fails for a new target"""
    o = build(S, kind, n=2)
    st = STATUS[S.choose(len(STATUS), "status")]
    bad = [False]
    S.status_plan = lambda k: st if bad[0] else "optimal"
    if kind == "EF" and method == "efficient_return":
        S.solution_plan = lambda k, cap: [[1, 0]] if k == 0 else None
    out = call(S, o, method)
    S.claim("first", out.ok)
    bad[0] = True
    out = call(S, o, method, "t2")
    S.claim("second.is.OptimizationError", refused(out, st))
    # and succeeds again
    bad[0] = False
    out = call(S, o, method, "t3")
    S.claim("third", out.ok)
    if out.ok:
        S.claim("third.solution", any_solution(S, out))


def any_solution(S, out):
    cap = S.last
    w = S.flat(out.value)
    return S.or_(*[S.eqs(w, S.flat(cap.sol[v.id])) for v in cap.vars if v.size == len(w)])


def succeeds(S, kind, method):
    o = build(S, kind, n=2)
    st = GOOD[S.choose(2, "status")]
    S.status_plan = lambda k: st
    if kind == "EF" and method == "efficient_return":
        S.solution_plan = lambda k, cap: [[1, 0]] if k == 0 else None
    out = call(S, o, method)
    S.claim("ok", out.ok)
    if out.ok:
        w = S.flat(out.value)
        S.observe("w", w)
        S.claim("weights.stored", S.eqs(o.ef.weights, w))
        if method != "max_sharpe":          # transformed problem: decided by C05
            S.claim("weights.are.solution", any_solution(S, out))


def lp(S, how):
    prices = S.series(S.vec("p", 2, pos=True, hi=100), ["AAA", "BBB"])
    sts = [x for x in STATUS if x != "DCPError"] if how == "bad" else GOOD
    st = sts[S.choose(len(sts), "status")]
    S.status_plan = lambda k: st
    v = S.real("v", pos=True, hi=1000)
    da = S.pf.DiscreteAllocation({"AAA": .25, "BBB": .75}, prices, total_portfolio_value=v)
    xs = [S.real("x%d" % j, lo=0, hi=2, isint=True) for j in range(2)]
    for x in xs:
        S.bound(x, 0, 2)
    S.solution_plan = lambda k, cap: [xs if sh == (2,) and it else
                                      [S.real("u%d_%d" % (i, j)) for j in range(sh[0] if sh else 1)] if sh else S.real("r%d" % i)
                                      for i, (sh, it) in enumerate(shapes(cap))]
    out = S.call(da.lp_portfolio)
    if how == "bad":
        S.claim("lp.fails", refused(out, st))
    else:
        S.claim("lp.ok", out.ok)


def shapes(cap):
    return [(v.shape, bool(v.attributes.get("integer"))) for v in cap.vars]


SCENARIOS = []
for kind in ("EF", "SV", "CVAR", "CDAR"):
    for m in METHODS[kind] + (["max_sharpe"] if kind == "EF" else []) + ["convex_objective"]:
        SCENARIOS.append(Sc("fails-%s-%s" % (kind, m), fails, dict(kind=kind, method=m)))
        SCENARIOS.append(Sc("succeeds-%s-%s" % (kind, m), succeeds, dict(kind=kind, method=m)))
        if not m.startswith("min_") and m not in ("max_sharpe", "convex_objective"):
            SCENARIOS.append(Sc("again-%s-%s" % (kind, m), again, dict(kind=kind, method=m)))
SCENARIOS.append(Sc("fails-second-EF-efficient_return", fails, dict(kind="EF", method="efficient_return", at=1)))
SCENARIOS += [Sc("lp-bad", lp, dict(how="bad")), Sc("lp-good", lp, dict(how="good"))]
