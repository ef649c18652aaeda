from symx.run import Sc
from . import alloc

BOUNDS = "2-3 assets, all weights (zero or not, summing to at most one), prices and budgets, every label order, extra priced tickers, float and integer price series; solver solutions within 1/1000 of share counts 0-7; every solver status; the optimality of the integer programme over all real share counts"
OUTSIDE = "whether the mixed-integer solver finds the optimum; float rounding"

VECS = {2: [(1, 2), (2, 1), (0, 3), (3, 0)], 3: [(1, 2, 3), (3, 1, 2), (0, 2, 1), (5, 0, 7)]}


def deviation(S, t, V, p, x):
    return S.sum([S.abs(a - k * b) for a, b, k in zip(t, p, x)]) + V - S.dot(p, x)


def programme(S, cap, t, V, p, n):
    """the captured problem, over all share counts, against its definition; t and p in the order of its variable"""
    ints = [i for i, v in enumerate(cap.vars) if v.attributes.get("integer")]
    S.claim("one.integer.variable", len(ints) == 1 and cap.shapes()[ints[0]] == (n,))
    if len(ints) != 1 or cap.shapes()[ints[0]] != (n,):
        return
    k = ints[0]
    free = [[S.real("v%d_%d" % (i, j), lo=-10, hi=10) for j in range(n if s else 1)] if s else S.real("v%d" % i, lo=-10, hi=10) for i, s in enumerate(cap.shapes())]
    x = free[k]
    e = cap.env(free)
    f = cap.feasible(e)
    S.claim("only.affordable.long", S.implies(f, S.and_(S.le(S.dot(p, x), V), *[S.le(0, a) for a in x])))
    S.claim("objective.not.less", S.implies(f, S.le(deviation(S, t, V, p, x), cap.obj(e))))
    y = [S.real("y%d" % j, nonneg=True, hi=10) for j in range(n)]
    exact = [S.abs(a - b * c) for a, b, c in zip(t, y, p)]
    others = [i for i in range(len(cap.vars)) if i != k]
    if others and (len(others) > 1 or cap.shapes()[others[0]] != (n,)):
        raise NotImplementedError("auxiliary variables of an unknown kind")
    e = cap.env([y if i == k else exact for i in range(len(cap.vars))])
    S.claim("all.affordable.allowed", S.implies(S.le(S.dot(p, y), V), cap.feasible(e)))
    S.claim("objective.attained", S.eq(cap.obj(e), deviation(S, t, V, p, y)))


def lp(S, n=2, solver=None, status=None, sorted_first=False, verbose=False, wobble=False, prove=True, **k):
    t, V, w, p, names, P = alloc.market(S, n, **k)
    d = S.call(S.pf.DiscreteAllocation, dict(zip(names, w)), P, V)
    S.claim("constructed", d.ok)
    if not d.ok:
        return
    d = d.value
    if sorted_first:
        S.call(d.greedy_portfolio)
    vec = VECS[n][S.choose(len(VECS[n]), "solution")]
    eps = [S.real("e%d" % i, lo=-.001, hi=.001) for i in range(n)] if wobble else [0] * n
    for x in eps:
        if wobble:
            S.bound(x, -.001, .001)

    def plan(i, cap):
        return [[a + b for a, b in zip(vec, eps)] if v.attributes.get("integer") else [S.real("u%d" % j) for j in range(v.size)] for v in cap.vars]
    S.solution_plan = plan
    if status:
        st = status[S.choose(len(status), "status")]
        S.status_plan = lambda i: st
    kw = {} if solver is None else dict(solver=solver)
    if verbose:
        kw["verbose"] = True
    o = S.call(d.lp_portfolio, **kw)
    S.claim("one.problem", len(S.problems) == 1)
    if len(S.problems) != 1:
        return
    S.claim("solver", S.last.kw.get("solver") == (solver or "ECOS_BB"))
    if status and st not in ("optimal", "optimal_inaccurate"):
        S.claim("failure.raised", o.raised("OptimizationError", "SolverError"))
        return
    S.claim("ok", o.ok)
    if not o.ok:
        return
    al, left = o.value
    S.observe("left", left)
    N = alloc.counts(S, al, names)
    S.claim("kept", d.allocation == al)
    S.claim("solution.reported", sorted(N) == sorted(vec))
    if sorted(N) != sorted(vec):
        return
    tol = .001 * S.sum(p) if wobble else 0
    cost = S.dot(N, p)
    S.claim("leftover", S.and_(S.le(cost + left, V + tol), S.le(V - tol, cost + left)))
    perm = [N.index(v) for v in vec]              # solver's position -> ticker
    if prove:
        programme(S, S.last, [t[i] for i in perm], V, [p[i] for i in perm], n)


ST = ["optimal", "optimal_inaccurate", "infeasible", "unbounded", "infeasible_inaccurate", "SolverError", "user_limit"]
SCENARIOS = [
    Sc("two", lp), Sc("two-cash", lp, dict(cash=True)), Sc("two-order", lp, dict(order=(1, 0))), Sc("two-extra", lp, dict(extra=True)),
    Sc("two-extra-order", lp, dict(extra=True, order=(1, 0), prove=False)), Sc("two-zero", lp, dict(zero=(0,))), Sc("greedy-first", lp, dict(prices=(2.5, 4), value=11, sorted_first=True)),
    Sc("verbose", lp, dict(verbose=True)), Sc("solver", lp, dict(solver="SCIPY")), Sc("status", lp, dict(status=ST, prove=False)), Sc("wobble", lp, dict(wobble=True, prove=False)),
    Sc("int-prices", lp, dict(prices=(2, 5), value=13, cap=9)), Sc("numeric", lp, dict(prices=(2.5, 7.25), value=20, cap=9)),
    Sc("three", lp, dict(n=3)), Sc("three-order", lp, dict(n=3, order=(2, 0, 1))), Sc("three-zero", lp, dict(n=3, zero=(1,), prices=(2.5, 4, 3), value=11)),
    Sc("three-numeric", lp, dict(n=3, prices=(2.5, 4, 3), value=11, order=(1, 0, 2), extra=True, cash=True)),
]
