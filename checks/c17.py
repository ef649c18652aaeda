from symx.run import Sc
from symx.optspec import posed, bounds_spec
from checks.opt import add, build

BOUNDS = "2-4 assets, symbolic data, parameters, bounds, constraints, starting points and solver answers; convex and nonconvex entry points, every optimiser class; real arithmetic"
OUTSIDE = "the numerical solvers (cvxpy assumed to return a feasible minimiser, scipy's point is returned whatever it is); cvxpy's convexity analysis; objectives with logarithms or entropy"


def convex(S, obj="te", flag=None, kind="EF", **kw):
    o = build(S, kind, **kw)
    n = o.n
    bw = S.vec("bw", n, lo=0, hi=1)
    k = S.real("k", lo=0, hi=2)
    S.assume(S.le(0, k))
    cov = o.cov if kind == "EF" else S.psd("c", n)
    b = S.flat(bw)
    mu = S.vec("m", n, lo=-1, hi=1)
    cp = S.cp
    of = S.pf.objective_functions
    a, kws = (), {}
    if obj == "te":
        f, kws = of.ex_ante_tracking_error, dict(cov_matrix=cov, benchmark_weights=bw)
        F = lambda w: S.quad(cov, [x - y for x, y in zip(w, b)])
    elif obj == "custom":
        f, kws = (lambda w, c, kk=.1: cp.quad_form(w, c) + kk * cp.norm(w - bw, 1)), dict(c=cov, kk=k)
        F = lambda w: S.quad(cov, w) + k * S.sum([S.abs(x - y) for x, y in zip(w, b)])
    elif obj == "default-arg":
        f, kws = (lambda w, kk=.25: cp.sum_squares(w) - kk * (mu @ w)), {}
        F = lambda w: S.dot(w, w) - S.dot(mu, w) / 4
    elif obj == "max":
        f, kws = (lambda w: cp.max(cp.abs(w)) + k * cp.sum(cp.square(w - bw))), {}
        F = lambda w: S.smax(*[S.abs(x) for x in w]) + k * S.sum([(x - y) * (x - y) for x, y in zip(w, b)])
    elif obj == "linear":
        f, kws = (lambda w, m: -m @ w), dict(m=mu)
        F = lambda w: -S.dot(mu, w)
    if flag is not None:
        kws["weights_sum_to_one"] = flag
    out = S.call(o.ef.convex_objective, f, **kws)
    S.claim("ok", out.ok)
    if not out.ok:
        return
    w = S.flat(out.value)
    S.observe("w", w)
    S.claim("labels", list(out.value.keys()) == list(o.ef.tickers))
    S.claim("weights.stored", S.eqs(o.ef.weights, w))
    S.claim("one.solve", len(S.problems) == 1)

    def spec(q, aux):
        r = bounds_spec(S, q, o.lo, o.hi) + [(nm, c(q)) for nm, c in o.extra]
        if flag is not False:
            r.append(("sum", S.eq(S.sum(q), 1)))
        return r
    posed(S, S.last, w, spec, lambda q, aux: F(q) + add(o, q))


def cond(S, c, q):
    a = c.get("args", ())
    v = S.flat(c["fun"](q, *a))
    t = c["type"]
    assert t in ("eq", "ineq")
    return S.and_(*[S.eq(x, 0) if t == "eq" else S.le(0, x) for x in v])


def nobound(x):
    return x is None or (isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))))


def nonconvex(S, args=1, flag=None, cons=0, guess=False, method=None, kind="EF", again=False, **kw):
    o = build(S, kind, **kw)
    n = o.n
    m = S.vec("m", n, lo=-1, hi=1)
    k = S.real("k", lo=0, hi=2)
    b = S.real("cb", lo=0, hi=1)
    seen = []
    if args == 0:
        f, F, kws = (lambda w, x: w @ w), (lambda w: S.dot(w, w)), {}
    elif args == 1:
        f, F, kws = (lambda w, mm: w @ w - w @ mm), (lambda w: S.dot(w, w) - S.dot(w, m)), dict(objective_args=m)
    elif args == "tuple1":
        f, F, kws = (lambda w, mm: w @ w - w @ mm), (lambda w: S.dot(w, w) - S.dot(w, m)), dict(objective_args=(m,))
    else:
        f, F, kws = (lambda w, mm, kk: w[0] * w[1] - kk * (w @ mm)), (lambda w: w[0] * w[1] - k * S.dot(w, m)), dict(objective_args=(m, k))
    if flag is not None:
        kws["weights_sum_to_one"] = flag
    user = []
    if cons:
        user = [{"type": "ineq", "fun": lambda w: b - w[0] * w[1]}, {"type": "eq", "fun": lambda w: w[0] - b},
                {"type": "ineq", "fun": lambda w, z: w[1] - z, "args": (k,)}][:cons]
        kws["constraints"] = list(user)
    x0 = None
    if guess:
        x0 = S.vec("g", n, lo=-1, hi=1)
        kws["initial_guess"] = x0
    if method:
        kws["solver"] = method
    _nonconvex(S, o, n, f, F, kws, user, flag, guess, x0, method)
    if again:
        # the caller's own list serves a second request with the other sum rule
        flag = False if flag is not False else None
        kws.pop("weights_sum_to_one", None)
        if flag is not None:
            kws["weights_sum_to_one"] = flag
        _nonconvex(S, o, n, f, F, kws, user, flag, guess, x0, method, 1)


def _nonconvex(S, o, n, f, F, kws, user, flag, guess, x0, method, again=0):
    P = "again." if again else ""
    out = S.call(o.ef.nonconvex_objective, f, **kws)
    S.claim(P + "ok", out.ok)
    S.claim(P + "one.minimisation", len(S.minimizes) == 1 + again)
    if not out.ok or len(S.minimizes) != 1 + again:
        return
    M = S.minimizes[again]
    S.claim(P + "weights.are.the.point", S.eqs(S.flat(out.value), S.flat(M["x"])))
    S.claim(P + "weights.stored", S.eqs(o.ef.weights, S.flat(M["x"])))
    S.claim(P + "labels", list(out.value.keys()) == list(o.ef.tickers))
    q = S.vec("q", n, lo=-2, hi=2)
    ql = S.flat(q)
    S.claim(P + "objective", S.eq(S.flat(M["fun"](q, *M["args"]))[0], F(ql)))
    S.claim(P + "start", S.eqs(S.flat(M["x0"]), S.flat(x0) if guess else [S.frac(1) / n] * n))
    S.claim(P + "method", M["method"] == (method or "SLSQP"))
    bd = M["bounds"]
    if hasattr(bd, "lb"):
        bd = list(zip(bd.lb, bd.ub))
    S.claim(P + "bounds.number", bd is not None and len(bd) == n)
    cs = []
    for x, (l, h) in zip(ql, bd):
        if not nobound(l):
            cs.append(S.le(l, x))
        if not nobound(h):
            cs.append(S.le(x, h))
    con = M["constraints"]
    con = [con] if isinstance(con, dict) else list(con)
    want = [c for _, c in bounds_spec(S, ql, o.lo, o.hi)]
    for i, c in enumerate(want):
        S.claim(P + "bound.respected%d" % i, S.implies(S.and_(*cs), c))
    S.claim(P + "no.other.bound", S.implies(S.and_(*want), S.and_(*cs)))
    posed_ = S.and_(*[cond(S, c, q) for c in con])
    docs = [cond(S, c, q) for c in user]
    if flag is not False:
        docs.append(S.eq(S.sum(ql), 1))
    for i, c in enumerate(docs):
        S.claim(P + "condition%d" % i, S.implies(posed_, c))
    S.claim(P + "no.other.condition", S.implies(S.and_(*docs), posed_))


SCENARIOS = []
for obj in ("te", "custom", "default-arg", "max", "linear"):
    SCENARIOS.append(Sc("convex-" + obj, convex, dict(obj=obj)))
SCENARIOS += [
    Sc("convex-3", convex, dict(obj="te", n=3, bounds="list")),
    Sc("convex-no-sum", convex, dict(obj="te", flag=False, bounds="list")),
    Sc("convex-sum", convex, dict(obj="custom", flag=True, bounds="sym")),
    Sc("convex-constraints", convex, dict(obj="te", n=3, cons=["le", "ge"], bounds="short")),
    Sc("convex-constraints-no-sum", convex, dict(obj="linear", flag=False, cons=["le", "eq"], bounds="list")),
    Sc("convex-objectives", convex, dict(obj="te", objs=["l2", "tc", "lin"])),
    Sc("convex-objectives-twice", convex, dict(obj="te", objs=["l2", "lin", "l2", "lin"])),
    Sc("convex-objectives-no-sum", convex, dict(obj="default-arg", objs=["l2"], flag=False, bounds="short")),
    Sc("convex-open", convex, dict(obj="custom", bounds="half")),
    Sc("convex-none", convex, dict(obj="te", mu="none", cons=["cap"])),
    Sc("convex-everything", convex, dict(obj="custom", n=3, bounds="list", cons=["le", "ge", "cap"], objs=["l2", "tc", "lin"]), tier="thorough"),
]
for kind in ("SV", "CVAR", "CDAR"):
    SCENARIOS.append(Sc("convex-" + kind, convex, dict(obj="te", kind=kind, bounds="list", cons=["le"], objs=["l2"])))
    SCENARIOS.append(Sc("nonconvex-" + kind, nonconvex, dict(kind=kind, bounds="list")))
SCENARIOS += [
    Sc("nonconvex-plain", nonconvex, dict(args=1)),
    Sc("nonconvex-args0", nonconvex, dict(args=0, n=3)),
    Sc("nonconvex-tuple1", nonconvex, dict(args="tuple1", n=3, form="array", mu="array")),
    Sc("nonconvex-args2", nonconvex, dict(args=2, n=3, bounds="list", guess=True)),
    Sc("nonconvex-no-sum", nonconvex, dict(args=2, flag=False, bounds="sym")),
    Sc("nonconvex-sum", nonconvex, dict(args=2, flag=True, bounds="short")),
    Sc("nonconvex-constraint", nonconvex, dict(args=1, cons=1)),
    Sc("nonconvex-constraints", nonconvex, dict(args=2, cons=3, n=3, bounds="list", guess=True)),
    Sc("nonconvex-constraints-no-sum", nonconvex, dict(args=2, cons=2, flag=False)),
    Sc("nonconvex-half", nonconvex, dict(args=1, bounds="half")),
    Sc("nonconvex-again", nonconvex, dict(args=1, cons=2, again=True)),
    Sc("nonconvex-again-no-sum", nonconvex, dict(args="tuple1", cons=1, flag=False, again=True, guess=True, bounds="list")),
    Sc("nonconvex-open", nonconvex, dict(args=1, bounds="open", method="trust-constr")),
    Sc("nonconvex-method", nonconvex, dict(args=1, method="COBYLA", mu="none")),
]
