from symx.run import Sc

BOUNDS = "1-3 assets, 2 periods, every combination of sizes 1-3 of expected returns and data, every container for either, all values symbolic; confidence levels, rates, targets and rounding digits at every kind of value; every method a class does not offer; every unknown mode of the plots"
OUTSIDE = "invalid values inside arrays (such as infinite or missing returns); the wording of errors; arguments of Black-Litterman, allocation and weight bounds (decided in their own properties)"
T3 = ["ZED", "AAA", "MMM"]
KINDS = ("EF", "CLA", "SV", "CVAR", "CDAR")
CLS = {"EF": "EfficientFrontier", "CLA": "CLA", "SV": "EfficientSemivariance", "CVAR": "EfficientCVaR", "CDAR": "EfficientCDaR"}


def mu_(S, n, form, tick=T3):
    m = S.vec("mu%d" % n, n, lo=-1, hi=1)
    x = S.flat(m)
    return x, {"series": lambda: S.series(x, tick[:n]), "list": lambda: list(x), "array": lambda: m, "column": lambda: S.arr([[v] for v in x]), "none": lambda: None}[form]()


def data_(S, kind, a, b, form):
    """a x b covariance or returns"""
    M = S.mat("d%d%d" % (a, b), a, b, lo=-.4, hi=.4)
    rows = [[M[i][j] for j in range(b)] for i in range(a)]
    if kind in ("EF", "CLA") and a == b:
        rows = [[rows[min(i, j)][max(i, j)] + (2 if i == j else 0) for j in range(b)] for i in range(a)]
    A = S.arr(rows)
    if form == "array":
        return rows, A
    return rows, S.frame(A, T3[:b], T3[:a] if kind in ("EF", "CLA") else list(range(a)))


def make(S, kind, *a, **k):
    return S.call(getattr(S.pf, CLS[kind]), *a, **k)


def accepted(S, kind, mform, dform):
    """every documented form is taken in, by position, under the labels that it carries"""
    n = 1 + S.choose(3, "assets")
    x, m = mu_(S, n, mform)
    rows, D = data_(S, kind, n if kind in ("EF", "CLA") else 2, n, dform)
    o = make(S, kind, m, D)
    S.claim("ok", o.ok)
    if not o.ok:
        return
    o = o.value
    lab = T3[:n] if mform == "series" or dform == "frame" and kind == "EF" else list(range(n))
    S.claim("labels", list(o.tickers) == lab)
    S.claim("assets", o.n_assets == n)
    S.claim("unsolved", o.weights is None)
    if mform == "none":
        S.claim("no.returns", o.expected_returns is None)
    else:
        S.claim("returns", S.eqs(S.flat(o.expected_returns), x))
    if kind in ("EF", "CLA"):
        S.claim("covariance", S.eqs(S.flat(S.np.array(o.cov_matrix)), S.flat(rows)))
    else:
        S.claim("history", S.eqs(S.flat(o.returns.values), S.flat(rows)))


def sizes(S, kind, mform="array", dform="array"):
    """refused with ValueError iff the sizes differ"""
    n = 1 + S.choose(3, "means")
    b = 1 + S.choose(3, "columns")
    a = 1 + S.choose(3, "rows") if kind == "EF" else 2
    x, m = mu_(S, n, mform)
    rows, D = data_(S, kind, a, b, dform)
    o = make(S, kind, m, D)
    match = n == b and (kind != "EF" or a == b)
    S.claim("accepted.iff.matching", o.ok == match)
    S.claim("ValueError", match or o.raised("ValueError"))


def types(S, kind):
    """containers of a kind that is not documented"""
    x, m = mu_(S, 2, "array")
    rows, D = data_(S, kind, 2, 2, "array")
    bad = ["string", tuple(x), {"AAA": x[0], "ZED": x[1]}, 3, {x[0]} if False else 1.5]
    for i, v in enumerate(bad):
        o = make(S, kind, v, D)
        S.claim("returns.%d" % i, o.raised("TypeError"))
    for i, v in enumerate([rows, tuple(map(tuple, rows)), "string", {"a": rows}]):
        o = make(S, kind, m, v)
        S.claim("data.%d" % i, o.raised("TypeError") if kind == "EF" else not o.ok)
    if kind == "EF":
        S.claim("data.none", make(S, kind, m, None).raised("ValueError", "TypeError", "AttributeError"))


NEEDS = {"EF": [("max_quadratic_utility", (1.5,)), ("efficient_risk", (2.5,)), ("efficient_return", (.1,)), ("max_sharpe", ())],
         "SV": [("efficient_return", (.1,)), ("efficient_risk", (.1,)), ("max_quadratic_utility", (1.5,))], "CVAR": [("efficient_return", (.1,)), ("efficient_risk", (.1,))], "CDAR": [("efficient_return", (.1,)), ("efficient_risk", (.1,))]}
ALONE = {"EF": "min_volatility", "SV": "min_semivariance", "CVAR": "min_cvar", "CDAR": "min_cdar"}
OFF = {"SV": [("min_volatility", ()), ("max_sharpe", ()), ("max_sharpe", (.02,))], "CVAR": [("min_volatility", ()), ("max_sharpe", ()), ("max_quadratic_utility", ()), ("max_quadratic_utility", (2,)), ("set_weights", ({},))],
       "CDAR": [("min_volatility", ()), ("max_sharpe", ()), ("max_quadratic_utility", ()), ("max_quadratic_utility", (2,)), ("set_weights", ({},))], "CLA": [("set_weights", ({},)), ("set_weights", ({"ZED": 1},))]}


def without(S, kind):
    """without expected returns, what needs them fails and leaves no weights; what does not need them works"""
    name, args = NEEDS[kind][S.choose(len(NEEDS[kind]), "method")]
    rows, D = data_(S, kind, 2, 2, "frame")
    o = make(S, kind, None, D)
    S.claim("constructed", o.ok)
    if not o.ok:
        return
    out = S.call(getattr(o.value, name), *args)
    S.claim("refused", not out.ok)
    S.claim("no.weights", o.value.weights is None)
    o = make(S, kind, None, D).value
    out = S.call(getattr(o, ALONE[kind]))
    S.claim("other.ok", out.ok)


def unavailable(S, kind):
    """methods that make no sense for the class"""
    name, args = OFF[kind][S.choose(len(OFF[kind]), "method")]
    x, m = mu_(S, 2, "series")
    rows, D = data_(S, kind, 2, 2, "frame")
    o = make(S, kind, m, D)
    S.claim("constructed", o.ok)
    if o.ok:
        S.claim("not.offered", S.call(getattr(o.value, name), *args).raised("NotImplementedError"))
        S.claim("no.weights", o.value.weights is None)
        S.claim("nothing.solved", not S.problems)


def additions(S, kind):
    """constraints must be callable; a refused one leaves no trace"""
    x, m = mu_(S, 2, "series")
    rows, D = data_(S, kind, 2, 2, "frame")
    o = make(S, kind, m, D).value
    k = len(o._constraints)
    for i, v in enumerate([3, "w[0] == 1", None, [lambda w: w[0] == .1]]):
        S.claim("constraint.%d" % i, S.call(o.add_constraint, v).raised("TypeError"))
    S.claim("none.kept", len(o._constraints) == k)
    t = S.real("t", lo=.1, hi=.9)
    S.claim("callable", S.call(o.add_constraint, lambda w: w[0] <= t).ok)
    S.claim("kept", len(o._constraints) == k + 1)


def plots(S, what):
    S.record_plots()
    P = S.pf.plotting
    x, m = mu_(S, 2, "series")
    rows, D = data_(S, "EF", 2, 2, "frame")
    if what == "param":
        o = S.pf.EfficientFrontier(m, D)
        for i, k in enumerate(["nonsense", "volatility", "", None]):
            S.claim("unknown.%d" % i, S.call(P.plot_efficient_frontier, o, ef_param=k, ef_param_range=S.arr([.1, .2]), ax=S.recorder("ax")).raised("NotImplementedError"))
    else:
        h = S.pf.HRPOpt(cov_matrix=S.frame(S.psd("c", 2), T3[:2], T3[:2]))
        for i, o in enumerate([h, "text", D, None]):
            S.claim("object.%d" % i, S.call(P.plot_efficient_frontier, o, ax=S.recorder("ax")).raised("NotImplementedError"))


def rate(S):
    """the risk-free rate of a Sharpe ratio must be a number below the best return; then it is accepted"""
    x, m = mu_(S, 2, "series")
    rows, D = data_(S, "EF", 2, 2, "frame")
    for i, v in enumerate(["0.02", None, [.1], {}]):
        o = S.pf.EfficientFrontier(m, D)
        S.claim("type.%d" % i, S.call(o.max_sharpe, v).raised("ValueError", "TypeError"))
        S.claim("no.weights.%d" % i, o.weights is None)
    o = S.pf.EfficientFrontier(m, D)
    r = S.real("rf", lo=-1, hi=1)
    out = S.call(o.max_sharpe, r)
    if out.ok:
        S.claim("accepted.only.if.below", S.or_(*[S.lt(r, v) for v in x]))
    elif not S.problems:
        S.claim("ValueError", out.raised("ValueError"))
        S.claim("refused.only.if.above", S.and_(*[S.le(v, r) for v in x]))


def neutral(S, kind, method, args):
    """market neutrality may not be switched between solves"""
    x, m = mu_(S, 2, "series")
    rows, D = data_(S, kind, 2, 2, "frame")
    first = bool(S.choose(2, "neutral"))
    o = make(S, kind, m, D, weight_bounds=(-1, 1)).value
    out = S.call(getattr(o, method), *args, market_neutral=first)
    if not out.ok:
        S.dead()
    w = S.flat(o.weights)
    n = len(S.problems)
    out = S.call(getattr(o, method), *args, market_neutral=not first)
    S.claim("refused", out.raised("InstantiationError"))
    S.claim("weights.kept", S.eqs(o.weights, w))
    S.claim("not.solved", len(S.problems) == n)
    out = S.call(getattr(o, method), *args, market_neutral=first)
    S.claim("same.again", out.ok or out.raised("OptimizationError"))


def options(S, kind, method, args=()):
    """the solver, the verbosity and the solver options given are those used, in every solve"""
    x, m = mu_(S, 2, "series")
    rows, D = data_(S, kind, 2, 2, "frame")
    if method == "max_sharpe":
        S.assume(S.lt(.5, S.smax(*x)))
    if kind == "SV" or method == "efficient_return":
        S.assume(S.lt(.5, x[0]))
    kw = {}
    solver = [None, "SCS"][S.choose(2, "solver")]
    if solver:
        kw["solver"] = solver
    verb = bool(S.choose(2, "verbose"))
    if verb:
        kw["verbose"] = True
    opts = [{}, {"max_iters": 50, "eps": S.real("eps", pos=True, lo=1e-6, hi=1)}][S.choose(2, "options")]
    if opts:
        kw["solver_options"] = opts
    o = make(S, kind, m, D, **kw)
    S.claim("constructed", o.ok)
    if not o.ok:
        return
    for k in range(2):
        out = S.call(lambda: o.value.convex_objective(lambda w: S.cp.sum_squares(w)) if method == "convex" else getattr(o.value, method)(*args))
        if method in ("max_sharpe", "convex") or method.startswith("min_"):
            break
    if kind == "EF" and method == "efficient_risk" and not S.problems:
        S.dead()                            # a target below the least risk (C03)
    S.claim("solved", len(S.problems) >= 1)
    for i, p in enumerate(S.problems):
        S.claim("solver.%d" % i, p.kw.get("solver") == solver)
        S.claim("verbose.%d" % i, bool(p.kw.get("verbose", False)) == verb)
        rest = {a: b for a, b in p.kw.items() if a not in ("solver", "verbose")}
        S.claim("options.%d" % i, all(a in rest for a in opts) and S.and_(*[S.eq(rest[a], opts[a]) for a in opts]))


SCENARIOS = [Sc("accepted-%s-%s-%s" % (k, m, d), accepted, dict(kind=k, mform=m, dform=d)) for k in KINDS for m in ("series", "list", "array", "column", "none") for d in ("frame", "array") if (k, m) != ("CLA", "none")]
SCENARIOS += [Sc("sizes-%s-%s-%s" % (k, m, d), sizes, dict(kind=k, mform=m, dform=d)) for k in KINDS if k != "CLA" for m, d in [("array", "array"), ("series", "frame"), ("list", "frame")]]
SCENARIOS += [Sc("types-%s" % k, types, dict(kind=k)) for k in KINDS if k != "CLA"]
SCENARIOS += [Sc("without-%s" % k, without, dict(kind=k)) for k in NEEDS] + [Sc("unavailable-%s" % k, unavailable, dict(kind=k)) for k in OFF]
SCENARIOS += [Sc("constraints-%s" % k, additions, dict(kind=k)) for k in ("EF", "SV", "CVAR", "CDAR")] + [Sc("plot-%s" % w, plots, dict(what=w)) for w in ("param", "object")] + [Sc("rate", rate)]
SCENARIOS += [Sc("neutral-%s-%s" % (k, m), neutral, dict(kind=k, method=m, args=a)) for k in NEEDS for m, a in NEEDS[k] if m in ("max_quadratic_utility", "efficient_risk", "efficient_return")]
SCENARIOS += [Sc("options-%s-%s" % (k, m), options, dict(kind=k, method=m, args=a)) for k, ms in dict(
    EF=[("min_volatility", ()), ("max_sharpe", (.1,)), ("max_quadratic_utility", (2,)), ("efficient_risk", (3,)), ("efficient_return", (.25,)), ("convex", ())],
    SV=[("min_semivariance", ()), ("max_quadratic_utility", (2,)), ("efficient_risk", (.5,)), ("efficient_return", (.25,))],
    CVAR=[("min_cvar", ()), ("efficient_risk", (.5,)), ("efficient_return", (.25,)), ("convex", ())], CDAR=[("min_cdar", ()), ("efficient_risk", (.5,)), ("efficient_return", (.25,))]).items() for m, a in ms]
