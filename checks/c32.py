from symx.run import Sc
from . import est

BOUNDS = "every public function and method of the estimators, optimisers, allocator and Black-Litterman model, each container type it accepts, 2 assets (3 for constant correlation), 3-4 rows with and without gaps, every option value and entry symbolic where numeric; the objects' later methods included; any solver answer"
OUTSIDE = "what third-party solvers and scikit-learn do with the arrays they get; dtype changes; containers that are not documented as accepted"
T = ["bb", "aa", "cc"]
NAN = float("nan")


class Watch:
    """remembers what the caller's containers hold"""

    def __init__(self, S):
        self.S, self.items = S, []

    def __call__(self, name, x):
        self.items.append((name, x, self.state(x)))
        return x

    def state(self, x):
        S = self.S
        if isinstance(x, S.pd.DataFrame):
            return ("frame", list(x.index), list(x.columns), x.index.name, x.columns.name, x.shape, S.flat(x))
        if isinstance(x, S.pd.Series):
            return ("series", list(x.index), x.name, x.shape, S.flat(x))
        if isinstance(x, dict):
            return ("dict", list(x), [self.state(v) for v in x.values()])
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, [self.state(v) for v in x])
        if hasattr(x, "shape"):
            return ("array", x.shape, list(S.flat(x)))
        return ("value", x)

    def same(self, a, b):
        S = self.S
        if isinstance(a, (list, tuple)):
            return isinstance(b, (list, tuple)) and len(a) == len(b) and S.and_(*[self.same(x, y) for x, y in zip(a, b)])
        if a is b or a is None or b is None or isinstance(a, str) or isinstance(b, str) or callable(a) or callable(b):
            return a is b or (isinstance(a, str) and a == b)
        return S.eq(a, b)

    def unchanged(self, after=""):
        for n, x, st in self.items:
            self.S.claim("%s%s" % (n, after and " after " + after), self.same(st, self.state(x)))


def gaps(S, rows, gap, name="p", lo=.5, hi=2):
    P = [[S.real("%s%d_%d" % (name, i, j), lo=lo, hi=hi, pos=lo > 0) for j in range(2)] for i in range(rows)]
    if lo > 0:
        for r in P:
            for x in r:
                S.bound(x, lo, hi)
    if gap:
        P[0][0] = NAN
    return P


def estimators(S, which, kind="frame", gap=False, returns_data=False, log=False, **kw):
    W = Watch(S)
    rows = 4
    V = gaps(S, rows, gap, "r", -.4, .4) if returns_data else gaps(S, rows, gap)
    idx = ["d%d" % i for i in range(rows)]
    D = S.frame(S.arr(V), T[:2], idx) if kind == "frame" else S.arr(V) if kind == "array" else V
    if kind == "frame":
        D.columns.name = "tick"
        D.index.name = "day"
    W("data", D)
    f = S.real("f", pos=True, lo=1, hi=5)
    M, d = S.psd("m", 2), S.real("dd", lo=0, hi=1)
    S.stub("ledoit_wolf", lambda X, **k: (M, d))
    S.stub("oas", lambda X, **k: (M, d))
    S.stub("fast_mcd", lambda X, **k: (None, M))
    er, rm = S.pf.expected_returns, S.pf.risk_models
    fn = dict(mean=er.mean_historical_return, ema=er.ema_historical_return, capm=er.capm_return, model=er.return_model, sample=rm.sample_cov, semi=rm.semicovariance, exp=rm.exp_cov,
              mcd=rm.min_cov_determinant, matrix=rm.risk_matrix, rfp=er.returns_from_prices, pfr=er.prices_from_returns).get(which)
    opt = {}
    if which in ("mean", "ema", "capm", "model", "sample", "semi", "exp", "mcd", "matrix", "shrink"):
        opt = dict(returns_data=returns_data, frequency=f, log_returns=log)
    elif log:
        opt = dict(log_returns=True)
    if which == "ema" or which == "mean" or which == "capm":
        opt["frequency"] = 2
    for m in kw.pop("market", ()):
        mv = gaps(S, rows, False, "k" + m, -.4, .4) if returns_data else gaps(S, rows, False, "k" + m)
        mk = [r[0] for r in mv]
        opt["market_prices"] = W("market", {"frame": lambda: S.frame(S.arr([[x] for x in mk]), ["SPY"], idx), "series": lambda: S.series(mk, idx, "SPY")}[m]())
    opt.update(kw)
    if which == "shrink":
        o = S.call(rm.CovarianceShrinkage, D, **opt)
        W.unchanged("construction")
        if o.ok:
            for nm, g in (("shrunk", lambda: o.value.shrunk_covariance(S.real("delta", lo=0, hi=1))), ("lw", o.value.ledoit_wolf), ("factor", lambda: o.value.ledoit_wolf("single_factor")),
                          ("oas", o.value.oracle_approximating)):
                r = S.call(g)
                S.claim("ok." + nm, r.ok)
                W.unchanged(nm)
        return
    o = S.call(fn, D, **opt)
    S.claim("ok", o.ok)
    W.unchanged()


def matrices(S, indef=False):
    W = Watch(S)
    rm = S.pf.risk_models
    if indef:
        k = S.real("k", pos=True, lo=.1, hi=2)
        M = [[k, 2 * k], [2 * k, k]]
    else:
        M = S.psd("c", 2)
    sd = S.vec("s", 2, pos=True, lo=.1, hi=1)
    F = W("frame", S.frame(M, T[:2], T[:2]))
    A = W("array", S.arr(M))
    V = W("stdevs", S.arr(sd))
    Z = W("stdev.series", S.series(sd, T[:2]))
    for x, n in ((F, "frame"), (A, "array")):
        for m in ("spectral", "diag"):
            S.claim("ok.fix", S.call(rm.fix_nonpositive_semidefinite, x, fix_method=m).ok)
            W.unchanged("%s %s" % (m, n))
        S.claim("ok.corr", S.call(rm.cov_to_corr, x).ok)
        W.unchanged("cov_to_corr " + n)
        for y, k2 in ((V, "array"), (Z, "series")):
            S.claim("ok.cov", S.call(rm.corr_to_cov, x, y).ok)
            W.unchanged("corr_to_cov %s %s" % (n, k2))


def implied(S):
    W = Watch(S)
    b = S.pf.black_litterman
    C = W("cov", S.frame(S.psd("c", 2), T[:2], T[:2]))
    A = W("cov array", S.arr(C.values))
    caps = S.vec("cap", 2, pos=True, lo=1, hi=9)
    for n, m in (("dict", dict(zip(T, caps))), ("series", S.series(caps, T[:2])), ("reversed", S.series(list(caps)[::-1], T[1::-1]))):
        W("caps " + n, m)
        S.claim("ok", S.call(b.market_implied_prior_returns, m, S.real("d", pos=True, hi=5), C, S.real("rf", lo=0, hi=.1)).ok)
        W.unchanged(n)
    m = W("caps array", S.arr(caps))
    S.claim("ok", S.call(b.market_implied_prior_returns, m, S.real("d", pos=True, hi=5), A).ok)
    W.unchanged("array")
    p = [1, S.real("p1", pos=True, lo=1.1, hi=2), S.real("p2", pos=True, lo=.5, hi=1)]
    S.bound(p[1], 1.1, 2)
    S.bound(p[2], .5, 1)
    for n, m in (("series", S.series(p, ["x", "y", "z"], "SPY")), ("frame", S.frame(S.arr([[x] for x in p]), ["SPY"], ["x", "y", "z"]))):
        W("market " + n, m)
        S.claim("ok", S.call(b.market_implied_risk_aversion, m, frequency=S.real("f", pos=True, hi=9), risk_free_rate=S.real("rf", lo=0, hi=.1)).ok)
        W.unchanged("market " + n)


def model(S, cov="frame", pi="series", views="dict", omega=None, Pk="array"):
    W = Watch(S)
    C = S.psd("c", 2)
    C = W("cov", S.frame(C, T[:2], T[:2]) if cov == "frame" else C)
    kw = {}
    pv = S.vec("pi", 2, lo=-.3, hi=.3)
    kw["pi"] = {"series": lambda: S.series(pv, T[:2], "prior"), "array": lambda: S.arr(pv), "frame": lambda: S.frame(S.arr([[x] for x in pv]), ["prior"], T[:2]), "equal": lambda: "equal",
                "market": lambda: "market", "none": lambda: None}[pi]()
    if pi == "market":
        kw["market_caps"] = W("caps", dict(zip(T, S.vec("cap", 2, pos=True, lo=1, hi=9))))
    elif pi not in ("equal", "none"):
        W("pi", kw["pi"])
    q = S.vec("q", 2, lo=-.3, hi=.3)
    lab = T[:2] if cov == "frame" else [0, 1]
    if views in ("dict", "views"):
        kw["absolute_views"] = W("views", dict(zip(lab[::-1], q)) if views == "dict" else S.series(q, lab[::-1]))
    else:
        kw["Q"] = W("Q", {"array": S.arr(q), "series": S.series(q, ["v", "w"]), "frame": S.frame(S.arr([[x] for x in q]), ["q"], ["v", "w"]), "column": S.arr([[x] for x in q])}[views])
        P = S.arr([[1, S.real("x", lo=-1, hi=1)], [S.real("y", lo=-.5, hi=.5), 1]])
        kw["P"] = W("P", P if Pk == "array" else S.frame(P, T[:2], ["v", "w"]))
    if omega in ("array", "frame"):
        o = S.vec("o", 2, pos=True, lo=.01, hi=1)
        M = S.arr([[o[0], S.frac(0)], [S.frac(0), o[1]]])
        kw["omega"] = W("omega", M if omega == "array" else S.frame(M, ["v", "w"], ["v", "w"]))
    elif omega and omega.startswith("idzorek"):
        c = S.vec("conf", 2, pos=True, lo=.1, hi=1)
        for x in c:
            S.bound(x, .1, 1)
        kw["omega"] = "idzorek"
        kw["view_confidences"] = W("confidences", {"list": list(c), "array": S.arr(c), "tuple": tuple(c)}[omega[7:]])
    o = S.call(S.pf.BlackLittermanModel, C, **kw)
    S.claim("constructed", o.ok)
    W.unchanged("construction")
    if not o.ok:
        return
    o = o.value
    for n, f in (("bl_returns", o.bl_returns), ("bl_cov", o.bl_cov), ("bl_weights", lambda: o.bl_weights(S.real("ra", pos=True, lo=1, hi=5))), ("performance", o.portfolio_performance)):
        S.claim("ok " + n, S.call(f).ok)
        W.unchanged(n)
    nw = W("set weights", dict(zip(lab[::-1], [S.real("nw", lo=0, hi=1), 1])))
    S.call(o.set_weights, nw)
    S.call(o.clean_weights)
    W.unchanged("set_weights")


def frontier(S, method, mu="series", cov="frame", bounds="pair", mn=False, extras=False, args=()):
    W = Watch(S)
    m = S.vec("mu", 2, lo=.01, hi=.3)
    for x in m:
        S.bound(x, .01, .3)
    mu = W("mu", {"series": lambda: S.series(m, T[:2], "mu"), "array": lambda: S.arr(m), "list": lambda: list(m), "column": lambda: S.arr([[x] for x in m])}[mu]())
    C = S.psd("c", 2)
    C = W("cov", S.frame(C, T[:2], T[:2]) if cov == "frame" else C)
    lo, hi = S.vec("lo", 2, lo=-1, hi=-.1), S.vec("hi", 2, lo=.1, hi=1)
    for x, y in zip(lo, hi):  # nonzero: the sign of an offset is not the subject here
        S.bound(x, -1, -.1)
        S.bound(y, .1, 1)
    B = {"pair": lambda: (lo[0], hi[0]), "listpair": lambda: [lo[0], hi[0]], "each": lambda: [(lo[0], hi[0]), (lo[1], None)], "lists": lambda: [[lo[0], hi[0]], [lo[1], hi[1]]],
         "arrays": lambda: (S.arr(lo), S.arr(hi)), "nan": lambda: (S.arr([lo[0], NAN]), S.arr([NAN, hi[1]]))}[bounds]()
    W("bounds", B)
    o = S.call(S.pf.EfficientFrontier, mu, C, weight_bounds=B, solver_options=W("options", {"max_iters": 100}))
    S.claim("constructed", o.ok)
    W.unchanged("construction")
    if not o.ok:
        return
    o = o.value
    if extras:
        wp = W("w_prev", S.vec("wp", 2, lo=0, hi=1))
        S.call(o.add_objective, S.pf.objective_functions.transaction_cost, w_prev=wp, k=.1)
        S.call(o.add_constraint, lambda w: w[0] >= .1)
        sm, su, sl = W("mapper", {T[0]: "x", T[1]: "y"}), W("upper", {"x": S.real("su", lo=.1, hi=1)}), W("lower", {"y": S.real("sl", lo=.1, hi=1)})
        S.bound(su["x"], .1, 1)
        S.bound(sl["y"], .1, 1)
        S.call(o.add_sector_constraints, sm, sl, su)
        W.unchanged("terms")
    a = {"efficient_return": [S.real("target", lo=0, hi=.2)], "efficient_risk": [S.real("target", lo=2, hi=3)]}.get(method, [])
    if method == "efficient_risk":
        S.assume(S.lt(2, a[0]))
    if method == "nonconvex":
        cons = W("constraints", [{"type": "ineq", "fun": lambda w: w[0]}])
        x0 = W("guess", S.vec("x0", 2, lo=0, hi=1))
        A = W("args", (C.values if cov == "frame" else C,))
        run = lambda: o.nonconvex_objective(lambda w, M: w @ M @ w, objective_args=A, constraints=cons, initial_guess=x0)
    elif method == "convex":
        run = lambda: o.convex_objective(lambda w, c: S.cp.sum_squares(w - c), c=W("kwarg", S.vec("cc", 2, lo=0, hi=1)))
    else:
        run = lambda: getattr(o, method)(*a, **(dict(market_neutral=True) if mn else {}))
    S.call(run)
    W.unchanged(method)
    S.call(run)
    S.call(o.portfolio_performance, risk_free_rate=S.real("rf", lo=0, hi=.1))
    S.call(o.clean_weights)
    S.call(o.deepcopy)
    W.unchanged("repetition")
    w = S.vec("w", 2, lo=.4, hi=.6)
    for x in w:
        S.bound(x, .4, .6)
    w = W("weights", dict(zip(T[:2][::-1], w)))
    if S.call(lambda: list(o.tickers) == T[:2]).value:
        S.call(o.set_weights, w)
        S.call(o.clean_weights, cutoff=.3, rounding=3)
        S.call(o.portfolio_performance)
    W.unchanged("set_weights")


def bounds(S, method, form="array"):
    """three assets, one interval each with missing ends"""
    W = Watch(S)
    m = W("mu", S.series(S.vec("mu", 3, lo=.01, hi=.3), T))
    C = W("cov", S.frame(S.psd("c", 3), T, T))
    lo, hi = S.vec("lo", 2, lo=-1, hi=-.1), S.vec("hi", 2, lo=.1, hi=1)
    for x, y in zip(lo, hi):
        S.bound(x, -1, -.1)
        S.bound(y, .1, 1)
    gap = None if form == "lists" else NAN
    B = [[lo[0], gap], [gap, hi[0]], [lo[1], hi[1]]]
    B = W("bounds", {"array": lambda: S.arr(B), "lists": lambda: B, "tuples": lambda: tuple(tuple(b) for b in B), "floats": lambda: S.np.array([[-.5, NAN], [NAN, .5], [-.25, .75]]),
                     "pair": lambda: (S.arr([lo[0], NAN, lo[1]]), S.arr([NAN, hi[0], hi[1]])), "floatpair": lambda: (S.np.array([-.5, NAN, 0]), S.np.array([NAN, .5, 1.]))}[form]())
    o = S.call(S.pf.EfficientFrontier, m, C, weight_bounds=B)
    S.claim("constructed", o.ok)
    W.unchanged("construction")
    if not o.ok:
        return
    for k in range(2):
        S.call(lambda: o.value.nonconvex_objective(lambda w, M: w @ M @ w, objective_args=(C.values,)) if method == "nonconvex" else getattr(o.value, method)())
        W.unchanged(method)


def tail(S, kind, method, data="frame", mn=False, gap=False):
    W = Watch(S)
    m = W("mu", S.series(S.vec("mu", 2, lo=.01, hi=.3), T[:2]))
    R = gaps(S, 3, gap, "r", -.3, .3)
    R = W("returns", S.frame(S.arr(R), T[:2], ["x", "y", "z"]) if data == "frame" else S.arr(R))
    cls = {"SV": "EfficientSemivariance", "CVAR": "EfficientCVaR", "CDAR": "EfficientCDaR"}[kind]
    o = S.call(getattr(S.pf, cls), m, R)
    S.claim("constructed", o.ok)
    W.unchanged("construction")
    if not o.ok:
        return
    a = [S.real("t", lo=0, hi=.2)] if method.startswith("efficient") else []
    for _ in range(2):
        S.call(getattr(o.value, method), *a, market_neutral=mn)
    S.call(o.value.portfolio_performance)
    W.unchanged(method)


def cla(S, bounds="pair", mu="series"):
    W = Watch(S)
    m = W("mu", {"series": lambda: S.series([.1, .2], T[:2]), "array": lambda: S.arr([.1, .2]), "list": lambda: [.1, .2]}[mu]())
    k = S.real("k", pos=True, lo=.5, hi=2)
    C = W("cov", S.frame(S.arr([[.04 * k, .01 * k], [.01 * k, .09 * k]]), T[:2], T[:2]) if mu == "series" else S.arr([[.04 * k, .01 * k], [.01 * k, .09 * k]]))
    B = W("bounds", {"pair": lambda: (0, 1), "each": lambda: [(0, .9), (.1, 1)], "arrays": lambda: (S.arr([0, .1]), S.arr([.9, 1])), "lists": lambda: ([0, .1], [.9, 1]), "columns": lambda: (S.arr([[0], [.1]]), S.arr([[.9], [1]]))}[bounds]())
    o = S.call(S.pf.CLA, m, C, weight_bounds=B)
    S.claim("constructed", o.ok)
    if o.ok:
        S.claim("ok", S.call(o.value.min_volatility).ok)
        S.call(o.value.efficient_frontier, points=4)
        S.call(o.value.portfolio_performance)
    W.unchanged()


def hrp(S, data="returns", both=False):
    import numpy
    W = Watch(S)
    S.stub("linkage", lambda d, m: numpy.array([[0.0, 1.0, .5, 2.0], [2.0, 3.0, .7, 3.0]]))
    kw = {}
    if data == "returns" or both:
        R = [[S.real("r%d_%d" % (i, j), lo=-.3, hi=.3) for j in range(3)] for i in range(3)] if False else [[.1, -.1, .2], [.2, S.real("x", lo=-.3, hi=-.1), .1], [-.1, .15, -.2], [.05, .1, .1]]
        kw["returns"] = W("returns", S.frame(S.arr(R), T))
    if data == "cov" or both:
        v = S.vec("v", 3, pos=True, lo=.1, hi=1)
        kw["cov_matrix"] = W("cov", S.frame(S.arr([[v[i] if i == j else .01 for j in range(3)] for i in range(3)]), T, T))
    o = S.call(S.pf.HRPOpt, **kw)
    S.claim("constructed", o.ok)
    if not o.ok:
        return
    for n, f in (("optimize", o.value.optimize), ("performance", o.value.portfolio_performance), ("again", lambda: o.value.optimize("average")), ("clean", o.value.clean_weights)):
        S.claim("ok " + n, S.call(f).ok)
        W.unchanged(n)


def allocation(S, lp=False, short=False):
    W = Watch(S)
    a = S.real("a", pos=True, lo=.1, hi=.4)
    S.bound(a, .1, .4)
    w = {T[0]: a, T[1]: 1 - a, T[2]: -.5} if short else {T[0]: a, T[2]: 1 - a, T[1]: 0}
    W("weights", w)
    P = W("prices", S.series([3, 2.5, 4], T[::-1]))
    d = S.call(S.pf.DiscreteAllocation, w, P, 9)
    S.claim("constructed", d.ok)
    S.solution_plan = lambda i, cap: [[1] * v.size if v.attributes.get("integer") else [S.real("u%d_%d" % (i, j)) for j in range(v.size)] for v in cap.vars]
    for _ in range(2):
        S.claim("ok", S.call(d.value.lp_portfolio if lp else d.value.greedy_portfolio, reinvest=True, verbose=True).ok)
    W.unchanged()
    F = W("history", S.frame(S.arr([[1, NAN], [S.real("p", pos=True, hi=5), 2], [NAN, 3]]), T[:2]))
    S.claim("ok latest", S.call(S.pf.discrete_allocation.get_latest_prices, F).ok)
    W.unchanged("latest")


def formulas(S):
    W = Watch(S)
    o = S.pf.objective_functions
    w, m, C = W("w", S.vec("w", 2, lo=0, hi=1)), W("mu", S.vec("mu", 2, lo=-.3, hi=.3)), W("cov", S.psd("c", 2))
    S.assume(S.lt(0, S.quad(C, w)))
    R, b, wp = W("returns", S.mat("r", 3, 2, lo=-.3, hi=.3)), W("benchmark", S.vec("b", 3, lo=-.3, hi=.3)), W("other", S.vec("o", 2, lo=0, hi=1))
    RF, bs = W("frame", S.frame(R, T[:2])), W("bench series", S.series(b))
    for n, f in (("variance", lambda: o.portfolio_variance(w, C)), ("return", lambda: o.portfolio_return(w, m)), ("sharpe", lambda: o.sharpe_ratio(w, m, C)), ("l2", lambda: o.L2_reg(w, 2)),
                 ("utility", lambda: o.quadratic_utility(w, m, C, 2)), ("cost", lambda: o.transaction_cost(w, wp)), ("ante", lambda: o.ex_ante_tracking_error(w, C, wp)),
                 ("post", lambda: o.ex_post_tracking_error(w, R, b)), ("post frame", lambda: o.ex_post_tracking_error(w, RF, bs))):
        S.claim("ok " + n, S.call(f).ok)
        W.unchanged(n)
    d = W("dict", dict(zip(T[:2], w)))
    ms, cf = W("mu series", S.series(m, T[:2])), W("cov frame", S.frame(C, T[:2], T[:2]))
    for n, f in (("mapping", lambda: S.pf.base_optimizer.portfolio_performance(d, ms, cf)), ("list", lambda: S.pf.base_optimizer.portfolio_performance(w, m, C, True, .02))):
        S.call(f)
        W.unchanged(n)
    S.call(S.pf.plotting.plot_weights, d)
    W.unchanged("plot")


SCENARIOS = [Sc("matrices", matrices), Sc("matrices-indefinite", matrices, dict(indef=True)), Sc("implied", implied), Sc("formulas", formulas)]
for w in ("mean", "ema", "capm", "sample", "semi", "exp", "mcd", "shrink"):
    O = dict(cholesky="definite")
    for k, kw in (("", {}), ("-gap", dict(gap=True)), ("-log", dict(log=True)), ("-returns", dict(returns_data=True)), ("-returns-gap", dict(returns_data=True, gap=True)), ("-array", dict(kind="array")), ("-list", dict(kind="list", returns_data=True))):
        if w == "shrink" and kw.get("log"):
            continue
        SCENARIOS.append(Sc("est-%s%s" % (w, k), estimators, dict(which=w, **kw), **O))
SCENARIOS += [Sc("est-capm-%s-%s%s" % (m, "returns" if r else "prices", "-arithmetic" if a else ""), estimators, dict(which="capm", market=(m,), returns_data=r, compounding=not a))
              for m in ("frame", "series") for r in (False, True) for a in (False, True) if not (m == "series" and r)]
SCENARIOS += [Sc("est-%s%s" % (w, k), estimators, dict(which=w, **kw)) for w in ("rfp", "pfr") for k, kw in (("", dict(returns_data=w == "pfr")), ("-log", dict(log=True, returns_data=w == "pfr")), ("-gap", dict(gap=True, returns_data=w == "pfr")))]
SCENARIOS += [Sc("bl-" + "-".join(map(str, v)), model, dict(zip(("cov", "pi", "views", "omega", "Pk"), v))) for v in (
    ("frame", "series", "dict", None, ""), ("frame", "frame", "views", "idzoreklist", ""), ("array", "array", "dict", "array", ""), ("frame", "market", "array", "frame", "frame"), ("frame", "none", "series", None, "array"),
    ("array", "array", "column", "idzorekarray", "array"), ("frame", "equal", "frame", "idzorektuple", "frame"))]
SCENARIOS += [Sc("ef-%s" % "-".join(map(str, (m,) + tuple(kw.values()))), frontier, dict(method=m, **kw)) for m, kw in (
    ("min_volatility", {}), ("min_volatility", dict(mu="array", cov="array", bounds="arrays", extras=True)), ("max_sharpe", {}), ("max_sharpe", dict(mu="list", bounds="each", extras=True)), ("max_quadratic_utility", dict(mu="column", cov="array", bounds="nan")),
    ("max_quadratic_utility", dict(mn=True, bounds="pair")), ("efficient_risk", dict(bounds="lists")), ("efficient_risk", dict(mu="array", mn=True, bounds="listpair")), ("efficient_return", dict(bounds="nan", extras=True)), ("efficient_return", dict(mu="list", cov="array")),
    ("convex", {}), ("nonconvex", {}), ("nonconvex", dict(mu="array", cov="array", bounds="arrays")))]
SCENARIOS += [Sc("%s-%s-%s" % (k, m, "-".join(map(str, kw.values()))), tail, dict(kind=k, method=m, **kw)) for k, ms in (("SV", ("min_semivariance", "max_quadratic_utility", "efficient_risk", "efficient_return")), ("CVAR", ("min_cvar", "efficient_risk", "efficient_return")),
              ("CDAR", ("min_cdar", "efficient_risk", "efficient_return"))) for m in ms for kw in (dict(data="frame"), dict(data="array", mn=True), dict(data="frame", gap=True))]
SCENARIOS += [Sc("bounds-%s-%s" % x, bounds, dict(method=x[0], form=x[1])) for x in (("min_volatility", "array"), ("max_sharpe", "lists"), ("max_sharpe", "floats"), ("min_volatility", "floatpair"), ("nonconvex", "tuples"), ("nonconvex", "floats"), ("nonconvex", "pair"), ("max_quadratic_utility", "pair"))]
SCENARIOS += [Sc("cla-%s-%s" % (b, m), cla, dict(bounds=b, mu=m)) for b, m in (("pair", "series"), ("each", "array"), ("arrays", "list"), ("lists", "series"), ("columns", "array"))]
SCENARIOS += [Sc("hrp-returns", hrp), Sc("hrp-cov", hrp, dict(data="cov")), Sc("hrp-both", hrp, dict(both=True))]
SCENARIOS += [Sc("alloc-%s%s" % (a, b), allocation, dict(lp=a == "lp", short=b != "")) for a in ("greedy", "lp") for b in ("", "-short")]
