from symx.run import Sc

BOUNDS = "1-3 assets, 1-4 periods, symbolic weights, data and parameters; numeric weights and cvxpy variables (evaluated at every point); array and labelled inputs; real arithmetic"
OUTSIDE = "convexity classification by cvxpy; float rounding; negative risk aversion (cvxpy's parameter rejects it)"

T3 = ["ZED", "AAA", "MMM"]


def val(S, x):
    return S.flat(x)[0]


def evaluate(S, n, f, *a, **k):
    """value for numeric weights, and of the expression at every point"""
    w = S.vec("w", n, lo=-1, hi=1)
    out = S.call(f, w, *a, **k)
    S.claim("numeric.ok", out.ok)
    wl = S.flat(w)
    x = S.cp.Variable(n)
    e = S.call(f, x, *a, **k)
    S.claim("expression.ok", e.ok)
    if not out.ok or not e.ok:
        return wl, None, None
    S.claim("is.expression", isinstance(e.value, S.cp.Expression))
    S.claim("numeric.is.number", not isinstance(out.value, S.cp.Expression) and len(S.flat(out.value)) == 1)
    x.value = w
    v1, v2 = val(S, out.value), val(S, e.value.value)
    S.observe("v", [v1, v2])
    return wl, v1, v2


def claims(S, got, want, neg=None):
    _, a, b = got
    if a is None:
        return
    S.claim("numeric", S.eq(a, want))
    S.claim("expression", S.eq(b, want))


def cov_(S, n, form):
    c = S.psd("c", n)
    return c, S.frame(c, T3[:n], T3[:n]) if form == "frame" else c


def variance(S, n, form):
    c, a = cov_(S, n, form)
    g = evaluate(S, n, S.pf.objective_functions.portfolio_variance, a)
    claims(S, g, S.quad(c, g[0]))


def ret(S, n, form, neg=None):
    m = S.vec("mu", n, lo=-1, hi=1)
    a = S.series(m, T3[:n]) if form == "frame" else m
    k = {} if neg is None else {"negative": neg}
    g = evaluate(S, n, S.pf.objective_functions.portfolio_return, a, **k)
    claims(S, g, S.dot(m, g[0]) * (1 if neg is False else -1))


def sharpe(S, n, form, neg=None, rf="sym"):
    m = S.vec("mu", n, lo=-1, hi=1)
    c, a = cov_(S, n, form)
    w = [S.real("w%d" % i, lo=-1, hi=1) for i in range(n)]
    q = S.quad(c, w)
    S.assume(S.lt(0, q))
    k = {} if neg is None else {"negative": neg}
    r = 0
    if rf == "sym":
        r = k["risk_free_rate"] = S.real("rf", lo=-.5, hi=.5)
    g = evaluate(S, n, S.pf.objective_functions.sharpe_ratio, S.series(m, T3[:n]) if form == "frame" else m, a, **k)
    if g[1] is None:
        return
    want = (S.dot(m, w) - r) * (1 if neg is False else -1)
    for nm, x in zip(("numeric", "expression"), g[1:]):
        S.claim(nm + ".sq", S.eq(x * x * q, want * want))
        S.claim(nm + ".sign", S.le(0, x * want))


def l2(S, n, gamma="sym"):
    k = {}
    g = 1
    if gamma == "sym":
        g = k["gamma"] = S.real("g", lo=0, hi=5)
    r = evaluate(S, n, S.pf.objective_functions.L2_reg, **k)
    claims(S, r, g * S.dot(r[0], r[0]))


def utility(S, n, form, neg=None):
    m = S.vec("mu", n, lo=-1, hi=1)
    c, a = cov_(S, n, form)
    d = S.real("d", lo=0, hi=5)
    S.assume(S.le(0, d))
    k = {} if neg is None else {"negative": neg}
    g = evaluate(S, n, S.pf.objective_functions.quadratic_utility, S.series(m, T3[:n]) if form == "frame" else m, a, d, **k)
    claims(S, g, (S.dot(m, g[0]) - d * S.quad(c, g[0]) / 2) * (1 if neg is False else -1))


def cost(S, n, k="sym"):
    p = S.vec("p", n, lo=-1, hi=1)
    kw = {}
    kk = .001
    if k == "sym":
        kk = kw["k"] = S.real("k", lo=0, hi=1)
    g = evaluate(S, n, S.pf.objective_functions.transaction_cost, p, **kw)
    claims(S, g, S.frac(kk) * S.sum([S.abs(x - y) for x, y in zip(g[0], S.flat(p))]))


def ante(S, n, form):
    c, a = cov_(S, n, form)
    b = S.vec("b", n, lo=-1, hi=1)
    g = evaluate(S, n, S.pf.objective_functions.ex_ante_tracking_error, a, b)
    claims(S, g, S.quad(c, [x - y for x, y in zip(g[0], S.flat(b))]))


def post(S, n, T, form):
    R = S.mat("r", T, n, lo=-.5, hi=.5)
    b = S.vec("b", T, lo=-.5, hi=.5)
    g = evaluate(S, n, S.pf.objective_functions.ex_post_tracking_error,
                 S.frame(R, T3[:n]) if form == "frame" else R, S.series(b) if form == "frame" else b)
    if g[1] is None:
        return
    x = [S.dot([R[t][i] for i in range(n)], g[0]) - S.flat(b)[t] for t in range(T)]
    m = S.sum(x) / T
    claims(S, g, S.sum([(y - m) * (y - m) for y in x]))


SCENARIOS = []
for n in (1, 2, 3):
    for form in ("frame", "array"):
        q = dict(n=n, form=form)
        t = "%d-%s" % (n, form)
        SCENARIOS += [Sc("variance-" + t, variance, q), Sc("return-" + t, ret, q), Sc("sharpe-" + t, sharpe, q),
                      Sc("utility-" + t, utility, q), Sc("ex-ante-" + t, ante, q)]
        SCENARIOS += [Sc("ex-post-%s-%d" % (t, T), post, dict(q, T=T)) for T in ((1, 2, 3, 4) if n < 3 else (2, 3, 4))]
    SCENARIOS += [Sc("l2-%d" % n, l2, dict(n=n)), Sc("cost-%d" % n, cost, dict(n=n))]
for neg in (True, False):
    SCENARIOS += [Sc("return-neg-%s" % neg, ret, dict(n=2, form="array", neg=neg)), Sc("sharpe-neg-%s" % neg, sharpe, dict(n=2, form="array", neg=neg)),
                  Sc("utility-neg-%s" % neg, utility, dict(n=2, form="frame", neg=neg))]
SCENARIOS += [Sc("l2-default", l2, dict(n=2, gamma=None)), Sc("cost-default", cost, dict(n=2, k=None)),
              Sc("sharpe-default-rate", sharpe, dict(n=2, form="frame", rf=None))]
SCENARIOS += [Sc("cost-5", cost, dict(n=5), tier="thorough"), Sc("ex-post-4-6", post, dict(n=3, T=6, form="frame"), tier="thorough")]
