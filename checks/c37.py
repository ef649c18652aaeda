from symx.run import Sc
from . import alloc
from .opt import build, run
from .c12 import data

BOUNDS = "2-3 assets (allocations of 2-3 assets with at most 3-9 shares each), 3-4 periods; all weights, returns, matrices, rates, prices and budgets; every class that reports; each printed figure compared at the precision at which it is printed"
OUTSIDE = "the wording, beyond one keyword per figure, and the printed precision; the tables of long and short sub-portfolios; float rounding"

WORDS = {"return": ("return",), "volatility": ("volatility",), "ratio": ("ratio",), "semi": ("semi-deviation",), "cvar": ("value at risk",), "cdar": ("drawdown at risk",),
         "funds": ("funds",), "rmse": ("rmse",)}


def lines(S, mark=0):
    return [l for text in S.printed[mark:] for l in text.split("\n") if l.strip()]


def near(S, x, tol, v):
    return S.and_(S.le(v - tol, x), S.le(x, v + tol)) if tol else S.eq(x, v)


def states(S, what, v, mark=0):
    """exactly one line mentions this, and its figure is v (nothing mentions it if v is None)"""
    ls = [l for l in lines(S, mark) if any(k in l.lower() for k in WORDS[what])]
    if v is None:
        S.claim(what + ".not.printed", not ls)
        return
    S.claim(what + ".printed.once", len(ls) == 1)
    if len(ls) != 1:
        return
    xs = S.numbers(ls[0])
    S.claim(what + ".one.figure", len(xs) == 1)
    if len(xs) == 1:
        S.claim(what + ".figure", near(S, xs[0][0], xs[0][1], v * 100 if "%" in ls[0] else v))


def report(S, val, names, mark):
    """the printed figures are the returned ones"""
    for k, v in zip(names, val):
        states(S, k, v, mark)
    S.claim("nothing.else.printed", len(lines(S, mark)) == sum(v is not None for v in val))


def func(S, n=2, mu="series"):
    tick, m, c, ma, ca = data(S, n, mu)
    w = S.flat(S.vec("w", n, lo=-1, hi=1))
    S.assume(S.lt(0, S.quad(c, w)))
    S.assume(S.not_(S.eq(S.sum(w), 0)))
    k = len(S.printed)
    o = S.call(S.pf.base_optimizer.portfolio_performance, dict(zip(tick, w)), ma, ca, verbose=True, risk_free_rate=S.real("rf", lo=-.5, hi=.5))
    S.claim("ok", o.ok)
    if o.ok:
        report(S, o.value, ("return", "volatility", "ratio"), k)
    k = len(S.printed)
    S.call(S.pf.base_optimizer.portfolio_performance, dict(zip(tick, w)), ma, ca)
    S.claim("silent", len(S.printed) == k)


def variance(S, what, mu="series", n=2):
    tick, m, c, ma, ca = data(S, n, mu)
    e = S.pf.EfficientFrontier(ma, ca) if what == "EF" else S.pf.CLA(ma, ca)
    w = S.flat(S.vec("w", n, lo=-1, hi=1))
    S.assume(S.lt(0, S.quad(c, w)))
    if what == "CLA":
        e.weights = S.arr(w)
    else:
        e.set_weights({tick[i]: w[i] for i in range(n)})
    k = len(S.printed)
    o = S.call(e.portfolio_performance, verbose=True, risk_free_rate=S.real("rf", lo=-.5, hi=.5))
    S.claim("ok", o.ok)
    if o.ok:
        report(S, o.value, ("return", "volatility", "ratio"), k)
    k = len(S.printed)
    S.call(e.portfolio_performance)
    S.claim("silent", len(S.printed) == k)


def hrp(S, n=2, by="cov"):
    tick = ["ZED", "AAA", "MMM"][:n]
    R = S.mat("r", 3, n, lo=-.5, hi=.5)
    h = S.pf.HRPOpt(S.frame(R, tick)) if by == "returns" else S.pf.HRPOpt(cov_matrix=S.frame(S.psd("c", n), tick, tick))
    w = S.flat(S.vec("w", n, lo=-1, hi=1))
    h.set_weights(dict(zip(tick, w)))
    k = len(S.printed)
    o = S.call(h.portfolio_performance, verbose=True, risk_free_rate=S.real("rf", lo=-.5, hi=.5), frequency=12)
    if not o.ok:
        S.dead()
    S.assume(S.lt(0, o.value[1]))
    report(S, o.value, ("return", "volatility", "ratio"), k)


def views(S):
    c = S.psd("c", 2)
    t = ["AAA", "BBB"]
    b = S.pf.BlackLittermanModel(S.frame(c, t, t), absolute_views={"AAA": S.real("q", lo=-1, hi=1)}, pi=S.series(S.vec("pi", 2, lo=-1, hi=1), t))
    w = S.flat(S.vec("w", 2, lo=-1, hi=1))
    S.assume(S.lt(0, S.quad(c, w)))
    b.set_weights(dict(zip(t, w)))
    k = len(S.printed)
    o = S.call(b.portfolio_performance, verbose=True)
    if not o.ok:
        S.dead()
    report(S, o.value, ("return", "volatility", "ratio"), k)


def tails(S, kind, mu="series", T=2, **kw):
    o = build(S, kind, n=2, T=T, mu=mu, **kw)
    out = run(o, {"SV": "min_semivariance", "CVAR": "min_cvar", "CDAR": "min_cdar"}[kind], None)
    if not out.ok:
        S.dead()
    k = len(S.printed)
    p = S.call(o.ef.portfolio_performance, True)
    if not p.ok:
        S.dead()
    if kind == "SV":
        S.assume(S.lt(0, p.value[1]))
    report(S, p.value, ("return", "semi", "ratio") if kind == "SV" else ("return", kind.lower()), k)
    k = len(S.printed)
    S.call(o.ef.portfolio_performance)
    S.claim("silent", len(S.printed) == k)


def allocation(S, W, V, p, names, n, left, mark):
    """the report of an allocation: funds, each asset's weight in what was bought and its desired weight, the error"""
    states(S, "funds", left, mark)
    cost = S.sum([a * b for a, b in zip(n, p)])
    got = [a * b / cost if a else 0 for a, b in zip(n, p)]
    for k, w, g in zip(names, W, got):
        ls = [l for l in lines(S, mark) if l.split(":")[0].strip() == k]
        S.claim("one.line.%s" % k, len(ls) == 1)
        if len(ls) == 1:
            xs = S.numbers(ls[0].split(":", 1)[1])
            S.claim("two.figures.%s" % k, len(xs) == 2)
            if len(xs) == 2:
                S.claim("allocated.%s" % k, near(S, *xs[0], g))
                S.claim("desired.%s" % k, near(S, *xs[1], w))
    ls = [l for l in lines(S, mark) if "rmse" in l.lower()]
    S.claim("one.error", len(ls) == 1)
    if len(ls) != 1:
        return
    xs = S.numbers(ls[0])
    S.claim("one.error.figure", len(xs) == 1)
    if len(xs) != 1:
        return
    x, tol = xs[0]
    mse = S.sum([(w - g) * (w - g) for w, g in zip(W, got)]) / len(W)
    S.claim("error.not.negative", S.le(-tol, x))
    S.claim("error.not.below", S.eq(x * x, mse), S.le(mse, (x + tol) * (x + tol)))
    S.claim("error.not.above", S.eq(x * x, mse), S.le(x, tol), S.le((x - tol) * (x - tol), mse))


def greedy(S, n=2, **k):
    t, V, w, p, names, P = alloc.market(S, n, **k)
    d = S.pf.DiscreteAllocation(dict(zip(names, w)), P, V)
    o = S.call(d.greedy_portfolio)
    S.claim("silent", not S.printed)
    o = S.call(d.greedy_portfolio, verbose=True)
    S.claim("ok", o.ok)
    if o.ok:
        al, left = o.value
        allocation(S, w, V, p, names, [al.get(x, 0) for x in names], left, 0)


def lp(S, n=2, vec=(1, 2), **k):
    t, V, w, p, names, P = alloc.market(S, n, **k)
    d = S.pf.DiscreteAllocation(dict(zip(names, w)), P, V)
    S.solution_plan = lambda i, cap: [list(vec) if v.attributes.get("integer") else [S.real("u%d" % j) for j in range(v.size)] for v in cap.vars]
    o = S.call(d.lp_portfolio)
    if not o.ok:
        S.dead()
    S.claim("silent", not S.printed)
    o = S.call(d.lp_portfolio, verbose=True)
    S.claim("ok", o.ok)
    if o.ok:
        al, left = o.value
        allocation(S, w, V, p, names, [al.get(x, 0) for x in names], left, 0)


SCENARIOS = [Sc("func" + s, func, kw) for s, kw in [("", {}), ("-none", dict(mu="none")), ("-list", dict(mu="list")), ("-three", dict(n=3))]]
SCENARIOS += [Sc("%s%s" % (k, s), variance, dict(kw, what=k)) for k in ("EF", "CLA") for s, kw in [("", {}), ("-none", dict(mu="none")), ("-array", dict(mu="array")), ("-three", dict(n=3))] if (k, s) != ("CLA", "-none")]
SCENARIOS += [Sc("hrp-%s" % b, hrp, dict(by=b)) for b in ("cov", "returns")] + [Sc("views", views)]
SCENARIOS += [Sc("%s%s" % (k, s), tails, dict(kw, kind=k)) for k in ("SV", "CVAR", "CDAR") for s, kw in [("", {}), ("-none", dict(mu="none")), ("-three", dict(T=3))]]
SCENARIOS += [Sc("SV-frequency", tails, dict(kind="SV", freq="sym"))]
SCENARIOS += [Sc("greedy" + s, greedy, kw) for s, kw in [("", {}), ("-numeric", dict(prices=(2.5, 4), value=11)), ("-cash", dict(prices=(2.5, 4), value=11, cash=True)), ("-zero", dict(zero=(0,))),
                                                      ("-integer", dict(prices=(2, 5), value=13, cap=5)), ("-three", dict(n=3, prices=(2.5, 4, 3), value=10)), ("-extra", dict(prices=(2.5, 4), value=11, extra=True, order=(1, 0)))]]
SCENARIOS += [Sc("lp" + s, lp, kw) for s, kw in [("", dict(cap=9)), ("-none", dict(vec=(0, 0), prices=(2.5, 4), value=11)), ("-one", dict(vec=(0, 2))), ("-cash", dict(prices=(2.5, 4), value=11, cash=True)), ("-three", dict(n=3, vec=(2, 0, 1)))]]
