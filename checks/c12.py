from symx.run import Sc
from checks.opt import build

BOUNDS = "1-3 assets, symbolic weights, returns, covariances and rates, every container, label permutations, missing and extra labels; HRP on 3-4 periods of returns, Black-Litterman with 1-2 views; real arithmetic"
OUTSIDE = "expected returns and covariance labelled in different orders; printing; float rounding"

T3 = ["ZED", "AAA", "MMM"]


def formulas(S, val, w, mu, cov, rf):
    n = len(w)
    q = S.quad(cov, w)
    r, s, sh = val
    S.observe("sigma", s)
    S.claim("volatility.nonneg", S.le(0, s))
    S.claim("volatility", S.eq(s * s, q))
    if mu is None:
        S.claim("no.return", r is None)
        S.claim("no.sharpe", sh is None)
        return
    S.observe("perf", [r, sh])
    S.claim("return", S.eq(r, S.dot(w, mu)))
    S.claim("sharpe", S.eq(sh * s, S.dot(w, mu) - rf))


def data(S, n, mu="series", cov="frame", labels=True):
    tick = T3[:n] if labels else list(range(n))
    m = S.vec("mu", n, lo=-1, hi=1) if mu != "none" else None
    c = S.psd("c", n)
    ma = None if m is None else S.series(m, tick) if mu == "series" else list(S.flat(m)) if mu == "list" else m
    return tick, m, c, ma, S.frame(c, tick, tick) if cov == "frame" else c


def func(S, n=2, wform="dict", mu="series", cov="frame", have=None, rf="sym"):
    """portfolio_performance as a function; have: labels present in the mapping, in this order"""
    tick, m, c, ma, ca = data(S, n, mu, cov)
    if mu != "series" and cov != "frame":
        tick = list(range(n))
    w = S.flat(S.vec("w", n, lo=-1, hi=1))
    if have is not None:
        w = [x if i in have else 0 for i, x in enumerate(w)]
    order = have if have is not None else range(n)
    tot = S.sum(w)
    q = S.quad(c, w)
    S.assume(S.or_(S.lt(0, q), S.eq(tot, 0)))
    if wform in ("dict", "extra"):
        warg = {tick[i]: w[i] for i in order}
        if wform == "extra":
            warg["EXTRA"] = S.real("we", lo=-1, hi=1)
    elif wform == "list":
        warg = list(w)
        S.assume(S.lt(0, q))
    elif wform == "none":
        warg = None
    else:
        warg = S.arr(w)
        S.assume(S.lt(0, q))
    r = S.real("rf", lo=-.5, hi=.5)
    f = S.pf.base_optimizer.portfolio_performance
    out = S.call(f, warg, ma, ca, risk_free_rate=r) if rf == "sym" else S.call(f, warg, ma, ca, False)
    if wform == "none":
        S.claim("rejected", out.raised("ValueError"))
        return
    if not out.ok:
        S.claim("rejected.with.ValueError", out.raised("ValueError"))
        S.claim("rejected.only.if.zero.sum", S.eq(tot, 0))
        if wform not in ("dict", "extra"):
            S.claim("accepted", False)
        return
    if wform in ("dict", "extra"):
        S.claim("zero.sum.rejected", S.not_(S.eq(tot, 0)))
    formulas(S, out.value, w, None if m is None else S.flat(m), c, r if rf == "sym" else 0)


def optimiser(S, what, n=2, mu="series", cov="frame", verbose=False):
    tick, m, c, ma, ca = data(S, n, mu, cov)
    if what == "EF":
        e = S.pf.EfficientFrontier(ma, ca)
    else:
        e = S.pf.CLA(ma, ca)
    if mu != "series" and (cov != "frame" or what == "CLA"):
        tick = list(range(n))
    S.claim("no.weights.rejected", S.call(e.portfolio_performance).raised("ValueError"))
    w = S.flat(S.vec("w", n, lo=-1, hi=1))
    S.assume(S.lt(0, S.quad(c, w)))
    def put(x):
        if what == "CLA":
            e.weights = S.arr(x)            # set_weights is not offered
        else:
            e.set_weights({tick[i]: x[i] for i in reversed(range(n))})
    put(w)
    r = S.real("rf", lo=-.5, hi=.5)
    out = S.call(e.portfolio_performance, verbose=verbose, risk_free_rate=r)
    S.claim("ok", out.ok)
    S.claim("no.warning", not out.warned("UserWarning"))
    if out.ok:
        formulas(S, out.value, w, None if m is None else S.flat(m), c, r)
    out = S.call(e.portfolio_performance)
    S.claim("default.ok", out.ok)
    if out.ok and m is not None:
        S.claim("default.sharpe", S.eq(out.value[2] * out.value[1], S.dot(w, m)))
    # another portfolio on the same optimiser
    v = S.flat(S.vec("v", n, lo=-1, hi=1))
    S.assume(S.lt(0, S.quad(c, v)))
    put(v)
    out = S.call(e.portfolio_performance, risk_free_rate=r)
    S.claim("again.ok", out.ok)
    if out.ok:
        S.claim("again.volatility", S.eq(out.value[1] * out.value[1], S.quad(c, v)))
        if m is not None:
            S.claim("again.return", S.eq(out.value[0], S.dot(v, m)))
            S.claim("again.sharpe", S.eq(out.value[2] * out.value[1], S.dot(v, m) - r))


def after_sharpe(S, n=2, default=False):
    o = build(S, "EF", n=n)
    r = S.real("rf", lo=-.2, hi=.2)
    S.assume(S.lt(r, S.smax(*o.mu)))
    if default:
        S.assume(S.eq(r, 0))
    w0 = [S.real("y%d" % i, lo=.1, hi=1) for i in range(n)]
    k = S.real("k", lo=.1, hi=2)
    for x in w0 + [k]:
        S.assume(S.lt(0, x))
    S.solution_plan = lambda j, cap: [k if sh == () else w0 for sh in cap.shapes()]
    out = S.call(o.ef.max_sharpe) if default else S.call(o.ef.max_sharpe, r)
    S.claim("ok", out.ok)
    if not out.ok:
        return
    w = S.flat(out.value)
    S.assume(S.lt(0, S.quad(o.cov, w)))
    S.claim("stored", S.eqs(o.ef.weights, w))
    s2 = S.real("rf2", lo=-.2, hi=.2)
    p = S.call(o.ef.portfolio_performance, risk_free_rate=s2)
    S.claim("perf.ok", p.ok)
    if p.ok:
        formulas(S, p.value, w, o.mu, o.cov, 0 if default else r)
        S.claim("warned.iff.different", S.eq(s2, 0 if default else r) if not p.warned("UserWarning") else S.not_(S.eq(s2, 0 if default else r)))
    p = S.call(o.ef.portfolio_performance)
    if p.ok:
        S.claim("default.sharpe", S.eq(p.value[2] * p.value[1], S.dot(w, o.mu) - (0 if default else r)))


def after_vol(S, n=2):
    o = build(S, "EF", n=n)
    out = S.call(o.ef.min_volatility)
    w = S.flat(out.value)
    S.assume(S.lt(0, S.quad(o.cov, w)))
    r = S.real("rf", lo=-.5, hi=.5)
    p = S.call(o.ef.portfolio_performance, risk_free_rate=r)
    S.claim("ok", p.ok)
    if p.ok:
        formulas(S, p.value, w, o.mu, o.cov, r)


def hrp(S, T=3, n=2, how="returns", freq="sym"):
    tick = T3[:n]
    w = S.flat(S.vec("w", n, lo=-1, hi=1))
    kw = {}
    f = 252
    if freq == "sym":
        f = kw["frequency"] = S.real("f", pos=True, lo=1, hi=12)
    r = S.real("rf", lo=-.5, hi=.5)
    if how == "returns":
        R = S.mat("r", T, n, lo=-.5, hi=.5)
        h = S.pf.HRPOpt(returns=S.frame(R, tick))
        m = [S.sum([R[t][i] for t in range(T)]) / T for i in range(n)]
        c = [[S.sum([(R[t][i] - m[i]) * (R[t][j] - m[j]) for t in range(T)]) / (T - 1) * f for j in range(n)] for i in range(n)]
        mu = [x * f for x in m]
    else:
        cov = S.psd("c", n)
        h = S.pf.HRPOpt(cov_matrix=S.frame(cov, tick, tick))
        c, mu = cov, None
    S.assume(S.lt(0, S.quad(c, w)))
    S.claim("no.weights.rejected", S.call(h.portfolio_performance).raised("ValueError"))
    h.set_weights({tick[i]: w[i] for i in reversed(range(n))})
    p = S.call(h.portfolio_performance, risk_free_rate=r, **kw)
    S.claim("ok", p.ok)
    if p.ok:
        formulas(S, p.value, w, mu, c, r)


def black_litterman(S, n=2, how="bl_weights", k=1, cov="frame"):
    tick = T3[:n] if cov == "frame" else list(range(n))
    M = S.psd("c", n)
    q = S.flat(S.vec("q", k, lo=-.3, hi=.3))
    pi = S.vec("pi", n, lo=-.3, hi=.3)
    r = S.real("rf", lo=-.5, hi=.5)
    kw = dict(pi=pi, absolute_views={tick[n - 1 - i]: q[i] for i in range(k)}, tau=S.real("tau", pos=True, lo=.1, hi=1))
    S.bound(kw["tau"], 0, 1)
    C = S.frame(M, tick, tick) if cov == "frame" else M
    o, ref = S.pf.BlackLittermanModel(C, **kw), S.pf.BlackLittermanModel(C, **kw)
    S.claim("no.weights.rejected", S.call(S.pf.BlackLittermanModel(C, **kw).portfolio_performance).raised("ValueError"))
    m = S.flat(ref.bl_returns())
    V = ref.bl_cov()
    V = [[V.iloc[i, j] for j in range(n)] for i in range(n)]
    if how == "bl_weights":
        out = S.call(o.bl_weights)
        S.claim("weights.ok", out.ok)
        if not out.ok:
            return
        w = [out.value[t] for t in tick]
    else:
        w = S.flat(S.vec("w", n, lo=-1, hi=1))
        if how == "returns-first":
            o.bl_returns()
        if how == "replaced":
            o.bl_weights()
        o.set_weights({tick[i]: w[i] for i in reversed(range(n))})
    S.assume(S.lt(0, S.quad(V, w)))
    p = S.call(o.portfolio_performance, risk_free_rate=r)
    S.claim("ok", p.ok)
    if p.ok:
        formulas(S, p.value, w, m, V, r)


def unset(S, kind, mu, form):
    """no performance before there are weights, nor after a rejected optimisation"""
    o = build(S, kind, mu=mu, form=form)
    for v in (False, True):
        p = S.call(o.ef.portfolio_performance, v)
        S.claim("no.weights.rejected", p.raised("ValueError"))
    S.claim("nothing.printed", not S.printed)


SCENARIOS = [
    Sc("BL-weights-2", black_litterman, dict(n=2)),
    Sc("BL-weights-3", black_litterman, dict(n=3, cov="array")),
    Sc("BL-set-2", black_litterman, dict(n=2, how="set", k=2)),
    Sc("BL-set-3", black_litterman, dict(n=3, how="set")),
    Sc("BL-returns-first", black_litterman, dict(n=2, how="returns-first")),
    Sc("BL-replaced", black_litterman, dict(n=3, how="replaced", cov="array", k=2)),
    Sc("dict-2", func, dict(n=2)),
    Sc("dict-3-permuted", func, dict(n=3, have=[2, 0, 1])),
    Sc("dict-missing", func, dict(n=3, have=[2, 1])),
    Sc("dict-missing-2", func, dict(n=2, have=[1])),
    Sc("dict-extra", func, dict(n=2, wform="extra", have=[1, 0])),
    Sc("dict-array-frame", func, dict(n=2, mu="array", have=[1, 0])),
    Sc("dict-none-frame", func, dict(n=3, mu="none", have=[1, 0, 2])),
    Sc("dict-series-array", func, dict(n=2, cov="array", have=[1, 0])),
    Sc("dict-ints", func, dict(n=3, mu="array", cov="array", have=[2, 1])),
    Sc("dict-ints-list", func, dict(n=2, mu="list", cov="array", have=[1, 0])),
    Sc("list-weights", func, dict(n=2, wform="list")),
    Sc("array-weights", func, dict(n=3, wform="array", cov="array")),
    Sc("array-weights-none", func, dict(n=2, wform="array", mu="none", cov="array")),
    Sc("default-rate", func, dict(n=2, wform="array", mu="array", rf="default")),
    Sc("one-asset", func, dict(n=1)),
    Sc("none-weights", func, dict(n=2, wform="none")),
    Sc("EF", optimiser, dict(what="EF", n=3)),
    Sc("EF-array", optimiser, dict(what="EF", mu="array", cov="array")),
    Sc("EF-list-verbose", optimiser, dict(what="EF", mu="list", verbose=True)),
    Sc("EF-none", optimiser, dict(what="EF", mu="none")),
    Sc("EF-none-verbose", optimiser, dict(what="EF", mu="none", verbose=True)),
    Sc("CLA", optimiser, dict(what="CLA", n=3)),
    Sc("CLA-array", optimiser, dict(what="CLA", mu="array", cov="array")),
    Sc("after-sharpe", after_sharpe),
    Sc("after-sharpe-3", after_sharpe, dict(n=3)),
    Sc("after-sharpe-default", after_sharpe, dict(default=True)),
    Sc("after-volatility", after_vol, dict(n=3)),
    Sc("HRP-returns", hrp, dict(n=2)),
    Sc("HRP-returns-default", hrp, dict(n=2, freq="default")),
    Sc("HRP-returns-3", hrp, dict(n=3, T=4), tier="thorough"),
    Sc("HRP-cov", hrp, dict(n=3, how="cov")),
]
SCENARIOS += [Sc("unset-%s-%s-%s" % (k, mu, f), unset, dict(kind=k, mu=mu, form=f)) for k in ("EF", "SV", "CVAR", "CDAR")
              for mu, f in (("series", "frame"), ("none", "frame"), ("array", "array"))]
