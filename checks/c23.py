from symx.run import Sc
from . import est

BOUNDS = "1-3 assets, 2-5 symbolic prices or 1-4 symbolic returns each; frequencies 1, 2, 12 and the default 252 for compounded and any positive frequency for arithmetic means, symbolic span and risk-free rate; frames, arrays and lists; simple and log returns; market given or equal-weighted"
OUTSIDE = "longer histories; symbolic frequencies of compounded means; float rounding; real prices of exactly zero or below"


def data(S, rows, n, what, log, kind, missing=()):
    D, P = est.history(S, rows, n, what, missing, kind, name="p" if what == "prices" else "r")
    R = est.returns(S, P, log) if what == "prices" else P
    kw = {}
    if what == "returns":
        kw["returns_data"] = True
    if log:
        kw["log_returns"] = True
    return D, P, R, kw


def labelled(S, out, n, kind):
    S.claim("ok", out.ok)
    if not out.ok:
        return None
    S.claim("labels", list(out.value.index) == est.labels(n, kind))
    v = S.flat(out.value)
    S.observe("mu", v)
    return v


def mean(S, rows=3, n=2, what="prices", log=False, kind="frame", comp=True, freq=2):
    D, P, R, kw = data(S, rows, n, what, log, kind)
    f = freq
    if not comp:
        kw["compounding"] = False
        if freq == "any":
            f = S.real("f", pos=True, lo=1, hi=12)
    if freq != 252:
        kw["frequency"] = f
    if comp and log:
        for c in R:
            for x in c:
                S.assume(S.lt(-1, x))
    v = labelled(S, S.call(S.pf.expected_returns.mean_historical_return, D, **kw), n, kind)
    if v is None:
        return
    for i in range(n):
        if comp:
            S.claim("cagr%d" % i, est.compounded(S, v[i], est.prod(S, [1 + x for x in R[i]]), f, len(R[i])))
        else:
            S.claim("mean%d" % i, S.eq(v[i], f * est.mean(S, R[i])))


def ema(S, rows=3, n=2, what="prices", log=False, kind="frame", comp=True, freq=2, span="any"):
    D, P, R, kw = data(S, rows, n, what, log, kind)
    f = freq
    if not comp:
        kw["compounding"] = False
        if freq == "any":
            f = S.real("f", pos=True, lo=1, hi=12)
    if freq != 252:
        kw["frequency"] = f
    s = 500
    if span == "any":
        s = kw["span"] = S.real("span", pos=True, lo=2, hi=20)
        S.assume(S.lt(1, s))
    elif span != 500:
        s = kw["span"] = span
    v = labelled(S, S.call(S.pf.expected_returns.ema_historical_return, D, **kw), n, kind)
    if v is None:
        return
    for i in range(n):
        m = est.ewm(S, R[i], s)
        S.claim("ema%d" % i, S.eq(v[i] + 1, est.ipow(1 + m, f)) if comp else S.eq(v[i], f * m))


def capm(S, rows=3, n=2, what="prices", log=False, kind="frame", comp=True, freq=1, market=False, rf=True, mkind="frame"):
    D, P, R, kw = data(S, rows, n, what, log, kind)
    f = freq
    r = 0
    if rf:
        r = kw["risk_free_rate"] = S.real("rf", lo=0, hi=.2)
    if not comp:
        kw["compounding"] = False
        if freq == "any":
            f = S.real("f", pos=True, lo=1, hi=12)
    if freq != 252:
        kw["frequency"] = f
    if market:
        M, Q = est.history(S, rows, 1, what, name="m", kind="frame" if mkind == "frame" else mkind)
        if mkind == "frame":
            M = M.rename(columns={est.T[0]: "SPY"})
        elif mkind == "series":
            M = S.series(Q[0], list(range(rows)))
        kw["market_prices"] = M
        m = (est.returns(S, Q, log) if what == "prices" else Q)[0]
    else:
        m = [S.sum([c[t] for c in R]) / n for t in range(len(R[0]))]
    var = est.cov(S, m, m)
    S.assume(S.lt(0, var))
    if market and log and rows == 3:
        a, b, c = Q[0]
        S.assume(S.not_(S.eq(b * b, a * c)))       # follows from the variance being positive; for the solver's models
    for x in m:
        S.assume(S.lt(-1, x))
    v = labelled(S, S.call(S.pf.expected_returns.capm_return, D, **kw), n, kind)
    if v is None:
        return
    for i in range(n):
        b = est.cov(S, R[i], m) / var
        if not comp:
            S.claim("capm%d" % i, S.eq(v[i], r + b * (f * est.mean(S, m) - r)))
        else:
            # v = rf + b (E - rf) with (1 + E)^count = growth^frequency
            p, q = est.ints(f, len(m))
            g = est.ipow(est.prod(S, [1 + x for x in m]), p)
            if q == 1:
                S.claim("capm%d" % i, S.eq(v[i], r + b * (g - 1 - r)))
            else:
                E = S.power(g, S.frac(1) / q) - 1
                S.claim("capm%d" % i, S.eq(v[i], r + b * (E - r)))


SCENARIOS = [
    Sc("mean-3-2", mean, dict(rows=3, n=2)),
    Sc("mean-4-3", mean, dict(rows=4, n=3, freq=12)),
    Sc("mean-4-root", mean, dict(rows=4, n=1, freq=1)),
    Sc("mean-5-root", mean, dict(rows=5, n=2, freq=2)),
    Sc("mean-3-default", mean, dict(rows=3, n=2, freq=252)),
    Sc("mean-2-default", mean, dict(rows=2, n=2, freq=252, kind="array")),
    Sc("mean-returns", mean, dict(rows=2, n=2, what="returns", freq=2)),
    Sc("mean-returns-root", mean, dict(rows=3, n=2, what="returns", freq=2)),
    Sc("mean-returns-3", mean, dict(rows=3, n=3, what="returns", freq=6, kind="list")),
    Sc("mean-log", mean, dict(rows=3, n=2, log=True, freq=2)),
    Sc("mean-arith", mean, dict(rows=3, n=2, comp=False, freq="any")),
    Sc("mean-arith-5", mean, dict(rows=5, n=3, comp=False, freq="any", kind="array")),
    Sc("mean-arith-default", mean, dict(rows=4, n=2, comp=False, freq=252, what="returns")),
    Sc("mean-arith-log", mean, dict(rows=4, n=2, comp=False, freq="any", log=True)),
    Sc("ema-3-2", ema, dict(rows=3, n=2)),
    Sc("ema-4-1", ema, dict(rows=4, n=1, freq=3)),
    Sc("ema-5-arith", ema, dict(rows=5, n=2, comp=False, freq="any")),
    Sc("ema-default", ema, dict(rows=3, n=2, span=500, freq=1)),
    Sc("ema-default-freq", ema, dict(rows=4, n=2, span=500, freq=252, comp=False)),
    Sc("ema-returns", ema, dict(rows=3, n=3, what="returns", kind="array")),
    Sc("ema-returns-arith", ema, dict(rows=4, n=2, what="returns", comp=False, freq="any")),
    Sc("ema-log", ema, dict(rows=3, n=2, log=True)),
    Sc("ema-log-arith", ema, dict(rows=4, n=2, log=True, comp=False, kind="list")),
    Sc("capm-3-2", capm, dict(rows=3, n=2, freq=2)),
    Sc("capm-4-2-root", capm, dict(rows=4, n=2, freq=1)),
    Sc("capm-4-3", capm, dict(rows=4, n=3, freq=3)),
    Sc("capm-arith", capm, dict(rows=4, n=2, comp=False, freq="any")),
    Sc("capm-arith-default", capm, dict(rows=3, n=2, comp=False, freq=252, rf=False)),
    Sc("capm-market", capm, dict(rows=3, n=2, market=True, freq=2)),
    Sc("capm-market-array", capm, dict(rows=3, n=2, market=True, freq=4, mkind="array")),
    Sc("capm-market-series", capm, dict(rows=3, n=2, market=True, comp=False, freq="any", mkind="series")),
    Sc("capm-market-returns", capm, dict(rows=3, n=2, market=True, what="returns", freq=3)),
    Sc("capm-returns", capm, dict(rows=3, n=3, what="returns", comp=False, freq="any", kind="array")),
    Sc("capm-log", capm, dict(rows=3, n=2, log=True, comp=False, freq="any", market=True)),
    Sc("capm-log-compounded", capm, dict(rows=3, n=2, log=True, freq=2)),
]
