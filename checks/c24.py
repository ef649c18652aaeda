from symx.run import Sc
from . import est

BOUNDS = "2-5 symbolic positive prices or 1-5 symbolic returns above -100% of 1-3 assets, simple and log, every pattern of leading missing prices, gaps of 1-2 periods at any place"
OUTSIDE = "longer histories; float rounding"


def conv(S, rows=3, n=2, log=False, missing=(), index=None):
    D, P = est.history(S, rows, n, "prices", missing, index=index)
    ix = list(index or range(rows))
    kw = dict(log_returns=True) if log else {}
    out = S.call(S.pf.expected_returns.returns_from_prices, D, **kw)
    S.claim("ok", out.ok)
    if not out.ok:
        return
    R = out.value
    keep = [t for t in range(1, rows) if any(c[t - 1] is not None and c[t] is not None for c in P)]
    S.claim("periods", list(R.index) == [ix[t] for t in keep])
    S.claim("assets", list(R.columns) == est.T[:n])
    if list(R.index) != [ix[t] for t in keep] or R.shape[1] != n:
        return
    for k, t in enumerate(keep):
        for i in range(n):
            x, a, b = R.iloc[k, i], P[i][t - 1], P[i][t]
            if a is None or b is None:
                S.claim("missing%d_%d" % (t, i), isinstance(x, float) and x != x)
            else:
                S.claim("return%d_%d" % (t, i), S.eq(x, S.log(b / a) if log else b / a - 1))
                if log:
                    S.claim("growth%d_%d" % (t, i), S.eq(S.exp(x) * a, b))
    S.observe("returns", [[x for x in r if not (isinstance(x, float) and x != x)] for r in R.values.tolist()])
    # back to prices: the available path, scaled to start at 1 in the first period of the returns
    out = S.call(S.pf.expected_returns.prices_from_returns, R, **kw)
    S.claim("back.ok", out.ok)
    if not out.ok:
        return
    Q = out.value
    S.claim("back.periods", list(Q.index) == list(R.index) and list(Q.columns) == est.T[:n])
    for i in range(n):
        if any(x is None for x in P[i]):
            continue
        for k, t in enumerate(keep):
            S.claim("back%d_%d" % (t, i), S.eq(Q.iloc[k, i] * P[i][keep[0]], P[i][t]))


def full(S, rows=3, n=2, log=False):
    """returns whose first row (before any price change) is kept: the whole price path comes back"""
    D, P = est.history(S, rows, n, "prices")
    R = D.pct_change(fill_method=None)
    if log:
        R = S.np.log(1 + R)
    kw = dict(log_returns=True) if log else {}
    out = S.call(S.pf.expected_returns.prices_from_returns, R, **kw)
    S.claim("ok", out.ok)
    if not out.ok:
        return
    Q = out.value
    S.claim("labels", list(Q.index) == list(range(rows)) and list(Q.columns) == est.T[:n])
    for i in range(n):
        for t in range(rows):
            S.claim("price%d_%d" % (t, i), S.eq(Q.iloc[t, i] * P[i][0], P[i][t]))


def back(S, rows=3, n=2, log=False):
    """returns -> pseudo-prices -> returns"""
    D, R = est.history(S, rows, n, "returns")
    kw = dict(log_returns=True) if log else {}
    out = S.call(S.pf.expected_returns.prices_from_returns, D, **kw)
    S.claim("ok", out.ok)
    if not out.ok:
        return
    Q = out.value
    S.claim("labels", list(Q.index) == list(range(rows)) and list(Q.columns) == est.T[:n])
    S.observe("prices", Q.values.tolist())
    for i in range(n):
        S.claim("first%d" % i, S.eq(Q.iloc[0, i], 1))
        for t in range(1, rows):
            g = S.exp(R[i][t]) if log else 1 + R[i][t]
            S.claim("growth%d_%d" % (t, i), S.eq(Q.iloc[t, i], Q.iloc[t - 1, i] * g))
    out = S.call(S.pf.expected_returns.returns_from_prices, Q, **kw)
    S.claim("again.ok", out.ok)
    if not out.ok or rows == 1:
        return
    X = out.value
    S.claim("again.periods", list(X.index) == list(range(1, rows)))
    for i in range(n):
        for t in range(1, rows):
            S.claim("again%d_%d" % (t, i), S.eq(X.iloc[t - 1, i], R[i][t]))


SCENARIOS = []
for rows, n, log in ((2, 1, 0), (3, 2, 0), (4, 2, 0), (5, 3, 0), (2, 2, 1), (3, 2, 1), (4, 3, 1), (5, 1, 1)):
    nm = "%d-%d%s" % (rows, n, "-log" if log else "")
    SCENARIOS += [Sc("prices-" + nm, conv, dict(rows=rows, n=n, log=bool(log))), Sc("kept-" + nm, full, dict(rows=rows, n=n, log=bool(log))),
                  Sc("returns-" + nm, back, dict(rows=rows, n=n, log=bool(log)))]
SCENARIOS += [
    Sc("dates", conv, dict(rows=4, n=2, index=["2020-03-02", "2020-03-03", "2020-03-04", "2020-03-05"])),
    Sc("missing-1", conv, dict(rows=4, n=2, missing=(1, 0))),
    Sc("missing-2", conv, dict(rows=4, n=2, missing=(0, 2))),
    Sc("missing-both", conv, dict(rows=5, n=2, missing=(2, 1))),
    Sc("missing-late", conv, dict(rows=4, n=2, missing=(0, 3))),
    Sc("missing-log", conv, dict(rows=4, n=3, missing=(1, 0, 2), log=True)),
    Sc("gap", conv, dict(rows=4, n=2, missing=((1,), 0))),
    Sc("gap-log", conv, dict(rows=5, n=2, missing=((2,), (0, 3)), log=True)),
    Sc("gap-both", conv, dict(rows=5, n=2, missing=((2,), (2,)))),
    Sc("gap-wide", conv, dict(rows=6, n=2, missing=((2, 3), (1, 5)))),
    Sc("gap-last", conv, dict(rows=4, n=3, missing=((3,), 0, (1, 3)))),
    Sc("gap-one-asset-log", conv, dict(rows=6, n=1, missing=((3,),), log=True)),
    Sc("missing-all", conv, dict(rows=4, n=2, missing=(1, 1))),
    Sc("missing-all-log", conv, dict(rows=5, n=2, missing=(2, 2), log=True)),
]
