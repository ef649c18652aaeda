import numpy
from symx.run import Sc

BOUNDS = "2-4 assets: all covariances (2-3 assets fully symbolic, 4 assets symbolic variances and correlations), 2-3 assets from 3-4 symbolic return rows, every dendrogram the clustering may return; symbolic frequency and risk-free rate"
OUTSIDE = "scipy's clustering itself (any dendrogram is allowed) and its to_tree; more assets; missing returns; float rounding"
T = ["CCC", "AAA", "DDD", "BBB"]


def dendrogram(S, n):
    """any sequence of merges; returns the linkage matrix and its leaf order"""
    act = [(i, [i]) for i in range(n)]
    Z = []
    for k in range(n - 1):
        pairs = [(a, b) for a in range(len(act)) for b in range(a + 1, len(act))]
        a, b = pairs[S.choose(len(pairs), "merge")] if len(pairs) > 1 else pairs[0]
        (i, li), (j, lj) = act[a], act[b]
        act = [x for q, x in enumerate(act) if q not in (a, b)] + [(n + k, li + lj)]
        Z.append([i, j, (k + 1) / 8, len(li + lj)])
    return Z, act[0][1]


def bisect(S, C, order):
    def var(items):
        inv = [1 / C[i][i] for i in items]
        t = S.sum(inv)
        p = [x / t for x in inv]
        return S.sum([p[a] * C[i][j] * p[b] for a, i in enumerate(items) for b, j in enumerate(items)])
    w = {}

    def rec(items, x):
        if len(items) == 1:
            w[items[0]] = x
            return
        h = len(items) // 2
        f, s = items[:h], items[h:]
        v, u = var(f), var(s)
        rec(f, x * u / (v + u))
        rec(s, x * v / (v + u))
    rec(order, S.frac(1))
    return [w[i] for i in range(len(order))]


def clip01(S, x):
    return S.smin(S.smax(x, 0), 1)


def hrp(S, n=3, src="cov", rows=3, method=None, psd=True, diag=False, fixed=None):
    tick = T[:n]
    seen = {}
    if src == "cov":
        s = [S.real("s%d" % i, pos=True, lo=.1, hi=2) for i in range(n)]
        rho = [[1] * n for _ in range(n)]
        k = 0
        for i in range(n):
            for j in range(i + 1, n):
                rho[i][j] = rho[j][i] = S.real("r%d%d" % (i, j), lo=-.9, hi=.9) if psd else S.real("r%d%d" % (i, j), lo=-2, hi=2)
                if fixed:
                    if k not in fixed:
                        rho[i][j] = rho[j][i] = 0
                k += 1
        C = [[rho[i][j] * s[i] * s[j] for j in range(n)] for i in range(n)]
        if psd:
            for i in range(n):
                for j in range(i):
                    if not (type(rho[i][j]) is int):
                        S.bound(rho[i][j], -1, 1)
            if n == 3:
                a, b, c = rho[0][1], rho[0][2], rho[1][2]
                S.assume(S.le(0, 1 + 2 * a * b * c - a * a - b * b - c * c))
        corr = rho
        frame = S.frame(S.arr(C), tick, tick)
        kw = dict(cov_matrix=frame)
    else:
        R = S.mat("x", rows, n, lo=-.3, hi=.3)
        R = [[R[t][i] for i in range(n)] for t in range(rows)]
        m = [S.sum([R[t][i] for t in range(rows)]) / rows for i in range(n)]
        C = [[S.sum([(R[t][i] - m[i]) * (R[t][j] - m[j]) for t in range(rows)]) / (rows - 1) for j in range(n)] for i in range(n)]
        for i in range(n):
            S.assume(S.lt(0, C[i][i]))
        corr = None
        kw = dict(returns=S.frame(S.arr(R), tick))

    def linkage(y, method="single", metric="euclidean", optimal_ordering=False):
        Z, o = dendrogram(S, n)
        seen.update(y=S.flat(y), method=method, oo=optimal_ordering, order=o, n=seen.get("n", 0) + 1)
        return numpy.array(Z, dtype=float)
    S.stub("linkage", linkage)
    o = S.pf.HRPOpt(**kw)
    out = S.call(o.optimize, *([method] if method else []))
    S.claim("ok", out.ok)
    S.claim("clustered.once", seen.get("n") == 1)
    if not out.ok or seen.get("n") != 1:
        return
    S.claim("method", seen["method"] == (method or "single") and not seen["oo"])
    y = seen["y"]
    S.claim("distances.number", len(y) == n * (n - 1) // 2)
    k = 0
    for i in range(n):
        for j in range(i + 1, n):
            d = y[k]
            k += 1
            S.claim("distance.real%d%d" % (i, j), S.le(0, d))
            if corr is not None:
                t = clip01(S, (1 - corr[i][j]) / 2)
                S.claim("distance%d%d" % (i, j), S.le(S.abs(d * d - t), 3e-7))
            else:
                # by Cauchy-Schwarz the clipping changes nothing in exact arithmetic
                q = [[S.sum([(R[t][a] - m[a]) * (R[t][b] - m[b]) for t in range(rows)]) for a in (i, j)] for b in (i, j)]
                t = clip01(S, (1 - q[0][1] / (S.sqrt(q[0][0]) * S.sqrt(q[1][1]))) / 2)
                S.claim("distance%d%d" % (i, j), S.eq(d * d, t), S.eq(1 - 2 * d * d, C[i][j] / S.sqrt(C[i][i] * C[j][j])))
    w = [out.value[t] for t in tick]
    S.observe("w", w)
    S.claim("labels", sorted(out.value) == sorted(tick))
    S.claim("stored", S.eqs(o.weights, w))
    spec = bisect(S, C, seen["order"])
    for i in range(n):
        S.claim("bisection%d" % i, S.eq(w[i], spec[i]))
    S.claim("sum", S.eq(S.sum(w), 1))
    # (with three return series non-negativity follows from the bisection formula: each cluster variance is a sum of squares)
    if psd and (src == "cov" or n == 2):
        for i in range(n):
            S.claim("long%d" % i, S.le(0, w[i]))


def perf(S, n=2, src="cov", rows=3, rf=True, freq=False):
    tick = T[:n]
    ws = S.vec("w", n, lo=0, hi=1)
    w = S.flat(ws)
    r = S.real("rf", lo=0, hi=.2) if rf else 0
    f = S.real("f", pos=True, lo=1, hi=8) if freq else 252
    if src == "cov":
        M = S.psd("c", n)
        C = [[M[i, j] for j in range(n)] for i in range(n)]
        o = S.pf.HRPOpt(cov_matrix=S.frame(M, tick, tick))
    else:
        R = S.mat("x", rows, n, lo=-.3, hi=.3)
        R = [[R[t][i] for i in range(n)] for t in range(rows)]
        m = [S.sum([R[t][i] for t in range(rows)]) / rows for i in range(n)]
        C = [[f * S.sum([(R[t][i] - m[i]) * (R[t][j] - m[j]) for t in range(rows)]) / (rows - 1) for j in range(n)] for i in range(n)]
        m = [f * x for x in m]
        o = S.pf.HRPOpt(S.frame(S.arr(R), tick))
        if src == "both":
            o = S.pf.HRPOpt(S.frame(S.arr(R), tick), S.frame(S.psd("c", n), tick, tick))
    S.assume(S.lt(0, S.quad(C, w)))
    o.set_weights(dict(zip(tick, w)))
    kw = dict(risk_free_rate=r) if rf else {}
    if freq:
        kw["frequency"] = f
    out = S.call(o.portfolio_performance, **kw)
    S.claim("ok", out.ok)
    if not out.ok:
        return
    a, b, c = out.value
    S.claim("vol", S.and_(S.le(0, b), S.eq(b * b, S.quad(C, w))))
    if src == "cov":
        S.claim("none", a is None and c is None)
        return
    S.claim("return", S.eq(a, S.dot(m, w)))
    S.claim("sharpe", S.eq(c * b, S.dot(m, w) - r))


def errors(S):
    H = S.pf.HRPOpt
    c = S.frame(S.psd("c", 2), T[:2], T[:2])
    S.claim("nothing", S.call(H).raised("ValueError"))
    S.claim("array", S.call(H, S.psd("c", 2)).raised("TypeError"))
    o = H(cov_matrix=c)
    S.claim("method", S.call(o.optimize, "nonsense").raised("ValueError"))
    S.claim("no.weights", o.weights is None)
    S.claim("unsolved", S.call(o.portfolio_performance).raised("ValueError", "TypeError", "AttributeError"))


SCENARIOS = [
    Sc("cov-2", hrp, dict(n=2)),
    Sc("cov-3", hrp, dict(n=3)),
    Sc("cov-3-ward", hrp, dict(n=3, method="ward")),
    Sc("cov-3-any", hrp, dict(n=3, psd=False)),
    Sc("cov-4-diag", hrp, dict(n=4, fixed=[9])),
    Sc("cov-4-pair", hrp, dict(n=4, fixed=[0, 5])),
    Sc("returns-2", hrp, dict(n=2, src="returns", rows=3)),
    Sc("returns-3", hrp, dict(n=3, src="returns", rows=3)),
    Sc("perf-cov", perf, dict(n=3)),
    Sc("perf-cov-2", perf, dict(n=2, rf=False)),
    Sc("perf-returns", perf, dict(n=2, src="returns")),
    Sc("perf-returns-frequency", perf, dict(n=3, src="returns", freq=True, rf=False)),
    Sc("perf-both", perf, dict(n=2, src="both", freq=True)),
    Sc("errors", errors),
]
