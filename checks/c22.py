from symx.run import Sc

BOUNDS = "2-4 assets, 3-5 market prices: symbolic capitalisations, covariances, prices, views, risk aversion, tau, frequency and risk-free rate; capitalisations in every order of 3 assets"
OUTSIDE = "more assets or prices; capitalisations of assets without covariance; posterior weights whose sum is zero; singular covariances other than identical or exactly proportional assets; float rounding"
T = ["CCC", "AAA", "DDD", "BBB"]


def cov_(S, n, kind="frame"):
    M = S.psd("c", n) if n < 4 else S.symmat("c", n, diag=dict(pos=True, lo=.5, hi=2), lo=-.1, hi=.1)
    return [[M[i, j] for j in range(n)] for i in range(n)], (S.frame(M, T[:n], T[:n]) if kind == "frame" else M)


def permutation(S, n):
    left, p = list(range(n)), []
    while left:
        p.append(left.pop(S.choose(len(left), "order%d" % len(p)) if len(left) > 1 else 0))
    return p


def implied(S, C, caps, d, r):
    t = S.sum(caps)
    return [d * S.dot(row, [c / t for c in caps]) + r for row in C]


def prior(S, n=2, how="direct", caps="dict", cov="frame", rf=True, perm=True):
    C, M = cov_(S, n, cov)
    labels = T[:n] if cov == "frame" else list(range(n))
    m = [S.real("m%d" % i, pos=True, lo=1, hi=9) for i in range(n)]
    d = S.real("delta", pos=True, lo=.1, hi=5)
    r = S.real("rf", lo=0, hi=.1) if rf else 0
    p = permutation(S, n) if perm and cov == "frame" else list(range(n))
    names = [labels[i] for i in p]
    vals = [m[i] for i in p]
    mc = {"dict": dict(zip(names, vals)), "series": S.series(vals, names), "list": vals}[caps]
    kw = dict(risk_free_rate=r) if rf else {}
    if how == "direct":
        out = S.call(S.pf.black_litterman.market_implied_prior_returns, mc, d, M, **kw)
        S.claim("ok", out.ok)
        if not out.ok:
            return
        pi = out.value
        if cov == "frame":
            S.claim("labels", list(pi.index) == labels)
    else:
        out = S.call(S.pf.BlackLittermanModel, M, pi="market", market_caps=mc, risk_aversion=d, absolute_views={labels[0]: S.real("q", lo=-.3, hi=.3)}, **kw)
        S.claim("ok", out.ok)
        if not out.ok:
            return
        pi = out.value.pi
        S.claim("shape", tuple(pi.shape) == (n, 1))
    pi = S.flat(pi)
    S.observe("pi", pi)
    for i, x in enumerate(implied(S, C, m, d, r)):
        S.claim("implied%d" % i, S.eq(pi[i], x))


def other_priors(S, n=3):
    C, M = cov_(S, n)
    v = {T[0]: S.real("q", lo=-.3, hi=.3)}
    B = S.pf.BlackLittermanModel
    for nm, pi, want in (("equal", "equal", [S.frac(1) / n] * n), ("none", None, [0] * n)):
        out = S.call(B, M, pi=pi, absolute_views=v)
        S.claim("ok." + nm, out.ok)
        if out.ok:
            S.claim(nm, S.eqs(S.flat(out.value.pi), want))
    x = S.vec("pi", n, lo=-.3, hi=.3)
    y = S.flat(x)
    for nm, pi in (("series", S.series(y, T[:n])), ("array", x), ("column", S.arr([[a] for a in y])), ("frame", S.frame(S.arr([[a] for a in y]), ["pi"], T[:n]))):
        out = S.call(B, M, pi=pi, absolute_views=v)
        S.claim("ok." + nm, out.ok)
        if out.ok:
            S.claim(nm, S.eqs(S.flat(out.value.pi), y))
    d = S.real("delta", lo=-1, hi=2)
    out = S.call(B, M, pi="equal", absolute_views=v, risk_aversion=d)
    S.claim("aversion", S.le(d, 0) if out.raised("ValueError") else S.lt(0, d))
    S.claim("aversion.only", out.ok or out.raised("ValueError"))


def aversion(S, rows=4, kind="series", freq=True, rf=True, nan=False):
    P = [S.real("p%d" % t, pos=True, lo=1, hi=5) for t in range(rows)]
    R = [P[t + 1] / P[t] - 1 for t in range(rows - 1)]
    f = S.real("f", pos=True, lo=1, hi=252) if freq else 252
    r = S.real("rf", lo=0, hi=.1) if rf else 0
    k = len(R)
    m = S.sum(R) / k
    v = S.sum([(x - m) * (x - m) for x in R]) / (k - 1)
    S.assume(S.lt(0, v))
    vals = ([float("nan")] if nan else []) + P
    x = S.series(vals, list(range(len(vals)))) if kind == "series" else S.frame(S.arr([[a] for a in vals]), ["SPY"])
    kw = {}
    if freq:
        kw["frequency"] = f
    if rf:
        kw["risk_free_rate"] = r
    out = S.call(S.pf.black_litterman.market_implied_risk_aversion, x, **kw)
    S.claim("ok", out.ok)
    if not out.ok:
        return
    S.observe("delta", out.value)
    S.claim("ratio", S.eq(out.value * f * v, f * m - r))


def aversion_types(S):
    f = S.pf.black_litterman.market_implied_risk_aversion
    v = S.vec("p", 3, lo=1, hi=5)
    S.claim("array", S.call(f, v).raised("TypeError"))
    S.claim("list", S.call(f, S.flat(v)).raised("TypeError"))


def weights(S, n=2, k=1, cov="frame", delta="arg", alias=False, views="abs", dup=False):
    if dup:
        # assets n-1 and 0 are the same asset
        C0, _ = cov_(S, n - 1)
        ix = list(range(n - 1)) + [0]
        C = [[C0[a][b] for b in ix] for a in ix]
        M = S.frame(S.arr(C), T[:n], T[:n]) if cov == "frame" else S.arr(C)
    else:
        C, M = cov_(S, n, cov)
    labels = T[:n] if cov == "frame" else list(range(n))
    q = S.flat(S.vec("q", k, lo=-.3, hi=.3))
    pi = S.flat(S.vec("pi", n - 1 if dup else n, lo=-.3, hi=.3))
    pi = pi + pi[:1] if dup else pi
    pos = [1, 0, 2][:k]
    kw = dict(absolute_views={labels[pos[i]]: q[i] for i in range(k)})
    d = S.real("delta", pos=True, lo=.1, hi=5)
    if delta == "init":
        kw["risk_aversion"] = d
    o = S.call(S.pf.BlackLittermanModel, M, pi=S.arr(pi), **kw)
    S.claim("accepted", o.ok)
    if not o.ok:
        return
    o = o.value
    r = S.call(o.bl_returns)
    S.claim("returns.ok", r.ok)
    if not r.ok:
        return
    m = S.flat(r.value)
    out = S.call(o.optimize if alias else o.bl_weights, *([d] if delta == "arg" else []))
    S.claim("ok", out.ok)
    if not out.ok:
        return
    S.claim("labels", list(out.value) == labels)
    w = [out.value[t] for t in labels]
    S.observe("w", w)
    S.claim("stored", S.eqs(S.flat(o.weights), w))
    S.claim("sum", S.eq(S.sum(w), 1))
    g = [S.dot(row, w) for row in C]
    for i in range(n):
        for j in range(i):
            S.claim("proportional%d%d" % (i, j), S.eq(g[i] * m[j], g[j] * m[i]))
    # the factor is the sum of the raw weights: (delta S) w = m / sum(raw)
    if not dup:
        p = S.flat(o.posterior_rets)
        S.claim("posterior.stored", S.eqs(p, m))
    else:
        S.claim("twins", S.eq(w[0], w[n - 1]))


SCENARIOS = [
    Sc("prior-2", prior, dict(n=2)),
    Sc("prior-3", prior, dict(n=3)),
    Sc("prior-3-series", prior, dict(n=3, caps="series", rf=False)),
    Sc("prior-3-array", prior, dict(n=3, cov="array", caps="list")),
    Sc("prior-4", prior, dict(n=4, caps="series", perm=False)),
    Sc("market-2", prior, dict(n=2, how="model")),
    Sc("market-3-series", prior, dict(n=3, how="model", caps="series")),
    Sc("market-3-no-rate", prior, dict(n=3, how="model", rf=False)),
    Sc("market-3-array", prior, dict(n=3, how="model", cov="array", caps="list")),
    Sc("market-2-array-dict", prior, dict(n=2, how="model", cov="array", caps="dict")),
    Sc("other-priors", other_priors),
    Sc("aversion-3", aversion, dict(rows=3)),
    Sc("aversion-4-frame", aversion, dict(rows=4, kind="frame")),
    Sc("aversion-4-plain", aversion, dict(rows=4, freq=False, rf=False)),
    Sc("aversion-5", aversion, dict(rows=5)),
    Sc("aversion-4-missing", aversion, dict(rows=4, nan=True)),
    Sc("aversion-types", aversion_types),
    Sc("weights-2", weights, dict(n=2)),
    Sc("weights-2-init", weights, dict(n=2, k=2, delta="init", alias=True)),
    Sc("weights-3", weights, dict(n=3, k=1)),
    Sc("weights-3-2", weights, dict(n=3, k=2, delta="init")),
    Sc("weights-3-array", weights, dict(n=3, k=1, cov="array", alias=True)),
    Sc("weights-twins-2", weights, dict(n=2, dup=True)),
    Sc("weights-twins-3", weights, dict(n=3, dup=True)),
    Sc("weights-twins-3-3", weights, dict(n=3, k=3, dup=True, delta="init")),
    Sc("weights-twins-4", weights, dict(n=4, k=2, dup=True, alias=True)),
    Sc("weights-twins-2-2", weights, dict(n=2, k=2, dup=True, cov="array")),
]
