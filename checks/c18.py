from symx.run import Sc

BOUNDS = "2 assets: symbolic expected returns, covariance and bounds; 3-4 assets: families with 1-3 symbolic means, variances, covariances or bounds; frontiers of up to 30 points; real arithmetic"
OUTSIDE = "equal expected returns; families beyond those listed for 3 and more assets; the tangency portfolio's optimality where it depends on symbols inside the golden-section search (1e-9 bisection); float rounding"
T = ["AAA", "BBB", "CCC", "DDD"]


def mk(S, v):
    """a number, or a symbol (name, lo, hi), kept inside its range"""
    if isinstance(v, tuple):
        x = S.real(v[0], lo=v[1], hi=v[2])
        S.bound(x, v[1], v[2])
        return x
    return v


def data(S, mu, cov, lo, hi):
    n = len(mu)
    seen = {}

    def get(v):
        if isinstance(v, tuple):
            if v not in seen:
                seen[v] = mk(S, v)
            return seen[v]
        return v
    m = [get(v) for v in mu]
    C = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            C[i][j] = get(cov[min(i, j)][max(i, j)])
    return m, C, [get(v) for v in (lo or [0] * n)], [get(v) for v in (hi or [1] * n)]


def minors(S, C):
    n = len(C)
    c = [S.lt(0, C[i][i]) for i in range(n)]
    for i in range(n):
        for j in range(i):
            c.append(S.lt(C[i][j] * C[i][j], C[i][i] * C[j][j]))
    if n == 3:
        M = C
        c.append(S.lt(0, M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[1][2]) - M[0][1] * (M[0][1] * M[2][2] - M[1][2] * M[0][2])
                      + M[0][2] * (M[0][1] * M[1][2] - M[1][1] * M[0][2])))
    return S.and_(*c)


def untied(S, m, C, lo, hi):
    """3 assets: no two reach or leave a bound at the same point of the frontier"""
    for i, j, k in ((0, 1, 2), (0, 2, 1), (1, 2, 0)):
        for bi in (lo[i], hi[i]):
            for bj in (lo[j], hi[j]):
                w = [None] * 3
                w[i], w[j], w[k] = bi, bj, 1 - bi - bj
                g = grad(S, C, w)
                S.assume(S.or_(S.lt(w[k], lo[k]), S.lt(hi[k], w[k]), S.not_(S.eq((g[i] - g[k]) * (m[j] - m[k]), (g[j] - g[k]) * (m[i] - m[k])))))


def det(M):
    if len(M) == 1:
        return M[0][0]
    t = 0
    for j, x in enumerate(M[0]):
        if isinstance(x, int) and x == 0:
            continue
        t = t + (-1) ** j * x * det([r[:j] + r[j + 1:] for r in M[1:]])
    return t


def untied4(S, m, C, lo, hi):
    """the same for 4 assets: the first-order conditions with two assets both free and at a bound are inconsistent"""
    import itertools
    n = len(m)
    for i, j in itertools.combinations(range(n), 2):
        rest = [a for a in range(n) if a not in (i, j)]
        for st in itertools.product("lhf", repeat=n - 2):
            free = [a for a, x in zip(rest, st) if x == "f"]
            if not free:
                continue
            for bi, bj in itertools.product((lo[i], hi[i]), (lo[j], hi[j])):
                w = {a: (lo if x == "l" else hi)[a] for a, x in zip(rest, st) if x != "f"}
                w[i], w[j] = bi, bj
                rows = [[C[a][b] for b in free] + [0 - m[a], 1, S.sum([C[a][b] * x for b, x in w.items()])] for a in [i, j] + free]
                rows.append([1] * len(free) + [0, 0, S.sum(list(w.values())) - 1])
                e = S.eq(det(rows), 0)
                if e is not True:
                    S.assume(S.not_(e))


def start(S, mu, cov, lo=None, hi=None, form="frame", style="list", tie=False, scale=False):
    m, C, lo, hi = data(S, mu, cov, lo, hi)
    if scale:
        k, s = S.real("k", pos=True, lo=.1, hi=4), S.real("s", pos=True, lo=.1, hi=4)
        m = [S.frac(x) * k for x in m]
        C = [[S.frac(x) * s for x in r] for r in C]
    n = len(m)
    S.assume(minors(S, C))
    for i in range(n):
        for j in range(i):
            S.assume(S.not_(S.eq(m[i], m[j])))
    for l, h in zip(lo, hi):
        S.assume(S.lt(l, h))
    S.assume(S.and_(S.lt(S.sum(lo), 1), S.lt(1, S.sum(hi))))
    if n == 3 and not tie:
        untied(S, m, C, lo, hi)
    if n == 4:
        untied4(S, m, C, lo, hi)
    b = {"default": lambda: None, "list": lambda: list(zip(lo, hi)), "pair": lambda: (lo[0], hi[0]), "arrays": lambda: (S.arr(lo), S.arr(hi)), "lists": lambda: (list(lo), list(hi))}[style]
    kw = {} if style == "default" else dict(weight_bounds=b())
    M = S.arr(C)
    o = S.pf.CLA(S.series(m, T[:n]) if form == "frame" else S.arr(m), S.frame(M, T[:n], T[:n]) if form == "frame" else M, **kw)
    return o, m, C, lo, hi


def grad(S, C, w):
    return [S.sum([C[i][j] * w[j] for j in range(len(w))]) for i in range(len(w))]


def admissible(S, nm, w, lo, hi):
    S.claim(nm + ".sum", S.eq(S.sum(w), 1))
    for i, (x, l, h) in enumerate(zip(w, lo, hi)):
        S.claim("%s.lower%d" % (nm, i), S.le(l, x))
        S.claim("%s.upper%d" % (nm, i), S.le(x, h))


def leastvar(S, nm, w, C, lo, hi):
    """no shift of weight from i to j lowers the variance (exact for convex problems on a box with a budget)"""
    g = grad(S, C, w)
    n = len(w)
    for i in range(n):
        for j in range(n):
            if i != j:
                S.claim("%s.no.gain.%d.to.%d" % (nm, i, j), S.or_(S.le(w[i], lo[i]), S.le(hi[j], w[j]), S.le(g[i], g[j])))


def frontiern(S, nm, w, m, C, lo, hi):
    """with the return and the sum fixed, every feasible change is a conformal sum of changes of three assets"""
    import itertools
    g = grad(S, C, w)
    for t in itertools.combinations(range(len(w)), 3):
        i, j, k = t
        d = [m[j] - m[k], m[k] - m[i], m[i] - m[j]]
        s = S.sum([g[a] * x for a, x in zip(t, d)])
        up = S.and_(*[S.or_(S.and_(S.lt(0, x), S.lt(w[a], hi[a])), S.and_(S.lt(x, 0), S.lt(lo[a], w[a]))) for a, x in zip(t, d)])
        dn = S.and_(*[S.or_(S.and_(S.lt(x, 0), S.lt(w[a], hi[a])), S.and_(S.lt(0, x), S.lt(lo[a], w[a]))) for a, x in zip(t, d)])
        S.claim("%s.least.variance.for.return.%d%d%d" % (nm, i, j, k), S.and_(S.implies(up, S.le(0, s)), S.implies(dn, S.le(s, 0))))


def most(S, nm, w, m, lo, hi):
    n = len(w)
    for i in range(n):
        for j in range(n):
            if i != j:
                S.claim("%s.max.return.%d.%d" % (nm, i, j), S.or_(S.le(w[i], lo[i]), S.le(hi[j], w[j]), S.le(m[j], m[i])))


def minvol(S, **kw):
    o, m, C, lo, hi = start(S, **kw)
    out = S.call(o.min_volatility)
    S.claim("ok", out.ok)
    if not out.ok:
        return
    w = S.flat(out.value)
    S.observe("w", w)
    S.claim("labels", list(out.value.keys()) == list(o.tickers))
    S.claim("stored", S.eqs(o.weights, w))
    admissible(S, "minvol", w, lo, hi)
    leastvar(S, "minvol", w, C, lo, hi)


def frontier(S, points=12, **kw):
    o, m, C, lo, hi = start(S, **kw)
    out = S.call(o.efficient_frontier, points)
    S.claim("ok", out.ok)
    if not out.ok:
        return
    ret, sig, ws = out.value
    S.claim("lengths", len(ret) == len(sig) == len(ws) and len(ws) >= 2)
    ws = [S.flat(w) for w in ws]
    for k, w in enumerate(ws):
        nm = "p%d" % k
        admissible(S, nm, w, lo, hi)
        S.claim(nm + ".return", S.eq(ret[k], S.dot(m, w)))
        S.claim(nm + ".vol", S.and_(S.le(0, sig[k]), S.eq(sig[k] * sig[k], S.quad(C, w))))
        frontiern(S, nm, w, m, C, lo, hi)
    most(S, "first", ws[0], m, lo, hi)
    leastvar(S, "last", ws[-1], C, lo, hi)
    S.claim("kept", o.frontier_values is not None and S.eqs(list(o.frontier_values[0]), list(ret)))


def sharpe(S, opt=None, **kw):
    """opt: the tangency portfolio where it is known not to depend on the symbols"""
    o, m, C, lo, hi = start(S, **kw)
    out = S.call(o.max_sharpe)
    S.claim("ok", out.ok)
    if not out.ok:
        return
    w = S.flat(out.value)
    S.claim("labels", list(out.value.keys()) == list(o.tickers))
    S.claim("stored", S.eqs(o.weights, w))
    # the position inside a segment is a float
    S.claim("sharpe.sum", S.le(S.abs(S.sum(w) - 1), 1e-9))
    for i, (x, l, h) in enumerate(zip(w, lo, hi)):
        S.claim("sharpe.lower%d" % i, S.le(l - 1e-9, x))
        S.claim("sharpe.upper%d" % i, S.le(x, h + 1e-9))
    for i, x in enumerate(opt or []):
        S.claim("tangency%d" % i, S.le(S.abs(w[i] - x), 1e-6))


A = dict(mu=[("m0", -.5, .5), ("m1", -.5, .5)], cov=[[("c00", .01, 1), ("c01", -.5, .5)], [0, ("c11", .01, 1)]])
L = dict(lo=[("l0", -.5, .4), ("l1", -.5, .4)], hi=[("h0", .5, 1.5), ("h1", .5, 1.5)])
K = [[.25, .125, 0], [0, .5, -.125], [0, 0, 1]]
K4 = [[.25, .125, 0, .0625], [0, .5, -.125, 0], [0, 0, 1, .25], [0, 0, 0, .75]]
M3 = [.1, .2, .25]
SCENARIOS = [
    Sc("minvol-2", minvol, dict(A, **L)),
    Sc("minvol-2-default", minvol, dict(A, style="default")),
    Sc("minvol-2-pair", minvol, dict(A, lo=[("l", -.5, .4)] * 2, hi=[("h", .6, 1.5)] * 2, style="pair", form="array")),
    Sc("minvol-2-arrays", minvol, dict(A, style="arrays", form="array", **L)),
    Sc("minvol-2-lists", minvol, dict(A, style="lists", **L)),
    Sc("frontier-2", frontier, dict(A, **L)),
    Sc("frontier-2-few", frontier, dict(A, points=1, style="default")),
    Sc("minvol-3-mean", minvol, dict(mu=[.1, ("m", 0, .5), .25], cov=K)),
    Sc("minvol-3-diag", minvol, dict(mu=[("m0", -.5, .5), ("m1", -.5, .5), ("m2", -.5, .5)], cov=[[("a", .1, 1), 0, 0], [0, ("b", .1, 1), 0], [0, 0, ("c", .1, 1)]])),
    Sc("minvol-3-cov", minvol, dict(mu=M3, cov=[[.25, ("c", -.25, .25), ("d", -.25, .25)], [0, .5, -.125], [0, 0, 1]], style="arrays")),
    Sc("minvol-3-lists", minvol, dict(mu=M3, cov=K, lo=[0, ("l", -.5, .5), .1], hi=[.5, .7, ("h", .3, 1)], style="lists", form="array")),
    Sc("frontier-3-mean", frontier, dict(mu=[.1, ("m", 0, .5), .25], cov=K)),
    Sc("frontier-3-var", frontier, dict(mu=M3, cov=[[.25, .125, 0], [0, ("v", .0625, 1), -.125], [0, 0, 1]])),
    Sc("frontier-3-cov", frontier, dict(mu=M3, cov=[[.25, ("c", -.25, .25), 0], [0, .5, -.125], [0, 0, 1]])),
    Sc("frontier-3-low", frontier, dict(mu=M3, cov=K, lo=[0, ("l", -.5, .5), .1])),
    Sc("frontier-3-high", frontier, dict(mu=M3, cov=K, hi=[.8, .5, ("h", .2, .9)])),
    Sc("frontier-3-short", frontier, dict(mu=M3, cov=K, lo=[("l", -1, 0)] * 3, hi=[1] * 3, style="pair")),
    Sc("frontier-3-few", frontier, dict(mu=M3, cov=K, lo=[0, ("l", -.5, .5), .1], points=3)),
    Sc("frontier-4-mean", frontier, dict(mu=[.1, ("m", 0, .5), .25, .3], cov=K4)),
    Sc("frontier-4-var", frontier, dict(mu=[.1, .2, .25, .3], cov=[K4[0], [0, ("v", .25, 1), -.125, 0], K4[2], K4[3]])),
    Sc("frontier-4-high", frontier, dict(mu=[.1, .2, .25, .3], cov=K4, hi=[("h", .3, .9)] * 4, lo=[0] * 4, style="pair")),
    Sc("sharpe-scaled-2", sharpe, dict(mu=[.125, .25], cov=[[.25, 0], [0, .5]], scale=True, opt=[.5, .5])),
    Sc("sharpe-scaled-2-low", sharpe, dict(mu=[.25, .25390625], cov=[[.25, 0], [0, .5]], scale=True, opt=[128 / 193, 65 / 193])),
    Sc("sharpe-scaled-2-high", sharpe, dict(mu=[.0009765625, .5], cov=[[.25, 0], [0, .5]], scale=True, opt=[1 / 257, 256 / 257])),
    Sc("sharpe-scaled-2-top", sharpe, dict(mu=[-.125, .5], cov=[[.25, 0], [0, .5]], scale=True, opt=[0, 1])),
    Sc("sharpe-scaled-3", sharpe, dict(mu=[.125, .25, .5], cov=[[.25, 0, 0], [0, .5, 0], [0, 0, 1]], scale=True, opt=[1 / 3] * 3)),
    Sc("sharpe-scaled-corner", sharpe, dict(mu=[.125, .25, .5], cov=[[.25, 0, 0], [0, .5, 0], [0, 0, .0625]], hi=[1, 1, .75], scale=True, opt=[19 / 128, 13 / 128, .75])),
    Sc("skip-3", minvol, dict(mu=[.125, .25, .375], cov=[[1, 0, 0], [0, 2, 0], [0, 0, 1]], lo=[0, .3125, 0], scale=True, tie=True)),
    Sc("integer-bounds", frontier, dict(mu=M3, cov=[[.25, ("c", -.25, .25), 0], [0, .5, -.125], [0, 0, 1]], lo=[-1, 0, -2], hi=[1, 2, 1])),
    Sc("tie-3", minvol, dict(mu=[.375, .25, .125], cov=[[.125, 0, 0], [0, .1875, 0], [0, 0, .125]], lo=[0, .25, .125], scale=True, tie=True)),
    Sc("frontier-3-diag", frontier, dict(mu=[("m0", -.5, .5), ("m1", -.5, .5), .125], cov=[[("a", .1, 1), 0, 0], [0, ("b", .1, 1), 0], [0, 0, .5]], points=9)),
    Sc("frontier-3-covs", frontier, dict(mu=M3, cov=[[.25, ("c", -.25, .25), ("d", -.25, .25)], [0, .5, -.125], [0, 0, 1]], points=9)),
    Sc("frontier-3-lows", frontier, dict(mu=M3, cov=K, lo=[("l0", -.5, .3), ("l1", -.5, .3), .1], points=9)),
    Sc("minvol-3-box", minvol, dict(mu=[.1, ("m", 0, .5), .25], cov=K, lo=[("l", -.5, .3)] * 3, hi=[.7] * 3, style="pair"), tier="thorough"),
]
