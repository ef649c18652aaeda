from symx.run import Sc

BOUNDS = "2-4 assets and 1-3 views: every subset and order of named views (mapping or series), symbolic view values, covariances, picking matrices, tau in (0, 1] and confidences (any real number); all sizes 1-3 of mismatching inputs listed"
OUTSIDE = "more assets or views; float rounding; confidence vectors given as arrays of the wrong length"
T = ["CCC", "AAA", "DDD", "BBB"]


def tau_(S):
    t = S.real("tau", lo=.01, hi=1)
    S.bound(t, 0, 1)
    S.assume(S.lt(0, t))
    return t


def cov_(S, n, kind="frame"):
    M = S.psd("c", n) if n < 4 else S.symmat("c", n, diag=dict(pos=True, lo=.5, hi=2), lo=-.1, hi=.1)
    return M, (S.frame(M, T[:n], T[:n]) if kind == "frame" else M)


def absolute(S, n=3, k=2, kind="dict", cov="frame", unknown=False):
    M, C = cov_(S, n, cov)
    labels = T[:n] if cov == "frame" else list(range(n))
    left, pos = list(range(n)), []
    for i in range(k):
        j = S.choose(len(left), "asset%d" % i) if len(left) > 1 else 0
        pos.append(left.pop(j))
    q = S.flat(S.vec("q", k, lo=-.3, hi=.3))
    names = [labels[p] for p in pos]
    if unknown:
        names[S.choose(k, "unknown") if k > 1 else 0] = "ZZZ" if cov == "frame" else n + 3
    v = dict(zip(names, q)) if kind == "dict" else S.series(q, names)
    out = S.call(S.pf.BlackLittermanModel, C, pi="equal", absolute_views=v)
    if unknown:
        S.claim("rejected", out.raised("ValueError"))
        return
    S.claim("ok", out.ok)
    if not out.ok:
        return
    o = out.value
    S.claim("shape", tuple(o.P.shape) == (k, n) and tuple(o.Q.shape) == (k, 1))
    S.observe("Q", S.flat(o.Q))
    for i in range(k):
        S.claim("value%d" % i, S.eq(o.Q[i, 0], q[i]))
        for j in range(n):
            S.claim("pick%d%d" % (i, j), S.eq(o.P[i, j], 1 if j == pos[i] else 0))


def default(S, n=2, k=2, how="model", arg=None):
    t = tau_(S)
    M, C = cov_(S, n)
    P = S.mat("p", k, n, lo=-1, hi=1)
    q = S.vec("q", k, lo=-.3, hi=.3)
    if how == "model":
        out = S.call(S.pf.BlackLittermanModel, C, pi="equal", Q=q, P=P, tau=t, **(dict(omega=arg) if arg else {}))
        S.claim("ok", out.ok)
        if not out.ok:
            return
        W = out.value.omega
    else:
        out = S.call(S.pf.BlackLittermanModel.default_omega, M, P, t)
        S.claim("ok", out.ok)
        if not out.ok:
            return
        W = out.value
    S.claim("shape", tuple(W.shape) == (k, k))
    S.observe("omega", S.flat(W))
    for i in range(k):
        for j in range(k):
            p = [P[i, a] for a in range(n)]
            S.claim("omega%d%d" % (i, j), S.eq(W[i, j], t * S.quad([[M[a, b] for b in range(n)] for a in range(n)], p) if i == j else 0))


def idzorek(S, n=2, k=1, conf="list", how="model", views="P", post=False, ints=None):
    t = tau_(S)
    M, C = cov_(S, n)
    CC = [[M[a, b] for b in range(n)] for a in range(n)]
    if views == "abs":
        P = [[1 if j == [n - 1, 0, 1][i] else 0 for j in range(n)] for i in range(k)]
    else:
        Pm = S.mat("p", k, n, lo=-1, hi=1)
        P = [[Pm[i, j] for j in range(n)] for i in range(k)]
    q = S.flat(S.vec("q", k, lo=-.3, hi=.3))
    pi = S.flat(S.vec("pi", n, lo=-.3, hi=.3))
    c = S.flat(S.vec("k", k, lo=0, hi=1)) if ints is None else list(ints)
    cc = c
    if conf == "array":
        cc = S.arr(c)
    elif conf == "column":
        cc = S.arr([[x] for x in c])
    elif conf == "series":
        cc = S.series(c, ["v%d" % i for i in range(k)])
    if post:
        D = [S.quad(CC, p) for p in P]
        for d in D:
            S.assume(S.lt(0, d))
    if how == "model":
        kw = dict(absolute_views={T[[n - 1, 0, 1][i]]: q[i] for i in range(k)}) if views == "abs" else dict(Q=S.arr(q), P=S.arr(P))
        out = S.call(S.pf.BlackLittermanModel, C, pi=S.arr(pi), tau=t, omega="idzorek", view_confidences=cc, **kw)
    else:
        out = S.call(S.pf.BlackLittermanModel.idzorek_method, cc, M, S.arr([[x] for x in pi]), S.arr([[x] for x in q]), S.arr(P), t)
    bad = S.or_(*[S.or_(S.lt(x, 0), S.lt(1, x)) for x in c])
    S.claim("domain", bad if out.raised("ValueError") else S.and_(*[S.and_(S.le(0, x), S.le(x, 1)) for x in c]))
    S.claim("only", out.ok or out.raised("ValueError"))
    if not out.ok:
        return
    W = out.value.omega if how == "model" else out.value
    S.claim("shape", tuple(W.shape) == (k, k))
    S.observe("omega", S.flat(W))
    for i in range(k):
        for j in range(k):
            if i != j:
                S.claim("diagonal%d%d" % (i, j), S.eq(W[i, j], 0))
        # c omega = tau (1 - c) p S p'  unless c = 0, where it is a very large number
        S.claim("omega%d" % i, S.or_(S.and_(S.eq(c[i], 0), S.le(1e6, W[i, i])), S.eq(c[i] * W[i, i], t * (1 - c[i]) * S.quad(CC, P[i]))))
        S.claim("certain%d" % i, S.or_(S.lt(c[i], 1), S.eq(W[i, i], 0)))
    if not post:
        return
    o = out.value
    r = S.call(o.bl_returns)
    S.claim("posterior", r.ok)
    if not r.ok:
        return
    m = S.flat(r.value)
    S.observe("returns", m)
    if k == 1:
        gap = q[0] - S.dot(P[0], pi)
        # a single view moves its portfolio the stated fraction of the way from the prior to the view
        S.claim("tilt", S.or_(S.eq(c[0], 0), S.eq(S.dot(P[0], m) - S.dot(P[0], pi), c[0] * gap)))
        for i in range(n):
            S.claim("no.influence.%d" % i, S.or_(S.lt(0, c[0]), S.eq((m[i] - pi[i]) * (W[0, 0] + t * D[0]), t * S.dot(CC[i], P[0]) * gap)))
            if n > 2:
                continue
            b = S.abs(gap) * S.abs(t * S.dot(CC[i], P[0]))
            S.claim("no.influence%d" % i, S.or_(S.lt(0, c[0]), S.le(S.abs(m[i] - pi[i]) * 1e6, b)))
    for i in range(k):
        if ints is not None and c[i] == 1:
            S.claim("certain.view%d" % i, S.eq(S.dot(P[i], m), q[i]))


def sizes(S, what="PQ"):
    n = 3
    M, C = cov_(S, n)
    B = S.pf.BlackLittermanModel
    q = lambda k: S.vec("q%d" % k, k, lo=-.3, hi=.3)
    P = lambda k, m: S.mat("p%d%d" % (k, m), k, m, lo=-1, hi=1)

    def bad(name, *e, **kw):
        kw.setdefault("pi", "equal")
        out = S.call(B, C, **kw)
        S.claim(name, out.raised("AssertionError", "ValueError", *e))
    if what == "PQ":
        for k in (1, 2, 3):
            for r in (1, 2, 3):
                for m in (2, 3, 4):
                    if r != k or m != n:
                        bad("Q%d.P%dx%d" % (k, r, m), Q=q(k), P=P(r, m))
        for k in (1, 2, 4):
            bad("Q%d.no.P" % k, "TypeError", Q=q(k))
        bad("nothing", "TypeError")
        bad("no.Q", "TypeError", P=P(2, 3))
        bad("list.views", "TypeError", absolute_views=[.1, .2, .3])
    elif what == "omega":
        for k in (1, 2):
            for a in (1, 2, 3):
                for b in (1, 2, 3):
                    if (a, b) != (k, k):
                        w = S.mat("o%d%d%d" % (k, a, b), a, b, lo=.1, hi=1)
                        bad("omega%d.%dx%d" % (k, a, b), Q=q(k), P=P(k, n), omega=w)
                        bad("omega%d.%dx%d.frame" % (k, a, b), Q=q(k), P=P(k, n), omega=S.frame(w))
        bad("omega.vector", Q=q(2), P=P(2, n), omega=S.vec("ov", 2, lo=.1, hi=1))
        bad("omega.list", "TypeError", Q=q(2), P=P(2, n), omega=[1, 2])
        bad("omega.name", "TypeError", Q=q(2), P=P(2, n), omega="nonsense")
        bad("idzorek.no.confidence", Q=q(2), P=P(2, n), omega="idzorek")
        for k in (1, 3):
            bad("confidences%d" % k, Q=q(2), P=P(2, n), omega="idzorek", view_confidences=[.5] * k)
        bad("confidences.text", Q=q(2), P=P(2, n), omega="idzorek", view_confidences=["high", "low"])
    else:
        for k in (1, 2, 4):
            bad("pi%d" % k, Q=q(1), P=P(1, n), pi=S.vec("pi%d" % k, k, lo=-.3, hi=.3))
        bad("pi.list", "TypeError", Q=q(1), P=P(1, n), pi=[.1, .2, .3])
        bad("pi.name", "TypeError", Q=q(1), P=P(1, n), pi="nonsense")
        bad("pi.market.no.caps", "TypeError", Q=q(1), P=P(1, n), pi="market")
        for a, b in ((2, 3), (3, 2)):
            out = S.call(B, S.mat("m%d%d" % (a, b), a, b), Q=q(1), P=P(1, n), pi="equal")
            S.claim("cov%dx%d" % (a, b), out.raised("AssertionError", "ValueError"))


SCENARIOS = [
    Sc("absolute-2", absolute, dict(n=2, k=2)),
    Sc("absolute-3-1", absolute, dict(n=3, k=1, kind="series")),
    Sc("absolute-3-2", absolute, dict(n=3, k=2)),
    Sc("absolute-3-3", absolute, dict(n=3, k=3, kind="series")),
    Sc("absolute-4-2-array", absolute, dict(n=4, k=2, cov="array")),
    Sc("absolute-4-3-array-series", absolute, dict(n=4, k=3, cov="array", kind="series")),
    Sc("unknown-2", absolute, dict(n=2, k=2, unknown=True)),
    Sc("unknown-3-series", absolute, dict(n=3, k=2, unknown=True, kind="series")),
    Sc("unknown-array", absolute, dict(n=3, k=2, unknown=True, cov="array")),
    Sc("default-2-2", default, dict()),
    Sc("default-3-2-named", default, dict(n=3, k=2, arg="default")),
    Sc("default-4-3", default, dict(n=4, k=3)),
    Sc("default-direct", default, dict(n=3, k=3, how="direct")),
    Sc("idzorek-2-1", idzorek, dict(n=2, k=1)),
    Sc("idzorek-2-2", idzorek, dict(n=2, k=2, conf="array")),
    Sc("idzorek-3-2-series", idzorek, dict(n=3, k=2, conf="series", views="abs")),
    Sc("idzorek-3-3", idzorek, dict(n=3, k=3, conf="column", views="abs")),
    Sc("idzorek-direct", idzorek, dict(n=2, k=2, how="direct", conf="list")),
    Sc("idzorek-direct-column", idzorek, dict(n=3, k=1, how="direct", conf="column")),
    Sc("tilt-2", idzorek, dict(n=2, k=1, post=True)),
    Sc("tilt-3", idzorek, dict(n=3, k=1, post=True, conf="array")),
    Sc("tilt-2-abs", idzorek, dict(n=2, k=1, post=True, views="abs", conf="series")),
    Sc("certain-3", idzorek, dict(n=3, k=2, post=True, ints=[1, .5], conf="list")),
    Sc("certain-int", idzorek, dict(n=3, k=2, post=True, ints=[1, 1], views="abs", conf="array")),
    Sc("zero-int", idzorek, dict(n=2, k=1, post=True, ints=[0], views="abs")),
    Sc("sizes-PQ", sizes, dict(what="PQ")),
    Sc("sizes-omega", sizes, dict(what="omega")),
    Sc("sizes-pi", sizes, dict(what="pi")),
]
