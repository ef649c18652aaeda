from symx.run import Sc

BOUNDS = "2-6 assets, 1-4 views: symbolic covariance (positive definite), prior, views, picking matrix, uncertainty (any positive diagonal, any positive definite 2x2 matrix, or the default) and tau in (0, 1]"
OUTSIDE = "more assets or views; singular systems other than two certain views on one combination of assets; numerically singular systems; float rounding"
T = ["CCC", "AAA", "BBB", "AAB", "ABC", "AAC"]


def mm(S, A, B):
    return [[S.sum([A[i][k] * B[k][j] for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [list(r) for r in zip(*A)]


def posterior(S, C, tau, P, W):
    """(tau S P' W^-1) with the inverse of the 1x1 / diagonal / 2x2 uncertainty written out"""
    k = len(W)
    if k == 1:
        Wi = [[1 / W[0][0]]]
    elif k == 2:
        d = W[0][0] * W[1][1] - W[0][1] * W[1][0]
        Wi = [[W[1][1] / d, -W[0][1] / d], [-W[1][0] / d, W[0][0] / d]]
    else:
        Wi = [[1 / W[i][i] if i == j else 0 for j in range(k)] for i in range(k)]
    PW = mm(S, tr(P), Wi)
    return [[tau * x for x in r] for r in mm(S, C, PW)], PW


def model(S, n=2, k=1, views="P", omega="diag", pi="series", cov="frame", tau=True, order="rc", Qc="array", pos=None):
    tick = T[:n]
    M = S.psd("c", n) if n < 4 else S.symmat("c", n, diag=dict(pos=True, lo=.5, hi=2), lo=-.1, hi=.1)
    C = [[M[i, j] for j in range(n)] for i in range(n)]
    labels = tick if cov == "frame" else list(range(n))
    kw = {}
    kw["cov_matrix"] = S.frame(M, tick, tick) if cov == "frame" else M
    t = S.frac(1) / 20
    if tau:
        t = S.real("tau", lo=.01, hi=1)
        S.bound(t, 0, 1)
        S.assume(S.lt(0, t))
        kw["tau"] = t
    p = [S.frac(0)] * n
    if pi != "none":
        pv = S.vec("pi", n, lo=-.3, hi=.3)
        p = S.flat(pv)
        kw["pi"] = S.series(p, tick) if pi == "series" else (S.frame(S.arr([[x] for x in p]), ["pi"], tick) if pi == "frame" else (S.arr([[x] for x in p]) if pi == "column" else pv))
    if pi == "equal":
        p = [S.frac(1) / n] * n
        kw["pi"] = "equal"
    qv = S.vec("q", k, lo=-.3, hi=.3)
    q = S.flat(qv)
    if views == "P":
        P = S.mat("p", k, n, lo=-1, hi=1)
        P = [[P[i, j] for j in range(n)] for i in range(k)]
    elif views == "rel":
        # relative views: first minus second asset, then an absolute one
        P = [[1, -1, 0, 0][:n], [0, 1, 0, 0][:n], [0, S.frac(1) / 2, S.frac(1) / 2, -1][:n]][:k]
    elif views == "abs":
        pos = pos or [n - 1, 0][:k]
        P = [[1 if j == pos[i] else 0 for j in range(n)] for i in range(k)]
        kw["absolute_views"] = {labels[pos[i]]: q[i] for i in range(k)}
    else:
        P = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    if views in ("P", "rel"):
        kw["P"] = S.arr(P)
        if cov == "frame" and Qc == "frame":
            kw["P"] = S.frame(S.arr(P), tick)
    if views != "abs":
        kw["Q"] = {"array": qv, "series": S.series(q, list(range(k))), "column": S.arr([[x] for x in q]), "frame": S.frame(S.arr([[x] for x in q]), ["q"])}[Qc]
    D = mm(S, mm(S, P, C), tr(P))
    if omega == "default":
        W = [[t * D[i][i] if i == j else S.frac(0) for j in range(k)] for i in range(k)]
        for i in range(k):
            S.assume(S.lt(0, D[i][i]))
    elif omega == "full":
        a, b, c = S.real("oa", pos=True, lo=.1, hi=1), S.real("ob", pos=True, lo=.1, hi=1), S.real("oc", lo=-1, hi=1)
        W = [[a * a, a * c], [a * c, c * c + b * b]]
        kw["omega"] = S.arr(W)
    else:
        o = [S.real("o%d" % i, pos=True, lo=.01, hi=1) for i in range(k)]
        W = [[o[i] if i == j else S.frac(0) for j in range(k)] for i in range(k)]
        kw["omega"] = S.arr(W) if omega == "diag" else S.frame(S.arr(W), list(range(k)))
    return kw, dict(C=C, tau=t, pi=p, q=q, P=P, W=W, labels=labels)


def bl(S, **k):
    n, order = k.get("n", 2), k.get("order", "rc")
    kw, d = model(S, **k)
    o = S.call(S.pf.BlackLittermanModel, **kw)
    S.claim("accepted", o.ok)
    if not o.ok:
        return
    o = o.value
    res = {}
    for s in order:
        out = S.call({"r": o.bl_returns, "c": o.bl_cov}[s])
        S.claim("ok." + s, out.ok)
        if not out.ok:
            return
        if s in res:
            S.claim("again." + s, S.eqs(S.flat(out.value), S.flat(res[s])))
        res[s] = out.value
    C, t, P, W = d["C"], d["tau"], d["P"], d["W"]
    G, PW = posterior(S, C, t, P, W)
    H = mm(S, G, P)                                    # tau S P' W^-1 P
    if "r" in res:
        r = res["r"]
        S.claim("returns.labels", list(r.index) == d["labels"])
        m = S.flat(r)
        S.observe("returns", m)
        for i in range(n):
            # [(tau S)^-1 + P'W^-1 P] m = (tau S)^-1 pi + P'W^-1 Q, times tau S
            S.claim("mean%d" % i, S.eq(m[i] + S.dot(H[i], m), d["pi"][i] + S.dot(G[i], d["q"])))
    if "c" in res:
        c = res["c"]
        S.claim("cov.labels", list(c.index) == d["labels"] and list(c.columns) == d["labels"])
        V = [[c.iloc[i, j] for j in range(n)] for i in range(n)]
        S.observe("cov", V)
        M = [[V[i][j] - C[i][j] for j in range(n)] for i in range(n)]
        HM = mm(S, H, M)
        for i in range(n):
            for j in range(n):
                S.claim("cov%d%d" % (i, j), S.eq(M[i][j] + HM[i][j], t * C[i][j]))
                if j > i:
                    S.claim("symmetric%d%d" % (i, j), S.eq(V[i][j], V[j][i]))


def certain(S, n=2, c=1, order="rc", omega="zero"):
    """two certain views on the same combination of assets, agreeing or not: least squares"""
    C = S.psd("c", n)
    p, q, pi, t = S.vec("p", n, lo=-1, hi=1), S.vec("q", 2, lo=-.3, hi=.3), S.vec("pi", n, lo=-.3, hi=.3), S.real("tau", pos=True, hi=1)
    S.assume(S.le(t, 1))
    s = t * S.quad(C, p)
    S.assume(S.lt(0, s))
    kw = dict(omega=S.arr([[S.frac(0)] * 2] * 2)) if omega == "zero" else dict(omega="idzorek", view_confidences=[1, 1])
    o = S.call(S.pf.BlackLittermanModel, C, pi=pi, Q=q, P=S.arr([list(p), [c * x for x in p]]), tau=t, **kw)
    S.claim("accepted", o.ok)
    if not o.ok:
        return
    o = o.value
    Sp = [t * S.dot(C[i], p) for i in range(n)]
    gap = [q[0] - S.dot(p, pi), q[1] - c * S.dot(p, pi)]
    for x in order:
        out = S.call({"r": o.bl_returns, "c": o.bl_cov}[x])
        S.claim("ok." + x, out.ok)
        if not out.ok:
            return
        v = S.flat(out.value)
        S.observe(x, v)
        if x == "r":
            for i in range(n):
                S.claim("mean%d" % i, S.eq(v[i], pi[i] + Sp[i] * (gap[0] + c * gap[1]) / (s * (1 + c * c))))
        else:
            for i in range(n):
                for j in range(n):
                    S.claim("cov%d%d" % (i, j), S.eq(v[n * i + j], C[i][j] + t * C[i][j] - Sp[i] * Sp[j] / s))


def domain(S):
    M = S.psd("c", 2)
    t = S.real("tau", lo=-1, hi=2)
    q = S.vec("q", 2, lo=-.3, hi=.3)
    out = S.call(S.pf.BlackLittermanModel, S.frame(M, T[:2], T[:2]), Q=q, tau=t, pi="equal", omega=S.arr([[1, 0], [0, 1]]))
    S.claim("tau", S.or_(S.le(t, 0), S.lt(1, t)) if out.raised("ValueError") else S.and_(S.lt(0, t), S.le(t, 1)))
    S.claim("only", out.ok or out.raised("ValueError"))


SCENARIOS = [
    Sc("2-1-P", bl, dict(n=2, k=1)),
    Sc("2-1-default", bl, dict(n=2, k=1, omega="default", pi="none")),
    Sc("2-2-P", bl, dict(n=2, k=2, order="cr")),
    Sc("2-2-full", bl, dict(n=2, k=2, omega="full", pi="array")),
    Sc("2-2-full-cov-first", bl, dict(n=2, k=2, omega="full", order="crc")),
    Sc("2-2-full-means", bl, dict(n=2, k=2, omega="full", pi="frame", Qc="column", cov="frame", order="rrc")),
    Sc("3-2-abs-full", bl, dict(n=3, k=2, views="abs", omega="full", order="cr")),
    Sc("2-2-frames", bl, dict(n=2, k=2, omega="frame", pi="frame", Qc="frame", order="crcr", tau=False)),
    Sc("2-2-identity", bl, dict(n=2, k=2, views="none", omega="default", Qc="series", cov="array", pi="column")),
    Sc("3-1-P", bl, dict(n=3, k=1, pi="array", cov="array")),
    Sc("3-1-abs", bl, dict(n=3, k=1, views="abs", omega="default", pi="equal")),
    Sc("3-2-abs", bl, dict(n=3, k=2, views="abs", pi="column", tau=False)),
    Sc("3-2-abs-default", bl, dict(n=3, k=2, views="abs", omega="default", order="rc", pos=[1, 0])),
    Sc("3-2-rel", bl, dict(n=3, k=2, views="rel", omega="diag", Qc="column", order="cr")),
    Sc("3-2-rel-full", bl, dict(n=3, k=2, views="rel", omega="full", pi="none")),
    Sc("3-2-P-mean", bl, dict(n=3, k=2, order="r")),
    Sc("3-2-P", bl, dict(n=3, k=2, order="c")),
    Sc("3-3-identity", bl, dict(n=3, k=3, views="none", order="r")),
    Sc("3-3-identity-cov", bl, dict(n=3, k=3, views="none", omega="default", order="c")),
    Sc("3-3-P", bl, dict(n=3, k=3, order="r")),
    Sc("4-1-P", bl, dict(n=4, k=1)),
    Sc("4-2-abs", bl, dict(n=4, k=2, views="abs", pos=[2, 0], omega="default")),
    Sc("4-2-P", bl, dict(n=4, k=2, order="rc")),
    Sc("4-3-rel", bl, dict(n=4, k=3, views="rel", omega="default")),
    Sc("4-4-identity", bl, dict(n=4, k=4, views="none", order="r")),
    Sc("4-3-P", bl, dict(n=4, k=3, order="rc")),
    Sc("5-2-P", bl, dict(n=5, k=2, order="rc")),
    Sc("6-2-abs", bl, dict(n=6, k=2, views="abs", pos=[4, 1], omega="default")),
    Sc("certain", certain), Sc("certain-double", certain, dict(c=2, order="cr")), Sc("certain-opposite", certain, dict(c=-1, omega="idzorek")), Sc("certain-3", certain, dict(n=3, order="crr")),
    Sc("domain", domain),
]
