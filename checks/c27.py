from symx.run import Sc
from . import est

BOUNDS = "1-4 assets: every covariance with positive variances (any off-diagonal numbers, symmetric or not), every correlation matrix and vector of positive deviations; frames with any order of labels and arrays"
OUTSIDE = "more assets; zero variances; float rounding"


def sd(S, n):
    return [S.real("s%d" % i, pos=True, lo=.2, hi=2) for i in range(n)]


def matrix(S, n, s):
    """covariance with the given standard deviations"""
    c = [[None] * n for _ in range(n)]
    for i in range(n):
        c[i][i] = s[i] * s[i]
        for j in range(i):
            c[i][j] = c[j][i] = S.real("c%d%d" % (j, i), lo=-.5, hi=.5)
    return c


def wrap(S, m, n, kind):
    return S.frame(S.arr(m), est.T[:n], est.T[:n]) if kind == "frame" else S.arr(m)


def labelled(S, x, n, kind):
    t = est.labels(n, kind)
    S.claim("labels", list(x.index) == t and list(x.columns) == t)


def to_corr(S, n=2, kind="frame", back="list"):
    s = sd(S, n)
    c = matrix(S, n, s)
    out = S.call(S.pf.risk_models.cov_to_corr, wrap(S, c, n, kind))
    S.claim("ok", out.ok)
    if not out.ok:
        return
    R = out.value
    labelled(S, R, n, kind)
    S.observe("corr", R.values.tolist())
    for i in range(n):
        for j in range(n):
            S.claim("corr%d%d" % (i, j), S.eq(R.iloc[i, j] * s[i] * s[j], c[i][j]))
        S.claim("unit%d" % i, S.eq(R.iloc[i, i], 1))
    v = {"list": s, "array": S.arr(s), "series": S.series(s, est.labels(n, kind))}[back]
    out = S.call(S.pf.risk_models.corr_to_cov, R, v)
    S.claim("back.ok", out.ok)
    if not out.ok:
        return
    B = out.value
    labelled(S, B, n, kind)
    for i in range(n):
        for j in range(n):
            S.claim("back%d%d" % (i, j), S.eq(B.iloc[i, j], c[i][j]))


def to_cov(S, n=2, kind="frame", form="list"):
    s = sd(S, n)
    r = [[1] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            r[i][j] = r[j][i] = S.real("r%d%d" % (j, i), lo=-.9, hi=.9)
    v = {"list": s, "array": S.arr(s), "series": S.series(s, est.labels(n, kind))}[form]
    out = S.call(S.pf.risk_models.corr_to_cov, wrap(S, r, n, kind), v)
    S.claim("ok", out.ok)
    if not out.ok:
        return
    C = out.value
    labelled(S, C, n, kind)
    S.observe("cov", C.values.tolist())
    for i in range(n):
        for j in range(n):
            S.claim("cov%d%d" % (i, j), S.eq(C.iloc[i, j], s[i] * s[j] * r[i][j]))
    out = S.call(S.pf.risk_models.cov_to_corr, C)
    S.claim("back.ok", out.ok)
    if out.ok:
        labelled(S, out.value, n, kind)
        for i in range(n):
            for j in range(n):
                S.claim("back%d%d" % (i, j), S.eq(out.value.iloc[i, j], r[i][j]))


SCENARIOS = []
for n in (1, 2, 3, 4):
    for kind in ("frame", "array"):
        form = {1: "list", 2: "array", 3: "series", 4: "list"}[n]
        SCENARIOS += [Sc("corr-%d-%s" % (n, kind), to_corr, dict(n=n, kind=kind, back=form)), Sc("cov-%d-%s" % (n, kind), to_cov, dict(n=n, kind=kind, form=form))]
