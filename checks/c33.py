from symx.run import Sc
from . import est

BOUNDS = "2-3 assets, 3-6 symbolic prices (or 3-4 returns), every pattern of leading missing values and gaps at several places that leave the assets concerned at least the periods the estimator needs (two returns in common for covariances); any frequency for arithmetic means and covariances, frequencies 2, 6 and 252 for compounded means; covariances that are positive definite (repair: C26)"
OUTSIDE = "semicovariance of the asset with missing prices (its mean is taken over all periods); longer histories; float rounding"
E_ = "expected_returns"
R_ = "risk_models"


def run(S, which="mean", rows=4, n=2, missing=(1, 0), what="prices", log=False, freq="any", comp=False, span="any"):
    D, P = est.history(S, rows, n, what, missing, name="p" if what == "prices" else "r")
    R = est.returns(S, P, log) if what == "prices" else P
    kw = {}
    if what == "returns":
        kw["returns_data"] = True
    if log:
        kw["log_returns"] = True
    f = freq
    if freq == "any":
        f = S.real("f", pos=True, lo=1, hi=12)
    if freq != 252:
        kw["frequency"] = f
    s = 180 if which == "exp" else 500
    if which in ("ema", "exp") and span != "any":
        s = kw["span"] = span
    elif which in ("ema", "exp"):
        s = kw["span"] = S.real("span", pos=True, lo=2, hi=20)
        S.assume(S.lt(1, s))
    b = S.frac(79) / 1000000
    if which == "semi":
        b = kw["benchmark"] = S.real("b", lo=-.1, hi=.1)
    if which in ("mean", "ema", "capm"):
        if which != "capm":
            kw["compounding"] = comp
        fn = getattr(S.pf.expected_returns, {"mean": "mean_historical_return", "ema": "ema_historical_return", "capm": "capm_return"}[which])
    else:
        fn = getattr(S.pf.risk_models, {"sample": "sample_cov", "semi": "semicovariance", "exp": "exp_cov"}[which])
    if which in ("mean", "ema") and log and comp:
        for c in R:
            for x in est.have(c):
                S.assume(S.lt(-1, x))
    if which == "capm":
        kw["compounding"] = False
        mk = [S.sum(est.have([c[t] for c in R])) / len(est.have([c[t] for c in R])) for t in range(len(R[0]))]
        var = est.cov(S, mk, mk)
        S.assume(S.lt(0, var))
    if which == "sample":
        want = [[est.cov(S, x, y) for y in R] for x in R]
    elif which == "exp":
        m = [est.mean(S, c) for c in R]
        want = [[est.ewm(S, [None if x is None or y is None else (x - m[i]) * (y - m[j]) for x, y in zip(R[i], R[j])], s) for j in range(n)] for i in range(n)]
    out = S.call(fn, D, **kw)
    S.claim("ok", out.ok)
    if not out.ok:
        return
    v = out.value
    if which in ("mean", "ema", "capm"):
        S.claim("labels", list(v.index) == est.T[:n])
        v = S.flat(v)
        S.observe("mu", v)
        for i in range(n):
            h = est.have(R[i])
            if which == "capm":
                S.claim("capm%d" % i, S.eq(v[i], est.cov(S, R[i], mk) / var * f * est.mean(S, mk)))
            elif which == "mean" and comp:
                S.claim("cagr%d" % i, est.compounded(S, v[i], est.prod(S, [1 + x for x in h]), f, len(h)))
            elif which == "mean":
                S.claim("mean%d" % i, S.eq(v[i], f * est.mean(S, h)))
            else:
                m = est.ewm(S, R[i], s)
                S.claim("ema%d" % i, S.eq(v[i] + 1, est.ipow(1 + m, f)) if comp else S.eq(v[i], f * m))
        return
    S.claim("labels", list(v.index) == est.T[:n] and list(v.columns) == est.T[:n])
    S.observe("cov", v.values.tolist())
    if which != "semi":
        # estimates that need no repair (both in the encoding and in replays)
        W = want
        S.assume(S.lt(W[0][1] * W[0][1], W[0][0] * W[1][1]))
        if n == 3:
            S.assume(S.lt(0, W[0][0] * (W[1][1] * W[2][2] - W[1][2] * W[1][2]) - W[0][1] * (W[0][1] * W[2][2] - W[1][2] * W[0][2])
                          + W[0][2] * (W[0][1] * W[1][2] - W[1][1] * W[0][2])))
    full = [i for i in range(n) if None not in R[i]]
    for i in range(n):
        for j in range(n):
            g = v.iloc[i, j]
            if which == "semi":
                if i in full and j in full:
                    S.claim("cov%d%d" % (i, j), S.eq(g, f * S.sum([S.smin(x - b, 0) * S.smin(y - b, 0) for x, y in zip(R[i], R[j])]) / len(R[i])))
            else:
                S.claim("cov%d%d" % (i, j), S.eq(g, f * want[i][j]))


def patterns(rows, n, need):
    import itertools
    for p in itertools.product(range(rows - need), repeat=n):
        if any(p):
            yield p


SCENARIOS = []
for p in patterns(4, 2, 2):
    t = "%d%d" % p
    SCENARIOS += [Sc("mean-4-" + t, run, dict(which="mean", missing=p)), Sc("cagr-4-" + t, run, dict(which="mean", missing=p, comp=True, freq=6)),
                  Sc("cagr-log-4-" + t, run, dict(which="mean", missing=p, comp=True, freq=6, log=True)),
                  Sc("cagr-252-4-" + t, run, dict(which="mean", missing=p, comp=True, freq=252)),
                  Sc("ema-4-" + t, run, dict(which="ema", missing=p)), Sc("ema-comp-4-" + t, run, dict(which="ema", missing=p, comp=True, freq=2))]
for p in patterns(5, 2, 3):
    t = "%d%d" % p
    SCENARIOS += [Sc("capm-5-" + t, run, dict(which="capm", rows=5, missing=p))]
    SCENARIOS += [Sc("%s-5-%s" % (w, t), run, dict(which=w, rows=5, missing=p), cholesky="definite") for w in ("sample", "exp", "semi")]
    SCENARIOS += [Sc("%s-returns-%s" % (w, t), run, dict(which=w, rows=4, missing=p, what="returns", span=3), cholesky="definite") for w in ("sample", "exp")] if max(p) <= 2 else []
for k, p in enumerate((((2,), 0), ((1,), (3,)), ((3,), 1), ((2, 3), 0), (0, (5,)), ((0, 3), (6,)))):
    SCENARIOS += [Sc("mean-gap-%d" % k, run, dict(which="mean", rows=6, missing=p)), Sc("cagr-gap-%d" % k, run, dict(which="mean", rows=6, missing=p, comp=True, freq=6)),
                  Sc("cagr-log-gap-%d" % k, run, dict(which="mean", rows=6, missing=p, comp=True, freq=6, log=True)),
                  Sc("ema-gap-%d" % k, run, dict(which="ema", rows=6, missing=p)), Sc("ema-comp-gap-%d" % k, run, dict(which="ema", rows=6, missing=p, comp=True, freq=2)),
                  Sc("capm-gap-%d" % k, run, dict(which="capm", rows=7, missing=p))]
    SCENARIOS += [Sc("%s-gap-%d" % (w, k), run, dict(which=w, rows=7, missing=p), cholesky="definite") for w in ("sample", "exp", "semi")]
    SCENARIOS += [Sc("%s-gap-returns-%d" % (w, k), run, dict(which=w, rows=6, missing=p, what="returns", span=3), cholesky="definite") for w in ("sample", "exp")]
for p in ((1, 0, 2), (0, 2, 0), (2, 0, 1), (0, 1, 1)):
    t = "%d%d%d" % p
    SCENARIOS += [Sc("mean-3-" + t, run, dict(which="mean", rows=5, n=3, missing=p)), Sc("cagr-3-" + t, run, dict(which="mean", rows=5, n=3, missing=p, comp=True, freq=2)),
                  Sc("ema-3-" + t, run, dict(which="ema", rows=5, n=3, missing=p, log=True)), Sc("capm-3-" + t, run, dict(which="capm", rows=6, n=3, missing=p))]
    SCENARIOS += [Sc("%s-3-%s" % (w, t), run, dict(which=w, rows=6, n=3, missing=p, span=5), cholesky="definite") for w in ("sample", "exp", "semi")]
