from symx.run import Sc
from . import est

BOUNDS = "2-5 symbolic prices or 2-8 symbolic returns of 1-4 assets (also fewer periods than assets); any positive frequency, benchmark and span (and the defaults); frames, arrays and lists; simple and log returns; the minimum covariance determinant from whatever scikit-learn returns (gaps included); complete histories, whose estimates are semidefinite and so pass the repair unchanged (C26)"
OUTSIDE = "longer histories; float rounding; repair of indefinite estimates (C26) and missing data (C33)"


def run(S, which="sample", rows=3, n=2, what="prices", log=False, kind="frame", freq=True, bench="any", span="any", fix=None):
    D, P = est.history(S, rows, n, what, (), kind, name="p" if what == "prices" else "r")
    R = est.returns(S, P, log) if what == "prices" else P
    kw = {}
    if what == "returns":
        kw["returns_data"] = True
    if log:
        kw["log_returns"] = True
    f = 252
    if freq:
        f = kw["frequency"] = S.real("f", pos=True, lo=1, hi=12)
    if fix:
        kw["fix_method"] = fix
    b, s = S.frac(79) / 1000000, 180
    if which == "semi" and bench != "default":
        b = kw["benchmark"] = S.real("b", lo=-.1, hi=.1) if bench == "any" else bench
    if which == "exp" and span == "any":
        s = kw["span"] = S.real("span", pos=True, lo=2, hi=20)
        S.assume(S.lt(1, s))
    fn = {"sample": "sample_cov", "semi": "semicovariance", "exp": "exp_cov"}[which]
    out = S.call(getattr(S.pf.risk_models, fn), D, **kw)
    S.claim("ok", out.ok)
    if not out.ok:
        return
    C = out.value
    S.claim("labels", list(C.index) == est.labels(n, kind) and list(C.columns) == est.labels(n, kind))
    S.observe("cov", C.values.tolist())
    m = [est.mean(S, c) for c in R]
    for i in range(n):
        for j in range(n):
            g = C.iloc[i, j]
            if which == "sample":
                w = est.cov(S, R[i], R[j])
            elif which == "semi":
                w = S.sum([S.smin(x - b, 0) * S.smin(y - b, 0) for x, y in zip(R[i], R[j])]) / len(R[i])
            else:
                w = est.ewm(S, [(x - m[i]) * (y - m[j]) for x, y in zip(R[i], R[j])], s)
            S.claim("cov%d%d" % (i, j), S.eq(g, f * w))
            if j > i:
                S.claim("symmetric%d%d" % (i, j), S.eq(g, C.iloc[j, i]))


def mcd(S, rows=4, n=2, what="prices", log=False, kind="frame", freq=True, missing=(), state=None, fix=None):
    """the robust estimate: whatever scikit-learn makes of the complete periods, annualised"""
    D, P = est.history(S, rows, n, what, missing, kind, name="p" if what == "prices" else "r")
    R = est.returns(S, P, log) if what == "prices" else P
    M, seen = S.psd("m", n), []
    S.stub("fast_mcd", lambda X, **k: (seen.append((X, k)), (S.arr([0] * n), M, None, None))[1])
    kw = {}
    if what == "returns":
        kw["returns_data"] = True
    if log:
        kw["log_returns"] = True
    if state is not None:
        kw["random_state"] = state
    if fix:
        kw["fix_method"] = fix
    f = 252
    if freq:
        f = kw["frequency"] = S.real("f", pos=True, lo=1, hi=12)
    out = S.call(S.pf.risk_models.min_cov_determinant, D, **kw)
    S.claim("ok", out.ok)
    if not out.ok:
        return
    C = out.value
    S.claim("labels", list(C.index) == est.labels(n, kind) and list(C.columns) == est.labels(n, kind))
    S.claim("one.estimate", len(seen) == 1)
    if len(seen) != 1:
        return
    X, k = seen[0]
    S.claim("state", k.get("random_state") == state)
    S.claim("options", all(v is None for x, v in k.items() if x != "random_state"))
    full = [t for t in range(len(R[0])) if all(c[t] is not None for c in R)]
    S.claim("periods", len(X) == len(full))
    S.claim("data", S.eqs(S.flat(X), [R[i][t] for t in full for i in range(n)]))
    S.observe("cov", C.values.tolist())
    for i in range(n):
        for j in range(n):
            S.claim("cov%d%d" % (i, j), S.eq(C.iloc[i, j], f * M[i, j]))


O = dict(cholesky="definite")   # exact sample estimates are Gram matrices; the code adds 1e-16 before factorising
SCENARIOS = []
for w in ("sample", "semi", "exp"):
    SCENARIOS += [
        Sc(w + "-3-2", run, dict(which=w, rows=3, n=2), **O),
        Sc(w + "-4-2", run, dict(which=w, rows=4, n=2), **O),
        Sc(w + "-4-3", run, dict(which=w, rows=4, n=3), **O),
        Sc(w + "-5-1", run, dict(which=w, rows=5, n=1), **O),
        Sc(w + "-3-1-diag", run, dict(which=w, rows=3, n=1, fix="diag"), **O),
        Sc(w + "-returns", run, dict(which=w, rows=3, n=2, what="returns", kind="array"), **O),
        Sc(w + "-returns-4-3", run, dict(which=w, rows=4, n=3, what="returns"), **O),
        Sc(w + "-returns-2-3", run, dict(which=w, rows=2, n=3, what="returns"), **O),      # fewer periods than assets
        Sc(w + "-returns-2-4", run, dict(which=w, rows=2, n=4, what="returns", kind="array"), **O),
        Sc(w + "-returns-5-4", run, dict(which=w, rows=5, n=4, what="returns"), **O),
        Sc(w + "-returns-8-2", run, dict(which=w, rows=8, n=2, what="returns"), **O),
        Sc(w + "-6-5", run, dict(which=w, rows=6, n=5), tier="thorough", **O),
        Sc(w + "-log", run, dict(which=w, rows=3, n=2, log=True), **O),
        Sc(w + "-log-list", run, dict(which=w, rows=4, n=2, log=True, kind="list"), **O),
        Sc(w + "-default", run, dict(which=w, rows=4, n=2, freq=False, bench="default", span="default"), **O),
        Sc(w + "-default-returns", run, dict(which=w, rows=3, n=2, freq=False, bench="default", span="default", what="returns"), **O),
    ]
SCENARIOS += [Sc(w + "-one-return", run, dict(which=w, rows=2, n=3), **O) for w in ("semi", "exp")]
SCENARIOS += [Sc("semi-zero", run, dict(which="semi", rows=4, n=2, bench=0), **O)]
SCENARIOS += [Sc("robust", mcd, **O), Sc("robust-returns", mcd, dict(what="returns", rows=3, state=7, n=3), **O), Sc("robust-log", mcd, dict(log=True, rows=3, freq=False), **O),
              Sc("robust-missing", mcd, dict(rows=5, missing=((0,), (3,))), **O), Sc("robust-returns-missing", mcd, dict(what="returns", rows=4, missing=((1,), ()), kind="array", fix="diag"), **O),
              Sc("robust-list", mcd, dict(rows=3, kind="list", state=0), **O)]
