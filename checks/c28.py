from symx.run import Sc
from . import est

BOUNDS = "manual shrinkage: 2-4 symbolic prices or returns of 1-3 assets, any intensity in [0, 1]; single-factor: 2 assets with 3 symbolic returns and 2-3 assets with symbolic scales and means on fixed patterns of 3-5 periods; constant correlation: 3 assets with symbolic scales and means on fixed patterns of 4-5 periods (and one free return); constant variance and oracle approximating: any data, the estimate of scikit-learn taken as given; any positive frequency"
OUTSIDE = "scikit-learn's own estimators; longer histories and more assets; identical assets or targets equal to the sample (0/0 intensity); missing data; float rounding"


def build(S, R, log=False, what="returns", kind="frame", freq=True):
    rows, n = len(R[0]), len(R)
    X = [[R[i][t] for i in range(n)] for t in range(rows)]
    D = S.frame(S.arr(X), est.T[:n]) if kind == "frame" else S.arr(X)
    f = S.real("f", pos=True, lo=1, hi=12) if freq else 252
    return S.call(S.pf.risk_models.CovarianceShrinkage, D, returns_data=True, **(dict(frequency=f) if freq else {})), f


def outcome(S, out, n, kind="frame"):
    S.claim("ok", out.ok)
    if not out.ok:
        return None
    C = out.value
    t = est.labels(n, kind)
    S.claim("labels", list(C.index) == t and list(C.columns) == t)
    S.observe("cov", C.values.tolist())
    return [[C.iloc[i, j] for j in range(n)] for i in range(n)]


def matches(S, C, want):
    for i in range(len(C)):
        for j in range(len(C)):
            S.claim("cov%d%d" % (i, j), S.eq(C[i][j], want[i][j]))


def manual(S, rows=3, n=2, what="prices", log=False, kind="frame", delta=True, freq=True):
    D, P = est.history(S, rows, n, what, (), kind, name="p" if what == "prices" else "r")
    R = est.returns(S, P, log) if what == "prices" else P
    kw = {}
    if what == "returns":
        kw["returns_data"] = True
    if log:
        kw["log_returns"] = True
    f = 252
    if freq:
        f = kw["frequency"] = S.real("f", pos=True, lo=1, hi=12)
    o = S.call(S.pf.risk_models.CovarianceShrinkage, D, **kw)
    S.claim("built", o.ok)
    if not o.ok:
        return
    o = o.value
    a = []
    d = S.frac(1) / 5
    if delta:
        d = S.real("delta", lo=0, hi=1)
        S.bound(d, 0, 1)
        a = [d]
    C = outcome(S, S.call(o.shrunk_covariance, *a), n, kind)
    if C is None:
        return
    s = [[est.cov(S, x, y) for y in R] for x in R]
    m = S.sum([s[i][i] for i in range(n)]) / n
    matches(S, C, [[f * ((1 - d) * s[i][j] + (d * m if i == j else 0)) for j in range(n)] for i in range(n)])
    S.claim("intensity", S.eq(o.delta, d))


def library(S, which="ledoit_wolf", n=2, rows=3, arg=None, freq=True, kind="frame"):
    R = [[S.real("r%d_%d" % (t, i), lo=-.5, hi=.5) for t in range(rows)] for i in range(n)]
    M = S.psd("c", n)
    d = S.real("delta", lo=0, hi=1)
    seen = []

    def stub(X, **kw):
        seen.append((X, kw))
        return M, d
    S.stub(which, stub)
    o, f = build(S, R, freq=freq, kind=kind)
    S.claim("built", o.ok)
    if not o.ok:
        return
    o = o.value
    out = S.call(o.ledoit_wolf, *([arg] if arg else [])) if which == "ledoit_wolf" else S.call(o.oracle_approximating)
    C = outcome(S, out, n, kind)
    S.claim("once", len(seen) == 1)
    if C is None or len(seen) != 1:
        return
    X, kw = seen[0]
    S.claim("centred", not kw.get("assume_centered"))
    S.claim("shape", tuple(X.shape) == (rows, n))
    if tuple(X.shape) == (rows, n):
        S.claim("data", S.and_(*[S.eq(X[t, i], R[i][t]) for t in range(rows) for i in range(n)]))
    matches(S, C, [[f * M[i, j] for j in range(n)] for i in range(n)])
    S.claim("intensity", S.eq(o.delta, d))


Z = {  # deviations from the mean, columns sum to zero; squared sums are perfect squares (for rational deviations)
    "4-2": [[1, 1], [1, -1], [-1, 3], [-1, -3]],
    "4-3": [[1, 5, 1], [-1, 1, 1], [1, -5, -1], [-1, -1, -1]],
    "4-3b": [[3, 1, -1], [-1, -1, 1], [-1, -1, -5], [-1, 1, 5]],
    "5-3": [[2, -4, 0], [2, 1, 3], [-2, 1, -4], [-2, 1, 4], [0, 1, -3]],
    "5-3b": [[4, 1, 2], [-1, -2, 2], [-1, 2, -2], [-1, -2, 0], [-1, 1, -2]],
}


def pattern(S, z, free=False):
    """returns m_i + a_i z_ti with symbolic means and scales"""
    z = [list(r) for r in Z[z]]
    n = len(z[0])
    a = [S.real("a%d" % i, pos=True, lo=.05, hi=.5) for i in range(n)]
    m = [S.real("m%d" % i, lo=-.1, hi=.1) for i in range(n)]
    u = S.real("u", lo=-1, hi=1) if free else 0
    R = [[m[i] + a[i] * (z[t][i] + (u if i == 0 and t == 0 else -u if i == 0 and t == 1 else 0)) for t in range(len(z))] for i in range(n)]
    return R


def centred(S, R):
    return [[x - est.mean(S, c) for x in c] for c in R]


def single(S, z=None, rows=3, n=2, kind="frame", freq=True, free=False):
    R = pattern(S, z, free) if z else [[S.real("r%d_%d" % (t, i), lo=-.5, hi=.5) for t in range(rows)] for i in range(n)]
    n, T = len(R), len(R[0])
    x = centred(S, R)
    mk = [S.sum([c[t] for c in x]) / n for t in range(T)]
    E = lambda *fs: S.sum([est.prod(S, [f[t] for f in fs]) for t in range(T)]) / T
    s = [[E(x[i], x[j]) for j in range(n)] for i in range(n)]
    b = [E(x[i], mk) for i in range(n)]
    v = E(mk, mk)
    S.assume(S.lt(0, v))
    F = [[s[i][i] if i == j else b[i] * b[j] / v for j in range(n)] for i in range(n)]
    c = S.sum([(s[i][j] - F[i][j]) * (s[i][j] - F[i][j]) for i in range(n) for j in range(n)])
    S.assume(S.lt(0, c))
    # asymptotic variances and covariances of the entries, Ledoit and Wolf (2003)
    pi = S.sum([E(x[i], x[i], x[j], x[j]) - s[i][j] * s[i][j] for i in range(n) for j in range(n)])
    rho = S.sum([E(x[i], x[i], x[i], x[i]) - s[i][i] * s[i][i] for i in range(n)])
    for i in range(n):
        for j in range(n):
            if i != j:
                # Cov(s_ij, b_i b_j / v)
                ci = E(x[i], x[j], x[i], mk) - b[i] * s[i][j]
                cj = E(x[i], x[j], x[j], mk) - b[j] * s[i][j]
                cm = E(x[i], x[j], mk, mk) - v * s[i][j]
                rho = rho + (b[j] * v * ci + b[i] * v * cj - b[i] * b[j] * cm) / (v * v)
    k = (pi - rho) / c / T
    estimate(S, R, "single_factor", F, s, k, kind, freq)


def constant(S, z, kind="frame", freq=True, free=False):
    R = pattern(S, z, free)
    n, T = len(R), len(R[0])
    x = centred(S, R)
    s = [[est.cov(S, p, q) for q in R] for p in R]
    for i in range(n):
        S.assume(S.lt(0, s[i][i]))
    sd = [S.sqrt(s[i][i]) for i in range(n)]
    r = S.sum([s[i][j] / (sd[i] * sd[j]) for i in range(n) for j in range(n) if i != j]) / (n * (n - 1))
    F = [[s[i][i] if i == j else r * sd[i] * sd[j] for j in range(n)] for i in range(n)]
    c = S.sum([(s[i][j] - F[i][j]) * (s[i][j] - F[i][j]) for i in range(n) for j in range(n)])
    S.assume(S.lt(0, c))
    E = lambda f: S.sum([f(t) for t in range(T)]) / T
    d = lambda i, j: (lambda t: x[i][t] * x[j][t] - s[i][j])
    P = [[E(lambda t: d(i, j)(t) * d(i, j)(t)) for j in range(n)] for i in range(n)]
    th = [[E(lambda t: d(i, i)(t) * d(i, j)(t)) for j in range(n)] for i in range(n)]
    pi = S.sum([p for row in P for p in row])
    rho = S.sum([P[i][i] for i in range(n)])
    for i in range(n):
        for j in range(n):
            if i != j:
                rho = rho + r / 2 * (sd[j] / sd[i] * th[i][j] + sd[i] / sd[j] * th[j][i])
    estimate(S, R, "constant_correlation", F, s, (pi - rho) / c / T, kind, freq)


def estimate(S, R, target, F, s, k, kind, freq):
    n = len(R)
    o, f = build(S, R, freq=freq, kind=kind)
    S.claim("built", o.ok)
    if not o.ok:
        return
    o = o.value
    C = outcome(S, S.call(o.ledoit_wolf, target), n, kind)
    if C is None:
        return
    d = o.delta
    S.observe("delta", d)
    S.claim("intensity", S.eq(d, S.smax(0, S.smin(1, k))), S.eq(d, S.smin(1, S.smax(0, k))), S.eq(d, S.smin(S.smax(k, 0), 1)), S.eq(d, S.smax(S.smin(k, 1), 0)), S.or_(S.eq(d, k), S.and_(S.eq(d, 0), S.le(k, 0)), S.and_(S.eq(d, 1), S.le(1, k))))
    matches(S, C, [[f * (d * F[i][j] + (1 - d) * s[i][j]) for j in range(n)] for i in range(n)])


def unknown(S):
    o, f = build(S, [[S.real("r%d_%d" % (t, i), lo=-.5, hi=.5) for t in range(3)] for i in range(2)])
    S.claim("rejected", S.call(o.value.ledoit_wolf, "nonsense").raised("NotImplementedError"))


O = dict(cholesky="definite")
SCENARIOS = [
    Sc("manual-3-2", manual, dict(), **O),
    Sc("manual-4-3", manual, dict(rows=4, n=3), **O),
    Sc("manual-3-1", manual, dict(rows=3, n=1, kind="array"), **O),
    Sc("manual-log", manual, dict(rows=4, n=2, log=True), **O),
    Sc("manual-returns", manual, dict(rows=4, n=3, what="returns", kind="list"), **O),
    Sc("manual-default", manual, dict(rows=3, n=2, what="returns", delta=False, freq=False), **O),
    Sc("variance", library, dict(), **O),
    Sc("variance-named", library, dict(arg="constant_variance", n=3), **O),
    Sc("variance-default", library, dict(freq=False, kind="array"), **O),
    Sc("oracle", library, dict(which="oas"), **O),
    Sc("oracle-array", library, dict(which="oas", n=3, kind="array", freq=False), **O),
    Sc("single-free", single, dict(rows=3, n=2), **O),
    Sc("single-4-2", single, dict(z="4-2", kind="array"), **O),
    Sc("single-4-3", single, dict(z="4-3", freq=False), **O),
    Sc("single-5-3", single, dict(z="5-3"), **O),
    Sc("single-5-3b", single, dict(z="5-3b", free=True), **O),
    Sc("constant-4-3", constant, dict(z="4-3"), **O),
    Sc("constant-4-3b", constant, dict(z="4-3b", kind="array"), **O),
    Sc("constant-5-3", constant, dict(z="5-3", freq=False), **O),
    Sc("constant-5-3b", constant, dict(z="5-3b"), **O),
    Sc("constant-4-3-free", constant, dict(z="4-3", free=True), **O),
    Sc("unknown", unknown, **O),
]
