from symx.run import Sc
from . import est

BOUNDS = "all symmetric 1x1 and 2x2 matrices (eigenvalues and rotation symbolic), 3x3 matrices with any eigenvalues and the rotations about one axis, both methods, frames and arrays; a matrix counts as semidefinite when its least eigenvalue is at least 0 and as indefinite below -1e-12"
OUTSIDE = "larger matrices; the eigenvalue routine itself; matrices within 1e-12 of semidefinite; float rounding"


def build(S, n, axis=2):
    """M = V diag(q) V' with ascending eigenvalues"""
    q = [S.real("e0", lo=-1, hi=1)]
    for k in range(1, n):
        q.append(q[-1] + S.real("g%d" % k, nonneg=True, lo=0, hi=1))
    V = [[S.frac(1 if i == j else 0) for j in range(n)] for i in range(n)]
    if n >= 2:
        t = S.real("t", lo=-2, hi=2)          # any rotation but a half turn, which changes nothing
        d = 1 + t * t
        c, s = (1 - t * t) / d, 2 * t / d
        a, b = {2: (0, 1), 1: (0, 2), 0: (1, 2)}[axis]
        V[a][a] = V[b][b] = c
        V[a][b], V[b][a] = -s, s
    M = [[S.sum([V[i][k] * q[k] * V[j][k] for k in range(n)]) for j in range(n)] for i in range(n)]
    S.spectrum(M, q, V)
    return M, q, V


def repair(S, n=2, method="spectral", kind="frame", axis=2, sign="any", arg=True):
    M, q, V = build(S, n, axis)
    if sign == "psd":
        S.assume(S.le(0, q[0]))
    else:
        S.assume(S.le(q[0], -1e-12))
    if sign == "two":
        S.assume(S.le(q[1], -1e-12))
    if sign == "one":
        S.assume(S.le(0, q[1]))
    X = S.frame(S.arr(M), est.T[:n], est.T[:n]) if kind == "frame" else S.arr(M)
    out = S.call(S.pf.risk_models.fix_nonpositive_semidefinite, X, **(dict(fix_method=method) if arg else {}))
    if method == "nonsense":
        S.claim("unknown", out.raised("NotImplementedError"))
        return
    S.claim("ok", out.ok)
    if not out.ok:
        return
    F = out.value
    if kind == "frame":
        S.claim("labels", list(F.index) == est.T[:n] and list(F.columns) == est.T[:n])
        F = [[F.iloc[i, j] for j in range(n)] for i in range(n)]
    else:
        S.claim("shape", tuple(F.shape) == (n, n))
        F = [[F[i, j] for j in range(n)] for i in range(n)]
    S.observe("fixed", F)
    if sign == "psd":
        for i in range(n):
            for j in range(n):
                S.claim("unchanged%d%d" % (i, j), S.eq(F[i][j], M[i][j]))
        return
    if method == "spectral":
        p = [S.smax(x, 0) for x in q]
        for i in range(n):
            for j in range(n):
                S.claim("spectral%d%d" % (i, j), S.eq(F[i][j], S.sum([V[i][k] * p[k] * V[j][k] for k in range(n)])))
    else:
        up = F[0][0] - M[0][0]
        S.claim("enough", S.le(-q[0], up))
        S.claim("about", S.le(up, -q[0] * 1.25))
        for i in range(n):
            S.claim("uniform%d" % i, S.eq(F[i][i] - M[i][i], up))
            for j in range(i):
                S.claim("off%d%d" % (i, j), S.and_(S.eq(F[i][j], M[i][j]), S.eq(F[j][i], M[j][i])))


SCENARIOS = []
for n in (1, 2, 3):
    for kind in ("frame", "array"):
        for sign in (["psd", "one"] if n > 1 else ["psd", "any"]) + (["two"] if n > 1 else []):
            for method in ("spectral", "diag"):
                SCENARIOS.append(Sc("%d-%s-%s-%s" % (n, kind, sign, method), repair, dict(n=n, kind=kind, sign=sign, method=method, axis=2 if kind == "frame" else 1 if n == 3 else 2)))
SCENARIOS += [Sc("2-default", repair, dict(n=2, arg=False)), Sc("2-any-spectral", repair, dict(n=2)), Sc("3-axis-0", repair, dict(n=3, axis=0)),
              Sc("unknown", repair, dict(n=2, method="nonsense"))]
