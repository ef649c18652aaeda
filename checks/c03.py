from symx.run import Sc
from checks.c06 import resolve
from checks.opt import build, check, run, target

BOUNDS = "2-3 assets (for 3 the least-variance threshold only with uncorrelated assets), symbolic expected returns, positive-definite covariance, bounds, constraints and target; real arithmetic"
OUTSIDE = "the numerical solver (assumed to return a feasible minimiser); singular covariances; float rounding"


def minvar(S, M, n):
    """least variance of weights summing to 1: 1 / sum of the inverse"""
    if n == 2:
        det = M[0, 0] * M[1, 1] - M[0, 1] * M[0, 1]
        s = M[0, 0] + M[1, 1] - 2 * M[0, 1]
        return det, s
    c = lambda i, j, k, l: M[i, k] * M[j, l] - M[i, l] * M[j, k]
    det = M[0, 0] * c(1, 2, 1, 2) - M[0, 1] * c(1, 2, 0, 2) + M[0, 2] * c(1, 2, 0, 1)
    s = (c(1, 2, 1, 2) + c(0, 2, 0, 2) + c(0, 1, 0, 1) - 2 * c(1, 2, 0, 2) + 2 * c(1, 2, 0, 1) - 2 * c(0, 2, 0, 1))
    return det, s


def effrisk(S, mn=None, diag=False, pre=True, **kw):
    if diag:        # uncorrelated assets
        n = kw["n"]
        v = [S.real("v%d" % i, pos=True, hi=2) for i in range(n)]
        kw["cov"] = S.arr([[v[i] if i == j else 0 for j in range(n)] for i in range(n)])
    o = build(S, "EF", **kw)
    t = S.real("t", lo=-.5, hi=2)
    det, s = minvar(S, o.cov, o.n)
    S.assume(S.lt(0, s))        # follows from positive definiteness
    out = run(o, "efficient_risk", t, mn)
    if not out.ok:
        S.claim("rejects.with.ValueError", out.raised("ValueError"))
        if pre:
            S.claim("rejected.only.if.below.minimum", S.or_(S.lt(t, 0), S.lt(t * t * s, det)))
        return
    S.claim("accepted.only.if.nonnegative", S.le(0, t))
    if pre:
        S.claim("accepted.only.if.attainable", S.le(det, t * t * s))
    check(o, out, "efficient_risk", t, bool(mn))


def badtarget(S, val):
    o = build(S, "EF", n=2)
    out = S.call(o.ef.efficient_risk, val)
    S.claim("rejected", out.raised("ValueError"))
    S.claim("no.weights", o.ef.weights is None)


SCENARIOS = [
    Sc("resolved", resolve, dict(kind="EF", method="efficient_risk")),
    Sc("resolved-terms", resolve, dict(kind="EF", method="efficient_risk", cons=["le"], objs=["l2"], bounds="short")),
    Sc("resolved-neutral", resolve, dict(kind="EF", method="efficient_risk", mn=True, bounds="short")),
    Sc("frame-2", effrisk, dict(n=2)),
    Sc("frame-3", effrisk, dict(n=3, pre=False)),
    Sc("uncorrelated-3", effrisk, dict(n=3, diag=True)),
    Sc("array-2-short", effrisk, dict(n=2, form="array", mu="array", bounds="short")),
    Sc("bounds-list-2", effrisk, dict(n=2, bounds="list", mu="list")),
    Sc("constraints-2", effrisk, dict(n=2, cons=["le", "ge"])),
    Sc("constraint-eq-2", effrisk, dict(n=2, cons=["eq"], bounds="sym")),
    Sc("objectives-2", effrisk, dict(n=2, objs=["l2", "tc"])),
    Sc("objectives-cons-2", effrisk, dict(n=2, objs=["lin", "l2"], cons=["cap"], bounds="short")),
    Sc("neutral-2", effrisk, dict(n=2, bounds="short", mn=True, cons=["le"])),
    Sc("str-target", badtarget, dict(val="0.1")),
    Sc("none-target", badtarget, dict(val=None)),
    Sc("objectives-twice-2", effrisk, dict(n=2, objs=["l2", "lin", "l2", "lin"])),
    Sc("everything-3", effrisk, dict(n=3, pre=False, objs=["lin", "l2", "tc"], cons=["le", "ge", "cap"], bounds="list"), tier="thorough"),
]
