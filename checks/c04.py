from symx.run import Sc
from checks.c06 import resolve
from checks.opt import build, check, run, target

BOUNDS = "2-3 assets, symbolic expected returns/covariance/bounds/constraints/risk aversion; real arithmetic"
OUTSIDE = "the numerical solver (assumed to return a feasible minimiser); float rounding"


def util(S, mn=None, default=False, **kw):
    o = build(S, "EF", **kw)
    if default:
        out = S.call(o.ef.max_quadratic_utility)
        return check(o, out, "max_quadratic_utility", 1, False)
    t = S.real("t", lo=-1, hi=4)
    out = run(o, "max_quadratic_utility", t, mn)
    if not out.ok:
        S.claim("rejects.with.ValueError", out.raised("ValueError"))
        S.claim("rejected.only.if.not.positive", S.le(t, 0))
        return
    S.claim("accepted.only.if.positive", S.lt(0, t))
    check(o, out, "max_quadratic_utility", t, bool(mn))


SCENARIOS = [
    Sc("resolved", resolve, dict(kind="EF", method="max_quadratic_utility")),
    Sc("resolved-terms", resolve, dict(kind="EF", method="max_quadratic_utility", cons=["le"], objs=["l2"], bounds="short")),
    Sc("resolved-neutral", resolve, dict(kind="EF", method="max_quadratic_utility", mn=True, bounds="short")),
    Sc("frame-3", util, dict(n=3)),
    Sc("default-2", util, dict(n=2, default=True)),
    Sc("array-2-short", util, dict(n=2, form="array", mu="array", bounds="short")),
    Sc("bounds-list-3", util, dict(n=3, bounds="list", mu="list")),
    Sc("constraints-3", util, dict(n=3, cons=["le", "ge"])),
    Sc("constraint-eq-2", util, dict(n=2, cons=["eq"], bounds="sym")),
    Sc("objectives-2", util, dict(n=2, objs=["l2", "tc"])),
    Sc("objectives-cons-3", util, dict(n=3, objs=["lin", "l2"], cons=["cap"], bounds="short")),
    Sc("neutral-2", util, dict(n=2, bounds="short", mn=True, cons=["le"])),
    Sc("objectives-twice-2", util, dict(n=2, objs=["l2", "lin", "l2", "lin"])),
    Sc("everything-3", util, dict(n=3, objs=["lin", "l2", "tc"], cons=["le", "ge", "cap"], bounds="list"), tier="thorough"),
]
