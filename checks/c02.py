from symx.run import Sc
from checks.c06 import resolve
from checks.opt import build, check, run, target, conditions, ret

BOUNDS = "2-3 assets, symbolic expected returns/covariance/bounds/constraints/target; real arithmetic"
OUTSIDE = "the numerical solver (assumed to return a feasible minimiser); float rounding"


def effret(S, mn=None, **kw):
    o = build(S, "EF", **kw)
    t = target(S, o, "efficient_return")
    o.amended = False
    out = run(o, "efficient_return", t, mn)
    # the maximum attainable return is found by (at most) one solve; its contract for any admissible q:
    q = S.flat(S.vec("qm", o.n, lo=-2, hi=2))
    adm = lambda x: S.and_(*[c for _, c in conditions(o, "max_return", t, False, x, None)])
    if not out.ok:
        S.claim("rejects.with.ValueError", out.raised("ValueError"))
        if S.problems:
            c0 = S.problems[0]
            if len(c0.vars) == 1:
                eq = c0.env([q])
                S.claim("max.complete", S.implies(adm(q), c0.feasible(eq)))
                S.claim("rejected.only.if.unattainable",
                        S.implies(S.and_(c0.feasible(c0.sol), adm(q), S.le(c0.obj(c0.sol), c0.obj(eq))), S.lt(ret(o, q), t)))
        else:
            S.claim("rejected.only.if.unattainable", S.implies(adm(q), S.lt(ret(o, q), t)))
        return
    if len(S.problems) > 1:
        # accepted: the maximal portfolio is admissible and reaches the target
        c0 = S.problems[0]
        s = c0.solvec(0)
        S.claim("max.admissible", S.implies(c0.feasible(c0.sol), adm(s)))
        S.claim("accepted.only.if.attainable", S.implies(c0.feasible(c0.sol), S.le(t, ret(o, s))))
    check(o, out, "efficient_return", t, bool(mn))


def badtarget(S, val):
    o = build(S, "EF", n=2)
    out = S.call(o.ef.efficient_return, val)
    S.claim("rejected", out.raised("ValueError"))
    S.claim("no.weights", o.ef.weights is None)


SCENARIOS = [
    Sc("resolved", resolve, dict(kind="EF", method="efficient_return")),
    Sc("resolved-terms", resolve, dict(kind="EF", method="efficient_return", cons=["le"], objs=["l2"], bounds="short")),
    Sc("resolved-neutral", resolve, dict(kind="EF", method="efficient_return", mn=True, bounds="short")),
    Sc("frame-3", effret, dict(n=3)),
    Sc("array-2-short", effret, dict(n=2, form="array", mu="array", bounds="short")),
    Sc("list-mu-2", effret, dict(n=2, mu="list", bounds="sym")),
    Sc("list-bounds-3", effret, dict(n=3, bounds="list")),
    Sc("constraints-3", effret, dict(n=3, cons=["le", "ge"])),
    Sc("constraint-eq-2", effret, dict(n=2, cons=["eq"])),
    Sc("objectives-2", effret, dict(n=2, objs=["l2", "tc"])),
    Sc("objectives-cons-3", effret, dict(n=3, objs=["lin", "l2"], cons=["cap"], bounds="short")),
    Sc("neutral-2", effret, dict(n=2, bounds="short", mn=True, cons=["le"])),
    Sc("explicit-not-neutral-2", effret, dict(n=2, mn=False)),
    Sc("int-target", badtarget, dict(val=1)),
    Sc("str-target", badtarget, dict(val="0.1")),
    Sc("none-target", badtarget, dict(val=None)),
    Sc("objectives-twice-2", effret, dict(n=2, objs=["l2", "lin", "l2", "lin"])),
    Sc("everything-3", effret, dict(n=3, objs=["lin", "l2", "tc"], cons=["le", "ge", "cap"], bounds="list"), tier="thorough"),
]
