from symx.run import Sc
from checks.opt import METHODS, build, check, run, target

BOUNDS = "2-3 assets, 2 periods, symbolic bounds of any sign, constraints, data and targets; every optimiser and method with the option; real arithmetic"
OUTSIDE = "the numerical solver (assumed to return a feasible minimiser); re-use after an earlier optimisation (see C06); float rounding"


def neutral(S, kind, method, mn, setup="list", n=2, **kw):
    if setup == "nonneg":
        kw["bounds"] = "long"
    elif setup == "default":
        kw["bounds"] = "default"
    else:
        kw["bounds"] = setup
    o = build(S, kind, n=n, **kw)
    given = [x for x in o.lo]
    neg = S.or_(*[S.lt(x, 0) if x is not None else True for x in given])
    t = target(S, o, method)
    if t is not None and kind == "EF" and method == "efficient_risk":
        S.assume(S.le(0, t))
    out = run(o, method, t, mn)
    if not out.ok and out.raised("ValueError"):
        S.dead()                # rejected target: decided by the property of the method
    S.claim("runs", out.ok)
    if not out.ok:
        return
    amended = bool(mn) and not S.holds(neg)
    o.amended = amended
    S.claim("warned.iff.amended", out.warned("RuntimeWarning") == amended)
    check(o, out, method, t, bool(mn))


SCENARIOS = []
NOOPT = {"min_volatility"}
for kind in ("EF", "SV", "CVAR", "CDAR"):
    for m in METHODS[kind]:
        if m in NOOPT:
            continue
        x = dict(freq="sym", bench="sym") if kind == "SV" else dict(beta="sym") if kind in ("CVAR", "CDAR") else {}
        SCENARIOS += [
            Sc("%s-%s-neutral" % (kind, m), neutral, dict(kind=kind, method=m, mn=True, setup="list", **x)),
            Sc("%s-%s-amended" % (kind, m), neutral, dict(kind=kind, method=m, mn=True, setup="default", cons=["le"], objs=["l2"], **x)),
            Sc("%s-%s-nonneg-pair" % (kind, m), neutral, dict(kind=kind, method=m, mn=True, setup="long", cons=["ge"])),
            Sc("%s-%s-open" % (kind, m), neutral, dict(kind=kind, method=m, mn=True, setup="half")),
            Sc("%s-%s-off" % (kind, m), neutral, dict(kind=kind, method=m, mn=False, setup="list", **x)),
            Sc("%s-%s-3" % (kind, m), neutral, dict(kind=kind, method=m, mn=True, setup="list", n=3, cons=["le", "ge"]), tier="thorough"),
        ]
SCENARIOS += [Sc("EF-min_volatility", neutral, dict(kind="EF", method="min_volatility", mn=None, setup="list"))]
