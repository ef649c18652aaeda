from symx.run import Sc
from checks.opt import build, check, run, target

BOUNDS = "3 assets, every assignment of tickers to two sectors or none, symbolic sector limits and bounds; all optimisers; real arithmetic"
OUTSIDE = "the numerical solver (assumed to return a feasible minimiser); float rounding"


def sectors(S, kind="EF", method="min_volatility", which="both", n=3, fixed=None, labels="str", neutral=False, **kw):
    o = build(S, kind, n=n, **kw)
    names = ["tech", "oil", None] if which != "empty" else ["tech", "oil"]
    mapper, sec = {}, []
    for i, t in enumerate(o.tick):
        k = fixed[i] if fixed else S.choose(len(names), "sector%d" % i)
        sec.append(names[k])
        if names[k] is not None:
            mapper[t] = names[k]
    mapper["ZZZ"] = "tech"            # a ticker that is not in the portfolio
    lt, lo_ = S.real("low_tech", lo=-.5, hi=.5), S.real("low_oil", lo=-.5, hi=.5)
    ut, uo = S.real("up_tech", lo=0, hi=1), S.real("up_oil", lo=0, hi=1)
    lower, upper = {"both": ({"tech": lt, "oil": lo_}, {"tech": ut, "oil": uo}), "lower": ({"oil": lo_}, {}), "upper": ({}, {"tech": ut}),
                    "mixed": ({"oil": lo_}, {"tech": ut}), "empty": ({"gas": 0}, {"oil": uo, "gas": 1}), "none": ({}, {})}[which]
    out = S.call(o.ef.add_sector_constraints, mapper, lower, upper)
    S.claim("accepted", out.ok)
    if not out.ok:
        return
    for s, v in lower.items():
        o.extra.append(("lower." + s, lambda w, s=s, v=v: S.le(v, S.sum([x for x, c in zip(w, sec) if c == s]))))
    for s, v in upper.items():
        o.extra.append(("upper." + s, lambda w, s=s, v=v: S.le(S.sum([x for x, c in zip(w, sec) if c == s]), v)))
    t = target(S, o, method)
    out = run(o, method, t, neutral or None)
    if not out.ok and out.raised("ValueError"):
        S.dead()
    check(o, out, method, t, neutral)


SCENARIOS = [Sc(w, sectors, dict(which=w, bounds="short" if w in ("both", "lower") else "default")) for w in ("both", "lower", "upper", "mixed")]
SCENARIOS += [
    Sc("no-limits", sectors, dict(which="none", fixed=[0, 1, 2])),
    Sc("empty-sector", sectors, dict(which="empty", fixed=[0, 1, 0])),
    Sc("utility", sectors, dict(which="both", method="max_quadratic_utility", fixed=[1, 0, 1], cons=["le"], objs=["l2"])),
    Sc("target-return", sectors, dict(which="both", method="efficient_return", fixed=[0, 0, 1], bounds="list")),
    Sc("neutral", sectors, dict(which="mixed", method="efficient_return", fixed=[0, 1, 1], bounds="short", neutral=True)),
    Sc("semivariance", sectors, dict(kind="SV", method="min_semivariance", which="both", fixed=[0, 1, 0])),
    Sc("cvar", sectors, dict(kind="CVAR", method="efficient_risk", which="both", fixed=[1, 1, 0])),
    Sc("cdar", sectors, dict(kind="CDAR", method="min_cdar", which="mixed", fixed=[0, 1, 2])),
    Sc("array-labels", sectors, dict(which="both", fixed=[0, 1, 2], form="frame", mu="none")),
    Sc("list-bounds", sectors, dict(which="both", bounds="list"), tier="thorough"),
]
