from symx.run import Sc
from checks.c06 import resolve
from checks.opt import METHODS
from checks.tail import badbeta, oracle, reported, solve

BOUNDS = "2-3 assets, 1-3 periods, symbolic returns, confidence level, targets, bounds, linear constraints and added objectives; real arithmetic"
OUTSIDE = "the numerical solver (assumed to return a feasible minimiser); more than 3 periods; float rounding; re-use (C06)"

SCENARIOS = []
x = dict(beta="sym")
for m in METHODS["CVAR"]:
    q = dict(kind="CVAR", method=m)
    SCENARIOS += [
        Sc(m + "-plain", solve, dict(q)),
        Sc(m + "-sym", solve, dict(q, **x)),
        Sc(m + "-one-period", solve, dict(q, T=1, **x)),
        Sc(m + "-three-periods", solve, dict(q, T=3, **x)),
        Sc(m + "-three-assets", solve, dict(q, n=3, bounds="short", form="array", mu="array", **x)),
        Sc(m + "-bounds-constraints", solve, dict(q, bounds="list", cons=["le", "ge"], **x)),
        Sc(m + "-objectives", solve, dict(q, objs=["l2", "lin"], **x)),
        Sc(m + "-cost", solve, dict(q, objs=["tc"], **x)),
        Sc(m + "-neutral", solve, dict(q, mn=True, bounds="short", **x)),
        Sc(m + "-missing", solve, dict(q, T=3, gap=((1, 0),), **x)),
        Sc(m + "-missing-array", solve, dict(q, T=4, gap=((0, 1), (3, 0), (3, 1)), form="array", mu="array", **x)),
        Sc(m + "-reported-missing", reported, dict(q, T=3, gap=((0, 1),), slack=False)),
        Sc(m + "-missing-half", solve, dict(q, T=3, gap=((1, 0),), beta=.5)),
        Sc(m + "-reported-missing-half", reported, dict(q, T=3, gap=((1, 1),), beta=.5, slack=False)),
        Sc(m + "-objective-twice", solve, dict(q, objs=["l2", "lin", "l2", "lin"], **x)),
        Sc(m + "-reported", reported, dict(q, **x)),
        Sc(m + "-reported-3", reported, dict(q, T=3, verbose=True, slack=False)),
        Sc(m + "-reported-terms", reported, dict(q, T=2, cons=["le"], objs=["l2"], beta=.5, slack=False)),
        Sc(m + "-33", solve, dict(q, n=3, T=3, bounds="sym", cons=["le"], objs=["l2"], **x), tier="thorough"),
    ]
SCENARIOS += [Sc(m + "-resolved", resolve, dict(kind="CVAR", method=m, **x)) for m in METHODS["CVAR"] if not m.startswith("min")]
SCENARIOS += [
    Sc("none-min", solve, dict(kind="CVAR", method="min_cvar", mu="none", **x)),
    Sc("none-reported", reported, dict(kind="CVAR", method="min_cvar", mu="none", verbose=True, **x)),
    Sc("beta", badbeta, dict(kind="CVAR", b="sym")),
    Sc("oracle-2", oracle, dict(kind="CVAR", T=2)),
    Sc("oracle-3", oracle, dict(kind="CVAR", T=3)),
]
