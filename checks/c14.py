from symx.run import Sc
from checks.c06 import resolve
from checks.opt import METHODS
from checks.tail import badtarget, given, reported, solve

BOUNDS = "2-3 assets, 1-3 periods, symbolic returns, benchmark, frequency, targets, bounds, linear constraints and added objectives; real arithmetic"
OUTSIDE = "the numerical solver (assumed to return a feasible minimiser); more than 3 periods; float rounding; re-use (C06), market-neutral weight sums (C09)"

SCENARIOS = []
x = dict(freq="sym", bench="sym")
for m in METHODS["SV"]:
    q = dict(kind="SV", method=m)
    SCENARIOS += [
        Sc(m + "-plain", solve, dict(q)),
        Sc(m + "-sym", solve, dict(q, **x)),
        Sc(m + "-one-period", solve, dict(q, T=1, **x)),
        Sc(m + "-three-periods", solve, dict(q, T=3, **x)),
        Sc(m + "-three-assets", solve, dict(q, n=3, bounds="short", form="array", mu="array", **x)),
        Sc(m + "-bounds-constraints", solve, dict(q, bounds="list", cons=["le", "ge"], **x)),
        Sc(m + "-objectives", solve, dict(q, objs=["l2", "lin"], **x)),
        Sc(m + "-objectives-twice", solve, dict(q, objs=["l2", "lin", "l2", "lin"], **x)),
        Sc(m + "-cost", solve, dict(q, objs=["tc"], bench="sym")),
        Sc(m + "-neutral", solve, dict(q, mn=True, bounds="short", **x)),
        Sc(m + "-missing", solve, dict(q, T=3, gap=((1, 0),), **x)),
        Sc(m + "-missing-array", solve, dict(q, T=4, gap=((0, 1), (3, 0), (3, 1)), form="array", mu="array", **x)),
        Sc(m + "-reported-missing", reported, dict(q, T=3, gap=((0, 1),), **x)),
        Sc(m + "-reported", reported, dict(q, **x)),
        Sc(m + "-reported-3", reported, dict(q, T=3, verbose=True, **x)),
        Sc(m + "-33", solve, dict(q, n=3, T=3, bounds="sym", cons=["le"], objs=["l2"], **x), tier="thorough"),
        Sc(m + "-four-periods", solve, dict(q, n=2, T=4, **x), tier="thorough"),
    ]
SCENARIOS += [Sc(m + "-resolved", resolve, dict(kind="SV", method=m, **x)) for m in METHODS["SV"] if not m.startswith("min")]
SCENARIOS += [
    Sc("none-min", solve, dict(kind="SV", method="min_semivariance", mu="none", **x)),
    Sc("none-reported", reported, dict(kind="SV", method="min_semivariance", mu="none", verbose=True, **x)),
    Sc("given", given, dict(T=2, **x)),
    Sc("given-3", given, dict(T=3, n=3, verbose=True, **x)),
    Sc("given-none", given, dict(T=2, mu="none", **x)),
    Sc("given-array", given, dict(T=2, mu="array", form="array", **x)),
    Sc("bad-utility", badtarget, dict(kind="SV", method="max_quadratic_utility", val=0)),
    Sc("bad-utility-neg", badtarget, dict(kind="SV", method="max_quadratic_utility", val=-1.5)),
    Sc("bad-return", badtarget, dict(kind="SV", method="efficient_return", val=-.5)),
    Sc("bad-return-str", badtarget, dict(kind="SV", method="efficient_return", val="0.1")),
]
