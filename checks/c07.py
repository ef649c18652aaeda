from symx.run import Sc
from symx.optspec import posed, bounds_spec, sum_spec

BOUNDS = "1-3 assets, symbolic bound values, every accepted shape of the bounds argument; min_volatility and efficient_risk-type use; real arithmetic"
OUTSIDE = "the numerical solver; NaN entries; a list (not tuple) of two arrays for exactly two assets (read as one pair per asset); float rounding"

T = ["AAA", "BBB", "CCC"]
BAD = {"int": 5, "none": None, "str": "(0, 1)", "triple": (0, 1, 2), "empty": [], "single": (0,), "too-many": [(0, 1)] * 4, "dict": {"lower": 0, "upper": 1},
       "set": {0, 1}}


def form(S, n, f):
    l = [S.real("l%d" % i, lo=-1, hi=.3) for i in range(n)]
    u = [S.real("u%d" % i, lo=.3, hi=1) for i in range(n)]
    L, U = S.real("L", lo=-1, hi=.3), S.real("U", lo=.4, hi=1)
    one = lambda a, b: ([a] * n, [b] * n)
    return {
        "tuple": ((L, U), one(L, U)),
        "list": ([L, U], one(L, U)),
        "ints": ((0, 1), one(0, 1)),
        "npints": ((S.np.int64(-1), S.np.int64(1)), one(-1, 1)),
        "npfloats": ((S.np.float64(-.5), S.np.float64(.75)), one(-.5, .75)),
        "none-upper": ((L, None), one(L, 1)),
        "none-lower": ((None, U), one(-1, U)),
        "none-both": ((None, None), one(-1, 1)),
        "none-list": ([None, U], one(-1, U)),
        "arrays": ((S.arr(l), S.arr(u)), (l, u)),
        "lists": ((list(l), list(u)), (l, u)),
        "pairs": (list(zip(l, u)), (l, u)),
        "tuple-pairs": (tuple(zip(l, u)), (l, u)),
        "list-pairs": ([[a, b] for a, b in zip(l, u)], (l, u)),
        "matrix": (S.arr([[a, b] for a, b in zip(l, u)]), (l, u)),
        "pairs-none": ([(None, u[0]), (l[-1], None)] + [(None, None)] * (n - 2) if n > 1 else [(None, u[0])],
                       ([None, l[-1]] + [None] * (n - 2), [u[0], None] + [None] * (n - 2)) if n > 1 else ([None], [u[0]])),
        "default": (None, one(0, 1)),
    }[f]


def bounds(S, n, f, frame=False):
    b, (lo, hi) = form(S, n, f)
    cov = S.psd("c", n)
    arg = S.frame(cov, T[:n], T[:n]) if frame else cov
    out = S.call(lambda: S.pf.EfficientFrontier(None, arg) if f == "default" else S.pf.EfficientFrontier(None, arg, weight_bounds=b))
    S.claim("accepted", out.ok)
    if not out.ok:
        return
    ef = out.value
    out = S.call(ef.min_volatility)
    S.claim("solved", out.ok)
    if not out.ok:
        return
    w = S.flat(out.value)
    S.observe("w", w)
    posed(S, S.last, w, lambda x, a: bounds_spec(S, x, lo, hi) + sum_spec(S, x), lambda x, a: S.quad(cov, x))


def bad(S, n, which):
    cov = S.psd("c", n)
    out = S.call(lambda: S.pf.EfficientFrontier(None, cov, weight_bounds=BAD[which]))
    S.claim("rejected", out.raised("TypeError"))


def badlen(S, n, m):
    cov = S.psd("c", n)
    l = [S.real("l%d" % i, lo=-1, hi=.3) for i in range(m)]
    out = S.call(lambda: S.pf.EfficientFrontier(None, cov, weight_bounds=[(x, 1) for x in l]))
    S.claim("rejected", out.raised("TypeError"))


def _kinds(S, kind):
    """the other optimisers read bounds the same way"""
    from checks.opt import build, check, run
    o = build(S, kind, n=2, T=2, bounds="none-lower" if False else "list")
    m = {"SV": "min_semivariance", "CVAR": "min_cvar", "CDAR": "min_cdar"}[kind]
    check(o, run(o, m, None), m, None, False)


def free(S, f, kind="EF", n=2):
    """no sum rule: every bound shows, also those the sum would imply"""
    b, (lo, hi) = form(S, n, f)
    t = S.vec("t", n, lo=-2, hi=2)
    if kind == "EF":
        a = S.pf.EfficientFrontier, None, S.psd("c", n)
    else:
        a = {"SV": S.pf.EfficientSemivariance, "CVAR": S.pf.EfficientCVaR, "CDAR": S.pf.EfficientCDaR}[kind], S.vec("m", n, lo=-1, hi=1), S.frame(S.mat("r", 2, n, lo=-.5, hi=.5), T[:n])
    out = S.call(*a, **({} if f == "default" else dict(weight_bounds=b)))
    S.claim("accepted", out.ok)
    if not out.ok:
        return
    out = S.call(out.value.convex_objective, lambda w: S.cp.sum_squares(w - S.arr(t)), weights_sum_to_one=False)
    S.claim("solved", out.ok)
    if not out.ok:
        return
    w = S.flat(out.value)
    S.observe("w", w)
    posed(S, S.last, w, lambda x, a: bounds_spec(S, x, lo, hi), lambda x, a: S.sum([(p - q) * (p - q) for p, q in zip(x, S.flat(t))]))


SCENARIOS = []
for f in ("tuple", "list", "ints", "npints", "npfloats", "none-upper", "none-lower", "none-both", "none-list", "arrays", "lists", "pairs", "tuple-pairs",
          "list-pairs", "matrix", "pairs-none", "default"):
    for n in (2, 3):
        if f == "lists" and n == 2:
            continue            # ambiguous: reads as one pair per asset
        SCENARIOS.append(Sc("%s-%d" % (f, n), bounds, dict(n=n, f=f, frame=n == 3)))
SCENARIOS += [Sc("pairs-1", bounds, dict(n=1, f="pairs")), Sc("tuple-1", bounds, dict(n=1, f="tuple"))]
SCENARIOS += [Sc("bad-" + k, bad, dict(n=3, which=k)) for k in BAD]
SCENARIOS += [Sc("bad-triple-2", bad, dict(n=2, which="triple")), Sc("bad-length-3-4", badlen, dict(n=3, m=4)), Sc("bad-length-3-1", badlen, dict(n=3, m=1)),
              Sc("bad-length-2-3", badlen, dict(n=2, m=3))]
SCENARIOS += [Sc("optimiser-" + k, _kinds, dict(kind=k)) for k in ("SV", "CVAR", "CDAR")]
for k in ("EF", "SV", "CVAR", "CDAR"):
    for f in ("default", "tuple", "none-upper", "pairs-none", "matrix", "arrays") if k == "EF" else ("default", "none-lower", "pairs-none"):
        SCENARIOS.append(Sc("free-%s-%s" % (k, f), free, dict(f=f, kind=k)))
SCENARIOS += [Sc("free-3-" + f, free, dict(f=f, n=3)) for f in ("pairs-none", "lists", "none-both")]
