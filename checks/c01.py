from symx.run import Sc
from symx.optspec import posed, bounds_spec, sum_spec

BOUNDS = "2-3 assets (4 in thorough), symbolic covariance/bounds/constraint coefficients/objective coefficients; real arithmetic"
OUTSIDE = "the numerical solver (its contract is assumed: the solution it reports is feasible and minimal); float rounding"

T3 = ["AAA", "BBB", "CCC", "DDD"]


def mk(S, n, form, mu="none", bounds="default", cons=None, objs=None):
    cov = S.psd("c", n) if n < 4 else S.symmat("c", n)
    covarg = S.frame(cov, T3[:n], T3[:n]) if form == "frame" else cov
    muv = None
    if mu != "none":
        m = S.vec("mu", n, lo=-1, hi=1)
        muv = S.series(m, T3[:n]) if mu == "series" else m
    lo, hi = [0] * n, [1] * n
    kw = {}
    if bounds == "sym":
        l, h = S.real("lo", lo=-1, hi=0), S.real("hi", lo=0, hi=2)
        lo, hi = [l] * n, [h] * n
        kw["weight_bounds"] = (l, h)
    elif bounds == "list":
        lo = [S.real("lo%d" % i, lo=-1, hi=.3) for i in range(n)]
        hi = [S.real("hi%d" % i, lo=.3, hi=1) for i in range(n)]
        kw["weight_bounds"] = list(zip(lo, hi))
    elif bounds == "short":
        lo = [-1] * n
        kw["weight_bounds"] = (-1, 1)
    ef = S.pf.EfficientFrontier(muv, covarg, **kw)
    extra = []
    a = S.vec("a", n, lo=-1, hi=1)
    b = S.real("b", lo=-1, hi=1)
    d = S.real("d", lo=-1, hi=1)
    for c in cons or ():
        if c == "le":
            ef.add_constraint(lambda w: w @ a <= b)
            extra.append(("user.le", lambda w: S.le(S.dot(a, w), b)))
        elif c == "ge":
            ef.add_constraint(lambda w: w[0] - w[1] >= d)
            extra.append(("user.ge", lambda w: S.le(d, w[0] - w[1])))
        elif c == "eq":
            ef.add_constraint(lambda w: w[0] == b)
            extra.append(("user.eq", lambda w: S.eq(w[0], b)))
        elif c == "vec":
            ef.add_constraint(lambda w: w >= a)
            for i in range(n):
                extra.append(("user.vec%d" % i, lambda w, i=i: S.le(a[i], w[i])))
        elif c == "quad":
            ef.add_constraint(lambda w: S.cp.sum_squares(w) <= b)
            extra.append(("user.quad", lambda w: S.le(S.dot(w, w), b)))
    terms = []
    g = S.real("g", lo=0, hi=3)
    g2 = S.real("g2", lo=0, hi=3)
    wp = S.vec("wp", n, lo=0, hi=1)
    for o in objs or ():
        if o == "l2":
            ef.add_objective(S.pf.objective_functions.L2_reg, gamma=g)
            terms.append(lambda w: g * S.dot(w, w))
        elif o == "tc":
            ef.add_objective(S.pf.objective_functions.transaction_cost, w_prev=wp, k=g2)
            terms.append(lambda w: g2 * S.sum([S.abs(x - y) for x, y in zip(w, S.flat(wp))]))
        elif o == "lin":
            ef.add_objective(lambda w: S.cp.sum(S.cp.multiply(a, w)))
            terms.append(lambda w: S.dot(a, w))
        elif o == "l2d":
            ef.add_objective(S.pf.objective_functions.L2_reg)
            terms.append(lambda w: S.dot(w, w))

    def spec(w):
        return bounds_spec(S, w, lo, hi) + [(nm, c(w)) for nm, c in extra]

    def add(w):
        return S.sum([t(w) for t in terms])
    return ef, cov, lo, hi, spec, add


def minvol(S, **kw):
    ef, cov, lo, hi, spec, add = mk(S, **kw)
    out = S.call(ef.min_volatility)
    S.claim("returns", out.ok)
    if not out.ok:
        return
    w = S.flat(out.value)
    S.observe("w", w)
    S.observe("obj", S.last.obj(S.last.sol))
    posed(S, S.last, w, lambda x, a: spec(x) + sum_spec(S, x), lambda x, a: S.quad(cov, x) + add(x))


SCENARIOS = [
    Sc("default-3-array", minvol, dict(n=3, form="array")),
    Sc("default-3-frame", minvol, dict(n=3, form="frame", mu="series")),
    Sc("short-2-frame", minvol, dict(n=2, form="frame", bounds="short")),
    Sc("pair-2", minvol, dict(n=2, form="array", mu="array", bounds="sym")),
    Sc("list-3", minvol, dict(n=3, form="frame", bounds="list")),
    Sc("cons-linear-3", minvol, dict(n=3, form="frame", cons=["le", "ge"])),
    Sc("cons-eq-vec-3", minvol, dict(n=3, form="array", cons=["eq", "vec"])),
    Sc("cons-quad-2", minvol, dict(n=2, form="array", cons=["quad"])),
    Sc("obj-l2-3", minvol, dict(n=3, form="frame", objs=["l2"])),
    Sc("obj-l2-tc-2", minvol, dict(n=2, form="array", objs=["l2", "tc"])),
    Sc("obj-lin-l2d-cons-3", minvol, dict(n=3, form="array", objs=["lin", "l2d"], cons=["le"], bounds="list")),
    Sc("obj-twice-3", minvol, dict(n=3, form="frame", objs=["l2", "lin", "l2", "lin"])),
    Sc("default-4", minvol, dict(n=4, form="frame"), tier="thorough"),
    Sc("all-3", minvol, dict(n=3, form="frame", bounds="list", objs=["l2", "tc", "lin"], cons=["le", "ge", "eq"]), tier="thorough"),
]
