from symx.run import Sc
from symx.optspec import posed, bounds_spec, shape_lifts
from checks.opt import build, ret

BOUNDS = "2-3 assets, symbolic expected returns, positive-definite covariance, bounds, linear constraints and risk-free rate; real arithmetic"
OUTSIDE = "the numerical solver (assumed to return a feasible minimiser); nonlinear user constraints; added objectives (documented as approximate); float rounding"


class Unlift:
    """weights of a point of the transformed problem: scaled to sum to 1"""

    def __init__(self, S, n):
        self.S, self.n = S, n

    def y(self, cap, vals):
        for sh, v in zip(cap.shapes(), vals):
            if sh in ((self.n,), (self.n, 1)):
                return self.S.flat(v)

    def fix(self, cap, q):
        import numpy as np
        for v in cap.vars:
            if v.shape == (self.n,):
                return [v == np.asarray(q, dtype=float) * self.S.cp.sum(v)]
        raise RuntimeError

    def bind(self, cap):
        def f(vals):
            y = self.y(cap, vals)
            s = self.S.sum(y)
            return [x / s for x in y]
        f.fix = self.fix
        return f


def user(S, o, forms, n):
    """constraints written in various ways; (name, condition) of each"""
    b = S.real("b", lo=-.2, hi=.6)
    a = S.vec("a", n, lo=-1, hi=1)
    c = S.real("c", lo=-.2, hi=.6)
    al = S.flat(a)
    F = {
        "var<=const": (lambda w: w[0] <= b, lambda w: S.le(w[0], b)),
        "const<=var": (lambda w: w[1] >= b, lambda w: S.le(b, w[1])),
        "var-const<=0": (lambda w: w[0] - b <= 0, lambda w: S.le(w[0], b)),
        "0<=var-const": (lambda w: w[1] - b >= 0, lambda w: S.le(b, w[1])),
        "both": (lambda w: w[0] + b <= w[1] + c, lambda w: S.le(w[0] + b, w[1] + c)),
        "var>=var": (lambda w: w[0] >= w[1], lambda w: S.le(w[1], w[0])),
        "vector": (lambda w: w <= a, lambda w: S.and_(*[S.le(x, y) for x, y in zip(w, al)])),
        "dot": (lambda w: a @ w <= b, lambda w: S.le(S.dot(al, w), b)),
        "dot-const": (lambda w: a @ w - b >= c, lambda w: S.le(c, S.dot(al, w) - b)),
        "eq": (lambda w: w[0] == b, lambda w: S.eq(w[0], b)),
        "eq-const": (lambda w: w[0] - b == 0, lambda w: S.eq(w[0], b)),
        "eq-both": (lambda w: w[0] + b == w[1] - c, lambda w: S.eq(w[0] + b, w[1] - c)),
        "const==var": (lambda w: S.cp.Constant(b) == w[0], lambda w: S.eq(w[0], b)),
        "scaled": (lambda w: 2 * (w[0] - b) <= w[1] / 2 + 3 * c, lambda w: S.le(2 * (w[0] - b), w[1] / 2 + 3 * c)),
        "sum": (lambda w: S.cp.sum(w[:2]) <= b, lambda w: S.le(w[0] + w[1], b)),
        "norm": (lambda w: S.cp.norm(w, 1) <= c, lambda w: S.le(S.sum([S.abs(x) for x in w]), c)),
    }
    for f in forms:
        o.ef.add_constraint(F[f][0])
        o.extra.append(("user." + f, F[f][1]))


def sharpe(S, forms=(), sector=False, default_rf=False, **kw):
    o = build(S, "EF", **kw)
    n = o.n
    rf = 0 if default_rf else S.real("rf", lo=-1, hi=1)
    user(S, o, forms, n)
    if sector:
        su, sl = S.real("su", lo=.2, hi=1), S.real("sl", lo=0, hi=.5)
        o.ef.add_sector_constraints({t: "x" if i < 2 else "y" for i, t in enumerate(o.tick)}, {"x": sl}, {"x": su})
        o.extra.append(("sector.lo", lambda w: S.le(sl, S.sum(w[:2]))))
        o.extra.append(("sector.hi", lambda w: S.le(S.sum(w[:2]), su)))
    ex = [m - rf for m in o.mu]
    un = Unlift(S, n)

    def plan(k, cap):
        vals = []
        for i, sh in enumerate(cap.shapes()):
            if sh == ():
                vals.append(S.real("sol%d_%d" % (k, i), lo=0, hi=4))
            else:
                vals.append([S.real("sol%d_%d_%d" % (k, i, j), lo=-2, hi=2) for j in range(sh[0])])
        cap.sol = cap.env(vals)
        y = un.y(cap, vals)
        if kw.get("bounds") not in ("open", "half"):
            S.claim("scale.positive", S.implies(cap.feasible(cap.sol), S.lt(0, S.sum(y))))
        S.assume(S.lt(0, S.sum(y)))
        for v, sh in zip(vals, cap.shapes()):
            if sh == ():
                S.assume(S.lt(0, v))
        return vals
    S.solution_plan = plan
    out = S.call(o.ef.max_sharpe) if default_rf else S.call(o.ef.max_sharpe, rf)
    if not out.ok:
        S.claim("rejects.with.ValueError", out.raised("ValueError"))
        S.claim("rejected.only.if.no.excess", S.and_(*[S.le(e, 0) for e in ex]))
        return
    S.claim("accepted.only.if.excess", S.or_(*[S.lt(0, e) for e in ex]))
    cap = S.last
    w = S.flat(out.value)
    S.observe("w", w)
    S.observe("obj", cap.obj(cap.sol))
    ys = un.y(cap, [cap.sol[v.id] for v in cap.vars])
    hyp = cap.feasible(cap.sol)
    for i in range(n):
        S.claim("inverse.transform%d" % i, S.implies(hyp, S.eq(w[i] * S.sum(ys), ys[i])))

    def spec(x, a):
        return bounds_spec(S, x, o.lo, o.hi) + [(nm, c(x)) for nm, c in o.extra] + [
            ("sum", S.eq(S.sum(x), 1)), ("excess", S.lt(0, S.dot(ex, x)))]

    def F(x, a):
        e = S.dot(ex, x)
        return S.quad(o.cov, x) / (e * e)

    def lifts(cap, i, q, a):
        e = S.dot(ex, q)
        return shape_lifts(cap, None, q, [1 / e, e], {n: [[x / e for x in q]]})
    q = S.flat(S.vec("q", n, lo=-2, hi=2))
    eq = S.dot(ex, q)
    S.assume(S.lt(0, eq))           # competitors have positive excess return
    posed(S, cap, w, spec, F, lifts=lifts, unlift=un.bind(cap), q=q)


def badrf(S, val):
    o = build(S, "EF", n=2)
    out = S.call(o.ef.max_sharpe, val)
    S.claim("rejected", out.raised("ValueError"))
    S.claim("no.weights", o.ef.weights is None)


SCENARIOS = [
    Sc("plain-3", sharpe, dict(n=3)),
    Sc("default-rate-2", sharpe, dict(n=2, default_rf=True, form="array", mu="array")),
    Sc("short-2", sharpe, dict(n=2, bounds="short", mu="list")),
    Sc("bounds-list-2", sharpe, dict(n=2, bounds="list")),
    Sc("bounds-sym-3", sharpe, dict(n=3, bounds="sym")),
    Sc("var-const", sharpe, dict(n=2, forms=["var<=const", "const<=var"], bounds="short")),
    Sc("const-left", sharpe, dict(n=2, forms=["var-const<=0"])),
    Sc("const-left-ge", sharpe, dict(n=2, forms=["0<=var-const"])),
    Sc("const-both", sharpe, dict(n=2, forms=["both"])),
    Sc("var-var", sharpe, dict(n=3, forms=["var>=var"])),
    Sc("vector-dot", sharpe, dict(n=3, forms=["vector", "dot"], bounds="short")),
    Sc("dot-const", sharpe, dict(n=3, forms=["dot-const"])),
    Sc("eq", sharpe, dict(n=3, forms=["eq"])),
    Sc("eq-const", sharpe, dict(n=3, forms=["eq-const"])),
    Sc("eq-both", sharpe, dict(n=3, forms=["eq-both"])),
    Sc("const-eq-var", sharpe, dict(n=2, forms=["const==var"])),
    Sc("scaled-sum", sharpe, dict(n=3, forms=["scaled", "sum"])),
    Sc("norm", sharpe, dict(n=2, forms=["norm"], bounds="short")),
    Sc("sector", sharpe, dict(n=3, sector=True)),
    Sc("unbounded", sharpe, dict(n=2, bounds="open")),
    Sc("half-bounded", sharpe, dict(n=2, bounds="half", forms=["dot"])),
    Sc("str-rate", badrf, dict(val="0.1")),
    Sc("none-rate", badrf, dict(val=None)),
    Sc("everything-3", sharpe, dict(n=3, forms=["dot", "both", "scaled", "eq-both"], bounds="list", sector=True), tier="thorough"),
]
