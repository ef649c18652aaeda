"""Builds each optimiser with symbolic data and knows, for each method, the documented problem."""
from symx.optspec import bounds_spec, shape_lifts, posed

T3 = ["AAA", "BBB", "CCC", "DDD"]


class O:
    pass


def build(S, kind, n=2, T=2, form="frame", mu="series", bounds="default", cons=(), objs=(), beta=None, freq=None, bench=None, cov=None, gap=()):
    """kind: EF, SV, CVAR, CDAR"""
    o = O()
    o.S, o.kind, o.n, o.T = S, kind, n, T
    tick = T3[:n]
    o.tick = tick
    m = None
    if mu != "none":
        m = S.vec("mu", n, lo=-1, hi=1)
        o.mu = S.flat(m)
        marg = S.series(m, tick) if mu == "series" else (list(o.mu) if mu == "list" else m)
    else:
        o.mu = marg = None
    kw = {}
    o.lo, o.hi = [0] * n, [1] * n
    if bounds == "sym":
        l, h = S.real("lo", lo=-1, hi=0), S.real("hi", lo=.5, hi=2)
        o.lo, o.hi = [l] * n, [h] * n
        kw["weight_bounds"] = (l, h)
    elif bounds == "list":
        o.lo = [S.real("lo%d" % i, lo=-1, hi=.3) for i in range(n)]
        o.hi = [S.real("hi%d" % i, lo=.4, hi=1) for i in range(n)]
        kw["weight_bounds"] = list(zip(o.lo, o.hi))
    elif bounds == "short":
        o.lo = [-1] * n
        kw["weight_bounds"] = (-1, 1)
    elif bounds in ("open", "half"):
        o.lo, o.hi = [None] * n, [None] * n
        if bounds == "half":
            o.lo[0], o.hi[-1] = S.real("lo0", lo=-1, hi=.3), S.real("hi1", lo=.4, hi=1)
        kw["weight_bounds"] = list(zip(o.lo, o.hi))
    elif bounds == "long":
        l, h = S.real("lo", lo=0, hi=.2), S.real("hi", lo=.5, hi=2)
        S.assume(S.le(0, l))
        o.lo, o.hi = [l] * n, [h] * n
        kw["weight_bounds"] = (l, h)
    o.bounds_kw = kw
    pf = S.pf
    if kind == "EF":
        o.cov = cov if cov is not None else S.psd("c", n)
        o.ef = pf.EfficientFrontier(marg, S.frame(o.cov, tick, tick) if form == "frame" else o.cov, **kw)
    else:
        R = S.mat("r", T, n, lo=-.5, hi=.5)
        missing = {t for t, _ in gap}
        o.R = [[R[t][i] for i in range(n)] for t in range(T) if t not in missing]     # incomplete periods are left out
        o.T = len(o.R)
        if gap:
            R = S.arr([[float("nan") if (t, i) in gap else R[t][i] for i in range(n)] for t in range(T)])
        rarg = S.frame(R, tick) if form == "frame" else R
        if kind == "SV":
            o.f = S.real("f", pos=True, lo=1, hi=8) if freq == "sym" else 252
            o.b = S.real("bm", lo=-.2, hi=.2) if bench == "sym" else 0
            if freq == "sym":
                kw["frequency"] = o.f
            if bench == "sym":
                kw["benchmark"] = o.b
            o.ef = pf.EfficientSemivariance(marg, rarg, **kw)
        else:
            o.beta = .95
            if beta == "sym":
                o.beta = S.real("beta", lo=.25, hi=.95)
                S.bound(o.beta, .21, .99)
                kw["beta"] = o.beta
            elif beta is not None:
                o.beta = beta
                kw["beta"] = beta
            o.ef = (pf.EfficientCVaR if kind == "CVAR" else pf.EfficientCDaR)(marg, rarg, **kw)
    # user constraints
    o.extra = []
    a = S.vec("a", n, lo=-1, hi=1) if "le" in cons else None
    b = S.real("b", lo=-1, hi=1) if cons else None
    d = S.real("d", lo=-1, hi=1) if "ge" in cons else None
    for c in cons:
        if c == "le":
            o.ef.add_constraint(lambda w: w @ a <= b)
            o.extra.append(("user.le", lambda w: S.le(S.dot(a, w), b)))
        elif c == "ge":
            o.ef.add_constraint(lambda w: w[0] - w[1] >= d)
            o.extra.append(("user.ge", lambda w: S.le(d, w[0] - w[1])))
        elif c == "eq":
            o.ef.add_constraint(lambda w: w[0] == b)
            o.extra.append(("user.eq", lambda w: S.eq(w[0], b)))
        elif c == "cap":
            o.ef.add_constraint(lambda w: w <= b)
            for i in range(n):
                o.extra.append(("user.cap%d" % i, lambda w, i=i: S.le(w[i], b)))
    o.terms = []
    g = S.real("g", lo=0, hi=3) if "l2" in objs else None
    g2 = S.real("g2", lo=0, hi=3) if "tc" in objs else None
    wp = S.vec("wp", n, lo=0, hi=1) if "tc" in objs else None
    la = S.vec("la", n, lo=-1, hi=1) if "lin" in objs else None
    for x in objs:
        if x == "l2":
            S.assume(S.le(0, g))
            o.ef.add_objective(pf.objective_functions.L2_reg, gamma=g)
            o.terms.append(lambda w: g * S.dot(w, w))
        elif x == "tc":
            S.assume(S.le(0, g2))
            o.ef.add_objective(pf.objective_functions.transaction_cost, w_prev=wp, k=g2)
            o.terms.append(lambda w: g2 * S.sum([S.abs(x - y) for x, y in zip(w, S.flat(wp))]))
        elif x == "lin":
            o.ef.add_objective(lambda w: S.cp.sum(S.cp.multiply(la, w)))
            o.terms.append(lambda w: S.dot(la, w))
    return o


def ret(o, w):
    return o.S.dot(o.mu, w)


def shortfalls(o, w):
    """max(benchmark - portfolio return, 0) per period"""
    S = o.S
    return [S.smax(o.b - S.dot(r, w), 0) for r in o.R]


def losses(o, w):
    return [-o.S.dot(r, w) for r in o.R]


def drawdowns(o, w):
    """of the uncompounded cumulative return from its running maximum, starting from zero"""
    S = o.S
    out, d = [], 0
    for r in o.R:
        d = S.smax(d - S.dot(r, w), 0)
        out.append(d)
    return out


def tail(o, xs, a):
    """a + mean(max(x - a, 0)) / (1 - beta)"""
    S = o.S
    return a + S.sum([S.smax(x - a, 0) for x in xs]) / (len(xs) * (1 - S.frac(o.beta)))


def risk(o, w, a=None):
    S = o.S
    if o.kind == "EF":
        return S.quad(o.cov, w)
    if o.kind == "SV":
        return S.sum([x * x for x in shortfalls(o, w)]) / o.T          # per period
    if o.kind == "CVAR":
        return tail(o, losses(o, w), a)
    return tail(o, drawdowns(o, w), a)


METHODS = {"EF": ["min_volatility", "efficient_return", "efficient_risk", "max_quadratic_utility"],
           "SV": ["min_semivariance", "efficient_return", "efficient_risk", "max_quadratic_utility"],
           "CVAR": ["min_cvar", "efficient_return", "efficient_risk"],
           "CDAR": ["min_cdar", "efficient_return", "efficient_risk"]}


def target(S, o, method, name="t"):
    if method in ("min_volatility", "min_semivariance", "min_cvar", "min_cdar"):
        return None
    if method == "max_quadratic_utility":
        return S.real(name, pos=True, lo=.25, hi=4)
    if method == "efficient_risk":
        t = S.real(name, lo=0, hi=2)
    else:
        t = S.real(name, lo=0, hi=1) if o.kind != "EF" else S.real(name, lo=-1, hi=1)
    return t


def run(o, method, t, mn=None):
    a = () if t is None else (t,)
    k = {}
    if mn is not None:
        k["market_neutral"] = mn
    return o.S.call(getattr(o.ef, method), *a, **k)


def add(o, w):
    return o.S.sum([t(w) for t in o.terms])


def conditions(o, method, t, mn, w, a):
    S = o.S
    lo, hi = o.lo, o.hi
    if mn and getattr(o, "amended", False):
        lo, hi = [-1] * o.n, [1] * o.n
    out = bounds_spec(S, w, lo, hi) + [(nm, c(w)) for nm, c in o.extra]
    out.append(("sum", S.eq(S.sum(w), 0 if mn else 1)))
    if method == "efficient_return":
        out.append(("target", S.le(t, ret(o, w))))
    elif method == "efficient_risk":
        r = risk(o, w, a)
        if o.kind == "EF":
            out.append(("target", S.le(r, t * t)))
        elif o.kind == "SV":
            out.append(("target", S.le(o.f * r, t * t)))
        else:
            out.append(("target", S.le(r, t)))
    return out


def objective(o, method, t, w, a):
    if method == "efficient_risk":
        return -ret(o, w) + add(o, w)
    if method == "max_quadratic_utility":
        if o.kind == "SV":
            return -ret(o, w) / o.f + t * risk(o, w) / 2 + add(o, w)
        return -ret(o, w) + t * risk(o, w) / 2 + add(o, w)
    return risk(o, w, a) + add(o, w)


def lifts(o):
    S = o.S
    if o.kind == "EF":
        return None

    def f(cap, i, q, a):
        if o.kind == "SV":
            rt = S.sqrt(S.frac(o.T))
            p = [S.smax(S.dot(r, q) - o.b, 0) for r in o.R]
            m = shortfalls(o, q)
            vs = [[x / rt for x in p], [x / rt for x in m], p, m]
            return shape_lifts(cap, i, q, [], {o.T: vs})
        if o.kind == "CVAR":
            return shape_lifts(cap, i, q, [a], {o.T: [[S.smax(x - a, 0) for x in losses(o, q)]]})
        dd = drawdowns(o, q)
        return shape_lifts(cap, i, q, [a], {o.T + 1: [[0] + dd], o.T: [[S.smax(x - a, 0) for x in dd], dd]})
    return f


def hints(o, mn, lam):
    """facts that lead to the claims when the auxiliary variables have the usual meaning"""
    S = o.S
    if o.kind == "EF":
        return None

    def f(cap, w, cands):
        if o.kind == "SV":
            yield S.eq(o.b * S.sum(w), 0 if mn else o.b)
            if cap is None:
                return
            rt = S.sqrt(S.frac(o.T))
            for v in cap.vars:
                if v.shape == (o.T,):
                    x = S.flat(cap.sol[v.id])
                    for t, s in enumerate(shortfalls(o, w)):
                        yield S.le(s / rt, x[t])
                        for k in [1, o.f] + ([lam, o.f * lam] if lam is not None else []):
                            yield S.le(k * s * s / o.T, k * x[t] * x[t])
            return
        if cap is None:
            return
        k = 1 / (1 - S.frac(o.beta))
        xs = losses(o, w)
        if o.kind == "CDAR":
            xs = drawdowns(o, w)
            for v in cap.vars:
                if v.shape == (o.T + 1,):
                    u = S.flat(cap.sol[v.id])
                    for t in range(o.T):
                        yield S.le(xs[t], u[t + 1])
        for v in cap.vars:
            if v.shape == (o.T,):
                u = S.flat(cap.sol[v.id])
                for t in range(o.T):
                    for a in cands:
                        yield S.le(S.smax(xs[t] - a, 0), u[t])
                        yield S.le(k * S.smax(xs[t] - a, 0), k * u[t])
    return f


def check(o, out, method, t, mn=False, tag="", cap=None):
    """claims that the last problem posed is the documented one and the weights its solution"""
    S = o.S
    S.claim("returns" + tag, out.ok)
    if not out.ok:
        return
    cap = cap or S.last
    w = S.flat(out.value)
    S.observe("w" + tag, w)
    S.observe("obj" + tag, cap.obj(cap.sol))
    cands, aq, more = (None,), None, ()
    if o.kind in ("CVAR", "CDAR"):
        aq = S.real("aq" + tag, lo=-1, hi=1)
        cands = [S.flat(cap.sol[v.id])[0] for v in cap.vars if v.shape == ()]
        more = losses(o, w) if o.kind == "CVAR" else drawdowns(o, w)
        if S.mode == "con":
            cands += more
        if not cands:
            cands = [0]
    posed(S, cap, w, lambda x, a: conditions(o, method, t, mn, x, a), lambda x, a: objective(o, method, t, x, a), tag=tag,
          lifts=lifts(o), cands=cands, aq=aq, more=more, hints=hints(o, mn, t if method == 'max_quadratic_utility' else None))
