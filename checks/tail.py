"""Semivariance, CVaR and CDaR: optimisation scenarios shared by C14-C16"""
from checks.opt import build, check, drawdowns, losses, ret, risk, run, shortfalls, tail, target


def solve(S, kind, method, mn=None, **kw):
    if kw.get("T") == "sym":
        kw["T"] = [2, 3][S.choose(2, "periods")]
    o = build(S, kind, **kw)
    t = target(S, o, method)
    if t is not None:
        if method == "max_quadratic_utility":
            S.assume(S.lt(0, t))
        elif not (kind == "CVAR" and method == "efficient_return"):
            S.assume(S.le(0, t))
    out = run(o, method, t, mn)
    if not out.ok:
        S.claim("rejected.with.ValueError", out.raised("ValueError"))
        S.claim("rejected.only.if.unattainable", kind == "SV" and method == "efficient_return" and S.lt(S.smax(*[S.abs(m) for m in o.mu]), t))
        return
    check(o, out, method, t, bool(mn))


def true_risk(o, w):
    S = o.S
    xs = losses(o, w) if o.kind == "CVAR" else drawdowns(o, w)
    return S.smin(*[tail(o, xs, a) for a in xs])


def oracle(S, kind, T, beta="sym"):
    """the smallest candidate is the minimum over all a"""
    o = build(S, kind, n=1, T=T, beta=beta)
    w = [S.real("w", lo=-1, hi=1)]
    xs = losses(o, w) if o.kind == "CVAR" else drawdowns(o, w)
    a = S.real("a", lo=-1, hi=1)
    S.claim("minimum", S.le(true_risk(o, w), tail(o, xs, a)))
    S.claim("constructed", o.ef.weights is None)


def reported(S, kind, method, mn=None, verbose=False, slack=True, **kw):
    """portfolio_performance after an optimisation"""
    o = build(S, kind, **kw)
    t = target(S, o, method)
    if t is not None:
        S.assume(S.lt(0, t) if method == "max_quadratic_utility" else S.le(0, t))
    if method == "efficient_return":
        S.assume(S.le(t, S.smax(*o.mu)))
    n, T = o.n, o.T
    out = run(o, method, t, mn)
    if not out.ok:
        S.dead()
    cap = S.last
    w = S.flat(out.value)
    S.claim("weights.stored", S.eqs(o.ef.weights, w))
    r = S.real("rf", lo=-.2, hi=.2)
    p = S.call(o.ef.portfolio_performance, verbose=verbose, risk_free_rate=r) if kind == "SV" else S.call(o.ef.portfolio_performance, verbose)
    S.claim("performance.ok", p.ok)
    if not p.ok:
        return
    if o.mu is None:
        S.claim("return.absent", p.value[0] is None)
    else:
        S.claim("return", S.eq(p.value[0], ret(o, w)))
    if kind == "SV":
        semivariance(S, o, p.value, w, r)
        return
    v = p.value[1]
    S.observe("risk", v)
    hyp = cap.feasible(cap.sol)
    # the solver's optimality, used against the same weights with exact auxiliaries
    tr = true_risk(o, w)
    S.claim("risk.not.below", S.implies(hyp, S.le(tr, v)))
    if method == "efficient_risk":
        S.claim("risk.within.target", S.implies(hyp, S.le(v, t)))
        if slack:
            S.claim("risk.exact", S.eq(v, tr), S.implies(hyp, S.eq(v, tr)))
        return
    xs = losses(o, w) if kind == "CVAR" else drawdowns(o, w)
    opt = []
    for a in xs:
        vals = []
        for sh in cap.shapes():
            if sh == (n,) and not any(x is w for x in vals):
                vals.append(w)
            elif sh == ():
                vals.append(a)
            elif sh == (T + 1,):
                vals.append([0] + xs)
            else:
                vals.append([S.smax(x - a, 0) for x in xs])
        e = cap.env(vals)
        S.claim("exact.auxiliaries.feasible", S.implies(hyp, cap.feasible(e)), S.le(v, tr))
        opt.append(S.le(cap.obj(cap.sol), cap.obj(e)))
    S.claim("risk.exact", S.eq(v, tr), S.implies(S.and_(hyp, *opt), S.eq(v, tr)))


def semivariance(S, o, val, w, r):
    S.observe("perf", list(val))
    q = S.frac(o.f) * S.sum([x * x for x in shortfalls(o, w)]) / o.T
    S.claim("semideviation.nonneg", S.le(0, val[1]))
    S.claim("semideviation", S.eq(val[1] * val[1], q))
    if o.mu is None:
        S.claim("sortino.absent", val[2] is None)
    else:
        S.claim("sortino", S.implies(S.lt(0, q), S.eq(val[2] * val[1], ret(o, w) - r)))


def given(S, verbose=False, **kw):
    """semivariance of weights set by the user"""
    o = build(S, "SV", **kw)
    w = S.flat(S.vec("w", o.n, lo=-1, hi=1))
    q = S.sum([x * x for x in shortfalls(o, w)])
    S.assume(S.lt(0, q))
    lab = o.tick if isinstance(o.ef.tickers[0], str) else list(range(o.n))
    o.ef.set_weights({lab[i]: w[i] for i in reversed(range(o.n))})
    r = S.real("rf", lo=-.2, hi=.2)
    p = S.call(o.ef.portfolio_performance, verbose, risk_free_rate=r)
    S.claim("performance.ok", p.ok)
    if p.ok:
        if o.mu is None:
            S.claim("return.absent", p.value[0] is None)
        else:
            S.claim("return", S.eq(p.value[0], ret(o, w)))
        semivariance(S, o, p.value, w, r)


def badbeta(S, kind, b):
    R = S.mat("r", 2, 2, lo=-.5, hi=.5)
    f = S.pf.EfficientCVaR if kind == "CVAR" else S.pf.EfficientCDaR
    m = S.vec("mu", 2, lo=-1, hi=1)
    beta = S.real("beta", lo=-1, hi=2) if b == "sym" else b
    out = S.call(f, m, R, beta=beta)
    S.claim("accepted.iff.valid", S.and_(S.le(0, beta), S.lt(beta, 1)) if out.ok else S.not_(S.and_(S.le(0, beta), S.lt(beta, 1))))
    if not out.ok:
        S.claim("ValueError", out.raised("ValueError"))


def badtarget(S, kind, method, val):
    o = build(S, kind)
    out = run(o, method, val)
    S.claim("rejected", out.raised("ValueError"))
    S.claim("no.weights", o.ef.weights is None)
