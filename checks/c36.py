from symx.run import Sc
from . import est
from .opt import build, run, target
NAN = float("nan")
INF = float("inf")

BOUNDS = "1-3 assets, 2-6 periods: every pattern of missing cells in one asset of a return history of 4 periods (the others symbolic), gaps in price histories, every place of an infinite return; all bounds, confidence levels, spans, risk-free rates and matrices whose values decide a warning; frames against arrays and lists"
OUTSIDE = "warnings of third parties; the wording beyond one keyword; larger data"


def said(o, cat, word):
    """a warning of this category that mentions the word was given"""
    return any(any(c.__name__ == cat for c in w.category.__mro__) and word in str(w.message).lower() for w in o.warns)


def own(S, o, cat="UserWarning"):
    return [str(w.message) for w in o.warns if w.category.__name__ == cat]


def estimate(S, which, D, **kw):
    f = {"mean": "mean_historical_return", "ema": "ema_historical_return", "capm": "capm_return"}.get(which)
    return S.call(getattr(S.pf.expected_returns, f), D, **kw)


def missing(S, which="mean", rows=4, comp=False, market=False):
    """missing returns are mentioned iff one comes after the asset's first return"""
    gaps = [bool(S.choose(2, "gap")) for _ in range(rows)]
    if sum(not g for g in gaps) < 2:
        S.dead()
    R = [[NAN if gaps[t] else S.real("r%d" % t, lo=-.5, hi=.5), S.real("q%d" % t, lo=-.5, hi=.5)] for t in range(rows)]
    for r in R:
        for x in r:
            if not isinstance(x, float):
                S.assume(S.lt(-1, x))
    D = S.frame(S.arr(R), est.T[:2], list(range(rows)))
    kw = dict(returns_data=True, frequency=2, compounding=comp)
    if market:
        kw["market_prices"] = S.frame(S.arr([[S.real("m%d" % t, lo=-.5, hi=.5)] for t in range(rows)]), ["M"], list(range(rows)))
    o = estimate(S, which, D, **kw)
    if not o.ok:
        S.dead()
    k = gaps.index(False)
    S.claim("missing.mentioned", said(o, "UserWarning", "nan") == any(gaps[k:]))
    S.claim("infinite.not.mentioned", not said(o, "UserWarning", "infinite"))
    S.claim("frame.not.mentioned", not said(o, "RuntimeWarning", "dataframe"))


def gaps(S, which="mean", rows=5, miss=(), log=False):
    D, P = est.history(S, rows, 2, "prices", miss)
    R = est.returns(S, P, log)
    o = estimate(S, which, D, frequency=2, compounding=False, **(dict(log_returns=True) if log else {}))
    S.claim("ok", o.ok)
    late = any(x is None for c in R for x in c[[y is None for y in c].index(False):])
    S.claim("missing.mentioned", said(o, "UserWarning", "nan") == late)


def infinite(S, which="mean", rows=3, sign=1):
    """an infinite return is mentioned wherever it is"""
    i = S.choose(rows * 2 + 1, "place")
    R = [[sign * INF if 2 * t + a == i else S.real("r%d_%d" % (t, a), lo=-.5, hi=.5) for a in range(2)] for t in range(rows)]
    o = estimate(S, which, S.frame(S.arr(R), est.T[:2], list(range(rows))), returns_data=True, frequency=2, compounding=False)
    if not o.ok:
        S.dead()
    S.claim("infinite.mentioned", said(o, "UserWarning", "infinite") == (i < 2 * rows))


def wrapped(S, fn, kind):
    """data that are no frame are mentioned, and only they"""
    n = 2
    mod, name = fn
    f = getattr(getattr(S.pf, mod), name)
    if name in ("cov_to_corr", "corr_to_cov"):
        v = S.real("v", pos=True, lo=.2, hi=2)
        c = S.real("c", lo=-.1, hi=.1)
        D = [[v, c], [c, v]] if name == "cov_to_corr" else [[1, c], [c, 1]]
        D = S.frame(S.arr(D), est.T[:2], est.T[:2]) if kind == "frame" else S.arr(D)
        a = ([v, v],) if name == "corr_to_cov" else ()
        kw = {}
    else:
        D, P = est.history(S, 4, n, "prices", (), kind)
        a, kw = (), dict(frequency=2)
        if mod == "expected_returns":
            kw["compounding"] = False
        if name == "returns_from_prices":
            kw = {}
    o = S.call(f, D, *a, **kw)
    if name == "CovarianceShrinkage":
        S.claim("ok", o.ok)
    if not o.ok:
        S.dead()
    S.claim("mentioned", said(o, "RuntimeWarning", "dataframe") == (kind != "frame"))


def market_frame(S, kind):
    D, P = est.history(S, 4, 2, "prices", ())
    M, _ = est.history(S, 4, 1, "prices", (), "frame" if kind == "frame" else "array", name="m")
    if kind == "series":
        M = S.series([x[0] for x in M], list(range(4)))
    o = S.call(S.pf.expected_returns.capm_return, D, M, compounding=False, frequency=2)
    if not o.ok:
        S.dead()
    S.claim("mentioned", said(o, "RuntimeWarning", "dataframe") == (kind != "frame"))


def span(S, default=False):
    D, P = est.history(S, 4, 2, "returns", ())
    kw = {}
    s = 180
    if not default:
        s = kw["span"] = S.real("span", pos=True, lo=2, hi=20)
        S.assume(S.lt(1, s))
    o = S.call(S.pf.risk_models.exp_cov, D, returns_data=True, **kw)
    S.claim("ok", o.ok)
    w = any("span" in str(x.message) for x in o.warns)
    S.claim("span.mentioned", S.lt(s, 10) if w else S.le(10, s))


def repaired(S, what="matrix", method="spectral"):
    """a matrix that is not semidefinite is mentioned"""
    v, u, c = S.real("v", pos=True, lo=.2, hi=2), S.real("u", pos=True, lo=.2, hi=2), S.real("c", lo=-2, hi=2)
    S.bound(u, .2, 2)
    S.bound(v, .2, 2)
    S.bound(c, -2, 2)
    M = S.arr([[v, c], [c, u]])
    if what == "frame":
        M = S.frame(M, est.T[:2], est.T[:2])
    o = S.call(S.pf.risk_models.fix_nonpositive_semidefinite, M, method)
    if not o.ok:
        S.dead()
    w = any("semidefinite" in str(x.message).lower() for x in o.warns)
    S.claim("repair.mentioned", S.lt(v * u, c * c) if w else S.le(c * c, v * u), S.lt(S.abs(v * u - c * c), S.frac(1) / 1000000000000))


def level(S, kind):
    """confidence levels of at most 20 % are mentioned"""
    R = S.mat("r", 2, 2, lo=-.5, hi=.5)
    b = S.real("beta", lo=0, hi=1)
    S.bound(b, 0, 1)
    S.assume(S.lt(b, 1))
    o = S.call(S.pf.EfficientCVaR if kind == "CVAR" else S.pf.EfficientCDaR, S.vec("mu", 2), R, beta=b)
    S.claim("ok", o.ok)
    S.claim("level.mentioned", S.le(b, S.frac(1) / 5) if said(o, "UserWarning", "confidence") else S.lt(S.frac(1) / 5, b))


def removed(S, kind, form="frame"):
    """periods removed because a return is missing are mentioned"""
    i = S.choose(7, "place")
    R = [[NAN if 2 * t + a == i else S.real("r%d_%d" % (t, a), lo=-.5, hi=.5) for a in range(2)] for t in range(3)]
    R = S.arr(R)
    f = {"SV": S.pf.EfficientSemivariance, "CVAR": S.pf.EfficientCVaR, "CDAR": S.pf.EfficientCDaR}[kind]
    o = S.call(f, S.vec("mu", 2), S.frame(R, est.T[:2]) if form == "frame" else R)
    S.claim("ok", o.ok)
    S.claim("removal.mentioned", said(o, "UserWarning", "nan") == (i < 6))
    if o.ok:
        r = o.value.returns
        S.claim("kept", r.shape == (3 if i == 6 else 2, 2))


def sectors(S, bounds):
    """sector constraints next to a possible short position are mentioned"""
    o = build(S, "EF", n=3, bounds=bounds)
    neg = S.or_(*[True if x is None else S.lt(x, 0) for x in o.lo])
    r = S.call(o.ef.add_sector_constraints, {"AAA": "x", "BBB": "y", "CCC": "x"}, {"x": S.real("l", lo=0, hi=.2)}, {"y": S.real("h", lo=.5, hi=1)})
    S.claim("ok", r.ok)
    w = any("short" in str(x.message).lower() for x in r.warns)
    S.claim("shorts.mentioned", neg if w else S.and_(*[False if x is None else S.le(0, x) for x in o.lo]))


def sharpe(S, terms):
    o = build(S, "EF", n=2, objs=["l2"] if terms else [], cons=["le"])
    rf = S.real("rf", lo=-.1, hi=.1)
    S.assume(S.lt(rf, S.smax(*o.mu)))
    r = S.call(o.ef.max_sharpe, rf)
    S.claim("terms.mentioned", any("objectives" in str(x.message) for x in r.warns) == bool(terms))


def prior(S, pi):
    C = S.psd("c", 2)
    kw = {} if pi is None else dict(pi="equal") if pi == "equal" else dict(pi=S.vec("pi", 2))
    o = S.call(S.pf.BlackLittermanModel, S.frame(C, est.T[:2], est.T[:2]), absolute_views={est.T[0]: S.real("q", lo=-1, hi=1)}, **kw)
    S.claim("ok", o.ok)
    S.claim("no.prior.mentioned", any("no prior" in str(x.message) for x in o.warns) == (pi is None))


def caps(S, form):
    C = S.psd("c", 2)
    m = S.vec("cap", 2, lo=1, hi=9)
    for x in m:
        S.assume(S.lt(0, x))
    o = S.call(S.pf.black_litterman.market_implied_prior_returns, S.series(m, est.T[:2]) if form == "frame" else list(m), S.real("d", pos=True, lo=1, hi=4), S.frame(C, est.T[:2], est.T[:2]) if form == "frame" else C)
    S.claim("ok", o.ok)
    S.claim("alignment.mentioned", said(o, "RuntimeWarning", "aligned") == (form != "frame"))


E_, R_ = "expected_returns", "risk_models"
D = dict(cholesky="definite")
SCENARIOS = [Sc("missing-%s%s" % (w, "-comp" if c else ""), missing, dict(which=w, comp=c)) for w in ("mean", "ema") for c in (False, True)]
SCENARIOS += [Sc("missing-capm", missing, dict(which="capm")), Sc("missing-capm-market", missing, dict(which="capm", market=True))]
SCENARIOS += [Sc("gaps-%s-%d%s" % (w, k, "-log" if l else ""), gaps, dict(which=w, miss=m, log=l)) for w in ("mean", "ema", "capm") for k, m in enumerate(((0, 0), (1, 0), (0, 2), ((2,), 0), (0, (4,)), (1, (3,)))) for l in (False, True)]
SCENARIOS += [Sc("infinite-%s" % w, infinite, dict(which=w)) for w in ("mean",)] + [Sc("infinite-negative", infinite, dict(sign=-1))]
SCENARIOS += [Sc("data-%s-%s" % (f, k), wrapped, dict(fn=(m, f), kind=k), **D) for m, f in ((E_, "mean_historical_return"), (E_, "ema_historical_return"), (E_, "capm_return"), (R_, "sample_cov"), (R_, "semicovariance"), (R_, "exp_cov"), (R_, "CovarianceShrinkage"), (R_, "cov_to_corr"), (R_, "corr_to_cov"))
              for k in ("frame", "array", "list") if k != "list" or f not in ("cov_to_corr", "corr_to_cov")]
SCENARIOS += [Sc("market-" + k, market_frame, dict(kind=k)) for k in ("frame", "array")]
SCENARIOS += [Sc("span", span, **D), Sc("span-default", span, dict(default=True), **D)]
SCENARIOS += [Sc("repair-%s-%s" % (w, m), repaired, dict(what=w, method=m)) for w in ("matrix", "frame") for m in ("spectral", "diag")]
SCENARIOS += [Sc("level-" + k, level, dict(kind=k)) for k in ("CVAR", "CDAR")]
SCENARIOS += [Sc("removed-%s-%s" % (k, f), removed, dict(kind=k, form=f)) for k in ("SV", "CVAR", "CDAR") for f in ("frame", "array")]
SCENARIOS += [Sc("sectors-" + b, sectors, dict(bounds=b)) for b in ("default", "short", "list", "long", "half")]
SCENARIOS += [Sc("sharpe-terms", sharpe, dict(terms=True)), Sc("sharpe-plain", sharpe, dict(terms=False))]
SCENARIOS += [Sc("prior-%s" % p, prior, dict(pi=p)) for p in (None, "equal", "given")]
SCENARIOS += [Sc("caps-" + f, caps, dict(form=f)) for f in ("frame", "array")]
