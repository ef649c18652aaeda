from symx.run import Sc
from . import est

BOUNDS = "every documented name (and the default), 2 assets (3 for constant correlation) with 3-5 symbolic prices or returns, every documented option with symbolic values where numeric; unknown names"
OUTSIDE = "the estimators themselves (C23, C25, C28); scikit-learn's estimators (any result); float rounding"

RISK = {
    "sample_cov": lambda S, D, **k: S.pf.risk_models.sample_cov(D, **k),
    "semicovariance": lambda S, D, **k: S.pf.risk_models.semicovariance(D, **k),
    "semivariance": lambda S, D, **k: S.pf.risk_models.semicovariance(D, **k),
    "exp_cov": lambda S, D, **k: S.pf.risk_models.exp_cov(D, **k),
    "ledoit_wolf": lambda S, D, **k: S.pf.risk_models.CovarianceShrinkage(D, **k).ledoit_wolf(),
    "ledoit_wolf_constant_variance": lambda S, D, **k: S.pf.risk_models.CovarianceShrinkage(D, **k).ledoit_wolf("constant_variance"),
    "ledoit_wolf_single_factor": lambda S, D, **k: S.pf.risk_models.CovarianceShrinkage(D, **k).ledoit_wolf("single_factor"),
    "ledoit_wolf_constant_correlation": lambda S, D, **k: S.pf.risk_models.CovarianceShrinkage(D, **k).ledoit_wolf("constant_correlation"),
    "oracle_approximating": lambda S, D, **k: S.pf.risk_models.CovarianceShrinkage(D, **k).oracle_approximating(),
}
RET = {m: (lambda m: lambda S, D, **k: getattr(S.pf.expected_returns, m)(D, **k))(m) for m in ("mean_historical_return", "ema_historical_return", "capm_return")}
DEFAULT = {"risk": "sample_cov", "ret": "mean_historical_return"}


def options(S, names, rows, what):
    kw = {}
    for o in names:
        if o == "returns_data":
            kw[o] = True
        elif o == "log_returns":
            kw[o] = True
        elif o == "frequency":
            kw[o] = S.real("f", pos=True, lo=1, hi=12)
        elif o == "frequency3":
            kw["frequency"] = 3
        elif o == "benchmark":
            kw[o] = S.real("b", lo=-.1, hi=.1)
        elif o == "span":
            kw[o] = S.real("span", pos=True, lo=12, hi=20)
            S.assume(S.lt(10, kw[o]))
        elif o == "risk_free_rate":
            kw[o] = S.real("rf", lo=0, hi=.1)
        elif o == "arithmetic":
            kw["compounding"] = False
        elif o == "market":
            M, _ = est.history(S, rows, 1, what, name="m")
            kw["market_prices"] = M
        elif o == "diag":
            kw["fix_method"] = "diag"
    return kw


def same(S, a, b):
    S.claim("same.kind", a.label == b.label)
    S.claim("ok", b.ok)
    if not a.ok or not b.ok:
        return
    x, y = a.value, b.value
    S.claim("labels", list(x.index) == list(y.index) and (x.ndim == 1 or list(x.columns) == list(y.columns)))
    S.claim("shape", x.shape == y.shape)
    if x.shape != y.shape:
        return
    S.observe("result", x.values.tolist())
    S.claim("equal", S.eqs(S.flat(x.values), S.flat(y.values)))


def dispatch(S, model="risk", name=None, opts=(), rows=3, n=2, what="prices", data=None, positional=False):
    if data is None:
        D, P = est.history(S, rows, n, what, name="p" if what == "prices" else "r")
    else:
        k = S.real("k", pos=True, lo=.01, hi=.3)
        if what == "prices":
            data = [[5 + x * 10 for x in r] for r in data]
        D = S.frame(S.arr([[x if x != x else k * x for x in r] for r in data]), est.T[:n])
    kw = options(S, opts, rows, what)
    for w in ("ledoit_wolf", "oas"):
        M, d = S.psd(w, n), S.real("d" + w, lo=0, hi=1)
        S.stub(w, (lambda M, d: lambda X, **kk: (M * S.dot(S.flat(X)[:n], S.flat(X)[:n]), d))(M, d))
    f = S.pf.risk_models.risk_matrix if model == "risk" else S.pf.expected_returns.return_model
    if name is None:
        a = S.call(f, D, **kw)
    elif positional:
        a = S.call(f, D, name, **kw)
    else:
        a = S.call(f, D, method=name, **kw)
    direct = (RISK if model == "risk" else RET)[name or DEFAULT[model]]
    b = S.call(lambda: direct(S, D, **kw))
    same(S, a, b)


def unknown(S):
    D, P = est.history(S, 3, 2, "prices")
    for f, nm in ((S.pf.risk_models.risk_matrix, "risk"), (S.pf.expected_returns.return_model, "return")):
        for name in ("nonsense", "", "Sample_cov", "sample", "mean", "ledoit", "shrunk_covariance"):
            S.claim("%s.%s" % (nm, name), S.call(f, D, method=name).raised("NotImplementedError"))


NAN = float("nan")
INDEF = [[0, NAN], [0, NAN], [0, NAN], [1, 1], [-1, -1]]      # pairwise covariances that are not semidefinite
THREE = [[.03, -.01, .02], [-.02, .01, .04], [.01, .05, -.03], [.04, -.02, .01]]
O = dict(cholesky="definite")
SCENARIOS = [Sc("unknown", unknown)]
for nm in [None] + sorted(RISK):
    t = nm or "default"
    extra = {"semicovariance": ("benchmark",), "semivariance": ("benchmark",), "exp_cov": ("span",)}.get(nm, ())
    k = dict(model="risk", name=nm, n=2, rows=3 if nm and "wolf" in nm and nm != "ledoit_wolf_single_factor" or nm == "oracle_approximating" else 4)   # three prices: the single-factor target equals the sample, and every span gives the same
    if nm == "ledoit_wolf_constant_correlation":
        k.update(n=3, data=THREE)
    fix = ("diag",) if nm in (None, "sample_cov", "exp_cov", "semicovariance", "semivariance") else ()
    logs = () if nm == "ledoit_wolf_constant_correlation" else ("log_returns",)      # logarithms of numbers stay symbolic: too large there
    SCENARIOS += [Sc("risk-%s" % t, dispatch, dict(opts=(), **k), **O), Sc("risk-%s-options" % t, dispatch, dict(opts=("frequency",) + logs + extra + fix, positional=bool(nm), **k), **O),
                  Sc("risk-%s-returns" % t, dispatch, dict(opts=("frequency", "returns_data") + extra, what="returns", **k), **O)]
SCENARIOS += [Sc("risk-repair-%s" % (o or "default"), dispatch, dict(model="risk", name=nm, n=2, data=INDEF, what="returns", opts=("returns_data",) + ((o,) if o else ())))
              for nm, o in ((None, None), ("sample_cov", "diag"))]
for nm in [None] + sorted(RET):
    t = nm or "default"
    extra = {"ema_historical_return": ("span",), "capm_return": ("risk_free_rate", "market")}.get(nm, ())
    k = dict(model="ret", name=nm, n=2)
    SCENARIOS += [Sc("return-%s" % t, dispatch, dict(opts=(), **k)), Sc("return-%s-options" % t, dispatch, dict(opts=("frequency", "arithmetic", "log_returns") + extra, positional=bool(nm), **k)),
                  Sc("return-%s-compounded" % t, dispatch, dict(opts=("frequency3",) + extra, **k)),
                  Sc("return-%s-returns" % t, dispatch, dict(opts=("frequency3", "returns_data") + extra, what="returns", **k))]
