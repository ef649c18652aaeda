from symx.run import Sc
from checks.opt import build, check, conditions, lifts, ret, T3
from symx.optspec import posed

BOUNDS = "sweeps of 1-3 symbolic utility, risk and return parameters and automatic sweeps of 2-4 points, 2 assets with symbolic means, covariance, bounds and constraints, every pattern of solver failures and rejected parameters; CLA frontiers of up to 9 points over a symbolic family; weights and matrices of 2-3 assets; matplotlib and plotly; frames and arrays; real arithmetic"
OUTSIDE = "what matplotlib and plotly paint; the numerical solver (assumed to return a feasible minimiser); optimisers other than EfficientFrontier and CLA (a frontier of their risk measure is not offered); float rounding"
BAD = ["infeasible", "user_limit"]


class R:
    ok = True

    def __init__(self, v):
        self.value = v


def drawn(S, interactive, ax="plt.gca()"):
    """(risks, returns) of the line drawn, and of the assets"""
    log = S.PLT._log
    if interactive:
        tr = [k for n, a, k in log if n.endswith("Scatter")]
        line = [(k["x"], k["y"]) for k in tr if k["mode"] == "lines"]
        dots = [(k["x"], k["y"]) for k in tr if k["mode"] != "lines"]
        S.claim("all.added", len([n for n, a, k in log if n.endswith(".add_trace")]) == len(tr))
    else:
        line = [a[:2] for n, a, k in log if n == ax + ".plot"]
        dots = [a[:2] for n, a, k in log if n == ax + ".scatter"]
    return line, dots


def labels(S):
    return [(a[0], a[1]) for n, a, k in S.PLT._log if n.endswith(".annotate")]


def assets(S, o, dots, show, tickers, interactive, ticks):
    S.claim("assets.drawn", len(dots) == (1 if show else 0))
    if not show or len(dots) != 1:
        return
    x, y = S.flat(dots[0][0]), S.flat(dots[0][1])
    S.claim("assets.count", len(x) == o.n and len(y) == o.n)
    C = S.flat(S.arr(o.cov))
    for i in range(o.n):
        S.claim("asset.risk%d" % i, S.and_(S.le(0, x[i]), S.eq(x[i] * x[i], C[i * o.n + i])))
        S.claim("asset.return%d" % i, S.eq(y[i], o.mu[i]))
    L = labels(S)
    if show and tickers and not interactive:
        S.claim("names", [l for l, _ in L] == list(ticks))
        for i, (_, p) in enumerate(L):
            S.claim("name.at%d" % i, S.and_(S.eq(p[0], x[i]), S.eq(p[1], y[i])))
    else:
        S.claim("no.names", not L)


METHOD = dict(utility="max_quadratic_utility", risk="efficient_risk")
METHOD["return"] = "efficient_return"


def parameter(S, o, kind, name):
    if kind == "utility":
        t = S.real(name, pos=True, lo=.25, hi=4)
        S.assume(S.lt(0, t))
    elif kind == "risk":
        t = S.real(name, lo=0, hi=1)
        S.assume(S.le(0, t))
    else:
        t = S.real(name, lo=-1, hi=1)
    return t


def sweep(S, kind, k=2, interactive=False, fail=True, show=True, tickers=False, ax=None, own=False, **kw):
    S.record_plots()
    o = build(S, "EF", **kw)
    c = S.flat(S.arr(o.cov))
    S.assume(S.lt(c[1] * c[2], c[0] * c[3]))
    P = [parameter(S, o, kind, "t%d" % i) for i in range(k)]
    st = []
    first = 1 if kind == "return" else 0

    def status(i):
        if i < first or not fail:
            return "optimal"
        s = S.choose(1 + len(BAD), "s%d" % i)
        st.append((i, s == 0))
        return (["optimal"] + BAD)[s]
    S.status_plan = status
    a = {}
    if ax:
        a["ax"] = S.recorder("mine")
    out = S.call(S.pf.plotting.plot_efficient_frontier, o.ef, ef_param=kind, ef_param_range=S.arr(P) if own else P, interactive=interactive, show_assets=show, show_tickers=tickers, **a)
    S.claim("draws", out.ok)
    if not out.ok:
        return
    name = "mine" if ax else "plt.gca()"
    S.claim("returns.axes", getattr(out.value, "_name", "").startswith("plt.plotly" if interactive else name))
    line, dots = drawn(S, interactive, name)
    S.claim("one.line", len(line) == 1)
    if len(line) != 1:
        return
    xs, ys = list(line[0][0]), list(line[0][1])
    # which parameters are acceptable at all
    caps, want = list(S.problems[first:]), []
    S.claim("sweep.posed", kind != "return" or len(S.problems) >= 1)
    for t in P:
        if kind == "risk" and not S.holds(S.le(c[0] * c[3] - c[1] * c[2], t * t * (c[0] + c[3] - c[1] - c[2]))):
            continue
        if kind == "return" and S.holds(S.lt(S.dot(o.mu, S.flat(S.problems[0].sol[S.problems[0].vars[0].id])), t)):
            continue
        S.claim("posed.for.each", bool(caps))
        if not caps:
            return
        cap = caps.pop(0)
        if cap.status == "optimal":
            want.append((t, cap))
    S.claim("nothing.else.posed", not caps)
    S.claim("a.point.per.solution", len(xs) == len(want) and len(ys) == len(want))
    if len(xs) != len(want) or len(ys) != len(want):
        return
    for i, (t, cap) in enumerate(want):
        w = S.flat(cap.sol[[v for v in cap.vars if v.size == o.n][0].id])
        S.claim("return%d" % i, S.eq(ys[i], S.dot(o.mu, w)))
        S.claim("risk%d" % i, S.and_(S.le(0, xs[i]), S.eq(xs[i] * xs[i], S.quad(S.arr(o.cov), w))))
        check(o, R(w), METHOD[kind], t, cap=cap, tag=".%d" % i)
    assets(S, o, dots, show, tickers, interactive, o.tick if kw.get("form", "frame") == "frame" or kw.get("mu", "series") == "series" else range(o.n))


def automatic(S, points=3, interactive=False, kind=None, **kw):
    """no sweep given: from the minimum-risk to the maximum-return portfolio"""
    S.record_plots()
    o = build(S, "EF", **kw)
    a = {} if kind is None else dict(ef_param=kind)
    before = S.problems
    out = S.call(S.pf.plotting.plot_efficient_frontier, o.ef, points=points, interactive=interactive, show_assets=False, **a)
    S.claim("draws", out.ok)
    if not out.ok:
        return
    line, dots = drawn(S, interactive)
    S.claim("one.line", len(line) == 1)
    xs, ys = list(line[0][0]), list(line[0][1])
    caps = list(S.problems)
    S.claim("posed", len(caps) >= 2)
    if len(caps) < 2:
        return
    w0 = S.flat(caps[0].sol[[v for v in caps[0].vars if v.size == o.n][0].id])
    w1 = S.flat(caps[1].sol[[v for v in caps[1].vars if v.size == o.n][0].id])
    check(o, R(w0), "min_volatility", None, cap=caps[0], tag=".min")
    posed(S, caps[1], w1, lambda x, a: conditions(o, "max_return", None, False, x, a), lambda x, a: -ret(o, x), tag=".max", lifts=lifts(o), cands=(None,), aq=None, hints=None)
    lo, hi = S.dot(o.mu, w0), S.dot(o.mu, w1)
    t = [lo + (hi - 1 / S.frac(10000) - lo) * S.frac(i) / (points - 1) for i in range(points)]
    reach = caps[2] if len(caps) > 2 else None
    if reach is None:
        return S.claim("reach", False)
    top = S.dot(o.mu, S.flat(reach.sol[[v for v in reach.vars if v.size == o.n][0].id]))
    rest = caps[3:]
    want = []
    for i, x in enumerate(t):
        if S.holds(S.lt(top, x)):
            continue
        if not rest:
            return S.claim("each.posed", False)
        want.append((x, rest.pop(0)))
    S.claim("points", len(xs) == len(want) and len(ys) == len(want) and not rest)
    for i, (x, cap) in enumerate(want):
        if i >= len(xs):
            break
        w = S.flat(cap.sol[[v for v in cap.vars if v.size == o.n][0].id])
        S.claim("return%d" % i, S.eq(ys[i], S.dot(o.mu, w)))
        S.claim("risk%d" % i, S.and_(S.le(0, xs[i]), S.eq(xs[i] * xs[i], S.quad(S.arr(o.cov), w))))
        check(o, R(w), "efficient_return", x, cap=cap, tag=".%d" % i)


def untouched(S, **kw):
    """finding the sweep leaves the caller's optimiser ready for any objective; plotting twice draws the same kind of points"""
    S.record_plots()
    o = build(S, "EF", **kw)
    out = S.call(S.pf.plotting._ef_default_returns_range, o.ef, 3)
    S.claim("ok", out.ok)
    S.claim("no.weights", o.ef.weights is None)
    k = len(S.problems)
    out = S.call(o.ef.max_quadratic_utility, 2.0)
    S.claim("solved", out.ok and len(S.problems) == k + 1)
    if out.ok:
        check(o, out, "max_quadratic_utility", 2)


def again(S, kind="utility"):
    S.record_plots()
    o = build(S, "EF")
    t = parameter(S, o, kind, "t")
    u = parameter(S, o, kind, "u")
    for i, p in enumerate((t, u)):
        S.PLT._log.clear()
        out = S.call(S.pf.plotting.plot_efficient_frontier, o.ef, ef_param=kind, ef_param_range=[p])
        S.claim("draws%d" % i, out.ok)
        line, _ = drawn(S, False)
        if not len(line[0][0]):
            S.dead()            # rejected parameter
        w = S.flat(S.last.sol[[v for v in S.last.vars if v.size == o.n][0].id])
        S.claim("point%d" % i, len(line) == 1 and len(line[0][0]) == 1 and S.and_(S.eq(line[0][1][0], S.dot(o.mu, w)), S.eq(line[0][0][0] * line[0][0][0], S.quad(S.arr(o.cov), w))))
        check(o, R(w), METHOD[kind], p, cap=S.last, tag=".again%d" % i)


def cla(S, points=5, interactive=False, show=True, tickers=False, before=None, other=False, arrays=False):
    S.record_plots()
    k = S.real("k", pos=True, lo=.5, hi=2)
    S.bound(k, .5, 2)
    m = [.1, .2, .15]
    C = [[.04 * k, .01 * k, 0], [.01 * k, .09 * k, .02 * k], [0, .02 * k, .05 * k]]
    o = S.call(S.pf.CLA, S.arr(m) if arrays else S.series(m, T3[:3]), S.arr(C) if arrays else S.frame(S.arr(C), T3[:3], T3[:3]))
    S.claim("constructed", o.ok)
    if not o.ok:
        return
    o = o.value
    if before:
        S.call(getattr(o, before))
    if other:
        S.call(o.efficient_frontier, points=4)
    out = S.call(S.pf.plotting.plot_efficient_frontier, o, points=points, interactive=interactive, show_assets=show, show_tickers=tickers)
    S.claim("draws", out.ok)
    if not out.ok:
        return
    line, dots = drawn(S, interactive)
    S.claim("line", len(line) == 1)
    xs, ys = list(line[0][0]), list(line[0][1])
    W = o.frontier_values[2]
    S.claim("count", len(xs) == len(ys) == len(W) and len(xs) >= 3)
    for i, w in enumerate(W):
        w = S.flat(w)
        S.claim("budget%d" % i, S.eq(S.sum(w), 1))
        S.claim("long%d" % i, S.and_(*[S.le(0, x) for x in w]))
        S.claim("return%d" % i, S.eq(ys[i], S.dot(m, w)))
        v = S.sum([C[a][b] * w[a] * w[b] for a in range(3) for b in range(3)])
        S.claim("risk%d" % i, S.and_(S.le(0, xs[i]), S.eq(xs[i] * xs[i], v)))
    # ends: the maximum-return and the minimum-variance portfolio
    S.claim("top", S.eq(ys[0], .2))
    w = S.flat(W[-1])
    g = [S.sum([C[a][b] * w[b] for b in range(3)]) for a in range(3)]
    lead = S.sum([x * y for x, y in zip(w, g)])
    S.claim("bottom", S.and_(*[S.le(lead, x) for x in g]))
    S.claim("marker", len(dots) == 1 + bool(show))
    x, y = [S.flat(z)[0] for z in dots[0]]
    w = [o.weights[i] for i in range(3)] if not hasattr(o.weights, "values") or hasattr(o.weights, "shape") else list(o.weights.values())
    w = S.flat(S.arr(w))
    S.claim("marker.at", S.and_(S.eq(y, S.dot(m, w)), S.le(0, x), S.eq(x * x, S.sum([C[a][b] * w[a] * w[b] for a in range(3) for b in range(3)]))))
    o2 = type("o", (), dict(n=3, mu=m, cov=C))
    assets(S, o2, dots[1:], show, tickers, interactive, range(3) if arrays else T3[:3])


def weights(S, n=3, ax=False):
    S.record_plots()
    w = S.vec("w", n, lo=-1, hi=1)
    d = dict(zip(T3, w))
    out = S.call(S.pf.plotting.plot_weights, d, **(dict(ax=S.recorder("mine")) if ax else {}))
    S.claim("draws", out.ok)
    nm = "mine" if ax else "plt.gca()"
    bars = [a for x, a, k in S.PLT._log if x == nm + ".barh"]
    lab = [a[0] for x, a, k in S.PLT._log if x == nm + ".set_yticklabels"]
    tick = [a[0] for x, a, k in S.PLT._log if x == nm + ".set_yticks"]
    S.claim("bars", len(bars) == 1 and len(lab) == 1 and len(tick) == 1)
    if len(bars) != 1 or len(lab) != 1:
        return
    pos, v, lab = list(bars[0][0]), list(bars[0][1]), list(lab[0])
    S.claim("positions", pos == list(tick[0]) and len(set(pos)) == n)
    S.claim("every.asset", sorted(lab) == sorted(T3[:n]) and len(v) == n)
    for l, x in zip(lab, v):
        S.claim("bar.%s" % l, S.eq(x, d[l]))
    S.claim("sorted", S.and_(*[S.le(b, a) for a, b in zip(v, v[1:])]))


def covariance(S, n=2, corr=False, show=True, form="frame"):
    S.record_plots()
    C = S.psd("c", n)
    for i in range(n):
        S.assume(S.lt(0, C[i, i]))
    M = S.frame(C, T3[:n], T3[:n]) if form == "frame" else C
    out = S.call(S.pf.plotting.plot_covariance, M, plot_correlation=corr, show_tickers=show)
    S.claim("draws", out.ok)
    if not out.ok:
        return
    im = [a[0] for x, a, k in S.PLT._log if x.endswith(".imshow")]
    S.claim("image", len(im) == 1)
    v, c = S.flat(im[0]), S.flat(C)
    for i in range(n):
        for j in range(n):
            x = v[n * i + j]
            S.claim("cell%d%d" % (i, j), S.eq(x, c[n * i + j]) if not corr else
                    S.and_(S.eq(x * x * c[n * i + i] * c[n * j + j], c[n * i + j] * c[n * i + j]), S.le(0, x * c[n * i + j])))
    for w in ("x", "y"):
        t = [list(a[0]) for x, a, k in S.PLT._log if x.endswith(".set_%sticklabels" % w)]
        S.claim("labels." + w, t == ([T3[:n]] if show else []))


def dendrogram(S, done=True, show=True):
    S.record_plots()
    import numpy
    Z = numpy.array([[0.0, 1.0, .5, 2.0], [2.0, 3.0, .7, 3.0]])
    S.stub("linkage", lambda d, m: Z)
    seen = []
    S.stub("dendrogram", lambda Z, **k: seen.append((Z, k)) or dict(leaves=[0, 1, 2]))
    v = S.vec("v", 3, pos=True, lo=.1, hi=1)
    o = S.call(S.pf.HRPOpt, cov_matrix=S.frame(S.arr([[v[i] if i == j else .01 for j in range(3)] for i in range(3)]), T3[:3], T3[:3])).value
    if done:
        S.call(o.optimize)
    k = len(seen)
    out = S.call(S.pf.plotting.plot_dendrogram, o, show_tickers=show)
    S.claim("draws", out.ok)
    S.claim("warned", out.warned("RuntimeWarning") == (not done))
    S.claim("optimised", o.clusters is not None)
    mine = [x for x in seen[k:] if "ax" in x[1]]
    S.claim("one", len(mine) == 1)
    if len(mine) == 1:
        S.claim("tree", mine[0][0] is Z or (mine[0][0] == Z).all())
        S.claim("leaves", list(mine[0][1].get("labels", [])) == (T3[:3] if show else []))


def saved(S, what):
    """a file is written, and the figure shown, exactly when asked for, after everything is drawn"""
    S.record_plots()
    P = S.pf.plotting
    name = ["", "some.png"][S.choose(2, "file")]
    dpi = [None, 75][S.choose(2, "dpi")]
    show = bool(S.choose(2, "show"))
    kw = dict(showfig=show)
    if name:
        kw["filename"] = name
    if dpi:
        kw["dpi"] = dpi
    if what == "weights":
        out = S.call(P.plot_weights, dict(zip(T3, S.vec("w", 2, lo=0, hi=1))), **kw)
        art = ".barh"
    elif what == "covariance":
        C = S.psd("c", 2)
        out = S.call(P.plot_covariance, S.frame(C, T3[:2], T3[:2]), **kw)
        art = ".imshow"
    elif what == "dendrogram":
        import numpy
        Z = numpy.array([[0.0, 1.0, .5, 2.0], [2.0, 3.0, .7, 3.0]])
        S.stub("linkage", lambda d, m: Z)
        S.stub("dendrogram", lambda Z, **k: dict(leaves=[0, 1, 2]))
        v = S.vec("v", 3, pos=True, lo=.1, hi=1)
        o = S.call(S.pf.HRPOpt, cov_matrix=S.frame(S.arr([[v[i] if i == j else .01 for j in range(3)] for i in range(3)]), T3[:3], T3[:3])).value
        S.call(o.optimize)
        out = S.call(P.plot_dendrogram, o, **kw)
        art = None
    else:
        o = S.pf.EfficientFrontier(S.vec("mu", 2, lo=.01, hi=.3), S.psd("c", 2))
        out = S.call(P.plot_efficient_frontier, o, ef_param="utility", ef_param_range=S.arr([1, 2]), **kw)
        art = ".plot"
    S.claim("draws", out.ok)
    log = [(n.split(".")[-1], a, k) for n, a, k in S.PLT._log]
    at = [i for i, (n, a, k) in enumerate(log) if n == "savefig"]
    S.claim("saved.iff.asked", len(at) == (1 if name else 0))
    if name and len(at) == 1:
        _, a, k = log[at[0]]
        S.claim("file", (list(a) + [k.get("fname")])[0] == name)
        S.claim("resolution", not dpi or k.get("dpi") == dpi)
        S.claim("after.drawing", not art or max(i for i, x in enumerate(log) if "." + x[0] == art) < at[0])
    S.claim("shown.iff.asked", any(n == "show" for n, a, k in log) == show)


SCENARIOS = []
for kind in METHOD:
    SCENARIOS += [
        Sc("%s-two" % kind, sweep, dict(kind=kind)),
        Sc("%s-plotly" % kind, sweep, dict(kind=kind, k=1, interactive=True, tickers=True)),
        Sc("%s-arrays" % kind, sweep, dict(kind=kind, k=1, form="array", mu="array", own=True, tickers=True, ax=True)),
        Sc("%s-three" % kind, sweep, dict(kind=kind, k=3, show=False), tier="thorough"),
        Sc("%s-constrained" % kind, sweep, dict(kind=kind, k=2, fail=False, bounds="list", cons=["le"], objs=["l2"], tickers=True), tier="quick"),
    ]
SCENARIOS += [Sc("auto", automatic, {}), Sc("auto-four-plotly", automatic, dict(points=4, interactive=True)), Sc("auto-constrained", automatic, dict(points=2, bounds="list", cons=["le"], kind="return")),
              Sc("untouched", untouched), Sc("untouched-constrained", untouched, dict(bounds="list", cons=["le"], objs=["l2"])), Sc("again-utility", again), Sc("again-return", again, dict(kind="return"))]
SCENARIOS += [Sc("cla", cla), Sc("cla-plotly", cla, dict(interactive=True, points=9)), Sc("cla-names", cla, dict(tickers=True, arrays=True)), Sc("cla-minvol-bare", cla, dict(before="min_volatility", show=False)), Sc("cla-known", cla, dict(before="max_sharpe", other=True))]
SCENARIOS += [Sc("weights", weights), Sc("weights-axes", weights, dict(n=2, ax=True))]
SCENARIOS += [Sc("cov-%s-%s%s" % (f, c, s), covariance, dict(corr=c == "corr", show=s == "" and f == "frame", form=f)) for f in ("frame", "array") for c in ("cov", "corr") for s in ("", "-plain")]
SCENARIOS += [Sc("dendrogram-%s" % ("done" if d else "new") + ("" if s else "-plain"), dendrogram, dict(done=d, show=s)) for d in (True, False) for s in (True, False)]
SCENARIOS += [Sc("saved-" + w, saved, dict(what=w)) for w in ("weights", "covariance", "dendrogram", "frontier")]
