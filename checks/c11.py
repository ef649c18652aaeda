from symx.run import Sc
from checks.opt import METHODS, build, run, target

BOUNDS = "1-4 assets, symbolic weights, cutoffs >= 0, roundings None and 1-6, every input container, label permutations; every optimiser; csv, json and text files; real arithmetic"
OUTSIDE = "labels that are not hashable; ties in rounding decided by the last float digit"

T4 = ["ZED", "AAA", "MMM", "BBB"]


def cleaned(S, w, out, cut, r):
    """conditions of each cleaned weight"""
    for i, (x, y) in enumerate(zip(w, out)):
        small = S.lt(S.abs(x), cut)
        S.claim("zeroed%d" % i, S.implies(small, S.eq(y, 0)))
        if r is None:
            S.claim("kept%d" % i, S.or_(small, S.eq(y, x)))
        else:
            k = 10 ** r
            S.claim("rounded.near%d" % i, S.or_(small, S.le(S.abs(y - x) * k, .5)))
            S.claim("rounded.decimals%d" % i, S.or_(small, S.eq(y * k, S.floor(y * k + .5))))


def base(S, n, tick, order=None, cutoff="sym", r=5, form="set"):
    """clean_weights after set_weights"""
    w = S.flat(S.vec("w", n, lo=-1, hi=1))
    if form == "base":
        b = S.pf.base_optimizer.BaseOptimizer(n, tick)
    else:
        cov = S.psd("c", n)
        b = S.pf.EfficientFrontier(None, S.frame(cov, tick, tick) if tick else cov)
    lab = tick or list(range(n))
    S.claim("labels", list(b.tickers) == lab)
    S.claim("not.yet", S.call(b.clean_weights).raised("AttributeError"))
    order = order or list(range(n))
    out = S.call(b.set_weights, {lab[i]: w[i] for i in order})
    S.claim("set.ok", out.ok)
    S.claim("stored.by.label", S.eqs(b.weights, w))
    kw = {}
    cut = 1e-4
    if cutoff == "sym":
        cut = S.real("cut", lo=0, hi=.5)
        kw["cutoff"] = cut
    if r != 5:
        kw["rounding"] = r
    out = S.call(b.clean_weights, **kw)
    S.claim("clean.ok", out.ok)
    if not out.ok:
        return
    S.claim("clean.labels", list(out.value.keys()) == lab)
    S.observe("clean", out.value)
    cleaned(S, w, S.flat(out.value), cut, r)
    S.claim("stored.unchanged", S.eqs(b.weights, w))
    out2 = S.call(b._make_output_weights)
    S.claim("raw", out2.ok and list(out2.value) == lab)
    S.claim("raw.values", S.eqs(out2.value, w))


def badround(S, r):
    w = S.flat(S.vec("w", 2, lo=-1, hi=1))
    b = S.pf.base_optimizer.BaseOptimizer(2, ["A", "B"])
    b.set_weights({"B": w[1], "A": w[0]})
    out = S.call(b.clean_weights, rounding=r)
    S.claim("rejected", out.raised("ValueError"))
    S.claim("stored.unchanged", S.eqs(b.weights, w))


def saved(S, name, n=3, unsolved=False):
    """the file holds every asset's cleaned weight, in order"""
    lab = T4[:n]
    w = S.flat(S.vec("w", n, lo=-1, hi=1))
    b = S.pf.base_optimizer.BaseOptimizer(n, lab)
    if unsolved:
        with S.scratch() as d:
            S.claim("unsolved", S.call(b.save_weights_to_file, *name).raised("AttributeError"))
            S.claim("nothing.written", not d.files())
        return
    b.set_weights(dict(zip(lab, w)))
    with S.scratch() as d:
        o = S.call(b.save_weights_to_file, *name)
        files = d.files()
    f = name[0] if name else "weights.csv"
    if f.split(".")[-1].lower() not in ("csv", "json", "txt"):
        S.claim("rejected", o.raised("NotImplementedError"))
        S.claim("nothing.written", not files)
        return
    S.claim("ok", o.ok)
    S.claim("one.file", list(files) == [f])
    S.claim("weights.unchanged", S.eqs(b.weights, w))
    if not o.ok or list(files) != [f]:
        return
    text = files[f]
    at = [text.find(k) for k in lab]
    S.claim("labels.in.order", -1 not in at and at == sorted(at) and all(text.count(k) == 1 for k in lab))
    xs = S.numbers(text, rounded=True)
    S.claim("one.weight.each", len(xs) == n)
    if len(xs) == n:
        cleaned(S, w, [x for x, tol in xs], 1e-4, 5)
        S.claim("as.cleaned", S.eqs([x for x, tol in xs], S.flat(b.clean_weights())))
    if f.endswith("csv"):
        S.claim("rows", [l.split(",")[0] for l in text.split()] == lab)
    if f.endswith("json"):
        import json
        S.claim("keys", list(json.loads(text)) == lab)


def optimised(S, kind, method, form="frame", mu="series", n=2):
    o = build(S, kind, n=n, form=form, mu=mu)
    t = target(S, o, method)
    if kind == "EF" and method == "efficient_return":
        S.solution_plan = lambda k, cap: [[1] + [0] * (n - 1)] if k == 0 else None
    if t is not None:
        if kind == "EF" and method == "efficient_risk":
            S.assume(S.le(1.5, t))
        if kind == "EF" and method == "efficient_return":
            S.assume(S.le(t, S.smin(*o.mu)))
        if kind == "SV" and method == "efficient_return":
            S.assume(S.and_(S.le(0, t), S.le(t, S.smin(*o.mu))))
    out = run(o, method, t)
    if not out.ok and kind == "EF" and method == "efficient_risk":
        S.dead()
    S.claim("ok", out.ok)
    if not out.ok:
        return
    lab = list(o.tick) if mu == "series" or (form == "frame" and kind == "EF") else list(range(n))
    S.claim("labels", list(out.value.keys()) == lab)
    S.claim("stored", S.eqs(o.ef.weights, S.flat(out.value)))
    c = S.call(o.ef.clean_weights)
    S.claim("clean.labels", c.ok and list(c.value.keys()) == lab)
    cleaned(S, S.flat(out.value), S.flat(c.value), 1e-4, 5)
    S.claim("stored.unchanged", S.eqs(o.ef.weights, S.flat(out.value)))


SCENARIOS = []
for r in (None, 1, 2, 3, 5, 6):
    SCENARIOS.append(Sc("clean-r%s" % r, base, dict(n=2, tick=T4[:2], r=r, order=[1, 0])))
SCENARIOS += [
    Sc("clean-default", base, dict(n=3, tick=T4[:3], cutoff="default", order=[2, 0, 1])),
    Sc("clean-one", base, dict(n=1, tick=["X"])),
    Sc("clean-ints", base, dict(n=3, tick=None, order=[1, 2, 0], form="base")),
    Sc("clean-four", base, dict(n=4, tick=T4, order=[3, 1, 0, 2], form="base")),
    Sc("clean-int-labels", base, dict(n=3, tick=[2, 0, 1], order=[0, 2, 1])),
    Sc("clean-5", base, dict(n=4, tick=T4, order=[2, 3, 1, 0], form="base", r=8, cutoff="sym"), tier="thorough"),
] + [Sc("bad-rounding-%s" % r, badround, dict(r=r)) for r in (0, -1, 2.5, "3")]
for kind in METHODS:
    for m in METHODS[kind]:
        SCENARIOS.append(Sc("%s-%s" % (kind, m), optimised, dict(kind=kind, method=m)))
    SCENARIOS.append(Sc("%s-arrays" % kind, optimised, dict(kind=kind, method=METHODS[kind][0], form="array", mu="array")))
    SCENARIOS.append(Sc("%s-array-series" % kind, optimised, dict(kind=kind, method=METHODS[kind][0], form="array", mu="series")))
    SCENARIOS.append(Sc("%s-list" % kind, optimised, dict(kind=kind, method=METHODS[kind][0], form="frame" if kind == "EF" else "array", mu="list")))
SCENARIOS.append(Sc("EF-none-frame", optimised, dict(kind="EF", method="min_volatility", form="frame", mu="none")))
SCENARIOS.append(Sc("EF-none-array", optimised, dict(kind="EF", method="min_volatility", form="array", mu="none")))
SCENARIOS += [Sc("saved-" + k, saved, dict(name=v)) for k, v in [("csv", ("w.csv",)), ("json", ("w.json",)), ("txt", ("w.txt",)), ("default", ()), ("dots", ("a.b.txt",)), ("upper", ("W.JSON",)), ("unknown", ("w.xls",)), ("none", ("weights",))]]
SCENARIOS += [Sc("saved-unsolved", saved, dict(name=("w.csv",), unsolved=True)), Sc("saved-one", saved, dict(name=("w.json",), n=1))]
