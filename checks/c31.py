from symx.run import Sc
from . import alloc
from .c30 import programme, VECS

BOUNDS = "2-4 assets with 1-2 in each book, all weights of either sign (zero weights included), short ratios (default, zero, symbolic), both reinvestment choices, budgets and prices with at most 4-6 shares per asset, both allocators, label orders of prices and weights; all-short portfolios; every invalid kind of argument"
OUTSIDE = "more than 2 assets per book; the mixed-integer solver's optimum; float rounding"
T = ["aa", "bb", "cc", "dd"]


def book(S, signs, prices, value, ratio, reinvest, order, cap, zero=(), normal=False):
    """weights of the given signs; the long and short books (positions, targets, size) expected of them"""
    n = len(signs)
    a = [0 if i in zero else S.real("w%d" % i, pos=True, lo=.05, hi=2) for i in range(n)]
    for x in a:
        if not isinstance(x, int):
            S.bound(x, .05, 2)
    if normal:                     # weights sum to one
        i = [i for i in range(n) if signs[i] > 0 and i not in zero][-1]
        a[i] = 1 - S.sum([signs[j] * a[j] for j in range(n) if j != i])
        S.bound(a[i], .05, 2)
    w = [s * x for s, x in zip(signs, a)]
    p = [S.real("p%d" % i, pos=True, lo=1, hi=9) for i in range(n)] if prices == "sym" else list(prices)
    if prices == "sym":
        for x in p:
            S.bound(x, value / 4, value)
    names = T[:n]
    idx = [names[i] for i in order or range(n)]
    P = S.series([p[names.index(k)] for k in idx], idx)
    L, H = [i for i in range(n) if signs[i] > 0], [i for i in range(n) if signs[i] < 0]
    short = S.sum([a[i] for i in H])
    r = short
    if ratio == "sym":
        r = S.real("ratio", pos=True, lo=.1, hi=1)
        S.bound(r, .1, 1)
    elif ratio is not None:
        r = ratio
    V = value
    sv = r * V
    lv = V + sv if reinvest else V
    out = []
    for B, size in ((L, lv), (H, sv)):
        tot = S.sum([a[i] for i in B])
        t = [a[i] / tot * size if not isinstance(a[i], int) else 0 for i in B]
        for x, i in zip(t, B):
            if not isinstance(x, int):
                S.assume(S.le(x, cap * p[i]))
        out.append((B, t, size, [p[i] for i in B]))
    return dict(zip(names, w)), P, names, out, (None if ratio is None else r)


def mixed(S, method="greedy", signs=(1, 1, -1), prices=(2.5, 4, 3), value=10, ratio=None, reinvest=False, order=None, worder=None, cap=5, zero=(), verbose=False, normal=False):
    W, P, names, books, r = book(S, signs, prices, value, ratio, reinvest, order, cap, zero, normal)
    if worder:
        W = {names[i]: W[names[i]] for i in worder}
    kw = dict(total_portfolio_value=value)
    if ratio is not None:
        kw["short_ratio"] = r
    d = S.call(S.pf.DiscreteAllocation, W, P, **kw)
    S.claim("constructed", d.ok)
    if not d.ok:
        return
    d = d.value
    if method == "lp":
        vecs = {1: [(3,), (0,), (2,)], 2: VECS[2]}
        pick = S.choose(3, "solution")
        S.solution_plan = lambda i, cap: [list(vecs[v.size][pick]) if v.attributes.get("integer") else [S.real("u%d_%d" % (i, j)) for j in range(v.size)] for v in cap.vars]
    kw = dict(reinvest=True) if reinvest else {}
    if verbose:
        kw["verbose"] = True
    if method == "lp":
        kw["solver"] = "SCIPY"
    o = S.call(d.greedy_portfolio if method == "greedy" else d.lp_portfolio, **kw)
    S.claim("ok", o.ok)
    if not o.ok:
        return
    al, left = o.value
    S.observe("left", left)
    N = alloc.counts(S, al, names)
    S.claim("kept", d.allocation == al)
    total = 0
    used = []
    for B, t, size, p in books:
        s = -1 if signs[B[0]] < 0 else 1
        n = [s * N[i] for i in B]
        S.claim("sign.%s" % ("short" if s < 0 else "long"), all(x >= 0 for x in n))
        cost = S.dot(n, p)
        total = total + size - cost
        empty = (isinstance(size, (int, float)) and size == 0) or all(isinstance(x, int) for x in t)
        if empty:
            S.claim("empty.book", not any(n))
        elif method == "greedy":
            if min(n) >= 0:
                alloc.greedy_ok(S, t, size, p, n, size - cost)
        else:
            vec = vecs[len(B)][pick]
            S.claim("solution.reported", sorted(n) == sorted(vec))
            caps = [c for c in S.problems if c.vars and any(v.attributes.get("integer") and v.size == len(B) for v in c.vars) and c not in used]
            S.claim("book.solved", len(caps) > 0)
            if not caps or sorted(n) != sorted(vec):
                return
            used.append(caps[0])
            S.claim("solver", caps[0].kw.get("solver") == "SCIPY")
            perm = [n.index(v) for v in vec]
            programme(S, caps[0], [t[i] for i in perm], size, [p[i] for i in perm], len(B))
    S.claim("leftover", S.eq(left, total))


def short_only(S, method="greedy", n=1, ratio=None):
    W = {T[i]: -S.real("w%d" % i, pos=True, lo=.1, hi=1) for i in range(n)}
    for x in W.values():
        S.bound(-x, .1, 1)
    p = [2.5, 4][:n]
    d = S.pf.DiscreteAllocation(W, S.series(p, T[:n]), 10, ratio)
    if method == "lp":
        S.solution_plan = lambda i, cap: [[1] * v.size if v.attributes.get("integer") else [S.real("u%d_%d" % (i, j)) for j in range(v.size)] for v in cap.vars]
    o = S.call(d.greedy_portfolio if method == "greedy" else d.lp_portfolio)
    S.claim("ok", o.ok)
    if not o.ok:
        return
    al, left = o.value
    N = alloc.counts(S, al, T[:n])
    S.claim("short", all(x <= 0 for x in N))
    tot = -S.sum(list(W.values()))
    size = 10 * (tot if ratio is None else ratio)
    cost = -S.dot(N, p)
    S.claim("leftover", S.eq(left, 10 + size - cost))
    if method == "greedy":
        alloc.greedy_ok(S, [-x / tot * size for x in W.values()], size, p, [-x for x in N], size - cost)
    else:
        S.claim("one.problem", len(S.problems) == 1 and all(x == -1 for x in N))


def rejected(S):
    a = S.real("a", lo=0, hi=1)
    W = {"aa": a, "bb": 1 - a}
    P = S.series([3, 4.5], ["aa", "bb"])
    D = S.pf.DiscreteAllocation
    nan = float("nan")
    v = S.real("v", lo=-10, hi=0)
    S.assume(S.le(v, 0))
    S.claim("value", S.call(D, W, P, v).raised("ValueError"))
    S.claim("value.zero", S.call(D, W, P, 0).raised("ValueError"))
    r = S.real("r", lo=-2, hi=0)
    S.assume(S.lt(r, 0))
    S.claim("ratio", S.call(D, W, P, 100, r).raised("ValueError"))
    S.claim("ratio.keyword", S.call(D, W, P, short_ratio=r).raised("ValueError"))
    S.claim("weights.nan", S.call(D, {"aa": a, "bb": nan}, P).raised("ValueError"))
    S.claim("weights.nan.first", S.call(D, {"aa": nan, "bb": a}, P).raised("ValueError"))
    for i, bad in enumerate((S.series([a, 1 - a], ["aa", "bb"]), [a, 1 - a], S.arr([a, 1 - a]), None, [("aa", a), ("bb", 1 - a)])):
        S.claim("weights.type.%d" % i, S.call(D, bad, P).raised("TypeError"))
    for i, bad in enumerate(({"aa": 3, "bb": 4}, [3, 4], S.frame([[3, 4]], ["aa", "bb"]), None)):
        S.claim("prices.type.%d" % i, S.call(D, W, bad).raised("TypeError"))
    S.claim("prices.nan", S.call(D, W, S.series([3, nan], ["aa", "bb"])).raised("TypeError"))
    S.claim("prices.nan.first", S.call(D, W, S.series([nan, 3], ["aa", "bb"])).raised("TypeError"))
    S.solution_plan = lambda i, cap: [[0] * v.size for v in cap.vars]
    for m in ("greedy_portfolio", "lp_portfolio"):
        for i, w in enumerate(({"aa": .5, "bb": .5}, {"aa": 1, "bb": -.3}, {"aa": -.3, "bb": 1})):
            d = S.call(D, w, S.series([3, 4], ["aa", "cc"]), 10)
            S.claim("missing.%s.%d" % (m, i), not d.ok or not S.call(getattr(d.value, m)).ok)
    for i, bad in enumerate((P, [3], {"aa": 3}, S.arr([[3, 4]]))):
        S.claim("latest.%d" % i, S.call(S.pf.discrete_allocation.get_latest_prices, bad).raised("TypeError"))


SCENARIOS = [
    Sc("rejected", rejected),
    Sc("greedy", mixed), Sc("greedy-normal", mixed, dict(normal=True)), Sc("greedy-reinvest", mixed, dict(reinvest=True)), Sc("greedy-ratio", mixed, dict(ratio="sym")),
    Sc("greedy-ratio-reinvest", mixed, dict(ratio="sym", reinvest=True)), Sc("greedy-ratio-zero", mixed, dict(ratio=0)), Sc("greedy-ratio-zero-reinvest", mixed, dict(ratio=0, reinvest=True)),
    Sc("greedy-order", mixed, dict(signs=(-1, 1, 1), order=(2, 0, 1), worder=(1, 0, 2))), Sc("greedy-two-short", mixed, dict(signs=(-1, 1, -1), value=8, verbose=True)),
    Sc("greedy-zero", mixed, dict(signs=(1, 1, -1), zero=(0,))), Sc("greedy-zero-long", mixed, dict(signs=(1, -1, 1), zero=(2,), ratio="sym", reinvest=True)),
    Sc("greedy-four", mixed, dict(signs=(1, -1, 1, -1), prices=(2.5, 4, 3, 3.5), value=7), max_paths=1200, tier="thorough"), Sc("greedy-four-small", mixed, dict(signs=(1, -1, 1, -1), prices=(2.5, 2, 3, 3.5), value=4.5, normal=True, cap=2)), Sc("greedy-prices", mixed, dict(signs=(1, -1), prices="sym", value=8)),
    Sc("greedy-prices-ratio", mixed, dict(signs=(-1, 1), prices="sym", value=8, ratio="sym", reinvest=True)),
    Sc("greedy-no-long", mixed, dict(signs=(1, -1), prices=(3, 4), zero=(0,))), Sc("lp-no-long", mixed, dict(method="lp", signs=(1, -1), prices=(3, 4), zero=(0,))),
    Sc("lp", mixed, dict(method="lp")), Sc("lp-reinvest", mixed, dict(method="lp", reinvest=True)), Sc("lp-ratio", mixed, dict(method="lp", ratio="sym", order=(1, 2, 0))),
    Sc("lp-ratio-reinvest", mixed, dict(method="lp", ratio="sym", reinvest=True)), Sc("lp-ratio-zero", mixed, dict(method="lp", ratio=0)), Sc("lp-two-short", mixed, dict(method="lp", signs=(-1, 1, -1), verbose=True)),
    Sc("lp-order", mixed, dict(method="lp", signs=(-1, 1, 1), order=(2, 0, 1), worder=(1, 0, 2))), Sc("lp-prices", mixed, dict(method="lp", signs=(1, 1, -1), prices="sym", value=8)),
    Sc("greedy-short", short_only), Sc("greedy-short-two", short_only, dict(n=2)), Sc("greedy-short-ratio", short_only, dict(ratio=.5)), Sc("lp-short", short_only, dict(method="lp")), Sc("lp-short-two", short_only, dict(method="lp", n=2)),
]
