from symx.run import Sc
from . import alloc

BOUNDS = "2-3 assets, all positive weights (zero weights at every position) summing to at most one, all prices and budgets with fewer than 2-4 whole shares of each asset at first, price ratios up to 2, every label order, extra priced tickers, float and integer price series; latest prices of 2 assets over 4 rows with every pattern of gaps"
OUTSIDE = "more than 3 assets or 4 shares of one asset at first; the give-up after ten unaffordable assets; float rounding"


def greedy(S, n=2, wtype="dict", verbose=False, twice=False, **k):
    t, V, w, p, names, P = alloc.market(S, n, **k)
    W = dict(zip(names, w))
    if wtype == "ordered":
        import collections
        W = collections.OrderedDict(W)
    d = S.call(S.pf.DiscreteAllocation, W, P, V)
    S.claim("constructed", d.ok)
    if not d.ok:
        return
    d = d.value
    if twice:
        S.call(d.greedy_portfolio)
    o = S.call(d.greedy_portfolio, verbose=verbose)
    S.claim("ok", o.ok)
    if not o.ok:
        return
    al, left = o.value
    S.observe("left", left)
    N = alloc.counts(S, al, names)
    S.claim("kept", d.allocation == al)
    alloc.greedy_ok(S, t, V, p, N, left, w, exact=all(not isinstance(k.get(x, "sym"), str) for x in ("prices", "value")))


def default_value(S):
    """the budget defaults to 10000"""
    w = S.real("w", pos=True, hi=1)
    S.assume(S.lt(w, 1))
    p = [4000, 3000.5]
    d = S.pf.DiscreteAllocation({"aa": w, "bb": 1 - w}, S.series(p, ["aa", "bb"]))
    o = S.call(d.greedy_portfolio)
    S.claim("ok", o.ok)
    N = alloc.counts(S, o.value[0], ["aa", "bb"])
    alloc.greedy_ok(S, [w * 10000, (1 - w) * 10000], 10000, p, N, o.value[1])


def latest(S, rows=4):
    """last price available of each asset"""
    gaps = [[bool(S.choose(2, "gap")) for _ in range(rows)] for _ in range(2)]
    if any(all(g) for g in gaps):
        S.dead()
    P = [[None if gaps[j][i] else S.real("p%d_%d" % (i, j), pos=True, hi=9) for j in range(2)] for i in range(rows)]
    nan = float("nan")
    D = S.frame(S.arr([[nan if x is None else x for x in r] for r in P]), ["aa", "bb"], ["d%d" % i for i in range(rows)])
    o = S.call(S.pf.discrete_allocation.get_latest_prices, D)
    S.claim("ok", o.ok)
    r = o.value
    S.claim("labels", list(r.index) == ["aa", "bb"])
    for j, k in enumerate(("aa", "bb")):
        S.claim("last.%s" % k, S.eq(r[k], [P[i][j] for i in range(rows) if P[i][j] is not None][-1]))


SCENARIOS = [
    Sc("two", greedy, dict(cap=2)), Sc("two-cash", greedy, dict(cap=2, cash=True)),
    Sc("two-order", greedy, dict(order=(1, 0), extra=True, cap=2, wtype="ordered")),
    Sc("two-zero-first", greedy, dict(zero=(0,), cap=3)), Sc("two-zero-last", greedy, dict(zero=(1,), cap=3)),
    Sc("two-numeric", greedy, dict(prices=(2.5, 7), cap=4)), Sc("two-numeric-value", greedy, dict(prices=(2.5, 7), value=20, cap=9)),
    Sc("int-prices", greedy, dict(prices=(2, 5), cap=4)), Sc("int-prices-value", greedy, dict(prices=(2, 5), value=13, cap=9, verbose=True)),
    Sc("unaffordable", greedy, dict(prices=(30.5, 2.5), value=20, cap=9)), Sc("unaffordable-zero", greedy, dict(prices=(30.5, 2.5), value=20, cap=9, zero=(1,))),
    Sc("three-numeric", greedy, dict(n=3, prices=(2.5, 7, 4), value=21, cap=9, twice=True)), Sc("three-order", greedy, dict(n=3, prices=(2.5, 6, 4.5), value=14, cap=9, order=(2, 0, 1), extra=True)),
    Sc("three-zero", greedy, dict(n=3, prices=(2.5, 6, 4.5), value=14, cap=9, zero=(1,))), Sc("three-cash", greedy, dict(n=3, prices=(3.5, 5, 4), value=13, cash=True, cap=9)),
    Sc("three", greedy, dict(n=3, cap=2, ratio=1.5), tier="thorough"), Sc("two-more", greedy, dict(cap=4), tier="thorough"),
    Sc("default-value", default_value), Sc("latest", latest), ]
