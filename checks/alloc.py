"""discrete allocation scenarios shared by C29-C31"""
import itertools
T = ["aa", "bb", "cc", "dd"]


def market(S, n, prices="sym", value="sym", cash=False, zero=(), order=None, extra=False, cap=3, ratio=2, tmin=None):
    """tickers in weight order, their weights t_i/V, prices p_i and the price series

    t_i are the target amounts, so that the weights sum to one (or to less with cash)"""
    if value == "sym":
        t = [0 if i in zero else S.real("t%d" % i, pos=True, hi=10) for i in range(n)]
        V = S.sum(t)
        if cash:
            c = S.real("cash", pos=True, hi=1)
            V = V + c
    else:
        V = value
        t = [0 if i in zero else S.real("t%d" % i, pos=True, hi=value) for i in range(n)]
        live = [i for i in range(n) if i not in zero]
        if not cash:
            t[live[-1]] = V - S.sum([t[i] for i in live[:-1]])
            S.assume(S.lt(0, t[live[-1]]))
        else:
            S.assume(S.le(S.sum(t), V))
    p = [S.real("p%d" % i, pos=True, lo=.5, hi=20) for i in range(n)] if prices == "sym" else list(prices)
    if prices == "sym":
        for a, b in itertools.permutations(p, 2):
            S.assume(S.le(a, ratio * b))
    for a, b in zip(t, p):
        if not isinstance(a, int):
            S.assume(S.lt(a, cap * b))
    if prices != "sym":
        S.assume(S.le(V, cap * n * min(p)))
    w = [a / V if not isinstance(a, int) else 0 for a in t]
    names = T[:n]
    idx = [names[i] for i in (order or range(n))] + (["zz"] if extra else [])
    vals = [p[names.index(k)] if k in names else 3 for k in idx]
    if prices == "int":
        vals = [int(x) for x in vals]
    return t, V, w, p, names, S.series(vals, idx) if prices == "sym" or not all(isinstance(x, int) for x in vals) else S.pd.Series(vals, index=idx)


def counts(S, alloc, names, sign=1):
    """share counts per ticker, each claimed to be a proper entry"""
    S.claim("tickers.known", all(k in names for k in alloc))
    for k, v in alloc.items():
        S.claim("whole.%s" % k, isinstance(v, (int, S.np.integer)) and not isinstance(v, bool))
        S.claim("nonzero.%s" % k, v != 0)
    return [alloc.get(k, 0) for k in names]


def greedy_ok(S, t, V, p, n, left, w=None, exact=False):
    """the counts n and the leftover are those of a greedy allocation of V to targets t at prices p"""
    N = len(t)
    w = [a / V for a in t] if w is None else w
    cost = S.sum([a * b for a, b in zip(n, p)])
    S.claim("cost.plus.leftover", S.eq(cost + left, V))
    S.claim("not.overspent", S.le(0, left))
    for i in range(N):
        S.claim("nonnegative.%d" % i, n[i] >= 0)
        S.claim("at.least.whole.shares.%d" % i, S.lt(t[i], (n[i] + 1) * p[i]))
        if isinstance(t[i], int):
            S.claim("none.of.zero.weight.%d" % i, n[i] == 0)
            continue
        # an asset still below its target is not affordable
        S.claim("nothing.affordable.below.target.%d" % i, (S.lt_exact if exact else S.lt)(left, p[i]), *([S.le(t[i] * cost, n[i] * p[i] * V)] if any(n) else []))
    # some order of purchases after the whole shares in which every one went to the affordable asset furthest below its target
    whole = [0 if isinstance(a, int) else int(S.floor(a / b)) for a, b in zip(t, p)]
    extra = [a - b for a, b in zip(n, whole)]
    S.claim("whole.shares", all(e >= 0 for e in extra))
    if min(extra) < 0:
        return
    alts = []
    for seq in sorted(set(itertools.permutations([i for i in range(N) for _ in range(extra[i])]))):
        cur, ok = list(whole), []
        for i in seq:
            c = S.sum([a * b for a, b in zip(cur, p)])
            rest = V - c
            ok.append(S.le(p[i], rest))
            d = lambda j: (w[j] * c - cur[j] * p[j]) if any(cur) else w[j]
            for j in range(N):
                if j != i:
                    ok.append(S.or_(S.lt(rest, p[j]), S.le(d(j), d(i))))
            cur[i] += 1
        alts.append(S.and_(*ok))
    S.claim("furthest.below.target.first", S.or_(*alts))
