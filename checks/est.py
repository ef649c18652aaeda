"""Price and return histories and the textbook estimators, shared by the checks of the estimators."""
T = ["CCC", "AAA", "BBB", "DDD"]
NAN = float("nan")


def history(S, rows, n, what="prices", missing=(), kind="frame", name="p", index=None, cols=None):
    """(data for the package, columns: per asset a list with None where missing)"""
    cols = cols or []
    missing = list(missing) + [0] * (n - len(missing))
    for i in range(n):
        c = []
        for t in range(rows):
            if t in missing[i] if isinstance(missing[i], tuple) else t < missing[i]:    # rows, or how many at first
                c.append(None)
            elif what == "prices":
                c.append(S.real("%s%d_%d" % (name, t, i), pos=True, lo=.5, hi=2))
            else:
                x = S.real("%s%d_%d" % (name, t, i), lo=-.5, hi=.5)
                S.assume(S.lt(-1, x))
                c.append(x)
        cols.append(c)
    rowsv = [[NAN if cols[i][t] is None else cols[i][t] for i in range(n)] for t in range(rows)]
    if kind == "array":
        return S.arr(rowsv), cols
    if kind == "list":
        return rowsv, cols
    return S.frame(S.arr(rowsv), T[:n], list(index or range(rows))), cols


def labels(n, kind="frame"):
    return T[:n] if kind == "frame" else list(range(n))


def returns(S, P, log=False):
    out = []
    for c in P:
        r = []
        for a, b in zip(c, c[1:]):
            if a is None or b is None:
                r.append(None)
            else:
                r.append(S.log(b / a) if log else b / a - 1)
        out.append(r)
    keep = [t for t in range(len(out[0])) if any(c[t] is not None for c in out)]
    return [[c[t] for t in keep] for c in out]


def have(c):
    return [x for x in c if x is not None]


def mean(S, c):
    h = have(c)
    return S.sum(h) / len(h)


def cov(S, x, y):
    """unbiased, over the periods where both are available"""
    ok = [(a, b) for a, b in zip(x, y) if a is not None and b is not None]
    mx, my = S.sum([a for a, b in ok]) / len(ok), S.sum([b for a, b in ok]) / len(ok)
    return S.sum([(a - mx) * (b - my) for a, b in ok]) / (len(ok) - 1)


def ewm(S, c, span):
    """exponentially weighted mean at the last period: weights (1 - alpha)^age over the available periods"""
    a = S.frac(2) / (span + 1)
    num = den = S.frac(0)
    w = S.frac(1)
    for x in reversed(c):
        if x is not None:
            num, den = num + w * x, den + w
        w = w * (1 - a)
    return num / den


def prod(S, xs):
    p = S.frac(1)
    for x in xs:
        p = p * x
    return p


def ints(p, q):
    """p/q reduced"""
    from fractions import Fraction
    f = Fraction(p, q)
    return f.numerator, f.denominator


def compounded(S, got, growth, freq, count):
    """got = growth^(freq/count) - 1"""
    a, b = ints(freq, count)
    if a > 20:
        return S.eq(got, S.power(growth, S.frac(a) / b) - 1)
    return S.and_(S.le(-1, got), S.eq(ipow(1 + got, b), ipow(growth, a)))


def ipow(x, k):
    y = x
    for _ in range(k - 1):
        y = y * x
    return y
