"""pandas support for object frames holding symbolic numbers (symbolic process only)."""
import math

import numpy as np
import pandas as pd

from . import arr as A
from . import core as C
from .arr import SArr, exact, isnan1, plain, s_add, s_div, s_mul, s_sqrt, s_sub, wrap
from .core import SBool, SReal, SymEscape

_done = [False]
NOAX = object()
ORIG = {}


def symframe(x):
    if isinstance(x, pd.Series):
        return x.dtype == object and any(isinstance(v, (SReal, SBool)) for v in x._values)
    if isinstance(x, pd.DataFrame):
        for b in x._mgr.arrays:
            if b.dtype == object and any(isinstance(v, (SReal, SBool)) for v in np.asarray(b, dtype=object).flat):
                return True
        return False
    return False


def cols(df):
    """list of lists: exact column values"""
    v = ORIG["DataFrame.to_numpy"](df, dtype=object)
    return [[exact(x) for x in v[:, j]] for j in range(v.shape[1])]


def rows(df):
    v = ORIG["DataFrame.to_numpy"](df, dtype=object)
    return [[exact(x) for x in v[i]] for i in range(v.shape[0])]


def svals(s):
    return [exact(x) for x in ORIG["Series.to_numpy"](s, dtype=object)]


def mkser(vals, index, name=None):
    o = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        o[i] = v
    return pd.Series(o, index=index, name=name, dtype=object)


def mkframe(colvals, index, columns):
    o = np.empty((len(index), len(columns)), dtype=object)
    for j, c in enumerate(colvals):
        for i, v in enumerate(c):
            o[i, j] = v
    return pd.DataFrame(o, index=index, columns=columns, dtype=object)


def _drop(v, skipna=True):
    if skipna:
        return [x for x in v if not isnan1(x)]
    return v


def r_sum(v, skipna=True):
    v = _drop(v, skipna)
    t = SReal(C.ZERO)
    for x in v:
        t = s_add(t, x)
    return t


def r_prod(v, skipna=True):
    v = _drop(v, skipna)
    t = SReal(C.ONE)
    for x in v:
        t = s_mul(t, x)
    return t


def r_mean(v, skipna=True):
    v = _drop(v, skipna)
    return s_div(r_sum(v), len(v)) if v else math.nan


def r_var(v, skipna=True, ddof=1):
    v = _drop(v, skipna)
    if len(v) - ddof <= 0:
        return math.nan
    m = r_mean(v)
    t = SReal(C.ZERO)
    for x in v:
        d = s_sub(x, m)
        t = s_add(t, s_mul(d, d))
    return s_div(t, len(v) - ddof)


def r_std(v, skipna=True, ddof=1):
    x = r_var(v, skipna, ddof)
    return x if isnan1(x) else s_sqrt(x)


def r_max(v, skipna=True):
    v = _drop(v, skipna)
    if not v:
        return math.nan
    t = v[0]
    for x in v[1:]:
        t = A.s_max(t, x)
    return t


def r_min(v, skipna=True):
    v = _drop(v, skipna)
    if not v:
        return math.nan
    t = v[0]
    for x in v[1:]:
        t = A.s_min(t, x)
    return t


def r_any(v, skipna=True):
    return C.b_or(*[A._bool1(x) for x in _drop(v, skipna)])


def r_all(v, skipna=True):
    return C.b_and(*[A._bool1(x) for x in _drop(v, skipna)])


RED = {"sum": r_sum, "prod": r_prod, "product": r_prod, "mean": r_mean, "var": r_var, "std": r_std, "max": r_max, "min": r_min,
       "any": r_any, "all": r_all}


def pair_cov(x, y, ddof=1, min_periods=1):
    ok = [(a, b) for a, b in zip(x, y) if not isnan1(a) and not isnan1(b)]
    n = len(ok)
    if n < max(min_periods, 1):
        return math.nan
    if n - ddof <= 0:
        return math.nan
    mx, my = r_mean([a for a, b in ok]), r_mean([b for a, b in ok])
    t = SReal(C.ZERO)
    for a, b in ok:
        t = s_add(t, s_mul(s_sub(a, mx), s_sub(b, my)))
    return s_div(t, n - ddof)


def pair_corr(x, y):
    ok = [(a, b) for a, b in zip(x, y) if not isnan1(a) and not isnan1(b)]
    if len(ok) < 1:
        return math.nan
    a, b = [p[0] for p in ok], [p[1] for p in ok]
    mx, my = r_mean(a), r_mean(b)
    sxy = sxx = syy = SReal(C.ZERO)
    for u, v in ok:
        du, dv = s_sub(u, mx), s_sub(v, my)
        sxy, sxx, syy = s_add(sxy, s_mul(du, dv)), s_add(sxx, s_mul(du, du)), s_add(syy, s_mul(dv, dv))
    return s_div(sxy, s_mul(s_sqrt(sxx), s_sqrt(syy)))


class SymEwm:
    def __init__(self, obj, com=None, span=None, halflife=None, alpha=None, min_periods=0, adjust=True, ignore_na=False, **k):
        self.obj = obj
        if alpha is None:
            if span is not None:
                alpha = s_div(2, s_add(span, 1))
            elif com is not None:
                alpha = s_div(1, s_add(com, 1))
            else:
                raise SymEscape("ewm halflife")
        self.alpha, self.adjust, self.ignore_na = exact(alpha), adjust, ignore_na
        self.min_periods = min_periods or 0

    def _w(self, v):
        """per time t: list of (weight, value)"""
        out = []
        q = 1 - self.alpha
        for t in range(len(v)):
            ws = []
            k = 0
            idx = [i for i in range(t + 1) if not isnan1(v[i])]
            for n, i in enumerate(idx):
                d = (len(idx) - 1 - n) if self.ignore_na else idx[-1] - i
                w = q ** d if d else SReal(C.ONE)
                if not self.adjust and n > 0:
                    w = w * self.alpha
                ws.append((w, v[i]))
            out.append(ws)
        return out

    def _mean1(self, v):
        res = []
        for ws in self._w(v):
            if not ws or len(ws) < self.min_periods:
                res.append(math.nan)
                continue
            if not self.adjust and len(ws) > 1 and not self.ignore_na and any(isnan1(x) for x in v):
                raise SymEscape("ewm adjust=False with missing data")
            num = den = SReal(C.ZERO)
            for w, x in ws:
                num, den = num + w * x, den + w
            res.append(num / den)
        return res

    def mean(self, *a, **k):
        o = self.obj
        if isinstance(o, pd.Series):
            return mkser(self._mean1(svals(o)), o.index, o.name)
        return mkframe([self._mean1(c) for c in cols(o)], o.index, o.columns)

    def _cov1(self, x, y, bias):
        res = []
        n = len(x)
        xm = [a if not isnan1(b) else math.nan for a, b in zip(x, y)]
        ym = [b if not isnan1(a) else math.nan for a, b in zip(x, y)]
        for wx, wy in zip(self._w(xm), self._w(ym)):
            if not wx:
                res.append(math.nan)
                continue
            sw = sw2 = sx = sy = sxy = SReal(C.ZERO)
            for (w, a), (_, b) in zip(wx, wy):
                sw, sw2, sx, sy, sxy = sw + w, sw2 + w * w, sx + w * a, sy + w * b, sxy + w * a * b
            c = sxy / sw - (sx / sw) * (sy / sw)
            if not bias:
                if len(wx) < 2:
                    res.append(math.nan)
                    continue
                c = c * sw * sw / (sw * sw - sw2)
            res.append(c)
        return res

    def cov(self, other=None, pairwise=None, bias=False, **k):
        o = self.obj
        if isinstance(o, pd.Series):
            y = o if other is None else other
            return mkser(self._cov1(svals(o), svals(y), bias), o.index)
        if other is not None:
            raise SymEscape("frame ewm cov with other")
        cs = cols(o)
        data = [[self._cov1(a, b, bias) for b in cs] for a in cs]
        ix = pd.MultiIndex.from_product([o.index, o.columns])
        out = []
        for t in range(len(o.index)):
            for i in range(len(cs)):
                out.append([data[i][j][t] for j in range(len(cs))])
        return pd.DataFrame(np.array(out, dtype=object), index=ix, columns=o.columns)

    def var(self, bias=False, **k):
        o = self.obj
        if isinstance(o, pd.Series):
            return mkser(self._cov1(svals(o), svals(o), bias), o.index)
        return mkframe([self._cov1(c, c, bias) for c in cols(o)], o.index, o.columns)

    def std(self, bias=False, **k):
        v = self.var(bias)
        return v.map(lambda x: x if isnan1(x) else s_sqrt(x))


def install():
    if _done[0]:
        return
    _done[0] = True
    for cls in (pd.DataFrame, pd.Series):
        for nm in ("to_numpy", "__init__", "ewm", "cumprod", "cumsum", "abs", "clip", "round", "cummax", "cummin", "astype"):
            ORIG["%s.%s" % (cls.__name__, nm)] = getattr(cls, nm)
        for nm in RED:
            ORIG["%s.%s" % (cls.__name__, nm)] = getattr(cls, nm)
    for nm in ("cov", "corr", "corrwith"):
        ORIG["DataFrame." + nm] = getattr(pd.DataFrame, nm)
    for nm in ("cov", "corr"):
        ORIG["Series." + nm] = getattr(pd.Series, nm)

    # writing symbolic values with a format
    def mkcsv(cls):
        o = cls.to_csv

        def to_csv(self, *a, float_format=None, **k):
            if float_format is not None and symframe(self):
                show = float_format.format if isinstance(float_format, str) and "{" in float_format else \
                    (lambda v: format(v, float_format.lstrip("%"))) if isinstance(float_format, str) else float_format
                m = lambda v: show(v) if isinstance(v, (SReal, float)) else v
                return o(self.map(m), *a, **k)
            return o(self, *a, **k) if float_format is None else o(self, *a, float_format=float_format, **k)
        cls.to_csv = to_csv
    mkcsv(pd.DataFrame)
    mkcsv(pd.Series)

    # constructors: no SArr inside blocks
    def mkinit(cls):
        o = ORIG[cls.__name__ + ".__init__"]

        def __init__(self, data=None, *a, **k):
            if isinstance(data, SArr):
                data = plain(data).copy()
            elif isinstance(data, dict) and any(isinstance(v, SArr) for v in data.values()):
                data = {kk: plain(v) for kk, v in data.items()}
            elif isinstance(data, list) and data and isinstance(data[0], SArr):
                data = [plain(v) for v in data]
            for i, x in enumerate(a):
                pass
            if getattr(k.get("dtype"), "_symx", False) or k.get("dtype") in ("float", float, "float64"):
                if data is not None and A.has_sym_deep(data if not isinstance(data, dict) else list(data.values())):
                    k["dtype"] = object
                elif getattr(k.get("dtype"), "_symx", False):
                    k["dtype"] = float if getattr(k["dtype"], "_symx_float", False) else int
            return o(self, data, *a, **k)
        cls.__init__ = __init__
    mkinit(pd.DataFrame)
    mkinit(pd.Series)

    # values
    def mkvals(cls):
        o = cls.values.fget

        def values(self):
            v = o(self)
            if isinstance(v, np.ndarray) and v.dtype == object and type(v) is np.ndarray and A.has_sym(v):
                return v.view(SArr)
            return v
        cls.values = property(values)
        ot = ORIG[cls.__name__ + ".to_numpy"]

        def to_numpy(self, dtype=None, *a, **k):
            if getattr(dtype, "_symx", False) or (dtype is not None and dtype in (float, "float64", "float") and symframe(self)):
                dtype = object if symframe(self) else float
            v = ot(self, dtype, *a, **k)
            if isinstance(v, np.ndarray) and v.dtype == object and A.has_sym(v):
                return v.view(SArr)
            return v
        cls.to_numpy = to_numpy
        cls.__array__ = (lambda oa: (lambda self, dtype=None, *a, **k: oa(self, None if getattr(dtype, "_symx", False) else dtype)))(cls.__array__)
    mkvals(pd.DataFrame)
    mkvals(pd.Series)

    def mkred(cls, nm):
        o = ORIG["%s.%s" % (cls.__name__, nm)]
        f = RED[nm]

        def red(self, axis=NOAX, *a, **k):
            if not symframe(self):
                return o(self, *a, **(dict(k, axis=axis) if axis is not NOAX else k))
            if axis is None and isinstance(self, pd.DataFrame):
                return f([x for c in cols(self) for x in c], k.get("skipna", True))
            if axis is NOAX:
                axis = None
            skipna = k.get("skipna", True)
            kw = {"ddof": k["ddof"]} if "ddof" in k and nm in ("var", "std") else {}
            if nm in ("var", "std") and a:
                raise SymEscape("positional args of " + nm)
            if isinstance(self, pd.Series):
                return f(svals(self), skipna, **kw)
            if axis in (None, 0, "index"):
                return mkser([f(c, skipna, **kw) for c in cols(self)], self.columns)
            return mkser([f(r, skipna, **kw) for r in rows(self)], self.index)
        red.__name__ = nm
        setattr(cls, nm, red)
    for cls in (pd.DataFrame, pd.Series):
        for nm in RED:
            mkred(cls, nm)

    def dcov(self, min_periods=None, ddof=1, numeric_only=False):
        if not symframe(self):
            return ORIG["DataFrame.cov"](self, min_periods, ddof, numeric_only)
        cs = cols(self)
        return mkframe([[pair_cov(a, b, ddof, min_periods or 1) for a in cs] for b in cs], self.columns, self.columns)

    def dcorr(self, method="pearson", min_periods=1, numeric_only=False):
        if not symframe(self):
            return ORIG["DataFrame.corr"](self, method, min_periods, numeric_only)
        if method != "pearson":
            raise SymEscape("corr method")
        cs = cols(self)
        return mkframe([[pair_corr(a, b) for a in cs] for b in cs], self.columns, self.columns)

    def scov(self, other, min_periods=None, ddof=1):
        if not symframe(self) and not symframe(other):
            return ORIG["Series.cov"](self, other, min_periods, ddof)
        x, y = self.align(other, join="inner")
        return pair_cov(svals(x), svals(y), ddof, min_periods or 1)

    def scorr(self, other, method="pearson", min_periods=None):
        if not symframe(self) and not symframe(other):
            return ORIG["Series.corr"](self, other, method, min_periods)
        x, y = self.align(other, join="inner")
        return pair_corr(svals(x), svals(y))
    pd.DataFrame.cov, pd.DataFrame.corr, pd.Series.cov, pd.Series.corr = dcov, dcorr, scov, scorr

    def mkewm(cls):
        o = ORIG[cls.__name__ + ".ewm"]

        def ewm(self, *a, **k):
            if symframe(self) or any(isinstance(v, SReal) for v in list(a) + list(k.values())):
                if a:
                    k = dict(zip(("com", "span", "halflife", "alpha"), a), **k)
                return SymEwm(self, **k)
            return o(self, *a, **k)
        cls.ewm = ewm

        def mkcum(nm, f):
            oc = ORIG["%s.%s" % (cls.__name__, nm)]

            def cum(self, axis=None, *a, **k):
                if not symframe(self):
                    return oc(self, axis, *a, **k)
                if axis in (1, "columns"):
                    raise SymEscape("cum axis=1")

                def run(v):
                    t, out = None, []
                    for x in v:
                        if isnan1(x):
                            out.append(math.nan)
                            continue
                        t = x if t is None else f(t, x)
                        out.append(t)
                    return out
                if isinstance(self, pd.Series):
                    return mkser(run(svals(self)), self.index, self.name)
                return mkframe([run(c) for c in cols(self)], self.index, self.columns)
            setattr(cls, nm, cum)
        mkcum("cumprod", s_mul)
        mkcum("cumsum", s_add)
        mkcum("cummax", A.s_max)
        mkcum("cummin", A.s_min)

        def mkmap(nm, g):
            om = ORIG["%s.%s" % (cls.__name__, nm)]

            def m(self, *a, **k):
                if not symframe(self):
                    return om(self, *a, **k)
                f = g(*a, **k)
                if isinstance(self, pd.Series):
                    return mkser([f(x) for x in svals(self)], self.index, self.name)
                return mkframe([[f(x) for x in c] for c in cols(self)], self.index, self.columns)
            setattr(cls, nm, m)
        mkmap("abs", lambda: A.s_abs)

        def gclip(lower=None, upper=None, *a, **k):
            def f(x):
                if isnan1(x):
                    return x
                if lower is not None:
                    x = A.s_max(x, lower)
                if upper is not None:
                    x = A.s_min(x, upper)
                return x
            if any(hasattr(z, "index") for z in (lower, upper)):
                raise SymEscape("clip with series")
            return f
        mkmap("clip", gclip)
        mkmap("round", lambda decimals=0, *a, **k: (lambda x: x if isnan1(x) else exact(x).round(decimals)))

        oa = ORIG["%s.astype" % cls.__name__]

        def astype(self, dtype, *a, **k):
            if symframe(self):
                if getattr(dtype, "_symx_float", False) or dtype in (float, "float", "float64", np.float64, object):
                    return self.copy()
                if getattr(dtype, "_symx_int", False) or dtype in (int, "int", "int64", np.int64):
                    f = A.UF["trunc"]
                    if isinstance(self, pd.Series):
                        return mkser([f(x) for x in svals(self)], self.index, self.name)
                    return mkframe([[f(x) for x in c] for c in cols(self)], self.index, self.columns)
                if dtype in (bool, "bool"):
                    if isinstance(self, pd.Series):
                        return pd.Series([bool(x) for x in svals(self)], index=self.index)
            if getattr(dtype, "_symx_float", False):
                dtype = float
            if getattr(dtype, "_symx_int", False):
                dtype = int
            return oa(self, dtype, *a, **k)
        cls.astype = astype
    mkewm(pd.DataFrame)
    mkewm(pd.Series)

    # arithmetic on object blocks: exact, with numpy semantics for division by zero
    import operator

    def mkop(cls, nm, f, rev):
        o = getattr(cls, nm)

        def op(self, other):
            if isinstance(other, (pd.DataFrame, pd.Series)):
                if not (symframe(self) or symframe(other)):
                    return o(self, other)
                if cls is pd.Series and isinstance(other, pd.DataFrame):
                    return NotImplemented
                return o(_ex(self), _ex(other))
            if isinstance(other, SArr):
                other = np.frompyfunc(exact, 1, 1)(plain(other))
                if not isinstance(other, np.ndarray):
                    other = np.array([other], dtype=object)
            elif getattr(type(other), "__array_ufunc__", 0) is None and type(other).__name__ == "Expr" or hasattr(other, "_symcp"):
                return NotImplemented
            elif symframe(self) or isinstance(other, SReal):
                other = exact(other) if isinstance(other, (int, float, np.number)) else other
            else:
                return o(self, other)
            return o(_ex(self), other)
        op.__name__ = nm
        setattr(cls, nm, op)
    for cls in (pd.DataFrame, pd.Series):
        for nm in ("add", "sub", "mul", "truediv"):
            mkop(cls, "__%s__" % nm, nm, False)
            mkop(cls, "__r%s__" % nm, nm, True)

    # `frame.corrwith`, quantile ... unsupported on symbolic data
    for cls, nms in ((pd.DataFrame, ("quantile", "median", "skew", "kurt", "rank", "corrwith", "rolling", "expanding", "interpolate", "eval", "query")),
                     (pd.Series, ("quantile", "median", "skew", "kurt", "rank", "rolling", "expanding", "interpolate", "autocorr"))):
        for nm in nms:
            o = getattr(cls, nm)

            def bad(self, *a, _o=o, _n=nm, **k):
                if symframe(self):
                    raise SymEscape("pandas %s on symbolic data" % _n)
                return _o(self, *a, **k)
            setattr(cls, nm, bad)


def _ex(x):
    """frame/series with python floats/ints replaced by exact constants"""
    if isinstance(x, pd.Series):
        if x.dtype.kind in "fi" or x.dtype == object:
            return mkser([exact(v) if C.is_num(v) else v for v in ORIG["Series.to_numpy"](x, dtype=object)], x.index, x.name)
        return x
    if isinstance(x, pd.DataFrame):
        v = ORIG["DataFrame.to_numpy"](x, dtype=object)
        o = np.empty(v.shape, dtype=object)
        for ix in np.ndindex(v.shape):
            o[ix] = exact(v[ix]) if C.is_num(v[ix]) else v[ix]
        return pd.DataFrame(o, index=x.index, columns=x.columns)
    return x
