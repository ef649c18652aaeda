"""SArr: numpy object arrays of symbolic numbers, and the numpy facade given to the code."""
import builtins
import math
import types
from fractions import Fraction

import numpy as np

from . import core as C
from .core import SReal, SBool, SymEscape, b_and, b_or, b_not, ite, smax, smin

_obj = np.dtype(object)


# ---------------------------------------------------------------- scalar helpers
def isnan1(v):
    return isinstance(v, float) and v != v or (type(v).__module__ in ("pandas._libs.missing", "pandas._libs.tslibs.nattype"))


def isinf1(v):
    return isinstance(v, (float, np.floating)) and math.isinf(v)


def exact(v):
    """python scalar usable in exact arithmetic"""
    if isinstance(v, (SReal, SBool)):
        return v
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return SReal(C.to_rat(int(v)), True)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if not math.isfinite(v):
            return v
        return SReal(C.rat_of_float(v))
    if isinstance(v, Fraction):
        return SReal(C.Rat.const(v))
    return v


def _fin(v):
    return not (isinstance(v, float) and not math.isfinite(v))


def s_add(a, b):
    return exact(a) + exact(b)


def s_sub(a, b):
    return exact(a) - exact(b)


def s_mul(a, b):
    return exact(a) * exact(b)


def s_div(a, b):
    a, b = exact(a), exact(b)
    try:
        return a / b
    except ZeroDivisionError:
        if not isinstance(a, SReal):
            return a / 1 if not _fin(a) else math.nan
        if a.r.isconst():
            v = a.r.cval()
            return math.nan if v == 0 else math.copysign(math.inf, v)
        return math.inf if bool(a > 0) else (-math.inf if bool(a < 0) else math.nan)


def s_pow(a, b):
    a, b = exact(a), exact(b)
    if isinstance(a, float) or isinstance(b, float):
        return float(a) ** float(b)
    if isinstance(a, SReal) and not a.r.num and isinstance(b, SReal) and b.r.isconst() and b.r.cval() < 0:
        return math.inf
    if isinstance(a, SReal) and a.r.isconst() and a.r.cval() < 0 and isinstance(b, SReal) and b.r.isconst() \
            and b.r.cval().denominator != 1:
        return math.nan
    return a ** b


def s_floordiv(a, b):
    q = s_div(a, b)
    return q.floor() if isinstance(q, SReal) else q


def s_mod(a, b):
    return exact(a) - s_floordiv(a, b) * exact(b)


def s_neg(a):
    return -exact(a)


def s_abs(a):
    return abs(exact(a))


def s_sign(a):
    a = exact(a)
    if isinstance(a, float):
        return a if a != a else math.copysign(1.0, a)
    return ite(a > 0, 1, ite(a < 0, -1, 0))


def s_isnan(a):
    return isnan1(a) or (a is None and False)


def s_isinf(a):
    return isinf1(a)


def s_isfinite(a):
    return not isnan1(a) and not isinf1(a)


def s_sqrt(a):
    return C.ssqrt(exact(a)) if _fin(exact(a)) else (exact(a) if exact(a) != -math.inf else math.nan)


def s_exp(a):
    return C.sexp(exact(a))


def s_log(a):
    return C.slog(exact(a))


def s_fmax(a, b):
    if isnan1(a):
        return exact(b)
    if isnan1(b):
        return exact(a)
    return smax(exact(a), exact(b))


def s_fmin(a, b):
    if isnan1(a):
        return exact(b)
    if isnan1(b):
        return exact(a)
    return smin(exact(a), exact(b))


def s_max(a, b):
    a, b = exact(a), exact(b)
    if isnan1(a):
        return a
    return smax(a, b)


def s_min(a, b):
    a, b = exact(a), exact(b)
    if isnan1(a):
        return a
    return smin(a, b)


def _cmpf(op):
    def f(a, b):
        if isinstance(a, SBool) or isinstance(b, SBool):
            if op == "eq":
                return b_not(a ^ b) if isinstance(a, SBool) else b_not(b ^ a)
            if op == "ne":
                return a ^ b if isinstance(a, SBool) else b ^ a
        a, b = exact(a), exact(b)
        if op == "lt":
            return a < b
        if op == "le":
            return a <= b
        if op == "gt":
            return a > b
        if op == "ge":
            return a >= b
        if op == "eq":
            return a == b
        return b_not(a == b) if isinstance(a, SReal) or isinstance(b, SReal) else a != b
    return f


def _bool1(a):
    if isinstance(a, SBool):
        return a
    if isinstance(a, SReal):
        return b_not(C.mkcmp("==", a.r))
    return bool(a)


def s_and(a, b):
    if isinstance(a, (SReal,)) or isinstance(b, SReal):
        a, b = _bool1(a), _bool1(b)
    return b_and(_bool1(a), _bool1(b))


def s_or(a, b):
    return b_or(_bool1(a), _bool1(b))


def s_not(a):
    return b_not(_bool1(a))


UF = {
    "add": s_add, "subtract": s_sub, "multiply": s_mul, "true_divide": s_div, "divide": s_div, "power": s_pow,
    "float_power": s_pow, "floor_divide": s_floordiv, "remainder": s_mod, "mod": s_mod, "negative": s_neg,
    "positive": lambda a: exact(a), "absolute": s_abs, "abs": s_abs, "fabs": s_abs, "sign": s_sign, "isnan": s_isnan,
    "isinf": s_isinf, "isfinite": s_isfinite, "sqrt": s_sqrt, "exp": s_exp, "log": s_log,
    "log1p": lambda a: s_log(exact(a) + 1), "expm1": lambda a: s_exp(a) - 1,
    "log2": lambda a: s_log(a) / C.slog(2), "log10": lambda a: s_log(a) / C.slog(10),
    "square": lambda a: exact(a) * exact(a), "fmax": s_fmax, "fmin": s_fmin, "maximum": s_max, "minimum": s_min,
    "less": _cmpf("lt"), "less_equal": _cmpf("le"), "greater": _cmpf("gt"), "greater_equal": _cmpf("ge"),
    "equal": _cmpf("eq"), "not_equal": _cmpf("ne"), "logical_and": s_and, "logical_or": s_or, "logical_not": s_not,
    "bitwise_and": s_and, "bitwise_or": s_or, "invert": s_not, "bitwise_xor": lambda a, b: b_not(_cmpf("eq")(_bool1(a), _bool1(b))),
    "floor": lambda a: exact(a).floor() if _fin(exact(a)) else exact(a),
    "ceil": lambda a: exact(a).ceil() if _fin(exact(a)) else exact(a),
    "trunc": lambda a: ite(exact(a) >= 0, exact(a).floor(), exact(a).ceil()),
    "rint": lambda a: exact(a).round(0) if _fin(exact(a)) else exact(a),
    "conjugate": lambda a: exact(a), "reciprocal": lambda a: s_div(1, a),
    "hypot": lambda a, b: s_sqrt(s_add(s_mul(a, a), s_mul(b, b))),
}
BOOLRES = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
           "logical_not", "isnan", "isinf", "isfinite"}
IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}
_PYUF = {}


def pyuf(name):
    u = _PYUF.get(name)
    if u is None:
        f = UF[name]
        import inspect
        nin = len(inspect.signature(f).parameters)
        u = _PYUF[name] = np.frompyfunc(f, nin, 1)
    return u


def plain(a):
    """view as base ndarray / scalar / list passes through"""
    if isinstance(a, SArr):
        return a.view(np.ndarray)
    return a


def has_sym(a):
    if isinstance(a, (SReal, SBool)):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object and any(isinstance(x, (SReal, SBool)) for x in a.flat)
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def wrap(r):
    """object ndarray -> SArr; all-bool object arrays -> bool arrays"""
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.ndim == 0:
                return r.item()
            if r.size and all(isinstance(x, (bool, np.bool_)) for x in r.flat):
                return r.astype(bool)
            return r.view(SArr)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) if isinstance(x, np.ndarray) else x for x in r]
    return r


def asarr(x):
    """anything array-like -> object SArr"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(SArr)
        return x.astype(object).view(SArr)
    if hasattr(x, "to_numpy"):
        return np.asarray(x.to_numpy(), dtype=object).view(SArr)
    if isinstance(x, (SReal, SBool, int, float)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SArr)
    a = np.array(x, dtype=object) if not (isinstance(x, (list, tuple)) and len(x) and all(
        isinstance(v, np.ndarray) for v in x)) else np.array([plain(v).tolist() for v in x], dtype=object)
    return a.view(SArr)


def symbool_mask(m):
    return isinstance(m, np.ndarray) and m.dtype == object and m.size and any(isinstance(v, SBool) for v in m.flat)


def concretise_mask(m):
    r = np.empty(m.shape, dtype=bool)
    for i in np.ndindex(m.shape):
        r[i] = bool(m[i])
    return r


def _idx(k):
    if isinstance(k, tuple):
        return tuple(_idx(x) for x in k)
    if symbool_mask(k):
        return concretise_mask(plain(k))
    if isinstance(k, SBool):
        return bool(k)
    if isinstance(k, SReal):
        return int(k)
    if isinstance(k, np.ndarray) and k.dtype == object:
        p = plain(k)
        if p.size == 0:
            return p.astype(int)
        if all(isinstance(v, (bool, np.bool_)) for v in p.flat):
            return p.astype(bool)
        return np.array([int(v) for v in p.flat], dtype=int).reshape(p.shape)
    if isinstance(k, list) and any(isinstance(v, (SBool, SReal)) for v in k):
        if any(isinstance(v, SBool) for v in k):
            return [bool(v) for v in k]
        return [int(v) for v in k]
    return k


class SArr(np.ndarray):
    """object ndarray whose element operations are symbolic"""
    __array_priority__ = 400

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True, **kw):
        name = ufunc.__name__
        for x in inputs:
            t = type(x)
            if getattr(t, "__array_ufunc__", 0) is None:
                return NotImplemented
            if t.__module__.startswith("pandas") and t.__name__ in ("Series", "DataFrame", "Index"):
                return NotImplemented
        ins = [plain(x) for x in inputs]
        kw.pop("dtype", None)
        kw.pop("casting", None)
        kw.pop("subok", None)
        if name == "matmul" and method == "__call__":
            r = s_matmul(ins[0], ins[1])
            if out is not None:
                plain(out[0])[...] = r
                return out[0]
            return wrap(r)
        if name not in UF:
            if name in ("frompyfunc", "<lambda>") or ufunc.__class__ is np.ufunc and name not in dir(np):
                r = getattr(ufunc, method)(*ins, **kw)
                return wrap(r)
            raise SymEscape("numpy ufunc %s on symbolic data" % name)
        u = pyuf(name)
        ins = [x if isinstance(x, np.ndarray) or np.isscalar(x) or x is None else (asarr(x).view(np.ndarray) if isinstance(x, (list, tuple)) else x) for x in ins]
        ins = [x.astype(object) if isinstance(x, np.ndarray) and x.dtype != object else x for x in ins]
        if method == "__call__":
            if where is not True:
                w = np.broadcast_to(plain(where), np.broadcast(*[np.asarray(i, dtype=object) for i in ins]).shape)
                base = plain(out[0]).astype(object) if out is not None else np.full(w.shape, 0.0, dtype=object)
                full = np.broadcast_arrays(*[np.asarray(i, dtype=object) for i in ins])
                r = np.array(base, dtype=object, copy=True)
                for ix in np.ndindex(w.shape):
                    c = w[ix]
                    if isinstance(c, SBool):
                        r[ix] = ite(c, UF[name](*[f[ix] for f in full]), r[ix])
                    elif c:
                        r[ix] = UF[name](*[f[ix] for f in full])
            else:
                r = u(*ins)
            if out is not None:
                o = out[0]
                plain(o)[...] = r
                return o
            return wrap(r)
        if method == "reduce":
            axis = kw.get("axis", 0)
            keep = kw.get("keepdims", False)
            a = ins[0]
            init = kw.get("initial", None)
            if where is not True:
                a = np.where(plain(where), a, IDENT.get(name, 0)).astype(object)
            r = _reduce(u, name, a, axis, keep, init if init is not np._NoValue else None)
            return wrap(r)
        if method == "accumulate":
            a = ins[0]
            axis = kw.get("axis", 0)
            return wrap(u.accumulate(a, axis=axis).astype(object))
        if method == "outer":
            return wrap(u.outer(*[np.asarray(i, dtype=object) for i in ins]))
        raise SymEscape("ufunc method %s.%s" % (name, method))

    def __array_function__(self, func, types_, args, kwargs):
        f = NPF.get(func.__name__)
        mod = getattr(func, "__module__", "") or ""
        if "linalg" in mod and func.__name__ in LINALG:
            f = LINALG[func.__name__]
        elif "fft" in mod or "polynomial" in mod:
            raise SymEscape("numpy function %s" % func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        try:
            r = super().__array_function__(func, types_, args, kwargs)
        except SymEscape:
            raise
        return wrap(r)

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, _idx(k))
        return r

    def __setitem__(self, k, v):
        if symbool_mask(k):
            p = plain(self)
            m = np.broadcast_to(plain(k), self.shape) if k.shape == self.shape else plain(k)
            if isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.size > 1):
                mk = concretise_mask(plain(k))
                np.ndarray.__setitem__(self, mk, plain(v))
                return
            vv = v.item() if isinstance(v, np.ndarray) else v
            for ix in np.ndindex(m.shape):
                c = m[ix]
                if isinstance(c, SBool):
                    p[ix] = ite(c, vv, p[ix])
                elif c:
                    p[ix] = vv
            return
        if isinstance(v, np.ndarray) and v.dtype != object:
            v = v.astype(object)
        np.ndarray.__setitem__(self, _idx(k), plain(v))

    # ---- methods that bypass ufunc machinery
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return wrap(_reduce(pyuf("add"), "add", plain(self), axis, keepdims, None))

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return wrap(_reduce(pyuf("multiply"), "multiply", plain(self), axis, keepdims, None))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return wrap(_reduce(pyuf("maximum"), "maximum", plain(self), axis, keepdims, None))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return wrap(_reduce(pyuf("minimum"), "minimum", plain(self), axis, keepdims, None))

    def any(self, axis=None, out=None, keepdims=False, **k):
        return wrap(_reduce(pyuf("logical_or"), "logical_or", plain(self), axis, keepdims, None))

    def all(self, axis=None, out=None, keepdims=False, **k):
        return wrap(_reduce(pyuf("logical_and"), "logical_and", plain(self), axis, keepdims, None))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_mean(self, axis=axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return f_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return f_std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        a = plain(self)
        if axis is None:
            a, axis = a.ravel(), 0
        return wrap(pyuf("add").accumulate(a, axis=axis).astype(object))

    def cumprod(self, axis=None, dtype=None, out=None):
        a = plain(self)
        if axis is None:
            a, axis = a.ravel(), 0
        return wrap(pyuf("multiply").accumulate(a, axis=axis).astype(object))

    def dot(self, b, out=None):
        return f_dot(self, b)

    def round(self, decimals=0, out=None):
        return wrap(np.frompyfunc(lambda v: exact(v).round(decimals) if isinstance(exact(v), SReal) else v, 1, 1)(plain(self)))

    def clip(self, min=None, max=None, out=None, **k):
        return f_clip(self, min, max)

    def astype(self, dtype, *a, **k):
        if dtype in (int, "int", "int64", np.int64, np.int32) or (isinstance(dtype, type) and issubclass(dtype, np.integer)) \
                or getattr(dtype, "_symx_int", False):
            return wrap(np.frompyfunc(lambda v: UF["trunc"](v), 1, 1)(plain(self)))
        if dtype in (bool, "bool", np.bool_):
            return wrap(np.frompyfunc(_bool1, 1, 1)(plain(self)))
        if dtype in (str, "str"):
            return np.ndarray.astype(self, dtype, *a, **k)
        return self.copy()

    def argmax(self, axis=None, **k):
        return f_argmax(self, axis)

    def argmin(self, axis=None, **k):
        return f_argmax(-self, axis)

    def argsort(self, axis=-1, kind=None, **k):
        return f_argsort(self)

    def sort(self, axis=-1, **k):
        if self.ndim != 1:
            raise SymEscape("sort of nd symbolic array")
        o = f_argsort(self)
        self[:] = self[o].copy()

    def trace(self, *a, **k):
        return _sum1([self[i, i] for i in range(builtins.min(self.shape))])

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def ptp(self, **k):
        return self.max() - self.min()

    def tolist(self):
        return np.ndarray.tolist(self)

    def __float__(self):
        return float(self.item())

    def __bool__(self):
        if self.size == 1:
            return bool(self.item())
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __reduce__(self):
        raise SymEscape("pickling symbolic array")

    def __deepcopy__(self, memo):
        return self.copy()


def _sum1(xs):
    t = 0
    for x in xs:
        t = s_add(t, x)
    return t


def _reduce(u, name, a, axis, keep, init):
    a = np.asarray(a)
    if a.dtype != object:
        a = a.astype(object)
    if name in ("logical_or", "logical_and"):
        a = np.frompyfunc(_bool1, 1, 1)(a) if a.size else a
        if not isinstance(a, np.ndarray):
            a = np.asarray(a, dtype=object)

    def red(v):
        v = list(v)
        if not v:
            if name in IDENT:
                return IDENT[name] if init is None else init
            if init is not None:
                return init
            raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
        t = v[0] if init is None else UF[name](init, v[0])
        f = UF[name]
        for x in v[1:]:
            t = f(t, x)
        return exact(t) if name in ("add", "multiply") else t
    if axis is None:
        r = red(a.ravel())
        if keep:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return o
        return r
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = np.asarray(_reduce(u, name, a, ax, keep, init), dtype=object)
        return a
    axis = axis % a.ndim if a.ndim else 0
    if a.ndim == 0:
        return a.item()
    if a.ndim == 1:
        r = red(a)
        if keep:
            o = np.empty((1,), dtype=object)
            o[0] = r
            return o
        return r
    m = np.moveaxis(a, axis, 0)
    o = np.empty(m.shape[1:], dtype=object)
    for ix in np.ndindex(*m.shape[1:]):
        o[ix] = red(m[(slice(None),) + ix])
    return np.expand_dims(o, axis) if keep else o


def s_matmul(a, b):
    a = np.asarray(plain(a) if not hasattr(a, "to_numpy") else a.to_numpy())
    b = np.asarray(plain(b) if not hasattr(b, "to_numpy") else b.to_numpy())
    a = a.astype(object) if a.dtype != object else a
    b = b.astype(object) if b.dtype != object else b
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    a2 = a[None, :] if a.ndim == 1 else a
    b2 = b[:, None] if b.ndim == 1 else b
    if a2.ndim != 2 or b2.ndim != 2:
        raise SymEscape("matmul of >2d symbolic arrays")
    if a2.shape[1] != b2.shape[0]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)"
                         % (b2.shape[0], a2.shape[1]))
    r = np.empty((a2.shape[0], b2.shape[1]), dtype=object)
    for i in range(a2.shape[0]):
        for j in range(b2.shape[1]):
            t = SReal(C.ZERO)
            for k in range(a2.shape[1]):
                t = s_add(t, s_mul(a2[i, k], b2[k, j]))
            r[i, j] = t
    if a.ndim == 1 and b.ndim == 1:
        return r[0, 0]
    if a.ndim == 1:
        return r[0]
    if b.ndim == 1:
        return r[:, 0]
    return r


# ---------------------------------------------------------------- numpy functions
def _a(x):
    return asarr(x)


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = _a(a)
    s = _reduce(pyuf("add"), "add", plain(a), axis, keepdims, None)
    n = a.size if axis is None else (a.shape[axis] if not isinstance(axis, tuple) else int(np.prod([a.shape[i] for i in axis])))
    if n == 0:
        return math.nan
    return wrap(pyuf("divide")(s, n)) if isinstance(s, np.ndarray) else s_div(s, n)


def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = _a(a)
    ax = axis
    m = _reduce(pyuf("add"), "add", plain(a), ax, True, None)
    n = a.size if ax is None else a.shape[ax]
    m = pyuf("divide")(m, n)
    d = pyuf("subtract")(plain(a), m)
    s = _reduce(pyuf("add"), "add", pyuf("multiply")(d, d), ax, keepdims, None)
    return wrap(pyuf("divide")(s, n - ddof)) if isinstance(s, np.ndarray) else s_div(s, n - ddof)


def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    v = f_var(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return wrap(pyuf("sqrt")(plain(v))) if isinstance(v, np.ndarray) else s_sqrt(v)


def f_dot(a, b, out=None):
    if np.isscalar(a) or np.isscalar(b) or getattr(a, "ndim", 1) == 0 or getattr(b, "ndim", 1) == 0:
        return wrap(np.multiply(_a(a) if not isinstance(a, SArr) else a, b))
    pd_like = [x for x in (a, b) if hasattr(x, "to_numpy")]
    if pd_like:
        return wrap(s_matmul(a, b))
    return wrap(s_matmul(_a(a), _a(b)))


def f_matmul(a, b, **k):
    for x in (a, b):
        if getattr(type(x), "__array_ufunc__", 0) is None:
            return a @ b
    return f_dot(a, b)


def f_where(c, x=None, y=None):
    if x is None:
        cc = _a(c)
        m = concretise_mask(plain(cc)) if cc.dtype == object else plain(cc)
        return np.where(m)
    c, x, y = np.broadcast_arrays(plain(_a(c)), plain(_a(x)), plain(_a(y)))
    r = np.empty(c.shape, dtype=object)
    for ix in np.ndindex(c.shape):
        r[ix] = ite(_bool1(c[ix]), x[ix], y[ix])
    return wrap(r)


def f_issubdtype(a, b):
    """arrays of symbolic reals have dtype object and stand for float arrays"""
    try:
        if np.dtype(a) == np.dtype(object) and b is not object and isinstance(b, type) and issubclass(b, np.generic):
            return np.issubdtype(np.float64, b)
    except TypeError:
        pass
    return np.issubdtype(a, b)


def f_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = plain(_a(a))
    if lo is not None:
        r = pyuf("maximum")(r, plain(lo) if not hasattr(lo, "to_numpy") else lo.to_numpy())
    if hi is not None:
        r = pyuf("minimum")(r, plain(hi) if not hasattr(hi, "to_numpy") else hi.to_numpy())
    if hasattr(a, "to_numpy"):
        if a.ndim == 2:
            return type(a)(wrap(r), index=a.index, columns=a.columns)
        return type(a)(list(r), index=a.index, name=getattr(a, "name", None))
    return wrap(r)


def f_argmax(a, axis=None, **k):
    a = _a(a)
    if axis is not None and a.ndim > 1:
        raise SymEscape("argmax along axis")
    v = [exact(x) for x in plain(a).ravel()]
    best = None
    for i, x in enumerate(v):
        if isnan1(x):
            return i
    for i, x in enumerate(v):
        if best is None or bool(x > v[best]):
            best = i
    if best is None:
        raise ValueError("attempt to get argmax of an empty sequence")
    return best


def f_argmin(a, axis=None, **k):
    return f_argmax(-_a(a), axis)


def f_nanargmax(a, axis=None, **k):
    v = [exact(x) for x in plain(_a(a)).ravel()]
    best = None
    for i, x in enumerate(v):
        if not isnan1(x) and (best is None or bool(x > v[best])):
            best = i
    if best is None:
        raise ValueError("All-NaN slice encountered")
    return best


def f_argsort(a, axis=-1, kind=None, order=None, **k):
    import functools
    if isinstance(a, SStruct):
        names = ([order] if isinstance(order, str) else list(order or [])) or [a.dtype.names[0]]
        a = a[names[0]]
    v = [exact(x) for x in plain(_a(a)).ravel()]

    def cmp(i, j):
        if bool(v[i] < v[j]):
            return -1
        if bool(v[j] < v[i]):
            return 1
        return i - j
    return np.array(sorted(range(len(v)), key=functools.cmp_to_key(cmp)), dtype=int)


def f_sort(a, axis=-1, kind=None, order=None, **k):
    if isinstance(a, SStruct):
        r = a.copy()
        r.sort(order=order)
        return r
    r = _a(a).copy()
    r.sort()
    return r


def f_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = np.broadcast_arrays(plain(_a(a)), plain(_a(b)))
    out = True
    for x, y in zip(a.ravel(), b.ravel()):
        out = b_and(out, f_isclose1(x, y, rtol, atol))
    return out


def f_isclose1(x, y, rtol, atol):
    x, y = exact(x), exact(y)
    if not _fin(x) or not _fin(y):
        return x == y if not (isinstance(x, SReal) or isinstance(y, SReal)) else False
    return abs(x - y) <= atol + rtol * abs(y)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return wrap(np.frompyfunc(lambda x, y: f_isclose1(x, y, rtol, atol), 2, 1)(plain(_a(a)), plain(_a(b))))


def f_outer(a, b, out=None):
    return wrap(pyuf("multiply").outer(plain(_a(a)).ravel(), plain(_a(b)).ravel()))


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def g(v):
        if v is None:
            raise TypeError("None")
        if isnan1(v):
            return nan
        if isinf1(v):
            if v > 0:
                return posinf if posinf is not None else 1.7976931348623157e308
            return neginf if neginf is not None else -1.7976931348623157e308
        return v
    if isinstance(x, (SReal, int, float)):
        return g(x)
    return wrap(np.frompyfunc(g, 1, 1)(plain(_a(x))))


def f_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    X = _a(m)
    if X.ndim == 1:
        X = X[None, :]
    if not rowvar and X.shape[0] != 1:
        X = X.T
    if y is not None:
        yy = _a(y)
        if yy.ndim == 1:
            yy = yy[None, :]
        elif not rowvar:
            yy = yy.T
        X = np.concatenate([plain(X), plain(yy)]).view(SArr)
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    mu = f_mean(X, axis=1, keepdims=True)
    d = X - mu
    r = s_matmul(plain(d), plain(d.T))
    r = pyuf("divide")(r, n - ddof)
    return wrap(r) if r.shape != (1, 1) else r[0, 0]


def f_corrcoef(x, y=None, rowvar=True, **k):
    c = plain(_a(f_cov(x, y, rowvar)))
    if c.ndim == 0:
        return 1
    r = np.empty_like(c)
    for i in range(len(c)):
        for j in range(len(c)):
            r[i, j] = s_div(c[i, j], s_mul(s_sqrt(c[i, i]), s_sqrt(c[j, j]))) if i != j else SReal(C.ONE)
    return wrap(r)


def f_average(a, axis=None, weights=None, returned=False, **k):
    a = _a(a)
    if weights is None:
        return f_mean(a, axis)
    w = _a(weights)
    if axis is not None and a.ndim > 1:
        w2 = w if w.ndim == a.ndim else (w[:, None] if axis == 0 else w[None, :])
        s = (a * w2).sum(axis=axis)
        return s / w.sum()
    return (a * w).sum() / w.sum()


def f_median(a, axis=None, **k):
    raise SymEscape("median")


def f_percentile(*a, **k):
    raise SymEscape("percentile/quantile of symbolic data")


def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
    num = int(num)
    if has_sym(start) or has_sym(stop):
        div = (num - 1) if endpoint else num
        a, b = exact(start), exact(stop)
        step = s_div(b - a, div) if div > 0 else math.nan
        v = [a + step * i for i in range(num)]
        if endpoint and num > 1:
            v[-1] = b
        o = np.empty(num, dtype=object)
        o[:] = v
        return (o.view(SArr), step) if retstep else o.view(SArr)
    return np.linspace(plainf(start), plainf(stop), num, endpoint=endpoint, retstep=retstep, dtype=dtype)


def f_arange(*a, **k):
    if any(has_sym(x) for x in a):
        if k:
            raise SymEscape("arange kw")
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        out = []
        x = exact(start)
        n = 0
        while bool(x < stop):
            out.append(x)
            x = x + step
            n += 1
            if n > 200:
                raise SymEscape("arange too long")
        o = np.empty(len(out), dtype=object)
        o[:] = out
        return o.view(SArr)
    return np.arange(*[plainf(x) for x in a], **{kk: v for kk, v in k.items() if kk != "dtype" or not getattr(v, "_symx", 0)})


def plainf(x):
    if isinstance(x, SReal):
        return float(x)
    return x


def _dt(dtype):
    """map dtype requests: None/float -> object"""
    if dtype is None:
        return object
    if getattr(dtype, "_symx_float", False) or dtype in (float, "float", "float64", "f8", np.float64, np.floating):
        return object
    if getattr(dtype, "_symx_int", False):
        return int
    if isinstance(dtype, list):
        return [(n, _dt(t)) if len(x) == 2 else (n, _dt(t)) + tuple(x[2:]) for x in dtype for n, t in [x[:2]]]
    return dtype


def _shape(s):
    if isinstance(s, SReal):
        return int(s)
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    return s


def f_zeros(shape, dtype=None, *a, **k):
    d = _dt(dtype)
    if d is object:
        o = np.empty(_shape(shape), dtype=object)
        o[...] = SReal(C.ZERO)
        return o.view(SArr)
    if isinstance(d, list):
        o = np.zeros(_shape(shape), dtype=d)
        return o.view(SStruct) if any(t is object for _, t, *r in d) else o
    return np.zeros(_shape(shape), dtype=d)


def f_ones(shape, dtype=None, *a, **k):
    d = _dt(dtype)
    if d is object:
        o = np.empty(_shape(shape), dtype=object)
        o[...] = SReal(C.ONE)
        return o.view(SArr)
    return np.ones(_shape(shape), dtype=d)


def f_empty(shape, dtype=None, *a, **k):
    return f_zeros(shape, dtype)


def f_full(shape, fill_value, dtype=None, *a, **k):
    if isinstance(fill_value, (bool, np.bool_)) and dtype is None:
        return np.full(_shape(shape), fill_value)
    o = np.empty(_shape(shape), dtype=object)
    o[...] = plain(fill_value) if not isinstance(fill_value, (list, tuple)) else np.array(fill_value, dtype=object)
    return o.view(SArr)


def f_eye(N, M=None, k=0, dtype=None, **kw):
    e = np.eye(int(N), None if M is None else int(M), k)
    o = np.empty(e.shape, dtype=object)
    for ix in np.ndindex(e.shape):
        o[ix] = SReal(C.ONE if e[ix] else C.ZERO)
    return o.view(SArr)


def f_identity(n, dtype=None, **kw):
    return f_eye(n)


def f_like(f):
    def g(a, dtype=None, *r, shape=None, **k):
        if isinstance(a, np.ndarray) and a.dtype.kind in "bSU" and dtype is None:
            return getattr(np, f)(a)
        if hasattr(a, "to_numpy"):
            a = a.to_numpy()
        sh = shape if shape is not None else np.shape(a)
        if dtype in (bool, np.bool_):
            return getattr(np, f)(np.empty(sh), dtype=bool)
        return {"zeros_like": f_zeros, "ones_like": f_ones, "empty_like": f_zeros}[f](sh)
    return g


def f_full_like(a, fill_value, **k):
    return f_full(np.shape(a), fill_value)


def f_array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, types.GeneratorType):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if dtype is not None and not getattr(dtype, "_symx_float", False) and dtype not in (float, object, np.float64, "float", "float64"):
        if getattr(dtype, "_symx_int", False):
            dtype = int
        return wrap(np.array(plain(x), dtype=dtype, copy=True, ndmin=ndmin))
    if isinstance(x, SStruct):
        return x.copy()
    isf = dtype is not None and dtype is not object
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "bSUM" and not isf or x.dtype.names:
            return np.array(x, copy=True)
        r = np.array(plain(x).astype(object) if x.dtype != object else plain(x), dtype=object, copy=True)
    elif hasattr(x, "to_numpy"):
        v = x.to_numpy()
        if v.dtype.kind in "bSUM" and not isf:
            return np.array(v, copy=True)
        r = np.array(plain(v), dtype=object, copy=True)
    else:
        probe = None
        if not has_sym_deep(x):
            probe = np.array(_deplain(x), **({} if not isf else {"dtype": float}))
            if probe.dtype.kind in "bSUM" or probe.dtype.names or (probe.dtype == object and not isf):
                if probe.dtype == object:
                    return wrap(probe)
                return probe
            if probe.dtype.kind == "i":
                return probe
            r = probe.astype(object)
        else:
            r = np.array(_deplain(x), dtype=object)
    if isf:
        r = np.frompyfunc(lambda v: math.nan if v is None else (exact(v) if isinstance(v, (int, float, SReal, np.number)) else _tofloat(v)), 1, 1)(r)
        if not isinstance(r, np.ndarray):
            o = np.empty((), dtype=object)
            o[()] = r
            r = o
    else:
        r = np.frompyfunc(exact, 1, 1)(r) if r.ndim else r
    while r.ndim < ndmin:
        r = r[None]
    return r.view(SArr) if r.ndim else r.view(SArr)


def _tofloat(v):
    return exact(float(v))


def has_sym_deep(x):
    if isinstance(x, (SReal, SBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and has_sym(x)
    if isinstance(x, (list, tuple)):
        return any(has_sym_deep(v) for v in x)
    if hasattr(x, "to_numpy"):
        return has_sym(x.to_numpy())
    return False


def _deplain(x):
    if isinstance(x, (list, tuple)):
        if len(x) and all(isinstance(v, np.ndarray) for v in x):
            return [plain(v).tolist() for v in x]
        return [_deplain(v) for v in x]
    if hasattr(x, "keys"):
        return x
    if type(x).__module__ == "builtins" and type(x).__name__ in ("dict_values", "dict_keys", "set", "range", "map", "zip"):
        return x
    return plain(x)


def f_asarray(x, dtype=None, *a, **k):
    if isinstance(x, SArr) and (dtype is None or _dt(dtype) is object):
        return x
    if isinstance(x, np.ndarray) and dtype is None:
        return wrap(x)
    if hasattr(x, "to_numpy") and dtype is None:
        return wrap(x.to_numpy())
    return f_array(x, dtype=dtype)


def f_fromiter(it, dtype=None, count=-1, **k):
    v = list(it)
    o = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        o[i] = exact(x)
    return o.view(SArr)


def f_vstack(tup, **k):
    return wrap(np.concatenate([np.atleast_2d(plain(_a(x))) for x in tup], axis=0))


def f_hstack(tup, **k):
    xs = [np.atleast_1d(plain(_a(x))) for x in tup]
    return wrap(np.concatenate(xs, axis=0 if xs[0].ndim == 1 else 1))


def f_concatenate(tup, axis=0, **k):
    xs = [plain(_a(x)) if not (isinstance(x, np.ndarray) and x.dtype.kind in "biSU") else x for x in tup]
    return wrap(np.concatenate(xs, axis=axis))


def f_stack(tup, axis=0, **k):
    return wrap(np.stack([plain(_a(x)) for x in tup], axis=axis))


def f_column_stack(tup, **k):
    return wrap(np.column_stack([plain(_a(x)) for x in tup]))


def f_append(a, v, axis=None):
    if axis is None:
        return wrap(np.concatenate([plain(_a(a)).ravel(), plain(_a(v)).ravel()]))
    return wrap(np.append(plain(_a(a)), plain(_a(v)), axis=axis))


def _redf(name):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **k):
        if hasattr(a, "to_numpy"):
            nm = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_or": "any", "logical_and": "all"}[name]
            if a.ndim == 2:
                return getattr(a, nm)(axis=axis)
            return getattr(a, nm)()
        if isinstance(a, types.GeneratorType):
            a = list(a)
        if isinstance(a, (SReal, SBool)):
            return a
        a = _a(a)
        if where is not True:
            a = np.where(plain(where), plain(a), IDENT.get(name, 0)).astype(object)
        return wrap(_reduce(pyuf(name), name, plain(a), axis, keepdims, initial))
    return f


def _nanred(name):
    def f(a, axis=None, **k):
        a = plain(_a(a))
        m = np.frompyfunc(isnan1, 1, 1)(a).astype(bool)
        if name in ("add", "multiply"):
            b = np.where(m, 0 if name == "add" else 1, a).astype(object)
            return wrap(_reduce(pyuf(name), name, b, axis, False, None))
        if axis is None:
            return wrap(_reduce(pyuf(name), name, a[~m], None, False, None))
        raise SymEscape("nan reduction with axis")
    return f


def f_nanmean(a, axis=None, **k):
    a = plain(_a(a))
    m = np.frompyfunc(isnan1, 1, 1)(a).astype(bool)
    b = np.where(m, 0, a).astype(object)
    s = _reduce(pyuf("add"), "add", b, axis, False, None)
    n = (~m).sum(axis=axis)
    return wrap(pyuf("divide")(s, n.astype(object) if isinstance(n, np.ndarray) else int(n)))


def f_diag(v, k=0):
    if hasattr(v, "to_numpy"):
        v = v.to_numpy()
    v = _a(v)
    if v.ndim == 1:
        n = len(v) + abs(k)
        o = f_zeros((n, n))
        for i in range(len(v)):
            o[i + max_(0, -k), i + max_(0, k)] = v[i]
        return o
    return wrap(np.diag(plain(v), k).copy())


def max_(a, b):
    return a if a > b else b


def f_diagonal(a, *r, **k):
    return wrap(np.diagonal(plain(_a(a)), *r, **k))


def f_fill_diagonal(a, val, wrap=False):
    v = plain(val) if isinstance(val, np.ndarray) else val
    p = plain(a)
    for i in range(builtins.min(p.shape)):
        p[i, i] = v[i] if isinstance(v, (np.ndarray, list, tuple)) else v


def f_trace(a, **k):
    return _a(a).trace()


def f_round(a, decimals=0, out=None):
    if hasattr(a, "to_numpy"):
        return a.round(decimals)
    if isinstance(a, (SReal,)):
        return a.round(decimals)
    if isinstance(a, (int, float)) and not isinstance(a, SReal):
        return np.round(a, decimals)
    return _a(a).round(decimals)


def f_array_equal(a, b, **k):
    a, b = _a(a), _a(b)
    if a.shape != b.shape:
        return False
    return b_and(*[(x == y) if True else 0 for x, y in zip(map(exact, plain(a).ravel()), map(exact, plain(b).ravel()))])


def f_einsum(sub, *ops, **k):
    ops = [plain(_a(o)) for o in ops]
    ins, out = (sub.replace(" ", "").split("->") + [None])[:2]
    ins = ins.split(",")
    if out is None:
        allc = "".join(ins)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in out]
    r = np.empty([dims[c] for c in out], dtype=object)
    for ix in np.ndindex(*[dims[c] for c in out]):
        e = dict(zip(out, ix))
        t = SReal(C.ZERO)
        for jx in np.ndindex(*[dims[c] for c in summed]):
            e.update(zip(summed, jx))
            p = SReal(C.ONE)
            for s, o in zip(ins, ops):
                p = s_mul(p, o[tuple(e[c] for c in s)])
            t = s_add(t, p)
        r[ix] = t
    return wrap(r) if r.ndim else r.item()


def f_inner(a, b):
    a, b = _a(a), _a(b)
    return f_dot(a, b.T if b.ndim > 1 else b)


def f_diff(a, n=1, axis=-1, **k):
    a = _a(a)
    for _ in range(n):
        if a.ndim == 1:
            a = a[1:] - a[:-1]
        elif axis % a.ndim == 0:
            a = a[1:] - a[:-1]
        else:
            a = a[..., 1:] - a[..., :-1]
    return a


def f_isnan(x):
    if isinstance(x, (SReal, SBool)):
        return False
    if hasattr(x, "to_numpy"):
        return x.isnull()
    if isinstance(x, (int, float)):
        return np.isnan(x)
    return wrap(pyuf("isnan")(plain(_a(x))))


def f_isscalar(x):
    return isinstance(x, (SReal, SBool)) or np.isscalar(x)


def f_tile(a, reps):
    return wrap(np.tile(plain(_a(a)), reps))


def f_repeat(a, n, axis=None):
    return wrap(np.repeat(plain(_a(a)), n, axis=axis))


def f_triu(m, k=0):
    m = _a(m)
    o = f_zeros(m.shape)
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            if j - i >= k:
                o[i, j] = m[i, j]
    return o


def f_tril(m, k=0):
    m = _a(m)
    o = f_zeros(m.shape)
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            if j - i <= k:
                o[i, j] = m[i, j]
    return o


def f_cumsum(a, axis=None, **k):
    if hasattr(a, "to_numpy"):
        return a.cumsum()
    return _a(a).cumsum(axis)


def f_cumprod(a, axis=None, **k):
    if hasattr(a, "to_numpy"):
        return a.cumprod()
    return _a(a).cumprod(axis)


def f_ravel(a, *r, **k):
    return _a(a).ravel()


def f_piecewise(*a, **k):
    raise SymEscape("piecewise")


def f_unique(a, *r, **k):
    if has_sym_deep(a):
        raise SymEscape("unique of symbolic data")
    return np.unique(plain(a), *r, **k)


def f_count_nonzero(a, **k):
    t = 0
    for v in plain(_a(a)).ravel():
        b = _bool1(v)
        t = t + (ite(b, 1, 0))
    return t


def f_flatnonzero(a):
    m = plain(_a(a))
    return np.flatnonzero(concretise_mask(np.frompyfunc(_bool1, 1, 1)(m)) if m.dtype == object else m)


def f_nonzero(a):
    m = plain(_a(a))
    return np.nonzero(concretise_mask(np.frompyfunc(_bool1, 1, 1)(m)))


def f_vectorize(f, *a, **k):
    u = np.frompyfunc(f, 1, 1)
    return lambda x: wrap(u(plain(_a(x))))


def f_apply_along_axis(f, axis, arr, *a, **k):
    arr = _a(arr)
    rows = arr if axis in (1, -1) else arr.T
    return f_array([f(r, *a, **k) for r in rows])


NPF = {
    "mean": f_mean, "var": f_var, "std": f_std, "dot": f_dot, "matmul": f_matmul, "vdot": f_dot, "where": f_where, "clip": f_clip,
    "argmax": f_argmax, "argmin": f_argmin, "nanargmax": f_nanargmax, "argsort": f_argsort, "sort": f_sort, "allclose": f_allclose,
    "issubdtype": f_issubdtype, "isclose": f_isclose, "outer": f_outer, "nan_to_num": f_nan_to_num, "cov": f_cov, "corrcoef": f_corrcoef,
    "average": f_average, "median": f_median, "percentile": f_percentile, "quantile": f_percentile, "linspace": f_linspace,
    "arange": f_arange, "zeros": f_zeros, "ones": f_ones, "empty": f_empty, "full": f_full, "eye": f_eye, "identity": f_identity,
    "zeros_like": f_like("zeros_like"), "ones_like": f_like("ones_like"), "empty_like": f_like("empty_like"),
    "full_like": f_full_like, "array": f_array, "asarray": f_asarray, "asanyarray": f_asarray, "ascontiguousarray": f_asarray,
    "fromiter": f_fromiter, "vstack": f_vstack, "hstack": f_hstack, "row_stack": f_vstack, "concatenate": f_concatenate, "stack": f_stack,
    "column_stack": f_column_stack, "append": f_append, "sum": _redf("add"), "prod": _redf("multiply"), "amax": _redf("maximum"),
    "amin": _redf("minimum"), "max": _redf("maximum"), "min": _redf("minimum"), "any": _redf("logical_or"), "all": _redf("logical_and"),
    "nansum": _nanred("add"), "nanprod": _nanred("multiply"), "nanmax": _nanred("maximum"), "nanmin": _nanred("minimum"),
    "nanmean": f_nanmean, "diag": f_diag, "diagonal": f_diagonal, "fill_diagonal": f_fill_diagonal, "trace": f_trace,
    "round": f_round, "around": f_round, "round_": f_round, "array_equal": f_array_equal, "einsum": f_einsum, "inner": f_inner,
    "diff": f_diff, "isscalar": f_isscalar, "tile": f_tile, "repeat": f_repeat, "triu": f_triu, "tril": f_tril,
    "cumsum": f_cumsum, "cumprod": f_cumprod, "ravel": f_ravel, "unique": f_unique, "count_nonzero": f_count_nonzero,
    "flatnonzero": f_flatnonzero, "nonzero": f_nonzero, "vectorize": f_vectorize, "apply_along_axis": f_apply_along_axis, "piecewise": f_piecewise,
}


def _uff(name):
    f = UF[name]

    def g(*args, **kw):
        if any(type(a).__module__.startswith("pandas") for a in args):
            # pandas containers: operate on values, keep labels
            if len(args) == 1:
                a = args[0]
                if a.ndim == 2:
                    return type(a)(wrap(pyuf(name)(plain(a.to_numpy()).astype(object))), index=a.index, columns=a.columns)
                return type(a)(list(pyuf(name)(plain(a.to_numpy()).astype(object))), index=a.index, name=getattr(a, "name", None))
            ops = {"add": "__add__", "subtract": "__sub__", "multiply": "__mul__", "divide": "__truediv__", "true_divide": "__truediv__",
                   "power": "__pow__", "less": "__lt__", "greater": "__gt__", "less_equal": "__le__", "greater_equal": "__ge__"}
            a, b = args[:2]
            if type(a).__module__.startswith("pandas") and name in ops:
                return getattr(a, ops[name])(b)
            base = a if type(a).__module__.startswith("pandas") else b
            va = a.to_numpy() if hasattr(a, "to_numpy") else a
            vb = b.to_numpy() if hasattr(b, "to_numpy") else b
            r = pyuf(name)(plain(va), plain(vb))
            if base.ndim == 2:
                return type(base)(wrap(r), index=base.index, columns=base.columns)
            return type(base)(list(r), index=base.index, name=getattr(base, "name", None))
        if any(getattr(type(a), "__array_ufunc__", 0) is None for a in args):
            return getattr(np, name)(*args, **kw)
        if all(not isinstance(a, (np.ndarray, list, tuple)) for a in args) and not kw:
            return f(*args)
        ar = [a if isinstance(a, SArr) or not isinstance(a, (np.ndarray, list, tuple)) else asarr(a) for a in args]
        return getattr(np, name)(*ar, **kw)
    g.__name__ = name
    class _U:
        pass
    u = UFacade(name, g)
    return u


class UFacade:
    def __init__(self, name, g):
        self.__name__ = name
        self.g = g

    def __call__(self, *a, **k):
        return self.g(*a, **k)

    def reduce(self, a, axis=0, **k):
        return getattr(np, self.__name__).reduce(asarr(a), axis=axis)

    def accumulate(self, a, axis=0, **k):
        return getattr(np, self.__name__).accumulate(asarr(a), axis=axis)

    def outer(self, a, b, **k):
        return wrap(pyuf(self.__name__).outer(plain(asarr(a)), plain(asarr(b))))


class SStruct(np.ndarray):
    """structured array with object fields (used by code that sorts (id, value) records)"""

    def sort(self, axis=-1, kind=None, order=None, **k):
        if order is None:
            keys = list(self.dtype.names)
        else:
            keys = [order] if isinstance(order, str) else list(order)
        import functools
        rows = [tuple(np.ndarray.__getitem__(self, i)) for i in range(len(self))]
        pos = [self.dtype.names.index(kx) for kx in keys]

        def cmp(a, b):
            for p in pos:
                x, y = exact(a[p]), exact(b[p])
                if bool(x < y):
                    return -1
                if bool(y < x):
                    return 1
            return 0
        rows.sort(key=functools.cmp_to_key(cmp))
        for i, r in enumerate(rows):
            np.ndarray.__setitem__(self, i, r)

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, k)
        if isinstance(r, np.ndarray) and r.dtype == object:
            return r.view(np.ndarray).view(SArr)
        return r


# ---------------------------------------------------------------- linear algebra
class LinAlgError(np.linalg.LinAlgError):
    pass


def det(A):
    A = plain(_a(A))
    n = A.shape[0]
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return _det([[exact(A[i, j]) for j in range(n)] for i in range(n)])


def _det(M):
    n = len(M)
    if n == 0:
        return SReal(C.ONE)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    # expand along the row with most zeros
    best, bz = 0, -1
    for i in range(n):
        z = sum(1 for x in M[i] if isinstance(x, SReal) and not x.r.num)
        if z > bz:
            best, bz = i, z
    t = SReal(C.ZERO)
    for j in range(n):
        x = M[best][j]
        if isinstance(x, SReal) and not x.r.num:
            continue
        minor = [r[:j] + r[j + 1:] for i, r in enumerate(M) if i != best]
        d = _det(minor)
        t = t + x * d if (best + j) % 2 == 0 else t - x * d
    return t


def _sq(A):
    A = plain(_a(A))
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return A


def _nonsingular(d):
    """assume or fork on det != 0"""
    if not isinstance(d, SReal):
        raise np.linalg.LinAlgError("Singular matrix")
    if d.r.isconst():
        if not d.r.num:
            raise np.linalg.LinAlgError("Singular matrix")
        return
    ex = C.ACTIVE[0]
    if ex is not None and ex.opts.get("singular") == "fork":
        if bool(d == 0):
            raise np.linalg.LinAlgError("Singular matrix")


def _numlist(A):
    return [[exact(A[i, j]) for j in range(A.shape[1])] for i in range(A.shape[0])]


def la_inv(A):
    import pandas as pd
    A = _sq(A)
    n = A.shape[0]
    M = _numlist(A)
    if n > 4 or sum(1 for r in M for x in r if not x.r.isconst()) == 0:
        return la_solve(A, f_eye(n))
    d = _det(M)
    _nonsingular(d)
    R = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for k, r in enumerate(M) if k != i]
            c = _det(minor)
            R[j, i] = (c if (i + j) % 2 == 0 else -c) / d
    return R.view(SArr)


def la_solve(A, b):
    A = _sq(A)
    n = A.shape[0]
    B = plain(_a(b))
    vec = B.ndim == 1
    if vec:
        B = B[:, None]
    if B.shape[0] != n:
        raise ValueError("solve: Input operand 1 has a mismatch in its core dimension 0")
    M = _numlist(A)
    if n <= 4 and any(isinstance(x, SReal) and not x.r.isconst() for r in M for x in r):
        inv = la_inv(A)
        r = s_matmul(plain(inv), B)
        return wrap(r[:, 0] if vec else r)
    X = [[exact(x) for x in B[i]] for i in range(n)]
    for c in range(n):
        p = None
        for r in range(c, n):
            if M[r][c].r.isconst() and M[r][c].r.num:
                p = r
                break
        if p is None:
            for r in range(c, n):
                if M[r][c].r.num:
                    p = r
                    _nonsingular(M[r][c])
                    break
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        M[c], M[p] = M[p], M[c]
        X[c], X[p] = X[p], X[c]
        pv = M[c][c]
        M[c] = [x / pv for x in M[c]]
        X[c] = [x / pv for x in X[c]]
        for r in range(n):
            if r != c and M[r][c].r.num:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
                X[r] = [x - f * y for x, y in zip(X[r], X[c])]
    R = np.array(X, dtype=object).reshape(n, -1)
    return wrap(R[:, 0] if vec else R)


def la_pinv(A, *a, **k):
    """Moore-Penrose inverse; exact for nonsingular matrices (assumed / forked)"""
    hook = getattr(C.ACTIVE[0], "pinv_hook", None) if C.ACTIVE[0] is not None else None
    if hook is not None:
        r = hook(A)
        if r is not None:
            return r
    A = plain(_a(A))
    M = _numlist(A)
    if all(x.r.isconst() for r in M for x in r):
        F = np.array([[float(x) for x in r] for r in M])
        P = np.linalg.pinv(F)
        if A.shape[0] == A.shape[1]:
            d = _det(M)
            if d.r.num:
                return la_inv(A)
        return wrap(np.frompyfunc(exact, 1, 1)(P.astype(object)))
    return la_inv(A)


def _rank_factor(M):
    """M = B C with B of full column rank and C of full row rank, by row reduction; entries that are
    not identically zero are pivots (assumed or forked nonzero)"""
    m, n = len(M), len(M[0])
    R = [list(r) for r in M]
    piv, row = [], 0
    for c in range(n):
        p = next((r for r in range(row, m) if R[r][c].r.isconst() and R[r][c].r.num), None)
        if p is None:
            p = next((r for r in range(row, m) if R[r][c].r.num), None)
            if p is None:
                continue
            _nonsingular(R[p][c])
        R[row], R[p] = R[p], R[row]
        pv = R[row][c]
        R[row] = [x / pv for x in R[row]]
        for r in range(m):
            if r != row and R[r][c].r.num:
                f = R[r][c]
                R[r] = [x - f * y for x, y in zip(R[r], R[row])]
        piv.append(c)
        row += 1
        if row == m:
            break
    return [[M[i][c] for c in piv] for i in range(m)], R[:row]


def _pinv(A):
    """Moore-Penrose inverse C'(CC')^-1 (B'B)^-1 B' of A = BC"""
    M = _numlist(A)
    B, Cm = _rank_factor(M)
    if not Cm:
        return np.zeros((A.shape[1], A.shape[0]))
    B, Cm = np.array(B, dtype=object), np.array(Cm, dtype=object)
    P = s_matmul(plain(la_inv(wrap(s_matmul(Cm, Cm.T)))), plain(la_inv(wrap(s_matmul(B.T, B)))))
    return s_matmul(s_matmul(Cm.T, P), B.T)


def la_lstsq(A, b, rcond=None):
    A_, B_ = plain(_a(A)), plain(_a(b))
    if A_.ndim != 2:
        raise np.linalg.LinAlgError("%d-dimensional array given. Array must be two-dimensional" % A_.ndim)
    if B_.shape[0] != A_.shape[0]:
        raise np.linalg.LinAlgError("Incompatible dimensions")
    hook = getattr(C.ACTIVE[0], "lstsq_hook", None) if C.ACTIVE[0] is not None else None
    if hook is not None:
        r = hook(A, b)
        if r is not None:
            return r
    P = _pinv(A_)
    return wrap(s_matmul(P, B_)), np.array([]), len(_rank_factor(_numlist(A_))[1]), None


def la_norm(x, ord=None, axis=None, keepdims=False):
    x = _a(x)
    if axis is not None:
        rows = x if axis in (1, -1) else x.T
        return f_array([la_norm(r, ord) for r in rows])
    if ord is None or ord == 2 and x.ndim == 1 or ord == "fro":
        return s_sqrt(_sum1([s_mul(v, v) for v in plain(x).ravel()]))
    if ord == 1 and x.ndim == 1:
        return _sum1([s_abs(v) for v in plain(x)])
    if ord in (math.inf,) and x.ndim == 1:
        return f_array([s_abs(v) for v in plain(x)]).max()
    raise SymEscape("norm ord %r" % (ord,))


def la_multi_dot(arrs, **k):
    r = arrs[0]
    for a in arrs[1:]:
        r = f_dot(r, a)
    return r


def la_det(A):
    return det(A)


def la_cholesky(A, **k):
    """Cholesky factorisation: LinAlgError iff the matrix is not positive definite (forked)"""
    A = _sq(A)
    n = A.shape[0]
    M = _numlist(A)
    ex = C.ACTIVE[0]
    if ex is not None and ex.opts.get("cholesky") == "definite" and any(isinstance(x, SReal) and not x.r.isconst() for r in M for x in r):
        return A                      # scenario whose matrices are known to be positive definite: only success matters
    for m in range(1, n + 1):
        d = _det([r[:m] for r in M[:m]])
        if ex is not None and ex.opts.get("cholesky") == "assume" and isinstance(d > 0, C.SBool):
            ex.assume(d > 0)          # stated restriction of the scenario: the matrix is positive definite
            continue
        if not bool(d > 0):
            raise np.linalg.LinAlgError("Matrix is not positive definite")
    L = f_zeros((n, n))
    if n <= 3:
        for i in range(n):
            for j in range(i + 1):
                s = M[i][j]
                for kk in range(j):
                    s = s - L[i, kk] * L[j, kk]
                L[i, j] = s_sqrt(s) if i == j else s / L[j, j]
        return L
    raise SymEscape("cholesky factor of symbolic %dx%d" % (n, n))


def la_eigh(A, *a, **k):
    hook = getattr(C.ACTIVE[0], "eigh_hook", None) if C.ACTIVE[0] is not None else None
    if hook is not None:
        r = hook(A)
        if r is not None:
            return r
    A_ = _sq(A)
    M = _numlist(A_)
    if len(M) == 1:
        return f_array([M[0][0]]), f_eye(1)
    if len(M) == 2 and any(isinstance(x, SReal) and not x.r.isconst() for r in M for x in r):
        # LAPACK reads the lower triangle
        (a, _), (b, d) = M
        if bool(b == 0):
            if bool(a <= d):
                return f_array([a, d]), f_eye(2)
            return f_array([d, a]), f_array([[0, 1], [1, 0]])
        r = s_sqrt((a - d) * (a - d) + 4 * b * b)
        q = [(a + d - r) / 2, (a + d + r) / 2]
        cs = []
        for x in q:
            n = s_sqrt((x - d) * (x - d) + b * b)
            cs.append([(x - d) / n, b / n])
        return f_array(q), f_array([[cs[0][0], cs[1][0]], [cs[0][1], cs[1][1]]])
    if all(x.r.isconst() for r in M for x in r):
        q, V = np.linalg.eigh(np.array([[float(x) for x in r] for r in M]))
        return f_array(list(q)), wrap(np.frompyfunc(exact, 1, 1)(V.astype(object)))
    raise SymEscape("eigendecomposition of a symbolic matrix")


def la_eigvalsh(A, *a, **k):
    return la_eigh(A)[0]


def la_eig(A, *a, **k):
    return la_eigh(A)


def la_matrix_rank(*a, **k):
    raise SymEscape("matrix_rank")


def la_slogdet(A):
    d = det(A)
    return s_sign(d), s_log(s_abs(d))


def la_cond(*a, **k):
    raise SymEscape("cond")


def la_matrix_power(A, n):
    r = f_eye(len(A))
    for _ in range(abs(n)):
        r = f_dot(r, A)
    return la_inv(r) if n < 0 else r


LINALG = {"inv": la_inv, "solve": la_solve, "pinv": la_pinv, "lstsq": la_lstsq, "norm": la_norm, "multi_dot": la_multi_dot,
          "det": la_det, "cholesky": la_cholesky, "eigh": la_eigh, "eigvalsh": la_eigvalsh, "eig": la_eig, "eigvals": la_eigvalsh,
          "matrix_rank": la_matrix_rank, "slogdet": la_slogdet, "cond": la_cond, "matrix_power": la_matrix_power}


# ---------------------------------------------------------------- facade module
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SReal):
            return not x.isint
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        try:
            return issubclass(c, float)
        except TypeError:
            return False

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SymFloat(float, metaclass=_FloatMeta):
    _symx = _symx_float = True

    def __new__(cls, x=0.0, *a):
        if isinstance(x, SReal):
            return SReal(x.r)
        if isinstance(x, SBool):
            return x.as_real()
        if isinstance(x, np.ndarray) and x.dtype == object:
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return SymFloat(x.item())
        return float(x, *a)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SReal):
            return x.isint
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        try:
            return issubclass(c, int)
        except TypeError:
            return False

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SymInt(int, metaclass=_IntMeta):
    _symx = _symx_int = True

    def __new__(cls, x=0, *a):
        if isinstance(x, SReal):
            ex = C.ACTIVE[0]
            if ex is not None and ex.opts.get("int") == "floor" and not x.r.isconst():
                return UF["trunc"](x) if isinstance(UF["trunc"](x), SReal) else UF["trunc"](x)
            return int(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return SymInt(x.item())
        return int(x, *a)


class Facade(types.ModuleType):
    """module proxy: overrides first, then the real module with results wrapped"""

    def __init__(self, real, over, name=None):
        super().__init__(name or real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        for k, v in over.items():
            self.__dict__[k] = v

    def __getattr__(self, k):
        v = getattr(self.__dict__["_real"], k)
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or type(v).__name__ in ("_ArrayFunctionDispatcher", "ufunc"):
            f = v

            def g(*a, **kw):
                return wrap(f(*a, **kw))
            g.__name__ = getattr(f, "__name__", k)
            self.__dict__[k] = g
            return g
        return v


def make_np():
    over = {}
    for n in UF:
        if hasattr(np, n):
            over[n] = _uff(n)
    over.update(NPF)
    over["isnan"] = f_isnan
    over["float64"] = over["float32"] = over["float_"] = over["double"] = SymFloat
    over["int64"] = over["int32"] = over["int_"] = SymInt
    la = Facade(np.linalg, LINALG, "numpy.linalg")
    over["linalg"] = la
    f = Facade(np, over, "numpy")
    return f


NP = make_np()


# ---------------------------------------------------------------- builtins given to the code
def b_max(*a, key=None, **k):
    v = list(a[0]) if len(a) == 1 else list(a)
    if key is None and any(isinstance(x, (SReal, SBool)) for x in v):
        t = v[0]
        for x in v[1:]:
            t = smax(x, t) if all(C.is_num(y) for y in (x, t)) else (x if x > t else t)
        return t
    return builtins.max(v, key=key, **k)


def b_min(*a, key=None, **k):
    v = list(a[0]) if len(a) == 1 else list(a)
    if key is None and any(isinstance(x, (SReal, SBool)) for x in v):
        t = v[0]
        for x in v[1:]:
            t = smin(x, t) if all(C.is_num(y) for y in (x, t)) else (x if x < t else t)
        return t
    return builtins.min(v, key=key, **k)


def b_sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def b_any(it):
    r = False
    for x in it:
        if isinstance(x, SBool):
            r = b_or(r, x)
        elif x:
            return True
    return r


def b_all(it):
    r = True
    for x in it:
        if isinstance(x, SBool):
            r = b_and(r, x)
        elif not x:
            return False
    return r


def b_round(x, n=None):
    return builtins.round(x) if n is None else builtins.round(x, n)


def b_isinstance(x, cls):
    return builtins.isinstance(x, cls)


def b_pow(a, b, *m):
    if any(isinstance(v, SReal) for v in (a, b)):
        return s_pow(a, b)
    return builtins.pow(a, b, *m)
