"""Shim of the part of cvxpy's modelling language that pypfopt (and user objectives) use.

Expressions are trees that can be *evaluated at a point* with symbolic numbers; `Problem.solve` is the
environment: it calls SOLVER[0], the harness' nondeterministic solver stub.  The real cvxpy is used in
replay; path witnesses compare the two."""
import itertools
import sys
import types

import numpy as np

from . import core as C
from . import arr as A
from .arr import SArr, asarr, wrap, plain
from .core import SReal, SBool, SymEscape

_ids = itertools.count(1)
SOLVER = [None]


class DCPError(Exception):
    pass


class DPPError(DCPError):
    pass


class SolverError(Exception):
    pass


class ParameterError(Exception):
    pass


def _val(x):
    """normalise a value: 0-d -> scalar, arrays -> SArr"""
    if hasattr(x, "to_numpy") and not isinstance(x, np.ndarray):
        x = x.to_numpy()
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return A.exact(x.item())
        return asarr(x)
    if isinstance(x, (list, tuple)):
        return asarr(A.f_array(x))
    if type(x).__module__.startswith("scipy.sparse"):
        return asarr(x.toarray())
    return A.exact(x)


def _text(v):
    if isinstance(v, SReal):
        return repr((sorted(v.r.num.items(), key=repr), sorted(v.r.den, key=repr)))
    if isinstance(v, np.ndarray):
        return "[%s]" % ", ".join(_text(x) for x in (v.flat if v.ndim else [v.item()]))
    if callable(v):
        return "f%s" % getattr(getattr(v, "__code__", None), "co_firstlineno", "")
    return str(v)


def shp(v):
    return v.shape if isinstance(v, np.ndarray) else ()


class Expression:
    __array_ufunc__ = None
    __array_priority__ = 500

    def __init__(self, args, fn, shape, name=None):
        self.args = [as_expr(a) for a in args]
        self._fn = fn
        self.shape = tuple(shape)
        self.id = next(_ids)
        self._atom = name

    # ---- evaluation
    def ev(self, env):
        return self._fn(*[a.ev(env) for a in self.args])

    @property
    def value(self):
        for v in self.leaves():
            if v._value is None:
                return None
        return self.ev(None)

    def leaves(self):
        out, seen, st = [], set(), [self]
        while st:
            e = st.pop(0)
            if id(e) in seen:
                continue
            seen.add(id(e))
            if not e.args:
                out.append(e)
            else:
                st = list(e.args) + st
        return out

    def variables(self):
        return [x for x in self.leaves() if isinstance(x, Variable)]

    def parameters(self):
        return [x for x in self.leaves() if isinstance(x, Parameter)]

    def constants(self):
        return [x for x in self.leaves() if isinstance(x, Constant)]

    def atoms(self):
        return []

    # ---- queries
    @property
    def size(self):
        return int(np.prod(self.shape)) if self.shape else 1

    @property
    def ndim(self):
        return len(self.shape)

    def is_constant(self):
        return not self.variables()

    def is_scalar(self):
        return all(s == 1 for s in self.shape)

    def is_dcp(self, *a, **k):
        return True

    is_convex = is_concave = is_dpp = is_dcp

    def is_affine(self):
        """decided exactly on the encoded function: f(x + y) + f(0) - f(x) - f(y) is identically 0"""
        vs = list({v.id: v for v in self.variables()}.values())

        def at(tag):
            env = {}
            for v in vs:
                xs = [C.var("aff%s_%d_%d" % (tag, v.id, j)) if tag else SReal(C.ZERO) for j in range(v.size)]
                env[v.id] = xs[0] if v.shape == () else asarr(A.f_array(xs)).reshape(v.shape)
            return env
        x, y, z = at("x"), at("y"), at("")
        xy = {k: x[k] + y[k] for k in x}
        fs = [_scalars(self.ev(e)) for e in (xy, z, x, y)]
        for a, b, c, d in zip(*fs):
            if any(isinstance(t, float) for t in (a, b, c, d)):
                continue
            if not (a + b - c - d == 0) is True:
                return False
        return True

    def name(self):
        return "expr%d" % self.id

    def __str__(self):
        """equal text for equal structure, as in cvxpy"""
        c = [_text(x.cell_contents) for x in (getattr(self._fn, "__closure__", None) or ())]
        k = getattr(self._fn, "__code__", None)
        return "%s(%s)" % (self._atom or (k and "f%d" % k.co_firstlineno), ", ".join(c + [str(a) for a in self.args]))

    def domain(self):
        return []

    @property
    def T(self):
        return Expression([self], lambda v: v.T if isinstance(v, np.ndarray) else v, self.shape[::-1])

    def flatten(self, order="F"):
        return Expression([self], lambda v: v.flatten(order) if isinstance(v, np.ndarray) else v, (self.size,))

    def sum(self, axis=None, keepdims=False):
        return cp_sum(self, axis, keepdims)

    def __len__(self):
        raise TypeError("object of type 'Expression' has no len()")

    __len__ = None
    __iter__ = None

    def __bool__(self):
        raise Exception("Cannot evaluate the truth value of an expression")

    # ---- operators
    def __add__(self, o):
        return binop(self, o, lambda a, b: a + b)

    def __radd__(self, o):
        if isinstance(o, int) and o == 0:
            return self
        return binop(o, self, lambda a, b: a + b)

    def __sub__(self, o):
        return binop(self, o, lambda a, b: a - b)

    def __rsub__(self, o):
        return binop(o, self, lambda a, b: a - b)

    def __mul__(self, o):
        o = as_expr(o)
        if self.is_scalar() or o.is_scalar():
            return binop(self, o, lambda a, b: a * b)
        return self @ o

    def __rmul__(self, o):
        return as_expr(o) * self

    def __matmul__(self, o):
        o = as_expr(o)
        if self.shape == () or o.shape == ():
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        return Expression([self, o], mm, shp_mm(self.shape, o.shape), "@")

    def __rmatmul__(self, o):
        return as_expr(o) @ self

    def __truediv__(self, o):
        return binop(self, o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return binop(o, self, lambda a, b: a / b)

    def __neg__(self):
        return Expression([self], lambda v: -v, self.shape, "neg")

    def __pos__(self):
        return self

    def __pow__(self, p):
        return power(self, p)

    def __abs__(self):
        return cp_abs(self)

    def __getitem__(self, k):
        if isinstance(k, list) and k and all(isinstance(x, (bool, np.bool_)) for x in k):
            k = np.array(k, dtype=bool)
        if isinstance(k, list):
            k = np.array(k, dtype=int) if not len(k) or not isinstance(k[0], bool) else np.array(k)
        if hasattr(k, "to_numpy"):
            k = k.to_numpy()
        k = A._idx(k) if not isinstance(k, np.ndarray) or k.dtype == object else k
        probe = np.zeros(self.shape)[k]

        def fn(v):
            r = v[k]
            return r if isinstance(r, np.ndarray) and r.ndim else (r.item() if isinstance(r, np.ndarray) else r)
        return Expression([self], fn, np.shape(probe), "index")

    # ---- constraints
    def __le__(self, o):
        return Inequality(self, as_expr(o))

    def __ge__(self, o):
        return Inequality(as_expr(o), self)

    def __eq__(self, o):
        return Equality(self, as_expr(o))

    def __lt__(self, o):
        raise NotImplementedError("Strict inequalities are not allowed.")

    __gt__ = __lt__

    def __hash__(self):
        return id(self)

    def __copy__(self):
        if not self.args:
            return self
        e = object.__new__(type(self))
        e.__dict__.update(self.__dict__)
        e.id = next(_ids)
        return e

    def copy(self, args=None, *a, **k):
        if not self.args:
            return self
        e = self.__copy__()
        if args is not None:
            e.args = [as_expr(x) for x in args]
        return e

    def __deepcopy__(self, memo):
        raise SymEscape("deepcopy of a cvxpy expression")


class Leaf(Expression):
    def __init__(self, shape):
        self.args = []
        self.shape = tuple(shape)
        self.id = next(_ids)

    def is_affine(self):
        return True


class Constant(Leaf):
    def __init__(self, value, name=None):
        v = _val(value)
        super().__init__(shp(v))
        self._value = v

    def ev(self, env):
        return self._value

    def __str__(self):
        return _text(self._value)

    value = property(lambda s: s._value)

    def is_constant(self):
        return True


def _mkshape(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(int(s) for s in shape)
    return (int(shape),)


_ATTRS = ("nonneg", "nonpos", "pos", "neg", "boolean", "integer", "symmetric", "PSD", "bounds")


class Variable(Leaf):
    def __init__(self, shape=(), name=None, **kw):
        super().__init__(_mkshape(shape))
        self.attributes = {k: kw.pop(k, False) for k in _ATTRS}
        if kw:
            raise SymEscape("variable attribute %s" % list(kw))
        if self.attributes["symmetric"] or self.attributes["PSD"]:
            raise SymEscape("matrix variable attributes")
        self._name = name
        self._value = None

    def name(self):
        return self._name or "var%d" % self.id

    def __str__(self):
        return self.name()

    def ev(self, env):
        if env is None:
            return self._value
        return env[self.id]

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        if v is None:
            self._value = None
            return
        v = _val(v)
        if shp(v) != self.shape and not (self.shape == () and np.size(v) == 1):
            raise ValueError("Invalid dimensions %s for Variable value." % (shp(v),))
        self._value = v

    def domain_cons(self, env):
        v = self.ev(env)
        out = []
        at = self.attributes
        if at["nonneg"] or at["pos"]:
            out.append(("<=", _scalars(-v)))
        if at["nonpos"] or at["neg"]:
            out.append(("<=", _scalars(v)))
        if at["boolean"]:
            out.append(("<=", _scalars(-v)))
            out.append(("<=", _scalars(v - 1)))
        if at["bounds"]:
            lo, hi = at["bounds"]
            if lo is not None:
                out.append(("<=", _scalars(_val(lo) - v)))
            if hi is not None:
                out.append(("<=", _scalars(v - _val(hi))))
        return out

    def is_integer(self):
        return bool(self.attributes["integer"] or self.attributes["boolean"])


class Parameter(Leaf):
    def __init__(self, shape=(), name=None, value=None, **kw):
        super().__init__(_mkshape(shape))
        self.attributes = {k: kw.get(k, False) for k in _ATTRS}
        self._name = name
        self._value = None
        if value is not None:
            self.value = value

    def name(self):
        return self._name or "param%d" % self.id

    def __str__(self):
        return self.name()

    def ev(self, env):
        if env is not None and ("p", self.id) in env:
            return env[("p", self.id)]
        return self._value

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        if v is not None:
            v = _val(v)
            if shp(v) != self.shape:
                raise ValueError("Invalid dimensions %s for Parameter value." % (shp(v),))
            sc = _scalars(v)
            if (self.attributes["nonneg"] or self.attributes["pos"]) and any(bool(x < 0) for x in sc):
                raise ValueError("Parameter value must be nonnegative.")
            if (self.attributes["nonpos"] or self.attributes["neg"]) and any(bool(x > 0) for x in sc):
                raise ValueError("Parameter value must be nonpositive.")
        self._value = v


def as_expr(x):
    if isinstance(x, Expression):
        return x
    if isinstance(x, Constraint):
        raise TypeError("constraint used as expression")
    return Constant(x)


def _scalars(v):
    if isinstance(v, np.ndarray):
        return [A.exact(x) for x in plain(v).flat]
    return [A.exact(v)]


def _bshape(a, b):
    if a == b:
        return a
    if a == () or b == ():
        return a or b
    return np.broadcast_shapes(a, b)


def binop(a, b, f):
    a, b = as_expr(a), as_expr(b)
    return Expression([a, b], f, _bshape(a.shape, b.shape))


def shp_mm(s, t):
    return np.shape(np.zeros(s) @ np.zeros(t))


def mm(a, b):
    return wrap(A.s_matmul(plain(a), plain(b)))


# ------------------------------------------------------------------ constraints
class Constraint:
    __hash__ = object.__hash__

    def __init__(self, args):
        self.args = [as_expr(a) for a in args]
        self.id = self.constr_id = next(_ids)
        self.dual_value = None

    def variables(self):
        return [v for a in self.args for v in a.variables()]

    def parameters(self):
        return [v for a in self.args for v in a.parameters()]

    def is_dcp(self, *a, **k):
        return True

    def __str__(self):
        return (" <= " if type(self).__name__ == "Inequality" else " %s " % type(self).__name__).join(str(a) for a in self.args)

    def __bool__(self):
        raise Exception("Cannot evaluate the truth value of a constraint or chain constraints, e.g., 1 >= x >= 0.")

    @property
    def expr(self):
        return self.args[0] - self.args[1] if len(self.args) > 1 else self.args[0]

    @property
    def shape(self):
        return self.expr.shape

    @property
    def size(self):
        return self.expr.size

    def violation(self):
        raise SymEscape("constraint.violation")

    def rel(self, env):
        """[('<=' or '==', [scalars relative to 0])]"""
        raise NotImplementedError


class Inequality(Constraint):
    def __init__(self, lhs, rhs, constr_id=None):
        super().__init__([lhs, rhs])
        _bshape(self.args[0].shape, self.args[1].shape)

    def rel(self, env):
        a, b = (x.ev(env) for x in self.args)
        return [("<=", _cmp_scalars(a, b))]


class Equality(Constraint):
    def __init__(self, lhs, rhs, constr_id=None):
        super().__init__([lhs, rhs])
        _bshape(self.args[0].shape, self.args[1].shape)

    def rel(self, env):
        a, b = (x.ev(env) for x in self.args)
        return [("==", _cmp_scalars(a, b))]


class Zero(Constraint):
    def __init__(self, expr, constr_id=None):
        super().__init__([expr])

    def rel(self, env):
        return [("==", _scalars(self.args[0].ev(env)))]


class NonPos(Constraint):
    def __init__(self, expr, constr_id=None):
        super().__init__([expr])

    def rel(self, env):
        return [("<=", _scalars(self.args[0].ev(env)))]


class NonNeg(Constraint):
    def __init__(self, expr, constr_id=None):
        super().__init__([expr])

    def rel(self, env):
        return [("<=", _scalars(-self.args[0].ev(env)))]


class SOC(Constraint):
    def __init__(self, t, X, axis=0, constr_id=None):
        super().__init__([t, X])

    def rel(self, env):
        t, X = (x.ev(env) for x in self.args)
        if isinstance(X, np.ndarray) and X.ndim > 1 and 1 not in X.shape:
            raise SymEscape("matrix SOC")
        q = sum(x * x for x in _scalars(X))
        return [("<=", [q - t * t]), ("<=", [-t])]


def _cmp_scalars(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        aa = plain(a) if isinstance(a, np.ndarray) else np.array(a, dtype=object)
        bb = plain(b) if isinstance(b, np.ndarray) else np.array(b, dtype=object)
        aa, bb = np.broadcast_arrays(aa, bb)
        prs = list(zip(aa.flat, bb.flat))
    else:
        prs = [(a, b)]
    out = []
    for x, y in prs:
        x, y = A.exact(x), A.exact(y)
        xi, yi = isinstance(x, float), isinstance(y, float)
        if xi or yi:        # infinities: -inf <= y and x <= inf hold
            x, y = (x if xi else 0.0), (y if yi else 0.0)
            d = x - y
            out.append(d)
        else:
            out.append(x - y)
    return out


# ------------------------------------------------------------------ atoms
def _lift(x):
    return as_expr(x)


def cp_sum(e, axis=None, keepdims=False):
    if not isinstance(e, (Expression,)) and isinstance(e, (list, tuple)) and any(isinstance(x, Expression) for x in e):
        t = e[0]
        for x in e[1:]:
            t = t + x
        return cp_sum(t)
    e = _lift(e)
    sh = np.zeros(e.shape).sum(axis=axis, keepdims=keepdims).shape
    return Expression([e], lambda v: (wrap(A._reduce(A.pyuf("add"), "add", plain(v), axis, keepdims, None)) if v.size else SReal(C.ZERO))
                      if isinstance(v, np.ndarray) else v, sh)


def _ew(f):
    def g(e, *a, **k):
        e = _lift(e)

        def fn(v):
            if isinstance(v, np.ndarray):
                return wrap(np.frompyfunc(f, 1, 1)(plain(v)).astype(object)) if v.size else v
            return f(v)
        return Expression([e], fn, e.shape)
    return g


cp_abs = _ew(lambda x: abs(x))
pos = _ew(lambda x: C.smax(x, 0))
neg = _ew(lambda x: C.smax(-x, 0))
square = _ew(lambda x: x * x)
cp_sqrt = _ew(lambda x: C.ssqrt(x))
log = _ew(lambda x: C.slog(x))
exp = _ew(lambda x: C.sexp(x))
log1p = _ew(lambda x: C.slog(x + 1))
inv_pos = _ew(lambda x: 1 / x)
entr = _ew(lambda x: -x * C.slog(x))


def power(e, p, *a, **k):
    p = p.value if isinstance(p, Constant) else p
    return _ew(lambda x: A.s_pow(x, p))(e)


def sum_squares(e):
    e = _lift(e)
    return Expression([e], lambda v: A.b_sum([x * x for x in _scalars(v)], SReal(C.ZERO)), ())


def quad_form(x, P, assume_PSD=False):
    x, P = _lift(x), _lift(P)
    if len(P.shape) != 2 or P.shape[0] != P.shape[1] or x.size != P.shape[0]:
        raise ValueError("Invalid dimensions for arguments.")

    def fn(v, M):
        if isinstance(v, np.ndarray):
            v = v.reshape(-1)
        t = mm(v, mm(M, v))
        return t.item() if isinstance(t, np.ndarray) else t
    return Expression([x, P], fn, ())


def quad_over_lin(x, y):
    return sum_squares(x) / y


def norm(x, p=2, axis=None):
    x = _lift(x)
    if axis is not None:
        raise SymEscape("cp.norm axis")

    def fn(v):
        xs = _scalars(v)
        if p == 1:
            return A.b_sum([abs(t) for t in xs], SReal(C.ZERO))
        if p == 2 or p == "fro":
            return C.ssqrt(A.b_sum([t * t for t in xs], SReal(C.ZERO)))
        if p in ("inf", np.inf):
            return A.b_max([abs(t) for t in xs])
        raise SymEscape("cp.norm p=%s" % p)
    return Expression([x], fn, ())


def norm1(x, axis=None):
    return norm(x, 1, axis)


def norm2(x, axis=None):
    return norm(x, 2, axis)


def norm_inf(x, axis=None):
    return norm(x, "inf", axis)


def _nary(f):
    def g(*a):
        es = [_lift(x) for x in a]
        sh = ()
        for e in es:
            sh = _bshape(sh, e.shape)

        def fn(*vs):
            t = vs[0]
            for v in vs[1:]:
                if isinstance(t, np.ndarray) or isinstance(v, np.ndarray):
                    t = wrap(np.frompyfunc(f, 2, 1)(plain(t), plain(v)))
                else:
                    t = f(t, v)
            return t
        return Expression(es, fn, sh)
    return g


maximum = _nary(C.smax)
minimum = _nary(C.smin)
multiply = _nary(lambda a, b: A.exact(a) * A.exact(b))


def _red(f):
    def g(e, axis=None, keepdims=False):
        e = _lift(e)
        sh = np.zeros(e.shape).sum(axis=axis, keepdims=keepdims).shape
        return Expression([e], lambda v: wrap(A._reduce(A.pyuf(f), f, plain(v), axis, keepdims, None))
                          if isinstance(v, np.ndarray) else v, sh)
    return g


cp_max, cp_min, prod = _red("maximum"), _red("minimum"), _red("multiply")


def mean(e, axis=None, keepdims=False):
    e = _lift(e)
    n = e.size if axis is None else e.shape[axis]
    return cp_sum(e, axis, keepdims) / n


def _arrfn(f):
    def g(e, *a, **k):
        e = _lift(e)
        sh = np.shape(f(np.zeros(e.shape), *a, **k))

        def fn(v):
            r = f(v, *a, **k)
            return r if shp(r) else (r.item() if isinstance(r, np.ndarray) else r)
        return Expression([e], fn, sh)
    return g


def cumsum(e, axis=0):
    return _arrfn(lambda v: v.cumsum(axis=axis))(e)


def diff(e, k=1, axis=0):
    def f(v):
        for _ in range(k):
            v = v[1:] - v[:-1]
        return v
    return _arrfn(f)(e)


def reshape(e, shape, order="F"):
    return _arrfn(lambda v: (v if isinstance(v, np.ndarray) else np.array(v, dtype=object)).reshape(shape, order=order))(e)


def vec(e, order="F"):
    return _arrfn(lambda v: v.flatten(order))(e)


def transpose(e, axes=None):
    return _lift(e).T


def trace(e):
    return _arrfn(lambda v: v.trace())(e)


def diag(e, k=0):
    return _arrfn(lambda v: A.f_diag(v) if isinstance(v, SArr) else np.diag(v))(e)


def _cat(axis_h):
    def g(args):
        es = [_lift(a) for a in args]

        def fn(*vs):
            arrs = [plain(v) if isinstance(v, np.ndarray) else np.array([v], dtype=object) for v in vs]
            return wrap((np.hstack if axis_h else np.vstack)(arrs).astype(object))
        sh = (np.hstack if axis_h else np.vstack)([np.zeros(e.shape or (1,)) for e in es]).shape
        return Expression(es, fn, sh)
    return g


hstack, vstack = _cat(True), _cat(False)


def sum_largest(e, k):
    raise SymEscape("cp.sum_largest")


def psd_wrap(e):
    return _lift(e)


# ------------------------------------------------------------------ problems
class Objective:
    NAME = "minimize"
    sign = 1

    def __init__(self, expr):
        self.args = [as_expr(expr)]
        if not self.args[0].is_scalar():
            raise ValueError("The '%s' objective must resolve to a scalar." % self.NAME)
        self.id = next(_ids)

    @property
    def expr(self):
        return self.args[0]

    def __str__(self):
        return "%s %s" % (self.NAME, self.args[0])

    @property
    def value(self):
        return self.expr.value

    def variables(self):
        return self.expr.variables()

    def parameters(self):
        return self.expr.parameters()

    def is_dcp(self, *a, **k):
        return True


class Minimize(Objective):
    pass


class Maximize(Objective):
    NAME = "maximize"
    sign = -1


class Problem:
    def __init__(self, objective, constraints=None):
        if not isinstance(objective, Objective):
            raise DCPError("Problem objective must be Minimize or Maximize.")
        self.objective = objective
        self.constraints = []
        for c in constraints or []:
            if isinstance(c, (bool, np.bool_)):
                c = Equality(as_expr(0), as_expr(0 if c else 1))
            if not isinstance(c, Constraint):
                raise ValueError("Problem has an invalid constraint of type %s" % type(c))
            self.constraints.append(c)
        self.status = None
        self._value = None
        self.solver_stats = types.SimpleNamespace(solver_name="STUB", solve_time=0, setup_time=0, num_iters=0)

    @property
    def value(self):
        if self._value is None:
            return None
        return self._value

    def __str__(self):
        return "\nsubject to ".join([str(self.objective)] + [str(c) for c in self.constraints])

    def variables(self):
        out, seen = [], set()
        for o in [self.objective] + self.constraints:
            for v in o.variables():
                if v.id not in seen:
                    seen.add(v.id)
                    out.append(v)
        return out

    def parameters(self):
        out, seen = [], set()
        for o in [self.objective] + self.constraints:
            for v in o.parameters():
                if v.id not in seen:
                    seen.add(v.id)
                    out.append(v)
        return out

    def is_dcp(self, *a, **k):
        return True

    is_qp = is_dpp = is_dcp

    def solve(self, *a, **kw):
        if SOLVER[0] is None:
            raise SymEscape("no solver stub installed")
        return SOLVER[0](self, a, kw)


def installed_solvers():
    return ["CLARABEL", "ECOS", "ECOS_BB", "OSQP", "SCIPY", "SCS"]


# ------------------------------------------------------------------ the module object
def make():
    m = types.ModuleType("cvxpy")
    g = globals()
    for k in ("DCPError", "DPPError", "SolverError", "ParameterError", "Variable", "Parameter", "Constant", "Minimize",
              "Maximize", "Problem", "pos", "neg", "square", "log", "exp", "log1p", "inv_pos", "entr", "power",
              "sum_squares", "quad_form", "quad_over_lin", "norm", "norm1", "norm2", "norm_inf", "maximum", "minimum", "multiply",
              "prod", "mean", "cumsum", "diff", "reshape", "vec", "transpose", "trace", "diag", "hstack", "vstack",
              "sum_largest", "psd_wrap", "installed_solvers", "SOC", "Zero", "NonPos", "NonNeg"):
        setattr(m, k, g[k])
    m.Expression = Expression
    m.sum, m.abs, m.sqrt, m.max, m.min = cp_sum, cp_abs, cp_sqrt, cp_max, cp_min
    m.pnorm = norm
    m.bmat = None
    for i, s in enumerate(installed_solvers()):
        setattr(m, s, s)
    m.GLPK_MI, m.CBC, m.HIGHS, m.GUROBI, m.MOSEK, m.CVXOPT = "GLPK_MI", "CBC", "HIGHS", "GUROBI", "MOSEK", "CVXOPT"
    m.OPTIMAL, m.OPTIMAL_INACCURATE = "optimal", "optimal_inaccurate"
    m.INFEASIBLE, m.UNBOUNDED = "infeasible", "unbounded"
    mk = types.ModuleType
    m.constraints = mk("cvxpy.constraints")
    m.constraints.nonpos = mk("cvxpy.constraints.nonpos")
    m.constraints.zero = mk("cvxpy.constraints.zero")
    m.constraints.constraint = mk("cvxpy.constraints.constraint")
    m.constraints.constraint.Constraint = m.constraints.Constraint = Constraint
    m.constraints.nonpos.Inequality = m.constraints.Inequality = Inequality
    m.constraints.nonpos.NonPos = m.constraints.NonPos = NonPos
    m.constraints.nonpos.NonNeg = m.constraints.NonNeg = NonNeg
    m.constraints.zero.Equality = m.constraints.Equality = Equality
    m.constraints.zero.Zero = m.constraints.Zero = Zero
    m.constraints.SOC = SOC
    m.expressions = mk("cvxpy.expressions")
    m.expressions.expression = mk("cvxpy.expressions.expression")
    m.expressions.expression.Expression = Expression
    m.expressions.constants = mk("cvxpy.expressions.constants")
    m.expressions.constants.Constant = Constant
    m.expressions.constants.Parameter = Parameter
    m.expressions.constants.constant = mk("cvxpy.expressions.constants.constant")
    m.expressions.constants.constant.Constant = Constant
    m.expressions.constants.parameter = mk("cvxpy.expressions.constants.parameter")
    m.expressions.constants.parameter.Parameter = Parameter
    m.expressions.variable = mk("cvxpy.expressions.variable")
    m.expressions.variable.Variable = Variable
    m.error = mk("cvxpy.error")
    for k in ("DCPError", "DPPError", "SolverError", "ParameterError"):
        setattr(m.error, k, g[k])
    m.settings = mk("cvxpy.settings")
    m.settings.OPTIMAL, m.settings.OPTIMAL_INACCURATE = "optimal", "optimal_inaccurate"

    def ga(k):
        raise SymEscape("cvxpy.%s is not modelled" % k)
    m.__getattr__ = ga
    m.bmat = property
    del m.bmat
    return m


CP = make()
