"""Polymorphic scenarios: the same function f(S) runs symbolically (Sym, on the source compiled against
the facades) and concretely (Con, on the real unpatched package with real numpy/pandas/cvxpy)."""
import math
import os
import re
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
import pandas as pd

CTOL = 1e-6      # a claim fails concretely only by more than this (relative)
HTOL = 1e-8      # hypotheses hold concretely up to this


class Out:
    """outcome of a call into the package"""

    def __init__(self, kind, value=None, exc=None, warns=()):
        self.kind, self.value, self.exc, self.warns = kind, value, exc, list(warns)

    @property
    def ok(self):
        return self.kind == "ok"

    def raised(self, *names):
        """raised an exception whose class (or a base) has one of these names"""
        return self.exc is not None and any(c.__name__ in names for c in type(self.exc).__mro__)

    def warned(self, *names):
        return any(c.__name__ in names for w in self.warns for c in w.category.__mro__)

    @property
    def label(self):
        return "ok" if self.ok else "exc:" + type(self.exc).__name__


class Base:
    def __init__(self):
        self.problems = []
        self.minimizes = []
        self.printed = []
        self.status_plan = None        # callable(k) -> status
        self.solution_plan = None      # callable(k, cap) -> list of values or None
        self.choices = []
        self.outs = 0
        self.trace = []

    # -- inputs
    def vec(self, name, n, **k):
        return self.arr([self.real("%s%d" % (name, i), **k) for i in range(n)])

    def mat(self, name, n, m, **k):
        return self.arr([[self.real("%s%d_%d" % (name, i, j), **k) for j in range(m)] for i in range(n)])

    def symmat(self, name, n, diag=None, **k):
        e = {}
        for i in range(n):
            for j in range(i, n):
                e[i, j] = e[j, i] = self.real("%s%d%d" % (name, i, j), **((diag or k) if i == j else k))
        return self.arr([[e[i, j] for j in range(n)] for i in range(n)])

    def psd(self, name, n, **k):
        """symmetric, assumed positive definite (leading minors)"""
        M = self.symmat(name, n, diag=dict(pos=True, hi=k.pop("hi", 2)), lo=-1, hi=1)
        if n >= 2:
            self.assume(self.gt(M[0, 0] * M[1, 1], M[0, 1] * M[0, 1]))
        if n >= 3:
            d = (M[0, 0] * (M[1, 1] * M[2, 2] - M[1, 2] * M[1, 2]) - M[0, 1] * (M[0, 1] * M[2, 2] - M[1, 2] * M[0, 2])
                 + M[0, 2] * (M[0, 1] * M[1, 2] - M[1, 1] * M[0, 2]))
            self.assume(self.gt(d, 0))
        if n >= 4:
            raise ValueError
        return M

    def series(self, vals, index=None, name=None):
        return pd.Series(self.objarr(vals), index=index, name=name)

    def frame(self, vals, columns=None, index=None):
        return pd.DataFrame(self.objarr(vals), index=index, columns=columns)

    # -- conditions
    def gt(self, a, b):
        return self.lt(b, a)

    def ge(self, a, b):
        return self.le(b, a)

    def eqs(self, a, b):
        """equality of arrays / lists / scalars, elementwise"""
        a, b = self.flat(a), self.flat(b)
        if len(a) != len(b):
            return self.true(False)
        return self.and_(*[self.eq(x, y) for x, y in zip(a, b)])

    def flat(self, x):
        if isinstance(x, dict):
            x = list(x.values())
        if isinstance(x, (pd.Series, pd.DataFrame)):
            x = x.to_numpy()
        if isinstance(x, np.ndarray):
            return [v for v in np.asarray(x, dtype=object).view(np.ndarray).ravel()] if x.dtype == object else list(x.ravel())
        if isinstance(x, (list, tuple)):
            return [v for y in x for v in self.flat(y)]
        return [x]

    def numbers(self, text, rounded=False):
        """the numbers printed in a text, with the half unit of their last digit: [(value, tolerance)]
        rounded: the values as printed, not those they stand for"""
        out = []
        for m in re.finditer(r"<sym:(\d+):([^>]*)>|(?<![\w.])[-+]?\d+(?:\.\d+)?(?:e[-+]?\d+)?", text):
            if m.group(1):
                d = re.search(r"\.(\d+)([f%])", m.group(2))
                v = self.C.FORMATTED[int(m.group(1))]
                v = v * 100 if m.group(2).endswith("%") else v
                if rounded and d:
                    v = round(v, int(d.group(1)))
                out.append((v, .5 * 10 ** -int(d.group(1)) if d else 0))
            else:
                t = m.group(0)
                out.append((float(t), .5 * 10 ** -(len(t.split(".")[1]) if "." in t else 0) + 1e-9))
        return out

    def scratch(self):
        """an empty working directory for the block, removed afterwards; values written into text can be read back"""
        return _Scratch(self)

    def call(self, f, *a, **k):
        """call into the package; ordinary exceptions become part of the outcome"""
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                v = f(*a, **k)
                o = Out("ok", v, warns=ws)
            except Exception as e:
                o = Out("exc", exc=e, warns=ws)
                self.trace.append("".join(traceback.format_exception(e)[-3:]))
                if os.environ.get("SYMX_TRACE"):
                    print("".join(traceback.format_exception(e)[-6:]), flush=True)
        self.outs += 1
        self.observe("out%d" % self.outs, o.label)
        return o

    def sum(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def dot(self, a, b):
        return self.sum([x * y for x, y in zip(self.flat(a), self.flat(b))])

    def quad(self, M, w):
        w = self.flat(w)
        n = len(w)
        return self.sum([w[i] * M[i][j] * w[j] for i in range(n) for j in range(n)])

    @property
    def last(self):
        return self.problems[-1]

    def weights(self, obj):
        return self.flat(obj)


# =============================================================================== symbolic
class SymCap:
    def __init__(self, S, prob, k, args, kw):
        self.S, self.k, self.kw, self.args = S, k, kw, args
        self.prob = prob
        self.pv = {("p", p.id): p._value for p in prob.parameters()}
        self.vars = sorted(prob.variables(), key=lambda v: v.id)
        self.objective = prob.objective
        self.constraints = list(prob.constraints)
        self.sol = None
        self.status = None

    def env(self, values):
        from . import cpshim
        e = dict(self.pv)
        for v, x in zip(self.vars, values):
            if v.shape == ():
                e[v.id] = cpshim._val(x)
            else:
                e[v.id] = cpshim._val(self.S.arr(x)).reshape(v.shape)
        return e

    def shapes(self):
        return [v.shape for v in self.vars]

    def value(self, i, env):
        return env[self.vars[i].id]

    def solvec(self, i):
        return self.S.flat(self.sol[self.vars[i].id])

    def rels(self, env):
        out = []
        for c in self.constraints:
            out += c.rel(env)
        for v in self.vars:
            out += v.domain_cons(env)
        return out

    def cons(self, env):
        from . import core as C
        out = []
        for op, xs in self.rels(env):
            for x in xs:
                if isinstance(x, float):
                    ok = x <= 0 if op == "<=" else x == 0
                    out.append(True if (ok or x != x) else False)
                else:
                    out.append(C.mkcmp(op, x.r))
        return out

    def feasible(self, env):
        return self.S.and_(*self.cons(env))

    def obj(self, env):
        v = self.objective.expr.ev(env)
        if isinstance(v, np.ndarray):
            v = v.item()
        return v if self.objective.sign == 1 else -v


class Sym(Base):
    mode = "sym"

    def __init__(self, ex, pkg, opts):
        super().__init__()
        from . import core, arr, cpshim, loader
        self.C, self.A, self.ex, self.opts = core, arr, ex, opts
        self.pf = pkg
        self.cp = cpshim.CP
        self.np = arr.NP
        self.pd = pd
        self.names = {}
        self.boxes = {}
        self.claims = []
        self.obs = []
        cpshim.SOLVER[0] = self._solve
        loader.ENV.clear()
        loader.ENV.update(minimize=self._minimize, print=lambda *a, **k: self.printed.append(" ".join(str(x) for x in a)))
        self.ENV = loader.ENV
        self.PLT = loader.PLT
        self.PLT._log.clear()

    def recorder(self, name):
        """stands in for a plotting object"""
        return type(self.PLT)(self.PLT._log, name)

    def record_plots(self):
        return self.PLT

    # inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, isint=False):
        if lo is not None and lo >= 0:
            nonneg = True
        v = self.C.var(name, pos=pos, nonneg=nonneg, isint=isint)
        self.names[name] = isint
        self.boxes[name] = (lo, hi)
        return v

    def bound(self, v, lo, hi):
        """a semantic precondition lo <= v <= hi"""
        self.assume(self.and_(self.le(lo, v), self.le(v, hi)))

    def arr(self, x):
        return self.A.f_array(x) if not isinstance(x, self.A.SArr) else x

    def objarr(self, vals):
        a = np.asarray(self.A.asarr(vals) if not isinstance(vals, np.ndarray) else vals)
        return a.view(np.ndarray)

    # conditions
    def le(self, a, b):
        return self._cmp("<=", a, b)

    def lt(self, a, b):
        return self._cmp("<", a, b)

    lt_exact = lt

    def eq(self, a, b):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return a == b
        return self._cmp("==", a, b)

    def _cmp(self, op, a, b):
        a, b = self.A.exact(a), self.A.exact(b)
        if isinstance(a, np.ndarray):
            a = a.item()
        if isinstance(b, np.ndarray):
            b = b.item()
        if isinstance(a, (bool, self.C.SBool)):
            a = self.C.b_ind(a) if isinstance(a, self.C.SBool) else int(a)
            a = a if isinstance(a, self.C.SReal) else self.A.exact(a)
        if isinstance(b, (bool, self.C.SBool)):
            b = self.C.b_ind(b) if isinstance(b, self.C.SBool) else int(b)
            b = b if isinstance(b, self.C.SReal) else self.A.exact(b)
        fa, fb = isinstance(a, float), isinstance(b, float)
        if fa or fb:
            if (fa and a != a) or (fb and b != b):
                return bool(fa and fb and a != a and b != b) and op != "<"
            x, y = (a if fa else 0.0), (b if fb else 0.0)
            return {"<": x < y, "<=": x <= y, "==": fa and fb and x == y}[op]
        return self.C.mkcmp(op, (a - b).r)

    def true(self, b):
        return b if isinstance(b, self.C.SBool) else bool(b)

    def and_(self, *xs):
        return self.C.b_and(*[self.true(x) for x in xs])

    def or_(self, *xs):
        return self.C.b_or(*[self.true(x) for x in xs])

    def not_(self, x):
        return self.C.b_not(self.true(x))

    def implies(self, p, q):
        return self.or_(self.not_(p), q)

    def holds(self, c):
        """branch on a condition (forks)"""
        return bool(self.true(c))

    def ite(self, c, a, b):
        return self.C.ite(self.true(c), self.A.exact(a), self.A.exact(b))

    def smax(self, *xs):
        return self.A.b_max([self.A.exact(x) for x in xs])

    def smin(self, *xs):
        return self.A.b_min([self.A.exact(x) for x in xs])

    def abs(self, x):
        return abs(self.A.exact(x))

    def sqrt(self, x):
        return self.C.ssqrt(self.A.exact(x))

    def log(self, x):
        return self.C.slog(self.A.exact(x))

    def exp(self, x):
        return self.C.sexp(self.A.exact(x))

    def floor(self, x):
        return self.A.exact(x).floor()

    def frac(self, x):
        return self.A.exact(x)

    def power(self, x, p):
        return self.A.s_pow(x, p)

    def asint(self, x):
        """the number as an integer object"""
        return x if isinstance(x, int) else self.C.SReal(self.A.exact(x).r, True)

    def spectrum(self, M, q, V):
        """eigendecomposition (ascending values, orthonormal columns) of a matrix the check built from it:
        answers np.linalg.eigh on exactly that matrix"""
        n = len(q)
        X, e = self.A.exact, self.A

        def hook(A):
            A = e.plain(e._a(A))
            if A.shape == (n, n) and all(not (X(A[i, j]) - X(M[i][j])).r.num for i in range(n) for j in range(n)):
                return e.f_array(list(q)), e.f_array([list(r) for r in V])
            return None
        self.ex.eigh_hook = hook

    # run control
    def assume(self, c):
        self.ex.assume(self.true(c))

    def claim(self, name, *alts):
        self.claims.append((name, [self.true(a) for a in alts], len(self.ex.pc)))

    def hint(self, *cs):
        """intermediate facts for the solver: each is proved and then used, or ignored"""
        for c in cs:
            self.claims.append(("?", [self.true(c)], len(self.ex.pc)))

    def observe(self, name, v):
        self.obs.append((name, v))

    def choose(self, n, label=""):
        i = self.ex.choose(n, label)
        self.choices.append(i)
        return i

    def dead(self):
        raise self.C.PathDone()

    # environment
    def _solve(self, prob, a, kw):
        k = len(self.problems)
        cap = SymCap(self, prob, k, a, kw)
        self.problems.append(cap)
        st = self.status_plan(k) if self.status_plan else "optimal"
        cap.status = st
        if st == "DCPError":
            raise self.cp.DCPError("Problem does not follow DCP rules.")
        if st == "SolverError":
            raise self.cp.SolverError("Solver failed. Try another solver.")
        prob.status = st
        has = st in ("optimal", "optimal_inaccurate", "user_limit")
        if not has:
            for v in cap.vars:
                v._value = None
            prob._value = math.inf if "infeasible" in st else -math.inf
            return prob._value
        vals = self.solution_plan(k, cap) if self.solution_plan else None
        if vals is None:
            vals = []
            for i, v in enumerate(cap.vars):
                it = v.is_integer()
                nn = bool(v.attributes.get("nonneg"))
                if v.shape == ():
                    vals.append(self.real("sol%d_%d" % (k, i), isint=it))
                else:
                    vals.append([self.real("sol%d_%d_%d" % (k, i, j), isint=it) for j in range(v.size)])
        cap.sol = cap.env(vals)
        for v in cap.vars:
            v._value = cap.sol[v.id]
        prob._value = cap.obj(cap.sol) if prob.objective.sign == 1 else -cap.obj(cap.sol)
        return prob._value

    def stub(self, name, f):
        """environment stub for a third-party function"""
        self.ENV[name] = f

    def _minimize(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None,
                  callback=None, options=None):
        k = len(self.minimizes)
        n = len(x0)
        x = self.arr([self.real("min%d_%d" % (k, j)) for j in range(n)])
        self.minimizes.append(dict(fun=fun, x0=x0, args=args if isinstance(args, tuple) else (args,), method=method, bounds=bounds,
                                   constraints=constraints, tol=tol, options=options, x=x))
        import scipy.optimize
        return scipy.optimize.OptimizeResult(x=x, success=True, status=0, message="stub", fun=fun(x, *(args if isinstance(args, tuple) else (args,))))


# =============================================================================== concrete
class CB:
    """concrete condition, evaluated with a tolerance"""
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def holds(self, tol):
        k, a = self.k, self.a
        if k == "const":
            return a[0]
        if k == "and":
            return all(x.holds(tol) for x in a)
        if k == "or":
            return any(x.holds(tol) for x in a)
        if k == "not":
            return not a[0].holds(-tol if tol else 0) if a[0].k in ("le", "lt", "eq") else not a[0].holds(tol)
        if k == "imp":
            return (not a[0].ante()) or a[1].holds(tol)
        x, y = a
        try:
            x, y = float(x), float(y)
        except TypeError:
            return False
        if math.isnan(x) or math.isnan(y):
            return math.isnan(x) and math.isnan(y) and k != "lt"
        if math.isinf(x) or math.isinf(y):
            return {"le": x <= y, "lt": x < y, "eq": x == y}[k]
        d = x - y
        s = tol * (1 + abs(x) + abs(y))
        if k == "eq":
            return abs(d) <= abs(s)
        return d <= s if tol or k == "le" else d < 0

    def given(self):
        """as an assumption: equalities and <= up to rounding, < exactly"""
        k, a = self.k, self.a
        if k == "and":
            return all(x.given() for x in a)
        if k == "or":
            return any(x.given() for x in a)
        return self.holds(0 if k == "lt" else 1e-7)

    def ante(self):
        """as an antecedent: equalities and <= up to rounding, strict inequalities by more than rounding"""
        k, a = self.k, self.a
        if k == "and":
            return all(x.ante() for x in a)
        if k == "or":
            return any(x.ante() for x in a)
        if k == "lt":
            return self.holds(-HTOL)
        if k == "not":
            b = a[0]
            if b.k == "le":
                return CB("lt", *b.a[::-1]).ante()
            if b.k == "lt":
                return CB("le", *b.a[::-1]).ante()
            if b.k == "not":
                return b.a[0].ante()
            if b.k in ("and", "or"):
                return CB("or" if b.k == "and" else "and", *[CB("not", x) for x in b.a]).ante()
            return not b.holds(HTOL)
        return self.holds(HTOL)

    def __bool__(self):
        return self.holds(0)

    def __repr__(self):
        return "%s(%s)" % (self.k, ", ".join(repr(x) for x in self.a))


class ConCap:
    def __init__(self, S, prob, k, args, kw):
        self.S, self.k, self.prob, self.kw = S, k, prob, kw
        self.params = [(p, p.value) for p in prob.parameters()]
        self.vars = sorted(prob.variables(), key=lambda v: v.id)
        self.constraints = list(prob.constraints)
        self.objective = prob.objective
        self.sol = None

    def shapes(self):
        return [v.shape for v in self.vars]

    def env(self, values):
        return {v.id: np.asarray(x, dtype=float).reshape(v.shape) for v, x in zip(self.vars, values)}

    def value(self, i, env):
        return env[self.vars[i].id]

    def solvec(self, i):
        return self.S.flat(self.sol[self.vars[i].id])

    class _At:
        def __init__(self, cap, env):
            self.cap, self.env = cap, env

        def __enter__(self):
            c = self.cap
            self.sv = [v.value for v in c.vars]
            self.spv = [p.value for p, _ in c.params]
            for v in c.vars:
                v.save_value(self.env[v.id])
            for p, x in c.params:
                p.save_value(x)

        def __exit__(self, *a):
            c = self.cap
            for v, x in zip(c.vars, self.sv):
                v.save_value(x)
            for (p, _), x in zip(c.params, self.spv):
                p.save_value(x)

    def cons(self, env):
        import cvxpy as cp
        out = []
        with ConCap._At(self, env), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            for c in self.constraints:
                nm = type(c).__name__
                if nm in ("Inequality", "Equality"):
                    a, b = np.broadcast_arrays(_dense(c.args[0].value), _dense(c.args[1].value))
                elif nm in ("Zero", "NonPos"):
                    a = _dense(c.args[0].value)
                    b = np.zeros(a.shape)
                elif nm == "NonNeg":
                    b = _dense(c.args[0].value)
                    a = np.zeros(b.shape)
                elif nm == "SOC":
                    t, X = _dense(c.args[0].value), _dense(c.args[1].value)
                    a, b = np.linalg.norm(X.ravel()).reshape(()), t.reshape(())
                else:
                    raise RuntimeError("constraint %s" % nm)
                op = "eq" if nm in ("Equality", "Zero") else "le"
                for x, y in zip(a.ravel(), b.ravel()):
                    if math.isinf(x) or math.isinf(y):
                        out.append(CB("const", bool(x <= y) if op == "le" else x == y))
                    else:
                        out.append(CB(op, x, y))
            for v in self.vars:
                x = _dense(env[v.id]).ravel()
                at = v.attributes
                if at.get("nonneg") or at.get("pos") or at.get("boolean"):
                    out += [CB("le", 0.0, t) for t in x]
                if at.get("nonpos") or at.get("neg"):
                    out += [CB("le", t, 0.0) for t in x]
                if at.get("boolean"):
                    out += [CB("le", t, 1.0) for t in x]
                if at.get("bounds"):
                    lo, hi = at["bounds"]
                    for t, l, h in zip(x, np.broadcast_to(-np.inf if lo is None else lo, x.shape), np.broadcast_to(np.inf if hi is None else hi, x.shape)):
                        out += [CB("le", l, t), CB("le", t, h)]
        return out

    def feasible(self, env):
        return CB("and", *self.cons(env))

    def obj(self, env):
        with ConCap._At(self, env), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            v = self.objective.args[0].value
        v = float(np.asarray(v).item())
        return v if type(self.objective).__name__ == "Minimize" else -v


def _dense(x):
    if hasattr(x, "toarray"):
        x = x.toarray()
    return np.asarray(x, dtype=float)


class Con(Base):
    mode = "con"

    def __init__(self, witness, choices, pf, real_solver=False):
        super().__init__()
        import cvxpy
        self.w, self.todo_choices = witness, list(choices)
        self.pf, self.cp, self.np, self.pd = pf, cvxpy, np, pd
        self.results, self.obsd, self.bad_assume = {}, {}, []
        self.used = {}
        self.real_solver = real_solver
        self._stubbed, self._mods = [], []

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, isint=False):
        v = self.w.get(name)
        if v is None:
            v = Fraction(1)
            self.used.setdefault("missing", []).append(name)
        return int(v) if isint else float(v)

    def bound(self, v, lo, hi):
        pass

    def arr(self, x):
        return np.array(x, dtype=float) if not isinstance(x, np.ndarray) else x

    def objarr(self, vals):
        return np.asarray(vals)

    def le(self, a, b):
        return CB("le", a, b)

    def lt(self, a, b):
        return CB("lt", a, b)

    def lt_exact(self, a, b):
        """for numbers that floats represent exactly: no tolerance"""
        return CB("const", bool(a < b))

    def eq(self, a, b):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return CB("const", a is b if (a is None or b is None) else a == b)
        return CB("eq", a, b)

    def true(self, b):
        return b if isinstance(b, CB) else CB("const", bool(b))

    def and_(self, *xs):
        return CB("and", *[self.true(x) for x in xs])

    def or_(self, *xs):
        return CB("or", *[self.true(x) for x in xs])

    def not_(self, x):
        return CB("not", self.true(x))

    def implies(self, p, q):
        return CB("imp", self.true(p), self.true(q))

    def holds(self, c):
        return self.true(c).holds(0)

    def ite(self, c, a, b):
        return a if self.true(c).holds(0) else b

    def smax(self, *xs):
        return max(xs)

    def smin(self, *xs):
        return min(xs)

    def abs(self, x):
        return abs(x)

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else math.nan

    def log(self, x):
        return math.log(x)

    def exp(self, x):
        return math.exp(x)

    def floor(self, x):
        return math.floor(x)

    def frac(self, x):
        return float(x)

    def power(self, x, p):
        return float(x) ** float(p)

    def asint(self, x):
        return int(x)

    def spectrum(self, M, q, V):
        pass

    def assume(self, c):
        if not self.true(c).given():
            self.bad_assume.append(repr(c)[:200])

    def claim(self, name, *alts):
        ok = any(self.true(a).holds(CTOL) for a in alts)
        if name in self.results:
            ok = ok and self.results[name][0]
        self.results[name] = (ok, "" if ok else repr(alts)[:600])

    def hint(self, *cs):
        pass

    def observe(self, name, v):
        try:
            self.obsd[name] = tolist(v)
        except Exception as e:
            self.obsd[name] = "?" + repr(e)

    def choose(self, n, label=""):
        i = self.todo_choices.pop(0) if self.todo_choices else 0
        self.choices.append(i)
        return i

    def dead(self):
        raise DeadPath()

    # environment
    def install(self):
        import cvxpy
        import scipy.optimize as sco
        self._os, self._om = cvxpy.Problem.solve, sco.minimize
        me = self

        def solve(prob, *a, **kw):
            return me._solve(prob, a, kw)
        cvxpy.Problem.solve = solve
        sco.minimize = lambda *a, **kw: me._minimize(*a, **kw)
        import builtins
        self._op = builtins.print
        builtins.print = lambda *a, **k: me.printed.append(" ".join(str(x) for x in a))

    def stub(self, name, f):
        import importlib
        mn, at = STUBS[name]
        m = importlib.import_module(mn)
        self._stubbed.append((m, at, getattr(m, at)))
        setattr(m, at, f)

    def recorder(self, name):
        return type(self.PLT)(self.PLT._log, name)

    def record_plots(self):
        """the plotting libraries only record what they are asked to draw"""
        import matplotlib.pyplot as pp
        from . import loader
        self.PLT = loader.Rec()
        for n, f in list(vars(pp).items()):
            if callable(f) and not isinstance(f, type) and not n.startswith("_"):
                self._stubbed.append((pp, n, f))
                setattr(pp, n, getattr(self.PLT, n))
        fake = loader.make_mpl(self.PLT)
        for k, m in fake.items():
            if k.startswith("plotly"):
                self._mods.append((k, sys.modules.get(k)))
                sys.modules[k] = m
        return self.PLT

    def uninstall(self):
        for k, m in reversed(self._mods):
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m
        for m, at, o in reversed(self._stubbed):
            setattr(m, at, o)
        import builtins
        import cvxpy
        import scipy.optimize as sco
        cvxpy.Problem.solve, sco.minimize = self._os, self._om
        builtins.print = self._op

    def _solve(self, prob, a, kw):
        k = len(self.problems)
        cap = ConCap(self, prob, k, a, kw)
        self.problems.append(cap)
        st = self.status_plan(k) if self.status_plan else "optimal"
        cap.status = st
        if not prob.is_dcp():
            raise self.cp.DCPError("Problem does not follow DCP rules.")
        if st == "DCPError":
            raise self.cp.DCPError("Problem does not follow DCP rules.")
        if st == "SolverError":
            raise self.cp.SolverError("Solver failed. Try another solver.")
        prob._status = st
        has = st in ("optimal", "optimal_inaccurate", "user_limit")
        if not has:
            for v in cap.vars:
                v.save_value(None)
            prob._value = math.inf if "infeasible" in st else -math.inf
            return prob._value
        vals = self.solution_plan(k, cap) if self.solution_plan else None
        if vals is None:
            vals = []
            for i, v in enumerate(cap.vars):
                if v.shape == ():
                    vals.append(float(self.w.get("sol%d_%d" % (k, i), 1)))
                else:
                    vals.append([float(self.w.get("sol%d_%d_%d" % (k, i, j), 1)) for j in range(v.size)])
        cap.sol = cap.env(vals)
        for v in cap.vars:
            v.save_value(cap.sol[v.id].copy())
        prob._value = cap.obj(cap.sol) * (1 if type(prob.objective).__name__ == "Minimize" else -1)
        return prob._value

    def solve_fixed(self, cap, i, q, unlift=None):
        """real solver: (feasible, minimal objective) of the captured problem with the weights fixed to q"""
        import cvxpy as cp
        saved = [v.value for v in cap.vars]
        vals = [cap.params[k][0].value for k in range(len(cap.params))]
        try:
            for p, x in cap.params:
                p.save_value(x)
            if unlift is None:
                extra = [cap.vars[i] == np.asarray(q, dtype=float).reshape(cap.vars[i].shape)]
            else:
                extra = unlift.fix(cap, q)
            pr = cp.Problem(cap.objective, cap.constraints + extra)
            with warnings.catch_warnings(), _quiet():
                warnings.simplefilter("ignore")
                self._os(pr)
            if pr.status not in ("optimal", "optimal_inaccurate"):
                return False, None
            v = float(pr.value)
            return True, v if type(pr.objective).__name__ == "Minimize" else -v
        except BaseException:      # solvers may panic
            return False, None
        finally:
            for v, x in zip(cap.vars, saved):
                v.save_value(x)
            for (p, _), x in zip(cap.params, vals):
                p.save_value(x)

    def _minimize(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None,
                  callback=None, options=None):
        import scipy.optimize
        k = len(self.minimizes)
        n = len(x0)
        x = np.array([self.real("min%d_%d" % (k, j)) for j in range(n)])
        self.minimizes.append(dict(fun=fun, x0=x0, args=args if isinstance(args, tuple) else (args,), method=method, bounds=bounds,
                                   constraints=constraints, tol=tol, options=options, x=x))
        return scipy.optimize.OptimizeResult(x=x, success=True, status=0, message="stub", fun=fun(x, *(args if isinstance(args, tuple) else (args,))))


class _Scratch:
    def __init__(self, S):
        self.flag = getattr(S.C, "TEXTUAL", None) if hasattr(S, "C") else None

    def __enter__(self):
        self.old, self.dir = os.getcwd(), tempfile.mkdtemp()
        os.chdir(self.dir)
        if self.flag is not None:
            self.flag[0] = True
        return self

    def __exit__(self, *e):
        if self.flag is not None:
            self.flag[0] = False
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)

    def files(self):
        """the files written: {name: text}"""
        return {f: open(os.path.join(self.dir, f)).read() for f in sorted(os.listdir(self.dir))}


class _quiet:
    """solvers print to the descriptors"""

    def __enter__(self):
        sys.stdout.flush()
        self.s = [(d, os.dup(d)) for d in (1, 2)]
        n = os.open(os.devnull, os.O_WRONLY)
        for d, _ in self.s:
            os.dup2(n, d)
        os.close(n)

    def __exit__(self, *a):
        for d, k in self.s:
            os.dup2(k, d)
            os.close(k)


STUBS = {"linkage": ("scipy.cluster.hierarchy", "linkage"), "dendrogram": ("scipy.cluster.hierarchy", "dendrogram"),
         "optimal_leaf_ordering": ("scipy.cluster.hierarchy", "optimal_leaf_ordering"),
         "ledoit_wolf": ("sklearn.covariance", "ledoit_wolf"), "oas": ("sklearn.covariance", "oas"),
         "fast_mcd": ("sklearn.covariance", "fast_mcd")}


class DeadPath(BaseException):
    pass


def tolist(v):
    """picklable, comparable form"""
    if isinstance(v, dict):
        return [[str(k), tolist(x)] for k, x in v.items()]
    if isinstance(v, (pd.Series, pd.DataFrame)):
        v = v.to_numpy()
    if isinstance(v, np.ndarray):
        return [tolist(x) for x in v.ravel()] if v.dtype != object else [tolist(x) for x in np.asarray(v).view(np.ndarray).ravel()]
    if isinstance(v, (list, tuple)):
        return [tolist(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.number)):
        return float(v)
    return v if (v is None or isinstance(v, str)) else str(v)


def sym_tolist(v, env):
    from . import core as C
    if isinstance(v, dict):
        return [[str(k), sym_tolist(x, env)] for k, x in v.items()]
    if isinstance(v, (pd.Series, pd.DataFrame)):
        v = np.asarray(v.to_numpy(), dtype=object)
    if isinstance(v, np.ndarray):
        return [sym_tolist(x, env) for x in np.asarray(v, dtype=object).view(np.ndarray).ravel()]
    if isinstance(v, (list, tuple)):
        return [sym_tolist(x, env) for x in v]
    if isinstance(v, C.SReal):
        return C.evalf(v.r, env)
    if isinstance(v, C.SBool):
        return C.robustness(v, env) >= 0
    return tolist(v)


def agree(a, b, tol=2e-6):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(agree(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (float, int, bool)) and isinstance(b, (float, int, bool)):
        if a == b:
            return True
        if isinstance(a, float) and isinstance(b, float) and (math.isnan(a) or math.isnan(b)):
            return math.isnan(a) and math.isnan(b)
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))
    return a == b


def run_concrete(fn, kw, witness, choices, pf, real_solver=False):
    S = Con(witness, choices, pf, real_solver)
    S.install()
    err = errtype = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fn(S, **kw)
    except DeadPath:
        err = "dead"
    except Exception as e:
        err = "".join(traceback.format_exception(e))[-1500:]
        errtype = type(e).__name__
    finally:
        S.uninstall()
    return dict(errtype=errtype, claims=S.results, obs=S.obsd, bad_assume=S.bad_assume, err=err, missing=S.used.get("missing", []), trace=S.trace[-2:])
