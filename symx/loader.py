"""Compile pypfopt from /repo's current source against the symbolic facades."""
import builtins
import math
import os
import sys
import types

import numpy as np

from . import arr as A
from . import core as C
from . import cpshim
from .core import SReal, SBool, SymEscape

REPO = os.environ.get("SYMX_REPO", "/repo")

ENV = {}          # environment stubs set by the running scenario


def _env(name):
    def f(*a, **k):
        h = ENV.get(name)
        if h is None:
            raise SymEscape("no environment stub for %s" % name)
        return h(*a, **k)
    f.__name__ = name
    return f


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)

    def ga(k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise SymEscape("%s.%s is not modelled" % (name, k))
    m.__getattr__ = ga
    return m


# ------------------------------------------------------------------ scipy
def squareform(X, force="no", checks=True):
    if hasattr(X, "to_numpy"):
        X = X.to_numpy()
    X = A.asarr(X)
    if X.ndim == 2:
        n = X.shape[0]
        out = np.empty(n * (n - 1) // 2, dtype=object)
        k = 0
        for i in range(n):
            for j in range(i + 1, n):
                out[k] = X[i, j]
                k += 1
        return A.wrap(out)
    m = X.shape[0]
    n = int(math.ceil(math.sqrt(m * 2)))
    out = np.zeros((n, n), dtype=object)
    k = 0
    for i in range(n):
        for j in range(i + 1, n):
            out[i, j] = out[j, i] = X[k]
            k += 1
    return A.wrap(out)


def _pdist(*a, **k):
    raise SymEscape("pdist")


def make_scipy():
    import scipy.cluster.hierarchy as rsch
    import scipy.optimize as rsco
    sco = mod("scipy.optimize", minimize=_env("minimize"), OptimizeResult=rsco.OptimizeResult, Bounds=rsco.Bounds,
              LinearConstraint=rsco.LinearConstraint, NonlinearConstraint=rsco.NonlinearConstraint)
    ssd = mod("scipy.spatial.distance", squareform=squareform, pdist=_pdist)
    sch = mod("scipy.cluster.hierarchy", linkage=_env("linkage"), to_tree=rsch.to_tree, leaves_list=rsch.leaves_list,
              dendrogram=_env("dendrogram"), fcluster=rsch.fcluster, _LINKAGE_METHODS=rsch._LINKAGE_METHODS,
              ClusterNode=rsch.ClusterNode, optimal_leaf_ordering=_env("optimal_leaf_ordering"))
    cluster = mod("scipy.cluster", hierarchy=sch)
    spatial = mod("scipy.spatial", distance=ssd)
    stats = mod("scipy.stats")
    linalg = mod("scipy.linalg", **{k: v for k, v in A.LINALG.items()})
    scipy = mod("scipy", optimize=sco, cluster=cluster, spatial=spatial, stats=stats, linalg=linalg)
    return {"scipy": scipy, "scipy.optimize": sco, "scipy.cluster": cluster, "scipy.cluster.hierarchy": sch,
            "scipy.spatial": spatial, "scipy.spatial.distance": ssd, "scipy.stats": stats, "scipy.linalg": linalg}


def make_sklearn():
    cov = mod("sklearn.covariance", ledoit_wolf=_env("ledoit_wolf"), oas=_env("oas"), fast_mcd=_env("fast_mcd"),
              MinCovDet=_env("MinCovDet"), LedoitWolf=_env("LedoitWolf"), OAS=_env("OAS"),
              shrunk_covariance=_env("shrunk_covariance"), empirical_covariance=_env("empirical_covariance"))
    sk = mod("sklearn", covariance=cov)
    return {"sklearn": sk, "sklearn.covariance": cov}


# ------------------------------------------------------------------ matplotlib: a recorder
class Rec:
    """records every call made on it; results are recorders too"""

    def __init__(self, log=None, name="plt"):
        self.__dict__["_log"] = [] if log is None else log
        self.__dict__["_name"] = name
        self.__dict__["_kids"] = {}

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        kid = self._kids.get(k)
        if kid is None:
            kid = self._kids[k] = Rec(self._log, self._name + "." + k)
        return kid

    def __setattr__(self, k, v):
        self._kids[k] = v

    def __call__(self, *a, **k):
        self._log.append((self._name, a, k))
        if self._name.endswith(".subplots"):
            return Rec(self._log, "fig"), Rec(self._log, "ax")
        return Rec(self._log, self._name + "()")

    def __iter__(self):
        return iter([Rec(self._log, self._name + "[0]"), Rec(self._log, self._name + "[1]")])

    def __getitem__(self, k):
        return Rec(self._log, "%s[%r]" % (self._name, k))

    def __len__(self):
        return 2


PLT = Rec()


def make_mpl(PLT=PLT):
    pp = mod("matplotlib.pyplot")
    pp.__dict__["__getattr__"] = lambda k: getattr(PLT, k)
    m = mod("matplotlib", pyplot=pp)
    go = mod("plotly.graph_objects")
    go.__dict__["__getattr__"] = lambda k: getattr(PLT.plotly, k)
    sp = mod("plotly.subplots", make_subplots=PLT.plotly.make_subplots)
    pl = mod("plotly", graph_objects=go, subplots=sp)
    return {"matplotlib": m, "matplotlib.pyplot": pp, "plotly": pl, "plotly.graph_objects": go, "plotly.subplots": sp}


def make_math():
    over = dict(sqrt=A.UF["sqrt"], exp=A.UF["exp"], log=lambda x, *b: A.UF["log"](x) if not b else A.s_div(A.UF["log"](x), A.UF["log"](b[0])),
                floor=lambda x: A.exact(x).floor() if isinstance(x, SReal) else math.floor(x),
                ceil=lambda x: A.exact(x).ceil() if isinstance(x, SReal) else math.ceil(x),
                fabs=A.s_abs, pow=A.s_pow, fsum=A.b_sum, isnan=A.isnan1, isinf=A.isinf1,
                isfinite=lambda v: not A.isnan1(v) and not A.isinf1(v),
                prod=lambda it, start=1: _prod(it, start), trunc=lambda x: int(x))
    return A.Facade(math, over, "math")


def make_json():
    import json
    text = lambda v: format(v, "") if isinstance(v, SReal) else json.JSONEncoder().default(v)
    return A.Facade(json, dict(dump=lambda o, fp, **k: json.dump(o, fp, **dict(dict(default=text), **k)), dumps=lambda o, **k: json.dumps(o, **dict(dict(default=text), **k))), "json")


def _prod(it, t):
    for x in it:
        t = t * x
    return t


class _Copy:
    pass


def modmap():
    m = {"numpy": A.NP, "numpy.linalg": A.NP.linalg, "cvxpy": cpshim.CP, "math": make_math(), "json": make_json()}
    for k in ("constraints", "expressions", "error", "settings"):
        m["cvxpy." + k] = getattr(cpshim.CP, k)
    m["cvxpy.constraints.nonpos"] = cpshim.CP.constraints.nonpos
    m["cvxpy.constraints.zero"] = cpshim.CP.constraints.zero
    m["cvxpy.expressions.constants"] = cpshim.CP.expressions.constants
    m["cvxpy.expressions.constants.constant"] = cpshim.CP.expressions.constants.constant
    m["cvxpy.expressions.variable"] = cpshim.CP.expressions.variable
    m["cvxpy.expressions.expression"] = cpshim.CP.expressions.expression
    m.update(make_scipy())
    m.update(make_sklearn())
    m.update(make_mpl())
    return m


class Package:
    """one symbolic load of pypfopt"""

    def __init__(self, root=None):
        self.root = os.path.join(root or REPO, "pypfopt")
        self.map = modmap()
        self.mods = {}
        self.functions = []
        b = dict(builtins.__dict__)
        b.update({"__import__": self.imp, "float": A.SymFloat, "int": A.SymInt, "max": A.b_max, "min": A.b_min,
                  "sum": A.b_sum, "any": A.b_any, "all": A.b_all, "round": A.b_round, "pow": A.b_pow,
                  "print": lambda *a, **k: ENV.get("print", lambda *a, **k: None)(*a, **k)})
        self.builtins = b

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parts = name.split(".")[1:]
        p = os.path.join(self.root, *parts)
        pk = os.path.isdir(p)
        f = os.path.join(p, "__init__.py") if pk else p + ".py"
        if not os.path.exists(f):
            raise ModuleNotFoundError(name)
        m = types.ModuleType(name)
        m.__file__ = f
        m.__package__ = name if pk else name.rpartition(".")[0]
        if pk:
            m.__path__ = [p]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if len(parts):
            par = self.load(name.rpartition(".")[0])
            if name in self.mods and self.mods[name] is not m:
                return self.mods[name]
        src = open(f).read()
        exec(compile(src, f, "exec"), m.__dict__)
        if len(parts):
            setattr(self.load(name.rpartition(".")[0]), parts[-1], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals["__package__"]
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
        if full == "pypfopt" or full.startswith("pypfopt."):
            m = self.load(full)
            if not fromlist:
                return self.load("pypfopt") if level == 0 else m
            for k in fromlist:
                if k != "*" and not hasattr(m, k) and hasattr(m, "__path__"):
                    try:
                        setattr(m, k, self.load(full + "." + k))
                    except ModuleNotFoundError:
                        pass
            return m
        top = full.split(".")[0]
        if full.startswith("numpy._core") or full.startswith("numpy.core._"):
            # numpy's own C code importing its helpers while a facade frame is on top
            return builtins.__import__(name, globals, locals, fromlist, level)
        if full in self.map:
            if fromlist:
                return self.map[full]
            return self.map.get(top, self.map[full])
        if top in self.map:
            if top == "numpy" or top == "cvxpy":
                raise SymEscape("import of %s" % full)
            raise SymEscape("import of %s" % full)
        if top not in sys.stdlib_module_names and top not in ("pandas", "typing_extensions"):
            raise SymEscape("import of %s" % full)
        return builtins.__import__(name, globals, locals, fromlist, level)


def load(root=None):
    p = Package(root)
    pk = p.load("pypfopt")
    for n in ("base_optimizer", "objective_functions", "exceptions", "expected_returns", "risk_models", "black_litterman",
              "discrete_allocation", "cla", "hierarchical_portfolio", "efficient_frontier", "plotting"):
        setattr(pk, n, p.load("pypfopt." + n)) if n != "cla" else None
        p.load("pypfopt." + n)
    pk._loader = p
    return pk
