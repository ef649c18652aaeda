"""Engine self-test: a true claim is proved, a false one refuted with a model, floats agree with terms."""
import random
from fractions import Fraction

from . import core as C, explore, arr as A


def main():
    ex = explore.Explorer(dict(seed=1))
    out = {}

    def f():
        x, y = C.var("x"), C.var("y", pos=True)
        M = A.f_array([[x, y], [y, x + 1]])
        if x > 2:
            out["M"] = A.la_inv(M)
        out["t"] = C.mkcmp("<=", (-(x - y) * (x - y)).r)
        out["f"] = C.mkcmp("<=", (x - y).r)
        out["e"] = C.mkcmp("==", ((x + y) * (x - y) / y - x * x / y + y).r)
        out["x"] = x

    def g():
        assert ex.prove(out["t"]) == "proved"
        assert ex.prove(out["e"]) == "proved"
        assert ex.prove(out["f"]) == "refuted"
        ms = list(ex.models(out["f"], ["x", "y"]))
        assert ms and ms[0]["x"] > ms[0]["y"]
        if "M" in out:
            r = random.Random(1)
            e = {"x": r.uniform(3, 4), "y": r.uniform(.1, .9)}
            m = out.pop("M")
            d = e["x"] * (e["x"] + 1) - e["y"] ** 2
            assert abs(C.evalf(m[0, 0].r, e) - (e["x"] + 1) / d) < 1e-9
    ex.run(f, g)
    assert ex.stats["paths"] == 2, ex.stats
    print("selftest ok")
    return 0
