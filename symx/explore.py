"""Path exploration and solver queries (z3) over the terms of core.py."""
import math
import os
import random
import time
from fractions import Fraction

import z3

from . import core as C
from .core import (ATOMS, FACTORS, ACTIVE, SBool, SReal, Rat, b_not, b_and, mono_items, LANE)


class Z3T:
    """translation to z3; one instance per scenario.  lin: nonlinear monomials become fresh variables
    (an abstraction: unsat answers are sound, sat answers are not used)"""

    def __init__(self, lin=False):
        self.lin = lin
        self.mono = {}
        self.monofacts = {}
        self.av = {}          # atom idx -> z3 arithmetic var
        self.defs = {}        # atom idx -> list of z3 facts
        self.pc = {}

    def atom(self, i):
        v = self.av.get(i)
        if v is not None:
            return v
        a = ATOMS[i]
        if a.kind == "ind":
            raise AssertionError
        if a.isint:
            v = z3.ToReal(z3.Int("%s!%d" % (a.name, i)))
        else:
            v = z3.Real("%s!%d" % (a.name, i))
        self.av[i] = v
        d = []
        if a.pos:
            d.append(v > 0)
        elif a.nonneg:
            d.append(v >= 0)
        if self.lin and a.kind == "root":
            d.append(v >= 0)
        elif a.kind == "root":
            q, base = a.data
            n, den = self.rat(base)
            d.append(v >= 0)
            d.append((v ** q if q > 2 else v * v) * den == n if den is not None else (v ** q if q > 2 else v * v) == n)
        elif a.kind == "floor":
            if self.lin and a.data.den:
                n = self.poly(a.data.num)
                den = n
                self.defs[i] = d
                return v
            n, den = self.rat(a.data)
            if den is None:
                d += [v <= n, n < v + 1]
            else:
                # sign of den may be unknown
                d += [z3.If(den > 0, z3.And(v * den <= n, n < (v + 1) * den),
                            z3.And(v * den >= n, n > (v + 1) * den))]
        elif a.kind == "exp":
            d.append(v > 0)
        self.defs[i] = d
        return v

    def indcond(self, i):
        v = self.av.get(i)
        if v is None:
            c, strict = ATOMS[i].data
            n = self.signpoly(c)
            v = self.av[i] = (n > 0) if strict else (n >= 0)
            self.defs[i] = []
        return v

    def poly(self, p):
        k = frozenset(p.items())
        r = self.pc.get(k)
        if r is not None:
            return r
        groups = {}
        for m, c in p.items():
            inds = []
            m2 = m
            for i, e in mono_items(m):
                if ATOMS[i].kind == "ind":
                    inds.append(i)
                    m2 -= e << (LANE * i)
            groups.setdefault(tuple(inds), []).append((m2, c))
        terms = []
        for inds, ms in groups.items():
            ts = []
            for m, c in ms:
                fs = []
                for i, e in mono_items(m):
                    v = self.atom(i)
                    fs.extend([v] * e)
                if not fs:
                    ts.append(z3.RealVal(c))
                elif self.lin and len(fs) > 1:
                    t = self.monovar(m)
                    ts.append(t if c == 1 else z3.RealVal(c) * t)
                else:
                    t = fs[0]
                    for f in fs[1:]:
                        t = t * f
                    ts.append(t if c == 1 else z3.RealVal(c) * t)
            s = ts[0] if len(ts) == 1 else z3.Sum(ts)
            if inds:
                cs = [self.indcond(i) for i in inds]
                s = z3.If(z3.And(cs) if len(cs) > 1 else cs[0], s, z3.RealVal(0))
            terms.append(s)
        r = z3.RealVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(terms))
        self.pc[k] = r
        return r

    def monovar(self, m):
        v = self.mono.get(m)
        if v is None:
            v = self.mono[m] = z3.Real("m!!%d" % len(self.mono))
            its = mono_items(m)
            if all(e % 2 == 0 or ATOMS[i].nonneg or ATOMS[i].pos for i, e in its):
                self.monofacts[v.get_id()] = v >= 0
                if all(ATOMS[i].pos for i, e in its):
                    self.monofacts[v.get_id()] = v > 0
        return v

    def rat(self, r):
        """(num, den or None) with value num/den"""
        n = self.poly(r.num)
        den = None
        if r.dc != 1:
            den = z3.RealVal(r.dc)
        for fid, e in r.den:
            f = self.poly(FACTORS[fid])
            for _ in range(e):
                den = f if den is None else den * f
        return n, den

    def signpoly(self, r):
        """z3 term with the sign of r"""
        if self.lin:
            q = r.num
            for fid, e in r.den:
                if e % 2:
                    s = C.poly_sign(FACTORS[fid])
                    if s in ("+", "0+"):
                        continue
                    if s in ("-", "0-"):
                        q = C.pscale(q, -1)
                        continue
                    q = C.pmul(q, FACTORS[fid])
            return self.poly(q)
        n = self.poly(r.num)
        for fid, e in r.den:
            if e % 2:
                s = C.poly_sign(FACTORS[fid])
                if s in ("+", "0+"):
                    continue
                if s in ("-", "0-"):
                    n = -n
                    continue
                n = n * self.poly(FACTORS[fid])
        return n

    def bool(self, b, margin=None, pos=True):
        """z3 formula of b.  margin: strengthen by that amount (b true with margin / pos False:
        weakened)"""
        if not isinstance(b, SBool):
            return z3.BoolVal(bool(b))
        k = b.t[0]
        if k == "cmp":
            op, r = b.t[1], b.t[2]
            if margin is None or not margin:
                if op == "==":
                    return self.poly(r.num) == 0
                n = self.signpoly(r)
                return n < 0 if op == "<" else n <= 0
            m = margin if pos else -margin
            n, den = self.rat(r)
            if op == "==":
                if pos:
                    return n == 0
                # weakened equality: |r| < margin
                mm = z3.RealVal(str(margin))
                if den is None:
                    return z3.And(n < mm, n > -mm)
                return z3.And(n * den < mm * den * den, n * den > -mm * den * den)
            mm = z3.RealVal(str(m))
            if den is None:
                return n + mm < 0 if op == "<" else n + mm <= 0
            return n * den + mm * den * den < 0 if op == "<" else n * den + mm * den * den <= 0
        if k == "not":
            return z3.Not(self.bool(b.t[1], margin, not pos))
        xs = [self.bool(x, margin, pos) for x in b.t[1]]
        return z3.And(xs) if k == "and" else z3.Or(xs)

    def closure(self, fs):
        """definitions of all atoms reachable from the formulas"""
        seen, out = set(), []
        work = []
        ids = set()

        def collect(e):
            st = [e]
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = x.decl().name()
                    if nm.startswith("m!!"):
                        if x.get_id() in self.monofacts:
                            out.append(self.monofacts[x.get_id()])
                        continue
                    j = nm.rfind("!")
                    if j > 0:
                        i = int(nm[j + 1:])
                        if i not in ids:
                            ids.add(i)
                            work.append(i)
                else:
                    st.extend(x.children())
        for f in fs:
            collect(f)
        while work:
            i = work.pop()
            for d in self.defs.get(i, ()):
                out.append(d)
                collect(d)
        return out, ids


def bkey(b):
    if not isinstance(b, SBool):
        return bool(b)
    k = b.t[0]
    if k == "cmp":
        op, r = b.t[1], b.t[2]
        g, p = C.pprim(r.num)
        sg = 1 if g > 0 else -1
        den = []
        if op != "==":
            for fid, e in r.den:
                if e % 2:
                    s = C.poly_sign(FACTORS[fid])
                    if s in ("+", "0+"):
                        continue
                    if s in ("-", "0-"):
                        sg = -sg
                        continue
                    den.append(fid)
        else:
            sg = 1
        return (op, sg, frozenset(p.items()), tuple(den))
    if k == "not":
        return ("not", bkey(b.t[1]))
    return (k, frozenset(bkey(x) for x in b.t[1]))


class Explorer:
    def __init__(self, opts=None):
        self.opts = dict(feas_ms=2000, query_ms=20000, max_paths=400, wall=600, seed=1, div="assume")
        self.opts.update(opts or {})
        C.reset()
        self.z = Z3T()
        self.zl = Z3T(lin=True)
        self.stats = dict(paths=0, infeasible=0, decisions=0, feas_queries=0, obligations=0, by_normal_form=0,
                          by_solver=0, solver_s=0.0, unknown_feas=0, claims=0)
        self.todo = [[]]
        self.assumed_nonzero = set()
        self.proved = {}
        self.lemmas = []
        self.t0 = time.time()

    # ------------------------------------------------------------------ running
    def run(self, fn, on_path):
        """explore all paths of fn(); on_path(kind) called at the end of each"""
        while self.todo:
            if self.stats["paths"] >= self.opts["max_paths"] or time.time() - self.t0 > self.opts["wall"]:
                raise C.Budget("path/time budget exceeded: %d paths, %d pending" % (self.stats["paths"], len(self.todo)))
            self.prefix = self.todo.pop()
            self.pos = 0
            self.pc = []            # SBools asserted on this path
            self.pckeys = {}
            self.nz = []
            self.nzset = set()
            self.solver = None
            self.feas_cache = {}
            ACTIVE[0] = self
            try:
                fn()
                self.stats["paths"] += 1
                on_path()
            except C.PathDone:
                self.stats["infeasible"] += 1
            finally:
                ACTIVE[0] = None

    # ------------------------------------------------------------------ assumptions
    def note_nonzero(self, fid):
        if fid in self.nzset:
            return
        self.nzset.add(fid)
        s = C.poly_sign(FACTORS[fid]) or C._psign(FACTORS[fid])
        if s in ("+", "-"):
            return
        b = SBool("not", SBool("cmp", "==", Rat(FACTORS[fid])))
        self.nz.append(b)
        if s is None or s in ("0+", "0-"):
            self.assumed_nonzero.add(fid)
        self._add(b)

    def note_nonneg(self, r):
        b = C.mkcmp("<=", C.rneg(r))
        if isinstance(b, SBool):
            self.nz.append(b)
            self._add(b)

    def note_pos(self, r):
        b = C.mkcmp("<", C.rneg(r))
        if isinstance(b, SBool):
            self.nz.append(b)
            self._add(b)

    def _add(self, b):
        self.pckeys[bkey(b)] = True
        if self.solver is not None:
            self._solver_add(self.solver, [self.z.bool(b)])

    def assume(self, b):
        if not isinstance(b, SBool):
            if not b:
                raise C.PathDone()
            return
        if b.t[0] == "and":
            for x in b.t[1]:
                self.assume(x)
            return
        if bkey(b) in self.pckeys:
            return
        self.pc.append(b)
        self._add(b)

    def _solver_add(self, s, fs):
        d, ids = self.z.closure(fs)
        for x in d:
            if x.get_id() not in self._added:
                self._added.add(x.get_id())
                s.add(x)
        for f in fs:
            s.add(f)

    def mksolver(self, ms):
        s = z3.Solver()
        s.set("timeout", int(ms))
        s.set("random_seed", self.opts["seed"])
        return s

    def check(self, fs, ms, want_model=False, tactic=None):
        """satisfiability of the conjunction of z3 formulas (with definitions); 'sat'/'unsat'/'unknown'"""
        d, ids = self.z.closure(fs)
        t0 = time.time()
        hasint = any(ATOMS[i].isint and ATOMS[i].kind != "ind" for i in ids)
        res, model = z3.unknown, None
        plans = ["smt"] if hasint else ["nlsat", "smt"]
        if tactic:
            plans = [tactic]
        lin = False
        for n, plan in enumerate(plans):
            if plan == "nlsat":
                try:
                    s = z3.Then(z3.With("simplify", som=False), "solve-eqs", "elim-term-ite" if False else "simplify", "qfnra-nlsat").solver() if False else z3.SolverFor("QF_NRA")
                except z3.Z3Exception:
                    s = z3.Solver()
            else:
                s = z3.Solver()
            s.set("timeout", int(ms if n == len(plans) - 1 else max(ms * 0.6, 500)))
            for x in d:
                s.add(x)
            for f in fs:
                s.add(f)
            try:
                res = s.check()
            except z3.Z3Exception as e:
                res = z3.unknown
            if res != z3.unknown:
                if res == z3.sat and want_model:
                    model = s.model()
                break
        self.stats["solver_s"] += time.time() - t0
        if os.environ.get("SYMX_SLOW") and time.time() - t0 > float(os.environ["SYMX_SLOW"]):
            print("SLOW check %.1fs %s ms=%s %s" % (time.time() - t0, res, ms, [str(f)[:2000] for f in fs][:10]), flush=True)
        return str(res), model

    def pcz(self, margin=None):
        return [self.z.bool(b, margin) for b in self.pc] + [self.z.bool(b) for b in self.nz]

    def feasible(self, extra):
        self.stats["feas_queries"] += 1
        t0 = time.time()
        if self.solver is None:
            self.solver = self.mksolver(self.opts["feas_ms"])
            self._added = set()
            self._solver_add(self.solver, [self.z.bool(b) for b in self.pc + self.nz])
        f = self.z.bool(extra)
        self.solver.push()
        saved = set(self._added)
        self._solver_add(self.solver, [f])
        r = self.solver.check()
        self.solver.pop()
        self._added = saved
        self.stats["solver_s"] += time.time() - t0
        if r == z3.unknown:
            # second opinion from nlsat
            rr, _ = self.check(self.pcz() + [f], self.opts["feas_ms"], tactic="nlsat")
            if rr == "unsat":
                return False
            self.stats["unknown_feas"] += 1
            return True
        return r == z3.sat

    # ------------------------------------------------------------------ forking
    def decide(self, b):
        if b.t[0] == "not":
            return not self.decide(b.t[1])
        if b.t[0] == "and":
            return all(self.decide(x) if isinstance(x, SBool) else x for x in b.t[1])
        if b.t[0] == "or":
            return any(self.decide(x) if isinstance(x, SBool) else x for x in b.t[1])
        k = bkey(b)
        if k in self.pckeys:
            return True
        nb = b_not(b)
        if bkey(nb) in self.pckeys:
            return False
        self.stats["decisions"] += 1
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            t = self.feasible(b)
            f = self.feasible(nb) if t else True
            if t and f:
                self.todo.append(self.prefix + [False])
                v = True
            elif t:
                v = True
            else:
                v = False
                if not self.pc_feasible_hint():
                    pass
            self.prefix = self.prefix + [v]
        self.pos += 1
        c = b if v else nb
        self.pc.append(c)
        self._add(c)
        return v

    def pc_feasible_hint(self):
        return True

    def choose(self, n, label=""):
        """nondeterministic choice 0..n-1 (environment stub)"""
        for i in range(n - 1):
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
            else:
                self.todo.append(self.prefix + [False])
                v = True
                self.prefix = self.prefix + [v]
            self.pos += 1
            if v:
                return i
        return n - 1

    def concretise(self, x):
        """int(x): fork over its feasible integer values"""
        t = x.floor() if bool(x >= 0) else x.ceil()
        if t.r.isconst():
            return int(t.r.cval())
        for _ in range(self.opts.get("max_ints", 64)):
            # replay decisions first: candidate values come from a deterministic model search
            key = ("cz", t.r.key(), self.pos)
            k = self._intmodel(t)
            if bool(t == k):
                return k
        raise C.Budget("too many integer values")

    def _intmodel(self, t):
        memo = self.__dict__.setdefault("_czmemo", {})
        mk = (tuple(self.prefix[:self.pos]), t.r.key())
        if mk in memo:
            return memo[mk]
        v = z3.Real("cz!v") if False else None
        n, den = self.z.rat(t.r)
        fs = self.pcz()
        res, m = self.check(fs + [n == n], self.opts["feas_ms"] * 2, want_model=True, tactic="smt")
        if res == "unsat":
            raise C.PathDone()
        if m is None:
            raise C.SymEscape("cannot concretise an integer")
        val = m.eval(n if den is None else n / den, model_completion=True)
        q = z3val(val)
        memo[mk] = int(q)
        return memo[mk]

    # ------------------------------------------------------------------ obligations
    def prove(self, b, relevant=True, ms=None):
        """pc => b ?  'proved' | 'refuted' | 'unknown'"""
        if isinstance(b, SBool):
            if b.t[0] == "and":
                v = "proved"
                for x in b.t[1]:
                    r = self.prove(x, ms=ms)
                    if r == "refuted":
                        return r
                    if r != "proved":
                        v = r
                return v
            if b.t[0] == "or":
                ks = {bkey(x) for x in b.t[1]}
                if any(bkey(b_not(x)) in ks for x in b.t[1]) or any(k in self.pckeys for k in ks):
                    self.stats["obligations"] += 1
                    self.stats["by_normal_form"] += 1
                    return "proved"
                ands = [x for x in b.t[1] if isinstance(x, SBool) and x.t[0] == "and"]
                if len(ands) == 1 and len(ands[0].t[1]) <= 60:
                    rest = [x for x in b.t[1] if x is not ands[0]]
                    return self.prove(b_and(*[C.b_or(*(rest + [x])) for x in ands[0].t[1]]), ms=ms)
        self.stats["obligations"] += 1
        if not isinstance(b, SBool):
            if b:
                self.stats["by_normal_form"] += 1
                return "proved"
            # b is plain False: refuted iff path feasible
            r, _ = self.check(self.pcz(), self.opts["query_ms"])
            if r == "unsat":
                self.stats["by_solver"] += 1
                return "proved"
            return "refuted" if r == "sat" else "unknown"
        if bkey(b) in self.pckeys:
            self.stats["by_normal_form"] += 1
            return "proved"
        if self.linproved(b):
            self.stats["by_solver"] += 1
            return "proved"
        neg = self.z.bool(b_not(b))
        # identities: try without the path condition first (cheap, stronger)
        r, _ = self.check([neg] + [self.z.bool(x) for x in self.nz], min(1500, ms or self.opts["query_ms"]))
        if r == "unsat":
            self.stats["by_solver"] += 1
            return "proved"
        r, _ = self.check(self.pcz() + [neg] + [self.z.bool(x) for x in self.lemmas], ms or self.opts["query_ms"])
        if r == "unsat":
            self.stats["by_solver"] += 1
            return "proved"
        return "refuted" if r == "sat" else "unknown"

    def prove_timed(self, b, name, ms=None):
        t0 = time.time()
        v = self.prove(b, ms=ms)
        if os.environ.get("SYMX_SLOW") and time.time() - t0 > float(os.environ["SYMX_SLOW"]):
            print("SLOW %.1fs %s %s %s" % (time.time() - t0, name, v, repr(b)[:300]), flush=True)
        return v

    def hint(self, b):
        """an intermediate fact: used in later proofs if it is itself proved"""
        if b is True or not isinstance(b, SBool):
            return
        t0 = time.time()
        v = self.prove(b, ms=self.opts.get("hint_ms", 4000))
        if os.environ.get("SYMX_SLOW") and time.time() - t0 > float(os.environ["SYMX_SLOW"]):
            print("SLOW hint %.1fs %s %s" % (time.time() - t0, v, repr(b)[:300]), flush=True)
        if v == "proved":
            self.lemmas.append(b)
        else:
            self.stats["hints_dropped"] = self.stats.get("hints_dropped", 0) + 1

    def linproved(self, b, ms=3000):
        """abstraction: distinct nonlinear monomials as free variables, linear arithmetic decides"""
        z = self.zl
        t0 = time.time()
        fs = [z.bool(b_not(b))] + [z.bool(x) for x in self.pc] + [z.bool(x) for x in self.nz] + [z.bool(x) for x in self.lemmas]
        d, _ = z.closure(fs)
        s = z3.Solver()
        s.set("timeout", ms)
        s.set("random_seed", self.opts["seed"])
        for f in d + fs:
            s.add(f)
        r = s.check()
        self.stats["solver_s"] += time.time() - t0
        return r == z3.unsat

    # ------------------------------------------------------------------ models
    def models(self, b, names, boxes=None, tries=24, margin=1e-3, ms=4000, want=1, wide=False):
        """generate numeric assignments {name: Fraction} violating b on this path (b=None: just the path).
        Solver-driven: margins and boxes first, then random partial assignments that the solver
        completes."""
        rng = random.Random(self.opts["seed"] * 7919 + 13)
        neg = None if b is None else b_not(b)
        vs = {}
        for nm in names:
            a = C.ATOMKEY.get(("var", nm))
            if a is not None:
                vs[nm] = a
        boxes = boxes or {}

        def boxf(scale):
            out = []
            for nm, a in vs.items():
                v = self.z.atom(a.idx)
                if scale is None:       # the claim is refuted somewhere: leave the preferred ranges
                    out += [v <= z3.RealVal(10 ** 6), v >= (z3.RealVal("1/10000000") if a.pos else z3.RealVal(-10 ** 6))]
                    continue
                lo, hi = boxes.get(nm, (None, None))
                if lo is None:
                    lo = Fraction(1, 8) / scale if a.pos else (Fraction(0) if a.nonneg else Fraction(-4) * scale)
                if hi is None:
                    hi = Fraction(4) * scale
                out += [v >= z3.RealVal(str(lo)), v <= z3.RealVal(str(hi))]
            return out
        plan = [(margin * 30, 1, 0.0), (margin * 30, 1, .5), (margin * 3, 1, 0.0), (margin * 30, 1, .8), (margin, 4, 0.0),
                (margin * 3, 1, .9), (margin * 10, 1, 1.0)]
        plan += [(margin, 1, f) for f in (.9, 1.0, .7, 1.0, .95, .4, 1.0, 1.0)] + [(margin / 100, 50, 0.0), (0, 1, .9), (0, 50, 0.0)]
        plan += [(margin, 1, 1.0)] * max(0, tries - len(plan))
        got = 0
        plan = plan[:max(tries, 7)]
        if wide:
            plan += [(margin, None, 0.0), (margin / 10 ** 6, None, 0.0), (0, None, 0.0)]
        for n, (mg, scale, fix) in enumerate(plan):
            if scale is None and got:
                return
            fs = []
            pcm = min(mg, 1e-3) if mg else None
            if neg is not None and isinstance(neg, SBool):
                fs.append(self.z.bool(neg, mg or None))
            elif neg is not None and not neg:
                return
            fs += [self.z.bool(x, pcm) for x in self.pc] + [self.z.bool(x) for x in self.nz]
            fs += boxf(scale)
            if fix:
                for nm, a in sorted(vs.items()):
                    if rng.random() < fix:
                        lo, hi = boxes.get(nm, (None, None))
                        lo = float(lo) if lo is not None else (0.125 if a.pos else 0 if a.nonneg else -2)
                        hi = float(hi) if hi is not None else 3
                        if a.isint:
                            val = Fraction(rng.randint(math.ceil(lo), math.floor(hi)))
                        else:
                            val = Fraction(round(rng.uniform(lo, hi) * 16), 16)
                            if a.pos and val <= 0:
                                val = Fraction(1, 16)
                            val = min(max(val, Fraction(lo).limit_denominator(10 ** 6)), Fraction(hi).limit_denominator(10 ** 6))
                        fs.append(self.z.atom(a.idx) == z3.RealVal(str(val)))
            r, m = self.check(fs, ms if fix < 1 else 1000, want_model=True)
            if r == "unsat" and fix == 0 and mg == 0 and scale == 50:
                pass
            if r != "sat" or m is None:
                continue
            asg = {}
            for nm in names:
                a = vs.get(nm)
                if a is None:
                    asg[nm] = Fraction(1)
                    continue
                v = self.z.atom(a.idx)
                asg[nm] = z3val(m.eval(v, model_completion=True))
            yield asg
            got += 1
            if got >= want:
                return


def z3val(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        w = v.approx(20)
        return Fraction(w.numerator_as_long(), w.denominator_as_long())
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    raise C.SymEscape("no numeral for %s" % v)
