"""Is the problem a method poses to the solver the documented one?

cap: the captured problem; w: the weights reported for its solution.  `spec(w, a)` are the documented
conditions and `F(w, a)` the documented quantity to minimise; a is an auxiliary number over which the
documented risk measure minimises (CVaR, CDaR), None otherwise.  Claims:
 admissible.*  a solver-feasible solution yields weights (and some a) meeting the conditions
 complete      every admissible (q, a) lifts to a solver-feasible point that yields q
 optimal       if the solution is at least as good (captured objective) as the lift of (q, a), then
               F(w) <= F(q, a)
Together with the solver's contract (solution feasible, objective minimal) these say: w is admissible
and no admissible q has a smaller F."""
import itertools


def ident(S, cap, w):
    """index of the captured variable that is reported as the weights, or None"""
    w = S.flat(w)
    for i, sh in enumerate(cap.shapes()):
        if sh in ((len(w),), (len(w), 1)):
            v = cap.solvec(i)
            if S.mode == "sym":
                if all(S.eq(a, b) is True for a, b in zip(w, v)):
                    return i
            elif all(abs(a - b) <= 1e-9 * (1 + abs(a)) for a, b in zip(w, v)):
                return i
    return None


def posed(S, cap, w, spec, F, tag="", lifts=None, unlift=None, cands=(None,), aq=None, q=None, fq=None, hints=None, more=()):
    """lifts(cap, i, q, aq): list of candidate value lists; unlift(env values) -> weights (default: variable i)
    cands: candidate auxiliaries for the reported weights; more: further ones, for the optimality claim; aq: auxiliary of the competitor q"""
    w = S.flat(w)
    n = len(w)
    if q is None:
        q = S.flat(S.vec("q" + tag, n, lo=-2, hi=2))
    hyp = cap.feasible(cap.sol)
    i = ident(S, cap, w)
    if unlift is None and i is None:
        S.claim("weights%s.are.solution" % tag, False)
        return
    hq = S.and_(*[c for _, c in spec(q, aq)])
    if hints is not None and S.mode == "sym":
        for h, facts in ((hyp, hints(cap, w, cands)), (hq, hints(None, q, [aq]))):
            for c in facts:
                S.hint(S.implies(h, c))
    # admissible: conditions that do not mention a are claimed one by one
    per = [spec(w, a) for a in cands]
    for k, (nm, c) in enumerate(per[0]):
        S.claim("admissible%s.%s" % (tag, nm), *[S.implies(hyp, p[k][1]) for p in per])
    if lifts is None:
        if len(cap.vars) != 1:
            vs = []
        else:
            vs = [[q]]
    else:
        vs = lifts(cap, i, q, aq)
    os_ = cap.obj(cap.sol)
    fw = [F(w, a) for a in cands]
    fqv = F(q, aq) if fq is None else fq
    alts_b, alts_c = [], []
    for vals in vs[:24]:
        e = cap.env(vals)
        oq = cap.obj(e)
        feas = cap.feasible(e)
        back = S.eqs(unlift(vals), q) if unlift else True
        alts_b.append(S.implies(hq, S.and_(feas, back)))
        if len(vs) == 1:
            alts_c.append(S.eq(os_ - oq, fw[0] - fqv))
        for f in fw:
            alts_c.append(S.and_(S.implies(hyp, S.le(f, os_)), S.implies(hq, S.le(oq, fqv))))
        alts_c.append(S.implies(S.and_(hyp, hq, feas, S.le(os_, oq)), S.or_(*[S.le(f, fqv) for f in fw])))
        if more and S.mode == "sym":        # the weakest form: refuted only by weights that are worse for every auxiliary
            alts_c.append(S.implies(S.and_(hyp, hq, feas, S.le(os_, oq)), S.or_(*[S.le(f, fqv) for f in fw + [F(w, a) for a in more]])))
    if S.mode == "con" and (len(cap.vars) > 1 or unlift):
        # another formulation of the same problem may need another lift: ask the real solver
        ok, val = S.solve_fixed(cap, i, q, unlift)
        if S.true(hq).holds(1e-9):
            alts_b.append(S.true(ok))
            if ok:
                alts_c.append(S.implies(S.and_(hyp, S.le(os_, val)), S.or_(*[S.le(f, fqv) for f in fw])))
    if not alts_b:
        S.claim("complete" + tag, False)
        return q
    S.claim("complete" + tag, *alts_b)
    S.claim("optimal" + tag, *alts_c)
    return q


def bounds_spec(S, w, lo, hi):
    lo, hi = list(lo), list(hi)
    out = []
    for i, x in enumerate(w):
        if lo[i] is not None:
            out.append(("lower%d" % i, S.le(lo[i], x)))
        if hi[i] is not None:
            out.append(("upper%d" % i, S.le(x, hi[i])))
    return out


def sum_spec(S, w, total=1):
    return [("sum", S.eq(S.sum(w), total))]


def shape_lifts(cap, i, q, scal, vecs):
    """assign candidate values to the auxiliary variables by shape.
    scal: candidate scalars; vecs: {length: [candidate vectors]}"""
    opts = []
    for k, sh in enumerate(cap.shapes()):
        if k == i:
            opts.append([list(q)])
        elif sh == ():
            opts.append(list(scal))
        elif sh == (1,):
            opts.append(vecs.get(1, []) + [[x] for x in scal])
        else:
            ln = 1
            for d in sh:
                ln *= d
            opts.append(vecs.get(ln, []))
    return [list(c) for c in itertools.product(*opts)]
