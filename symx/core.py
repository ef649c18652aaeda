"""Symbolic reals for executing PyPortfolioOpt's Python source.

A symbolic number (SReal) is a canonical rational function with integer coefficients over
*atoms*: input variables, roots (t**q -> base), 0/1 indicators of comparisons (I*I -> I),
floors and uninterpreted/elementary functions (log, exp, pow).  Comparisons give SBool
terms; using one as a truth value forks the execution path (Explorer).  Floating point
numbers are treated as the rational (or square root of a rational) they denote.
"""
import itertools
import math
import numbers
from fractions import Fraction
from math import gcd

LANE = 12                      # bits per exponent lane
HALF = 1 << (LANE - 1)
MAXEXP = HALF - 1


class SymEscape(BaseException):
    """The code did something to a symbolic value that the encoding does not support."""


class PathDone(BaseException):
    """The current path is infeasible / abandoned."""


class Budget(BaseException):
    """Exploration limits exceeded."""


# --------------------------------------------------------------------------------------
# polynomials: dict {packed exponents: int}
# --------------------------------------------------------------------------------------
def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            del r[m]
    return r


def pscale(a, k):
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()} if k else {}


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m0, c0), = a.items()
        return {m + m0: c * c0 for m, c in b.items()}
    if len(a) * len(b) > 20_000_000:
        raise SymEscape("polynomial product too large (%d x %d terms)" % (len(a), len(b)))
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def ppow(a, n):
    r = {0: 1}
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r


def pcontent(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def pprim(a):
    """(sign*content, primitive part with positive leading coefficient)"""
    g = pcontent(a)
    if a[max(a)] < 0:
        g = -g
    if g == 1:
        return 1, a
    return g, {m: c // g for m, c in a.items()}


def _hmask():
    n = len(ATOMS)
    h = 0
    for i in range(n):
        h |= HALF << (LANE * i)
    return h


_HM = [0, 0]


def hmask():
    if _HM[1] != len(ATOMS):
        _HM[0], _HM[1] = _hmask(), len(ATOMS)
    return _HM[0]


def mdiv(a, b):
    """a / b for packed monomials, or None"""
    h = hmask()
    if ((a | h) - b) & h != h:
        return None
    return a - b


def pdivexact(a, d):
    """exact polynomial division a/d, or None"""
    if len(d) == 1:
        (m0, c0), = d.items()
        r = {}
        for m, c in a.items():
            q = mdiv(m, m0)
            if q is None or c % c0:
                return None
            r[q] = c // c0
        return r
    import heapq
    if len(a) > 4000:
        return None
    lm = max(d)
    lc = d[lm]
    rest = [(m, c) for m, c in d.items() if m != lm]
    # quick test: smallest monomials must divide as well
    if mdiv(min(a), min(d)) is None:
        return None
    rem = dict(a)
    heap = [-m for m in rem]
    heapq.heapify(heap)
    q = {}
    while heap:
        m = -heapq.heappop(heap)
        c = rem.get(m, 0)
        if not c:
            rem.pop(m, None)
            continue
        t = mdiv(m, lm)
        if t is None or c % lc:
            return None
        k = c // lc
        q[t] = q.get(t, 0) + k
        del rem[m]
        for m2, c2 in rest:
            mm = m2 + t
            old = rem.get(mm)
            if old is None:
                rem[mm] = -k * c2
                heapq.heappush(heap, -mm)
            else:
                rem[mm] = old - k * c2
        if len(q) > 6000:
            return None
    return q


def mono_items(m):
    i = 0
    mask = (1 << LANE) - 1
    while m:
        e = m & mask
        if e:
            yield i, e
        m >>= LANE
        i += 1


# --------------------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------------------
class Atom:
    __slots__ = ("idx", "kind", "name", "data", "nonneg", "pos", "isint", "mono", "z3")

    def __init__(self, kind, name, data=None, nonneg=False, pos=False, isint=False):
        self.idx = len(ATOMS)
        self.kind, self.name, self.data = kind, name, data
        self.nonneg, self.pos, self.isint = nonneg or pos, pos, isint
        self.mono = 1 << (LANE * self.idx)
        self.z3 = None
        ATOMS.append(self)


ATOMS = []
ATOMKEY = {}
FACTORS = []          # interned denominator factors (primitive polys)
FACTORKEY = {}
SPECIAL = [0]         # mask of lanes of atoms with reduction rules (root, ind)


def reset():
    ATOMS.clear(); ATOMKEY.clear(); FACTORS.clear(); FACTORKEY.clear()
    SPECIAL[0] = 0
    _HM[0] = _HM[1] = 0


def atom(kind, key, name, **kw):
    k = (kind, key)
    a = ATOMKEY.get(k)
    if a is None:
        a = ATOMKEY[k] = Atom(kind, name, **kw)
        if kind in ("root", "ind"):
            SPECIAL[0] |= ((1 << LANE) - 1) << (LANE * a.idx)
    return a


def factor_id(p):
    k = frozenset(p.items())
    i = FACTORKEY.get(k)
    if i is None:
        i = FACTORKEY[k] = len(FACTORS)
        FACTORS.append(p)
    return i


def poly_sign(p):
    """'+' if certainly > 0 (given nonzero-ness of pos atoms), '0+' if >= 0, or '-'/'0-', else None"""
    if not p:
        return "0+"
    s = None
    strict = False
    for m, c in p.items():
        for i, e in mono_items(m):
            if e % 2 and not ATOMS[i].nonneg:
                return None
        t = 1 if c > 0 else -1
        if s is None:
            s = t
        elif s != t:
            return None
        if all(ATOMS[i].pos for i, e in mono_items(m)):
            strict = True
    return ("+" if s > 0 else "-") if strict else ("0+" if s > 0 else "0-")


# --------------------------------------------------------------------------------------
# rational functions
# --------------------------------------------------------------------------------------
class Rat:
    """num / (dc * prod FACTORS[i]**e)"""
    __slots__ = ("num", "dc", "den", "_key")

    def __init__(self, num, dc=1, den=()):
        self.num, self.dc, self.den = num, dc, den
        self._key = None

    @staticmethod
    def const(fr):
        return Rat({0: fr.numerator} if fr else {}, fr.denominator)

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.num.items()), self.dc, self.den)
        return self._key

    def isconst(self):
        return not self.den and (not self.num or (len(self.num) == 1 and 0 in self.num))

    def cval(self):
        return Fraction(self.num.get(0, 0), self.dc)


ZERO = Rat({})
ONE = Rat({0: 1})


def _norm(num, dc, den):
    """reduce content; assumes den is a sorted tuple"""
    if not num:
        return ZERO
    if dc != 1:
        g = gcd(pcontent(num), dc)
        if g != 1:
            num = {m: c // g for m, c in num.items()}
            dc //= g
    return Rat(num, dc, den)


def _reduce_special(num, dc, den):
    """apply t**q -> base (roots), I**k -> I; returns Rat"""
    sp = SPECIAL[0]
    need = None
    lane = (1 << LANE) - 1
    for m in num:
        mm = m & sp
        while mm:
            low = (mm & -mm).bit_length() - 1
            i = low // LANE
            e = (m >> (LANE * i)) & lane
            a = ATOMS[i]
            q = a.data[0] if a.kind == "root" else 2
            if e >= q:
                need = a
                break
            mm &= ~(lane << (LANE * i))
        if need is not None:
            break
    if need is None:
        return _norm(num, dc, den)
    a = need
    sh = LANE * a.idx
    if a.kind == "ind":
        r = {}
        for m, c in num.items():
            e = (m >> sh) & lane
            if e > 1:
                m -= (e - 1) << sh
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return _reduce_special(r, dc, den)
    q, base = a.data
    groups = {}
    for m, c in num.items():
        e = (m >> sh) & lane
        k, rem = divmod(e, q)
        m2 = m - ((k * q) << sh)
        groups.setdefault(k, {})[m2] = c
    total = ZERO
    for k, g in groups.items():
        t = _reduce_special(g, dc, den)
        if k:
            t = rmul(t, rpow(base, k))
        total = radd(total, t)
    return total


def rmk(num, dc=1, den=()):
    if not num:
        return ZERO
    if SPECIAL[0]:
        return _reduce_special(num, dc, den)
    return _norm(num, dc, den)


def _cancel(r, cand=None):
    """try to divide the numerator by the denominator factors"""
    if not r.den:
        return r
    num = r.num
    den = dict(r.den)
    changed = False
    for i in list(den):
        if cand is not None and i not in cand:
            continue
        f = FACTORS[i]
        while den.get(i):
            q = pdivexact(num, f)
            if q is None:
                break
            num = q
            den[i] -= 1
            changed = True
            if not den[i]:
                del den[i]
    if not changed:
        return r
    return _norm(num, r.dc, tuple(sorted(den.items())))


def radd(a, b, sub=False):
    if not b.num:
        return a
    if not a.num:
        return rneg(b) if sub else b
    bn = pscale(b.num, -1) if sub else b.num
    if a.den == b.den:
        if a.dc == b.dc:
            r = rmk(padd(a.num, bn), a.dc, a.den)
        else:
            l = a.dc // gcd(a.dc, b.dc) * b.dc
            r = rmk(padd(pscale(a.num, l // a.dc), pscale(bn, l // b.dc)), l, a.den)
        return _cancel(r) if r.den else r
    da, db = dict(a.den), dict(b.den)
    an = a.num
    both = set(da) & set(db)
    den = dict(da)
    for i, e in db.items():
        if e > den.get(i, 0):
            den[i] = e
    for i, e in den.items():
        k = e - da.get(i, 0)
        if k:
            an = pmul(an, ppow(FACTORS[i], k))
        k = e - db.get(i, 0)
        if k:
            bn = pmul(bn, ppow(FACTORS[i], k))
    l = a.dc // gcd(a.dc, b.dc) * b.dc
    r = rmk(padd(pscale(an, l // a.dc), pscale(bn, l // b.dc)), l, tuple(sorted(den.items())))
    return _cancel(r, both) if (r.den and both) else r


def rneg(a):
    return Rat(pscale(a.num, -1), a.dc, a.den)


def rmul(a, b):
    if not a.num or not b.num:
        return ZERO
    an, bn = a.num, b.num
    da, db = dict(a.den), dict(b.den)
    # cross cancellation first
    if db and not (len(an) == 1 and 0 in an):
        an, db = _xcancel(an, db)
    if da and not (len(bn) == 1 and 0 in bn):
        bn, da = _xcancel(bn, da)
    den = da
    for i, e in db.items():
        den[i] = den.get(i, 0) + e
    r = rmk(pmul(an, bn), a.dc * b.dc, tuple(sorted(den.items())))
    return r


def _xcancel(num, den):
    den = dict(den)
    for i in list(den):
        f = FACTORS[i]
        while den.get(i):
            q = pdivexact(num, f)
            if q is None:
                break
            num = q
            den[i] -= 1
            if not den[i]:
                del den[i]
    return num, den


def rpow(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return rinv(rpow(a, -n))
    r = None
    while n:
        if n & 1:
            r = a if r is None else rmul(r, a)
        n >>= 1
        if n:
            a = rmul(a, a)
    return r


def rinv(a):
    if not a.num:
        raise ZeroDivisionError("division by zero")
    # numerator of inverse: dc * prod factors ; denominator: num
    num = {0: a.dc}
    for i, e in a.den:
        num = pmul(num, ppow(FACTORS[i], e))
    g, prim = pprim(a.num)
    dc = abs(g)
    if g < 0:
        num = pscale(num, -1)
    den = {}
    if not (len(prim) == 1 and 0 in prim):
        # split off monomial content
        it = iter(prim)
        common = None
        for m in prim:
            if common is None:
                common = dict(mono_items(m))
            else:
                mi = dict(mono_items(m))
                common = {i: min(e, mi[i]) for i, e in common.items() if i in mi}
            if not common:
                break
        if common:
            cm = sum(e << (LANE * i) for i, e in common.items())
            prim = {m - cm: c for m, c in prim.items()}
            for i, e in common.items():
                fid = factor_id({ATOMS[i].mono: 1})
                den[fid] = den.get(fid, 0) + e
        if not (len(prim) == 1 and 0 in prim):
            # try to express through known factors
            for fid in range(len(FACTORS)):
                f = FACTORS[fid]
                if len(f) <= len(prim) and len(f) > 1:
                    while True:
                        q = pdivexact(prim, f)
                        if q is None:
                            break
                        den[fid] = den.get(fid, 0) + 1
                        prim = q
                        if len(prim) == 1:
                            break
                if len(prim) == 1 and 0 in prim:
                    break
            if not (len(prim) == 1 and 0 in prim):
                g2, prim = pprim(prim)
                fid = factor_id(prim)
                den[fid] = den.get(fid, 0) + 1
                if g2 != 1:
                    if g2 < 0:
                        num = pscale(num, -1)
                    dc *= abs(g2)
            elif prim[0] != 1:
                if prim[0] < 0:
                    num = pscale(num, -1)
                dc *= abs(prim[0])
    r = rmk(num, dc, tuple(sorted(den.items())))
    for fid in den:
        note_nonzero(fid)
    # root atoms squared in the denominator: t**q -> base
    for fid, e in r.den:
        f = FACTORS[fid]
        if len(f) == 1:
            (m, c), = f.items()
            i, ee = next(mono_items(m))
            at = ATOMS[i]
            if at.kind == "root" and e >= at.data[0]:
                q, base = at.data
                k, rem = divmod(e, q)
                d2 = dict(r.den)
                if rem:
                    d2[fid] = rem
                else:
                    del d2[fid]
                return rmul(Rat(r.num, r.dc, tuple(sorted(d2.items()))), rinv(rpow(base, k)))
    return r


def _fix_root_den(r):
    for fid, e in r.den:
        f = FACTORS[fid]
        if len(f) == 1:
            (m, c), = f.items()
            i, ee = next(mono_items(m))
            at = ATOMS[i]
            if at.kind == "root" and e >= at.data[0]:
                q, base = at.data
                k, rem = divmod(e, q)
                d2 = dict(r.den)
                if rem:
                    d2[fid] = rem
                else:
                    del d2[fid]
                return _fix_root_den(rmul(Rat(r.num, r.dc, tuple(sorted(d2.items()))), rinv(rpow(base, k))))
    return r


def rdiv(a, b):
    return _fix_root_den(rmul(a, rinv(b)))


def rsign(r):
    """'+','-','0+','0-' or None"""
    s = poly_sign(r.num)
    if s is None or not r.den:
        return s
    for i, e in r.den:
        if e % 2 == 0:
            continue
        t = poly_sign(FACTORS[i])
        if t in ("+", "0+"):
            continue          # denominators are assumed nonzero
        if t in ("-", "0-"):
            s = {"+": "-", "-": "+", "0+": "0-", "0-": "0+"}[s]
        else:
            return None
    return s


# nonzero-denominator assumptions go to the active explorer
ACTIVE = [None]


def note_nonzero(fid):
    ex = ACTIVE[0]
    if ex is not None:
        ex.note_nonzero(fid)


# --------------------------------------------------------------------------------------
# constants from floats
# --------------------------------------------------------------------------------------
_FC = {}


def rat_of_float(x):
    r = _FC.get(x)
    if r is not None:
        return r
    f = Fraction(x)
    for lim in (1000, 10 ** 6):
        g = f.limit_denominator(lim)
        if g == 0:
            continue
        if abs(g - f) <= abs(f) * Fraction(4, 10 ** 15):
            _FC[x] = r = Rat.const(g)
            return r
    # square root of a small rational?
    f2 = f * f
    g = f2.limit_denominator(2000)
    if g != 0 and abs(g - f2) <= f2 * Fraction(3, 10 ** 15) and abs(f) < 10 ** 6:
        r = rroot(Rat.const(g), 2)
        return r if x > 0 else rneg(r)
    _FC[x] = r = Rat.const(Fraction(repr(x)) if abs(x) > 1e-300 else f)
    return r


def _split_power(n, q):
    """n = s**q * t with t q-th-power free (trial division), n>0 int"""
    s, t = 1, 1
    p = 2
    while p * p <= n and p < 3000:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        if e:
            s *= p ** (e // q)
            t *= p ** (e % q)
        p += 1 if p == 2 else 2
    r = _root_lo(Fraction(n), q, 0)
    if r and r ** q == n:
        s *= r
    else:
        t *= n
    return s, t


def rroot(r, q):
    """principal q-th root of r (r >= 0 assumed and recorded)"""
    if not r.num:
        return ZERO
    if r.isconst():
        v = r.cval()
        if v < 0:
            raise ValueError("root of negative constant")
        # (a/b)^(1/q) = (a*b^(q-1))^(1/q)/b
        s, t = _split_power(v.numerator * v.denominator ** (q - 1), q)
        res = Rat.const(Fraction(s, v.denominator))
        if t != 1:
            # split t into primes for canonical products
            fac = []
            n, p = t, 2
            while p * p <= n and p < 3000:
                while n % p == 0:
                    fac.append(p)
                    n //= p
                p += 1 if p == 2 else 2
            if n > 1:
                fac.append(n)
            for f in fac:
                base = Rat.const(Fraction(f))
                a = atom("root", (q, base.key()), "root%d(%d)" % (q, f), data=(q, base), pos=True)
                res = rmul(res, Rat({a.mono: 1}))
        return res
    # monomials of nonnegative atoms whose exponent is divisible by q come out
    g = pcontent(r.num)
    cst = Fraction(g, r.dc)
    num = {m: c // g for m, c in r.num.items()}
    out = ONE
    common = None
    for m in num:
        mi = dict(mono_items(m))
        common = mi if common is None else {i: min(e, mi[i]) for i, e in common.items() if i in mi}
        if not common:
            break
    if common:
        for i, e in list(common.items()):
            a = ATOMS[i]
            if a.kind == "ind":
                continue
            k = e // q
            if k and q == 2 and not a.nonneg:
                ab = rabs(Rat({a.mono: 1}))
                out = rmul(out, rpow(ab, k) if k % 2 else Rat({k * a.mono: 1}))
                num = {m - k * 2 * a.mono: c for m, c in num.items()}
                continue
            if k and a.nonneg:
                out = rmul(out, Rat({k * a.mono: 1}))
                num = {m - k * q * a.mono: c for m, c in num.items()}
            rem = e - k * q
            if rem and a.nonneg and len(num) > 1 or (rem and a.nonneg):
                # root of a single nonneg atom
                num = {m - rem * a.mono: c for m, c in num.items()}
                base = Rat({a.mono: 1})
                t = atom("root", (q, base.key()), "root%d(%s)" % (q, a.name), data=(q, base), nonneg=True, pos=a.pos)
                out = rmul(out, rpow(Rat({t.mono: 1}), rem))
    den = []
    rest = []
    for fid, e in r.den:
        s = poly_sign(FACTORS[fid])
        if s in ("+", "0+") or e % q == 0 and q % 2 == 1:
            # root(1/f^e): f^e = f^(kq) * f^rem ; 1/root(f)^e
            rt = rroot(Rat(FACTORS[fid]), q)
            out = rdiv(out, rpow(rt, e))
        elif e % q == 0 and q == 2:
            # |f|: sign unknown
            out = rdiv(out, rpow(rabs(Rat(FACTORS[fid])), e // q))
        else:
            rest.append((fid, e))
    base = Rat(num, 1, tuple(rest))
    out = rmul(out, rroot(Rat.const(cst), q))
    if base.isconst():
        return rmul(out, rroot(base, q))
    # perfect square of a short polynomial with known sign?
    if q == 2 and not rest and len(num) in (3, 6):
        sq = _poly_sqrt(num)
        if sq is not None:
            return rmul(out, rabs(Rat(sq)))
    sg = rsign(base)
    a = atom("root", (q, base.key()), "root%d(#%d)" % (q, len(ATOMS)), data=(q, base), nonneg=True,
             pos=(sg == "+"))
    ex = ACTIVE[0]
    if ex is not None and sg not in ("+", "0+"):
        ex.note_nonneg(base)
    return rmul(out, Rat({a.mono: 1}))


def _poly_sqrt(num):
    """square root of a 3- or 6-term polynomial if it is a perfect square of 2/3 terms"""
    sq = []
    for m, c in num.items():
        if all(e % 2 == 0 for i, e in mono_items(m)):
            s = math.isqrt(abs(c))
            if c > 0 and s * s == c:
                sq.append((sum((e // 2) << (LANE * i) for i, e in mono_items(m)), s))
    need = 2 if len(num) == 3 else 3
    for comb in itertools.combinations(sq, need):
        for signs in itertools.product((1, -1), repeat=need - 1):
            p = {comb[0][0]: comb[0][1]}
            for (m, s), sgn in zip(comb[1:], signs):
                p[m] = s * sgn
            if len(p) == need and pmul(p, p) == num:
                return p
    return None


def _canon_sign(r):
    """(k, c) with r = k*c, k = +-positive rational const, c canonical (for order comparisons)"""
    g, prim = pprim(r.num)
    k = Fraction(g, r.dc)
    # positive denominator factors are irrelevant for the sign only; keep exact value here
    return k, Rat(prim, 1, r.den)


def ind(r, strict=True):
    """0/1 Rat for r > 0 (strict) or r >= 0"""
    s = rsign(r) or root_sign(r)
    if s == "0":
        return ZERO if strict else ONE
    if s == "+":
        return ONE
    if s == "-":
        return ZERO
    if s == "0+" and not strict:
        return ONE
    if s == "0-" and strict:
        return ZERO
    if r.isconst():
        v = r.cval()
        return ONE if (v > 0 or (v == 0 and not strict)) else ZERO
    k, c = _signcanon(r)
    if k > 0:
        a = atom("ind", (c.key(), strict), "I#%d" % len(ATOMS), data=(c, strict), nonneg=True, isint=True)
        return Rat({a.mono: 1})
    # r>0 <=> -c>0 <=> not (c>=0)
    a = atom("ind", (c.key(), not strict), "I#%d" % len(ATOMS), data=(c, not strict), nonneg=True, isint=True)
    return radd(ONE, Rat({a.mono: 1}), sub=True)


def _signcanon(r):
    """(+-1, c): sign(r) = +-sign(c), c primitive poly (denominator signs folded in)"""
    num = r.num
    sg = 1
    odd = []
    for fid, e in r.den:
        if e % 2:
            s = poly_sign(FACTORS[fid])
            if s in ("+", "0+"):
                continue
            if s in ("-", "0-"):
                sg = -sg
                continue
            odd.append(fid)
    for fid in odd:
        num = pmul(num, FACTORS[fid])
    g, prim = pprim(num)
    if g < 0:
        sg = -sg
    rr = rmk(prim)
    return sg, rr


def rposp(r):
    """max(r, 0)"""
    s = rsign(r) or root_sign(r)
    if s in ("+", "0+"):
        return r
    if s in ("-", "0-", "0"):
        return ZERO
    if r.isconst():
        return r if r.cval() > 0 else ZERO
    sg, c = _signcanon(r)
    a = atom("ind", (c.key(), True), "I#%d" % len(ATOMS), data=(c, True), nonneg=True, isint=True)
    I = Rat({a.mono: 1})
    if sg > 0:
        return rmul(r, I)
    return radd(r, rmul(r, I), sub=True)


def rabs(r):
    s = rsign(r) or root_sign(r)
    if s == "0":
        return ZERO
    if s in ("+", "0+"):
        return r
    if s in ("-", "0-"):
        return rneg(r)
    p = rposp(r)
    return radd(radd(p, p), r, sub=True)


# --------------------------------------------------------------------------------------
# SBool
# --------------------------------------------------------------------------------------
class SBool:
    """boolean term: ('cmp', op, Rat) with op in < <= == ; ('and'|'or', [..]) ; ('not', x)"""
    __slots__ = ("t",)

    def __init__(self, *t):
        self.t = t

    def __bool__(self):
        ex = ACTIVE[0]
        if ex is None:
            raise SymEscape("truth value of a symbolic condition outside exploration")
        return ex.decide(self)

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))
    __rxor__ = __xor__

    def logical_not(self):
        return b_not(self)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)) or o in (0, 1):
            return b_not(self.__xor__(bool(o) if not isinstance(o, SBool) else o))
        return NotImplemented

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        return id(self)

    def as_real(self):
        return SReal(b_ind(self))

    def _num(op):
        def f(self, o):
            return getattr(self.as_real(), op)(o)
        return f
    for _op in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__",
                "__rtruediv__", "__lt__", "__le__", "__gt__", "__ge__"):
        locals()[_op] = _num(_op)
    del _op, _num

    def __float__(self):
        return float(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def item(self):
        return self

    def any(self, *a, **k):
        return self
    all = any

    def __repr__(self):
        return "SBool(%s)" % (self.t[0],)


numbers.Number.register(SBool)


def _root_lo(v, q, P):
    """floor(v**(1/q) * 2**P) for a positive Fraction v"""
    n = (v.numerator << (q * P)) // v.denominator
    if q == 2:
        return math.isqrt(n)
    x = 1 << (-(-n.bit_length() // q))
    while True:
        y = ((q - 1) * x + n // x ** (q - 1)) // q
        if y >= x:
            return x
        x = y


def _const_root(a):
    return a.kind == "root" and a.data[1].isconst() and a.data[1].cval() > 0


def _psign(p):
    """sign of a polynomial that is a positive monomial times a combination of roots of constants, else None"""
    common = None
    for m in p:
        mi = {i: e for i, e in mono_items(m) if not _const_root(ATOMS[i])}
        if any(not ATOMS[i].pos for i in mi):
            return None
        if common is None:
            common = mi
        elif common != mi:
            return None
    terms = [(c, [(ATOMS[i], e) for i, e in mono_items(m) if _const_root(ATOMS[i])]) for m, c in p.items()]
    if len(terms) == 2 and all(t.data[0] == 2 for c, ats in terms for t, e in ats):
        sq = [c * abs(c) * math.prod([t.data[1].cval() ** e for t, e in ats], start=Fraction(1)) for c, ats in terms]
        return "+" if sum(sq) > 0 else "-" if sum(sq) < 0 else "0"
    for P in (128, 512, 2048):
        lo = hi = Fraction(0)
        for c, ats in terms:
            a, b = Fraction(1), Fraction(1)
            for t, e in ats:
                k = _root_lo(t.data[1].cval(), t.data[0], P)
                a *= Fraction(k, 1 << P) ** e
                b *= Fraction(k + 1, 1 << P) ** e
            lo += c * (a if c > 0 else b)
            hi += c * (b if c > 0 else a)
        if lo > 0:
            return "+"
        if hi < 0:
            return "-"
    return None


def _transc(r):
    return any(ATOMS[i].kind in ("log", "exp", "pow") for m in r.num for i, e in mono_items(m))


def const_float(r):
    """(value, error bound) of a constant expression over roots, logarithms and exponentials, else None"""
    if r.den or len(r.num) > 40 or base_vars(r, set()):
        return None
    try:
        ts = [evalp({m: c}, {}) / r.dc for m, c in r.num.items()]
    except (SymEscape, KeyError, OverflowError):
        return None
    if not all(math.isfinite(t) for t in ts):
        return None
    return math.fsum(ts), 1e-11 * sum(abs(t) for t in ts)


def root_sign(r):
    """sign of an expression over roots of constants (times positive atoms), by interval arithmetic"""
    if len(r.num) > 40:
        return None
    if _transc(r):
        v = const_float(r)
        return None if v is None or abs(v[0]) <= v[1] else ("+" if v[0] > 0 else "-")
    ok = any(_const_root(ATOMS[i]) for m in r.num for i, e in mono_items(m))
    if not ok:
        return None
    s = _psign(r.num)
    if s is None or s == "0":
        return s
    for i, e in r.den:
        if e % 2:
            t = poly_sign(FACTORS[i]) or _psign(FACTORS[i])
            if t in ("-", "0-"):
                s = "-" if s == "+" else "+"
            elif t not in ("+", "0+"):
                return None
    return s


def mkcmp(op, r):
    """op in '<','<=','==' against 0; returns python bool if decidable syntactically"""
    if rsign(r) is None:
        s = root_sign(r)
        if s is not None:
            return (s == "0") if op == "==" else s == "-" or (s == "0" and op == "<=")
    if op == "==":
        if not r.num:
            return True
        if rsign(r) in ("+", "-") or r.isconst():
            return False
        return SBool("cmp", "==", r)
    s = rsign(r)
    if r.isconst():
        v = r.cval()
        return v < 0 if op == "<" else v <= 0
    if op == "<":
        if s == "-":
            return True
        if s in ("+", "0+"):
            return False
    else:
        if s in ("-", "0-"):
            return True
        if s == "+":
            return False
    return SBool("cmp", op, r)


def b_not(a):
    if isinstance(a, SBool):
        if a.t[0] == "not":
            return a.t[1]
        if a.t[0] == "cmp" and a.t[1] in ("<", "<="):
            # not (r<0)  ==  -r<=0
            return mkcmp("<=" if a.t[1] == "<" else "<", rneg(a.t[2]))
        return SBool("not", a)
    return not a


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            if x.t[0] == "and":
                out.extend(x.t[1])
            else:
                out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else SBool("and", out)


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            if x.t[0] == "or":
                out.extend(x.t[1])
            else:
                out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else SBool("or", out)


def b_ind(b):
    """0/1 Rat of a boolean"""
    if not isinstance(b, SBool):
        return ONE if b else ZERO
    k = b.t[0]
    if k == "cmp":
        op, r = b.t[1], b.t[2]
        if op == "<":
            return ind(rneg(r), True)
        if op == "<=":
            return ind(rneg(r), False)
        a = rmul(ind(r, False), ind(rneg(r), False))
        return a
    if k == "not":
        return radd(ONE, b_ind(b.t[1]), sub=True)
    if k == "and":
        r = ONE
        for x in b.t[1]:
            r = rmul(r, b_ind(x))
        return r
    if k == "or":
        r = ONE
        for x in b.t[1]:
            r = rmul(r, radd(ONE, b_ind(x), sub=True))
        return radd(ONE, r, sub=True)
    raise SymEscape("b_ind " + k)


def ite(c, a, b):
    """if-then-else on numbers (python or SReal); c bool or SBool"""
    if not isinstance(c, SBool):
        return a if c else b
    for v in (a, b):
        if isinstance(v, float) and not math.isfinite(v):
            return a if bool(c) else b
        if not is_num(v):
            return a if bool(c) else b
    a_, b_ = to_rat(a), to_rat(b)
    if a_.key() == b_.key():
        return a
    return SReal(radd(b_, rmul(b_ind(c), radd(a_, b_, sub=True))))


# --------------------------------------------------------------------------------------
# SReal
# --------------------------------------------------------------------------------------
def is_num(v):
    return isinstance(v, (SReal, SBool, int, float, Fraction)) or _np_num(v)


def _np_num(v):
    t = type(v)
    return t.__module__ == "numpy" and hasattr(v, "item") and getattr(v, "ndim", 1) == 0 and not hasattr(v, "__len__") or (
        t.__module__ == "numpy" and t.__name__ == "ndarray" and v.ndim == 0)


def to_rat(v):
    if isinstance(v, SReal):
        return v.r
    if isinstance(v, SBool):
        return b_ind(v)
    if isinstance(v, bool):
        return ONE if v else ZERO
    if isinstance(v, int):
        return Rat({0: int(v)} if v else {})
    if isinstance(v, Fraction):
        return Rat.const(v)
    if isinstance(v, float):
        return rat_of_float(float(v))
    if _np_num(v):
        return to_rat(v.item())
    raise TypeError("unsupported operand type for symbolic arithmetic: %s" % type(v).__name__)


FORMATTED = []      # values formatted into text, for reading them back
TEXTUAL = [False]   # whether repr() is such text too


class SReal:
    __slots__ = ("r", "isint")
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, r, isint=False):
        self.r = r
        self.isint = isint

    # ---- helpers
    def _co(self, o):
        """other operand as Rat, or a non-finite float, or None (NotImplemented)"""
        if isinstance(o, SReal):
            return o.r
        if isinstance(o, (bool, int, Fraction, SBool)):
            return to_rat(o)
        if isinstance(o, float):
            o = float(o)
            if math.isfinite(o):
                return rat_of_float(o)
            return o
        if _np_num(o):
            return self._co(o.item())
        return None

    def _inf(self, op, o, swap=False):
        """arithmetic with inf/nan"""
        if o != o:
            return math.nan
        s = rsign(self.r)
        if op in ("+", "-"):
            if op == "+":
                return o
            return o if swap else -o
        if op == "*":
            if s in ("+",):
                return o
            if s == "-":
                return -o
            if not self.r.num:
                return math.nan
            if bool(SReal(self.r) > 0):
                return o
            if bool(SReal(self.r) < 0):
                return -o
            return math.nan
        if op == "/":
            if swap:
                return o if bool(SReal(self.r) >= 0) else -o
            return SReal(ZERO)
        raise SymEscape("inf arithmetic")

    def __add__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return self._inf("+", b)
        return SReal(radd(self.r, b), self.isint and getattr(o, "isint", isinstance(o, int)))
    __radd__ = __add__

    def __sub__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return self._inf("-", b)
        return SReal(radd(self.r, b, sub=True), self.isint and getattr(o, "isint", isinstance(o, int)))

    def __rsub__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return self._inf("-", b, True)
        return SReal(radd(b, self.r, sub=True), self.isint and isinstance(o, int))

    def __mul__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return self._inf("*", b)
        return SReal(rmul(self.r, b), self.isint and getattr(o, "isint", isinstance(o, int)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return self._inf("/", b)
        return sdiv(self.r, b)

    def __rtruediv__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return self._inf("/", b, True)
        return sdiv(b, self.r)

    def __floordiv__(self, o):
        q = self.__truediv__(o)
        return q if q is NotImplemented or not isinstance(q, SReal) else q.floor()

    def __rfloordiv__(self, o):
        q = self.__rtruediv__(o)
        return q if q is NotImplemented or not isinstance(q, SReal) else q.floor()

    def __mod__(self, o):
        f = self.__floordiv__(o)
        return f if f is NotImplemented else self - f * o

    def __rmod__(self, o):
        f = self.__rfloordiv__(o)
        return f if f is NotImplemented else o - f * self

    def __divmod__(self, o):
        f = self.__floordiv__(o)
        return f, self - f * o

    def __neg__(self):
        return SReal(rneg(self.r), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return SReal(rabs(self.r), self.isint)

    def __pow__(self, o, mod=None):
        b = self._co(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            raise SymEscape("infinite exponent")
        return SReal(rpower(self.r, b))

    def __rpow__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        return SReal(rpower(b, self.r))

    # ---- comparisons
    def _cmp(self, o, op, swap):
        b = self._co(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            if b != b:
                return False
            x = -1.0 if b > 0 else 1.0       # self - b
            if op == "==":
                return False
            return (x < 0) != swap
        d = radd(b, self.r, sub=True) if swap else radd(self.r, b, sub=True)
        return mkcmp(op, d)

    def __lt__(self, o):
        return self._cmp(o, "<", False)

    def __le__(self, o):
        return self._cmp(o, "<=", False)

    def __gt__(self, o):
        return self._cmp(o, "<", True)

    def __ge__(self, o):
        return self._cmp(o, "<=", True)

    def __eq__(self, o):
        return self._cmp(o, "==", False)

    def __ne__(self, o):
        e = self._cmp(o, "==", False)
        return e if e is NotImplemented else b_not(e)

    def __hash__(self):
        if self.r.isconst():
            return hash(self.r.cval())
        return hash(self.r.key())

    def __bool__(self):
        if self.r.isconst():
            return bool(self.r.num)
        return bool(b_not(mkcmp("==", self.r)))

    # ---- conversions
    def __float__(self):
        if self.r.isconst():
            return float(self.r.cval())
        if all(ATOMS[i].kind == "root" and ATOMS[i].data[1].isconst()
               for m in self.r.num for i, e in mono_items(m)) and not self.r.den:
            return evalf(self.r, {})
        raise SymEscape("conversion of a symbolic value to a machine float")

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        if self.r.isconst():
            return int(self.r.cval())
        ex = ACTIVE[0]
        if ex is None:
            raise SymEscape("int() of symbolic value")
        return ex.concretise(self)

    __index__ = __int__
    __trunc__ = __int__

    def floor(self):
        if self.r.isconst():
            v = self.r.cval()
            return SReal(Rat({0: v.numerator // v.denominator} if v.numerator // v.denominator else {}), True)
        return SReal(rfloor(self.r), True)

    __floor__ = floor

    def ceil(self):
        return -((-self).floor())

    __ceil__ = ceil

    def round(self, decimals=0, **kw):
        d = int(decimals or 0)
        if d >= 10 or (d >= 0 and self.isint):
            return self
        k = 10 ** d
        x = self * k
        # round half to even (ties) -- floor(x+1/2), ties resolved to even
        f = (x + Fraction(1, 2)).floor()
        if f.r.isconst() and self.r.isconst():
            v = x.r.cval()
            return SReal(Rat.const(Fraction(round(v)) / k))
        if ACTIVE[0] is not None and ACTIVE[0].opts.get("ties", "ignore") == "exact":
            tie = (f == x + Fraction(1, 2))
            odd = (f - 2 * (f / 2).floor()) == 1
            f = ite(b_and(tie, odd), f - 1, f)
        return f / k if d else SReal(f.r, True)

    def __round__(self, n=None):
        r = self.round(n or 0)
        if n is None:
            r.isint = True
        return r

    def rint(self):
        return self.round(0)

    def is_integer(self):
        return self == self.floor()

    def sqrt(self):
        return ssqrt(self)

    def exp(self):
        return sexp(self)

    def log(self):
        return slog(self)

    def log1p(self):
        return slog(self + 1)

    def expm1(self):
        return sexp(self) - 1

    def square(self):
        return self * self

    def fabs(self):
        return abs(self)

    def conjugate(self):
        return self

    def item(self, *a):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def squeeze(self, *a):
        return self

    def ravel(self):
        return self

    def astype(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self
    mean = max = min = sum

    @property
    def T(self):
        return self

    @property
    def value(self):
        raise AttributeError("value")

    real = T
    imag = 0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if TEXTUAL[0]:
            return format(self, "")
        return "SReal(%s)" % rstr(self.r)

    def __str__(self):
        return format(self, "")

    def __format__(self, spec):
        FORMATTED.append(self)
        return "<sym:%d:%s>" % (len(FORMATTED) - 1, spec)

    def __reduce__(self):
        raise SymEscape("pickling a symbolic value")


numbers.Real.register(SReal)


def rstr(r, lim=6):
    def ps(p):
        if not p:
            return "0"
        parts = []
        for m, c in list(p.items())[:lim]:
            s = "*".join(ATOMS[i].name + ("^%d" % e if e > 1 else "") for i, e in mono_items(m))
            parts.append((("%d*" % c if c != 1 else "") + s) if s else str(c))
        return " + ".join(parts) + (" + ...(%d)" % len(p) if len(p) > lim else "")
    s = ps(r.num)
    d = ([str(r.dc)] if r.dc != 1 else []) + ["(%s)^%d" % (ps(FACTORS[i]), e) for i, e in r.den]
    return s if not d else "(%s)/(%s)" % (s, " * ".join(d))


def sdiv(a, b):
    if not b.num:
        # numpy semantics of division by (constant) zero
        if not a.num:
            return math.nan
        return math.inf if bool(mkcmp("<", rneg(a))) else -math.inf
    ex = ACTIVE[0]
    if ex is not None and ex.opts.get("div") == "fork" and not b.isconst() and rsign(b) not in ("+", "-"):
        if bool(mkcmp("==", b)):
            if bool(mkcmp("==", a)):
                return math.nan
            return math.inf if bool(mkcmp("<", rneg(a))) else -math.inf
    return SReal(rdiv(a, b))


def rpower(a, b):
    if b.isconst():
        e = b.cval()
        if e.denominator == 1:
            n = e.numerator
            if a.isconst():
                return Rat.const(a.cval() ** n) if abs(n) < 5000 else rufpow(a, b)
            size = len(a.num) ** abs(n) if len(a.num) > 1 else 1
            if abs(n) <= 4 or (abs(n) <= 12 and size <= 2000):
                return rpow(a, n)
            return rufpow(a, b)
        if e.denominator <= 12 and abs(e.numerator) <= 24:
            t = rroot(a, e.denominator)
            return rpow(t, e.numerator)
        return rufpow(a, b)
    return rufpow(a, b)


def rufpow(a, b):
    if a.key() == ONE.key():
        return ONE
    x = atom("pow", (a.key(), b.key()), "pow#%d" % len(ATOMS), data=(a, b), nonneg=rsign(a) in ("+", "0+"),
             pos=rsign(a) == "+")
    return Rat({x.mono: 1})


def ssqrt(x):
    if isinstance(x, SReal):
        if x.r.isconst() and x.r.cval() < 0:
            return math.nan
        return SReal(rroot(x.r, 2))
    if isinstance(x, (int, float, Fraction)) or _np_num(x):
        v = float(x)
        if v != v or v < 0:
            return math.nan
        if v == math.inf:
            return v
        return SReal(rroot(to_rat(x), 2))
    raise SymEscape("sqrt of %r" % type(x))


def _monofactors(r):
    """(const, {atom: exp}) if r is const * monomial quotient of positive atoms, else None"""
    if len(r.num) != 1:
        return None
    (m, c), = r.num.items()
    ex = {}
    for i, e in mono_items(m):
        if not ATOMS[i].pos:
            return None
        ex[i] = e
    for fid, e in r.den:
        f = FACTORS[fid]
        if len(f) != 1:
            return None
        (m2, c2), = f.items()
        for i, e2 in mono_items(m2):
            if not ATOMS[i].pos:
                return None
            ex[i] = ex.get(i, 0) - e * e2
    return Fraction(c, r.dc), ex


def rlog(r):
    if r.key() == ONE.key():
        return ZERO
    mf = _monofactors(r)
    if mf is not None and not (r.isconst()):
        c, ex = mf
        tot = rlog(Rat.const(c)) if c != 1 else ZERO
        for i, e in ex.items():
            a = ATOMS[i]
            if a.kind == "exp":
                t = a.data
            else:
                b = Rat({a.mono: 1})
                t = Rat({atom("log", b.key(), "log(%s)" % a.name, data=b).mono: 1})
            tot = radd(tot, rmul(Rat.const(Fraction(e)), t))
        return tot
    a = atom("log", r.key(), "log#%d" % len(ATOMS), data=r)
    ex = ACTIVE[0]
    if ex is not None:
        ex.note_pos(r)
    return Rat({a.mono: 1})


def slog(x):
    if isinstance(x, SReal):
        if x.r.isconst() and x.r.cval() <= 0:
            return -math.inf if x.r.cval() == 0 else math.nan
        return SReal(rlog(x.r))
    v = float(x)
    if v != v or v < 0:
        return math.nan
    if v == 0:
        return -math.inf
    if v == math.inf:
        return v
    return SReal(rlog(to_rat(x)))


def rexp(r):
    if not r.num:
        return ONE
    # split sum: integer multiples of log atoms come out
    out = ONE
    rest = dict(r.num)
    if not r.den:
        for m, c in list(r.num.items()):
            it = list(mono_items(m))
            if len(it) == 1 and it[0][1] == 1 and ATOMS[it[0][0]].kind == "log" and c % r.dc == 0:
                out = rmul(out, rpow(ATOMS[it[0][0]].data, c // r.dc))
                del rest[m]
    if rest:
        b = rmk(rest, r.dc, r.den)
        a = atom("exp", b.key(), "exp#%d" % len(ATOMS), data=b, pos=True)
        out = rmul(out, Rat({a.mono: 1}))
    return out


def sexp(x):
    if isinstance(x, SReal):
        return SReal(rexp(x.r))
    v = float(x)
    if v != v:
        return v
    if v == math.inf:
        return v
    if v == -math.inf:
        return 0.0
    return SReal(rexp(to_rat(x)))


def rfloor(r):
    # integer constant part comes out
    k = Fraction(r.num.get(0, 0), r.dc) if not r.den else Fraction(0)
    ip = k.numerator // k.denominator
    if ip:
        r = radd(r, Rat.const(Fraction(ip)), sub=True)
    if r.isconst():
        v = r.cval()
        return Rat.const(Fraction(v.numerator // v.denominator + ip))
    v = const_float(r)
    if v is not None and math.floor(v[0] - v[1]) == math.floor(v[0] + v[1]) and abs(v[0]) < 1e12:
        return Rat.const(Fraction(math.floor(v[0]) + ip))
    if not r.den and r.dc == 1 and all(ATOMS[i].isint for m in r.num for i, e in mono_items(m)):
        return radd(r, Rat.const(Fraction(ip)))
    a = atom("floor", r.key(), "floor#%d" % len(ATOMS), data=r, isint=True, nonneg=rsign(r) in ("+", "0+"))
    return radd(Rat({a.mono: 1}), Rat.const(Fraction(ip)))


def smax(a, b):
    if not isinstance(a, (SReal, SBool)) and not isinstance(b, (SReal, SBool)):
        return max(a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, float) and not math.isfinite(x):
            if x != x:
                return x
            return x if x > 0 else y
    ra, rb = to_rat(a), to_rat(b)
    return SReal(radd(rb, rposp(radd(ra, rb, sub=True))))


def smin(a, b):
    if not isinstance(a, (SReal, SBool)) and not isinstance(b, (SReal, SBool)):
        return min(a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, float) and not math.isfinite(x):
            if x != x:
                return x
            return y if x > 0 else x
    ra, rb = to_rat(a), to_rat(b)
    return SReal(radd(ra, rposp(radd(ra, rb, sub=True)), sub=True))


def var(name, pos=False, nonneg=False, isint=False):
    a = atom("var", name, name, nonneg=nonneg, pos=pos, isint=isint)
    return SReal(Rat({a.mono: 1}), isint)


# --------------------------------------------------------------------------------------
# numeric evaluation
# --------------------------------------------------------------------------------------
def evalatom(a, env):
    v = env.get(a.idx)
    if v is not None:
        return v
    k = a.kind
    if k == "var":
        v = env.get(a.name)
        if v is None:
            raise KeyError(a.name)
    elif k == "root":
        q, base = a.data
        b = evalf(base, env)
        v = b ** (1.0 / q) if b >= 0 else (0.0 if b > -1e-12 else math.nan)
    elif k == "ind":
        c, strict = a.data
        b = evalf(c, env)
        v = 1.0 if (b > 0 or (b == 0 and not strict)) else 0.0
    elif k == "floor":
        v = float(math.floor(evalf(a.data, env)))
    elif k == "log":
        b = evalf(a.data, env)
        v = math.log(b) if b > 0 else math.nan
    elif k == "exp":
        v = math.exp(min(evalf(a.data, env), 700))
    elif k == "pow":
        b, e = evalf(a.data[0], env), evalf(a.data[1], env)
        try:
            v = b ** e
            if isinstance(v, complex):
                v = math.nan
        except (OverflowError, ZeroDivisionError):
            v = math.inf
    else:
        raise SymEscape("eval " + k)
    env[a.idx] = v
    return v


def evalp(p, env):
    tot = 0.0
    for m, c in p.items():
        t = float(c) if abs(c) < 10 ** 300 else math.inf
        for i, e in mono_items(m):
            t *= evalatom(ATOMS[i], env) ** e
        tot += t
    return tot


def evalf(r, env):
    n = evalp(r.num, env) / r.dc
    for fid, e in r.den:
        d = evalp(FACTORS[fid], env)
        if d == 0:
            return math.nan
        n /= d ** e
    return n


def base_vars(r, acc, seen=None):
    """names of input variables a Rat depends on"""
    if seen is None:
        seen = set()

    def pv(p):
        for m in p:
            for i, e in mono_items(m):
                if i in seen:
                    continue
                seen.add(i)
                a = ATOMS[i]
                if a.kind == "var":
                    acc.add(a.name)
                elif a.kind == "root":
                    base_vars(a.data[1], acc, seen)
                elif a.kind in ("ind",):
                    base_vars(a.data[0], acc, seen)
                elif a.kind in ("floor", "log", "exp"):
                    base_vars(a.data, acc, seen)
                elif a.kind == "pow":
                    base_vars(a.data[0], acc, seen)
                    base_vars(a.data[1], acc, seen)
    pv(r.num)
    for fid, e in r.den:
        pv(FACTORS[fid])
    return acc


def bool_rats(b, acc):
    if isinstance(b, SBool):
        if b.t[0] == "cmp":
            acc.append(b.t[2])
        elif b.t[0] == "not":
            bool_rats(b.t[1], acc)
        else:
            for x in b.t[1]:
                bool_rats(x, acc)
    return acc


def robustness(b, env):
    """quantitative truth: > 0 true, < 0 false (equalities: -|a-b|, never positive)"""
    if not isinstance(b, SBool):
        return math.inf if b else -math.inf
    k = b.t[0]
    if k == "cmp":
        v = evalf(b.t[2], env)
        if v != v:
            return -math.inf
        return -abs(v) if b.t[1] == "==" else -v
    if k == "not":
        return -robustness(b.t[1], env)
    if k == "and":
        return min(robustness(x, env) for x in b.t[1])
    return max(robustness(x, env) for x in b.t[1])
