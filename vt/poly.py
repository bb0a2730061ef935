"""Canonical scalar terms over the complex numbers.

A Poly is a Laurent polynomial with Gaussian-rational coefficients over hash-consed
atoms.  Two Polys are equal iff they are the same object, so `P - Q is ZERO` is the
(sound) equality test used to discharge tensor obligations.  Atoms:

  ('iv', iatom)              integer variable used as a scalar
  ('rv', name)               real scalar parameter
  ('el', name, conj, idx)    element of an uninterpreted tensor (conj 0/1; 2 = real)
  ('ind', cond)              Iverson bracket of an integer condition
  ('sum', uppers, mono)      sum over bound variables of one monomial
  ('rec', poly)              reciprocal of a multi-term polynomial
  ('fn', name, args)         uninterpreted/primitive real function (sqrt, max, ...)
  ('lam', name, consts, lams, idx, conj)   function with lambda arguments
                             (inv, evec, argsort, ...); lams = ((uppers, poly), ...)

All algebra is exact: equalities hold wherever no denominator vanishes.
"""
from fractions import Fraction
from itertools import permutations

from . import ints
from .ints import IAtom, IntPoly, iatom, ip, idiv, c_ge, c_eq, c_vars, c_subst, c_const, c_key


class Unsupported(Exception):
    """the verifier does not model this construct"""


# ---------------------------------------------------------------- coefficients
def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cmul(a, b):
    if not a[1] and not b[1]:
        return (a[0] * b[0], 0)
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cinv(a):
    n = Fraction(a[0]) * a[0] + Fraction(a[1]) * a[1]
    return (Fraction(a[0]) / n, -Fraction(a[1]) / n)


C1 = (1, 0)
CM1 = (-1, 0)

# ---------------------------------------------------------------- atoms
_AT = {}
_ATL = []


class Atom:
    __slots__ = ("id", "kind", "data", "vars", "h", "real")

    def __repr__(self):
        return atom_repr(self)


def atom(kind, *data):
    key = (kind,) + data
    a = _AT.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind = kind
    a.data = data
    a.id = len(_ATL)
    h = 0
    if kind == "iv":
        a.vars = frozenset([data[0]]) if data[0].kind == "v" else data[0].vars
        a.real = True
    elif kind == "rv":
        a.vars = frozenset()
        a.real = True
    elif kind == "el":
        a.vars = _vs(data[2])
        a.real = data[1] == 2
    elif kind == "ind":
        a.vars = c_vars(data[0])
        a.real = True
        h = _ih(data[0][1])
    elif kind == "sum":
        uppers, mono = data
        vs = frozenset()
        h = 0
        for x, _e in mono:
            vs = vs | _ATL[x].vars
            h = max(h, _ATL[x].h)
        h += 1
        b = frozenset(bvar(h, j) for j in range(len(uppers)))
        vs = vs - b
        for u in uppers:
            vs = vs | u.vars
        a.vars = vs - b
        a.real = all(_ATL[x].real for x, _e in mono)
    elif kind == "rec":
        a.vars = data[0].vars
        h = data[0].h
        a.real = data[0].real
    elif kind == "fn":
        vs = frozenset()
        for p in data[1]:
            vs = vs | p.vars
            h = max(h, p.h)
        a.vars = vs
        a.real = True
    elif kind == "lam":
        name, consts, lams, idx, cj = data
        vs = _vs(idx)
        for uppers, p in lams:
            h = max(h, p.h + 1)
            b = frozenset(bvar(p.h + 1, j) for j in range(len(uppers)))
            vs = vs | (p.vars - b)
            for u in uppers:
                vs = vs | (u.vars - b)
        for c in consts:
            if hasattr(c, "vars"):
                vs = vs | c.vars
                h = max(h, getattr(c, "h", 0))
        a.vars = vs
        a.real = cj == 2
    else:
        raise AssertionError(kind)
    # integer atoms of kind 'fn' inside indices carry heights
    a.h = h
    if kind == "el":
        for p in data[2]:
            a.h = max(a.h, _ih(p))
    if kind == "lam":
        for p in data[3]:
            a.h = max(a.h, _ih(p))
    if kind == "iv":
        a.h = _iah(data[0])
    _AT[key] = a
    _ATL.append(a)
    return a


def _iah(at):
    if at.kind == "fn":
        return max([getattr(x, "h", 0) for x in at.data[1:]] + [0])
    if at.kind in ("div", "mod"):
        return max(_ih(at.data[0]), _ih(at.data[1]))
    return 0


def _ih(p):
    h = 0
    for m, _ in p.terms:
        for a, _e in m:
            at = ints._ATOMS[a]
            if at.kind != "v":
                h = max(h, _iah(at))
    return h


def _vs(idx):
    r = frozenset()
    for p in idx:
        r = r | p.vars
    return r


def bvar(h, j):
    return iatom("v", ("b", h, j))


_fresh = [0]


_POOL = {}
_RING = {}


def fresh_var(upper, tag="e"):
    """a variable for one tensor operation (bound again before the operation ends); taken
    from a ring so that decisions about it are shared between operations"""
    k = _RING.get(upper, 0)
    _RING[upper] = (k + 1) % 256
    v = iatom("v", ("%s%d" % (tag, k), upper))
    RANGES[v] = (ints.ZERO, upper)
    return v


def pool_var(upper, avoid):
    """the first variable 0 <= v < upper that does not occur in avoid"""
    l = _POOL.setdefault(upper, [])
    for v in l:
        if v not in avoid:
            return v
    v = iatom("v", ("k%d" % len(l), upper))
    RANGES[v] = (ints.ZERO, upper)
    l.append(v)
    return v


RANGES = {}  # IAtom -> (lo, hi) : lo <= v < hi


# ---------------------------------------------------------------- polynomials
_PO = {}


class Poly:
    __slots__ = ("terms", "id", "vars", "h", "real")

    def __new__(cls, d):
        items = tuple(sorted((m, c) for m, c in d.items() if c[0] or c[1]))
        p = _PO.get(items)
        if p is not None:
            return p
        p = object.__new__(cls)
        p.terms = items
        p.id = len(_PO)
        vs = frozenset()
        h = 0
        real = True
        seen = set()
        for m, c in items:
            if c[1]:
                real = False
            for a, _e in m:
                if a in seen:
                    continue
                seen.add(a)
                at = _ATL[a]
                vs = vs | at.vars
                h = max(h, at.h)
                real = real and at.real
        p.vars = vs
        p.h = h
        p.real = real
        _PO[items] = p
        return p

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def is_zero(self):
        return not self.terms

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and self.terms[0][0] == ())

    def const(self):
        return self.terms[0][1] if self.terms else (0, 0)

    def __add__(self, o):
        o = pp(o)
        if not o.terms:
            return self
        if not self.terms:
            return o
        d = dict(self.terms)
        for m, c in o.terms:
            d[m] = cadd(d[m], c) if m in d else c
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: (-c[0], -c[1]) for m, c in self.terms})

    def __sub__(self, o):
        return self + (-pp(o))

    def __rsub__(self, o):
        return pp(o) - self

    def __mul__(self, o):
        o = pp(o)
        return pmul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * recip(pp(o))

    def __rtruediv__(self, o):
        return pp(o) * recip(self)

    def __pow__(self, n):
        return ppow(self, n)

    def subst(self, mp):
        return subst(self, mp)

    def __repr__(self):
        return poly_repr(self)


def poly_repr(p, limit=4000):
    if not p.terms:
        return "0"
    out = []
    for m, c in p.terms:
        if c[1] == 0:
            cs = str(c[0])
        else:
            cs = "(%s+%si)" % (c[0], c[1])
        s = "*".join(
            repr(_ATL[a]) + ("^%s" % e if e != 1 else "") for a, e in m
        )
        out.append(cs if not s else (s if cs == "1" else cs + "*" + s))
        if sum(map(len, out)) > limit:
            out.append("...")
            break
    return " + ".join(out)


def atom_repr(a):
    k, d = a.kind, a.data
    if k == "iv":
        return repr(d[0])
    if k == "rv":
        return str(d[0])
    if k == "el":
        return "%s%s[%s]" % (d[0], "*" if d[1] == 1 else "", ",".join(map(repr, d[2])))
    if k == "ind":
        return "[%r%s0]" % (d[0][1], ">=" if d[0][0] == "ge" else "==")
    if k == "sum":
        return "Sum{%s}(%s)" % (
            ",".join("%r<%r" % (bvar(a.h, j), u) for j, u in enumerate(d[0])),
            poly_repr(Poly({d[1]: C1})),
        )
    if k == "rec":
        return "1/(%s)" % poly_repr(d[0])
    if k == "fn":
        return "%s(%s)" % (d[0], ", ".join(poly_repr(x) for x in d[1]))
    if k == "lam":
        return "%s%s{%s}[%s]" % (
            d[0],
            "*" if d[4] == 1 else "",
            "; ".join(
                "%s:%s" % (",".join(map(repr, u)), poly_repr(p)) for u, p in d[2]
            ),
            ",".join(map(repr, d[3])),
        )
    return "?"


ZERO = Poly({})
ONE = Poly({(): C1})


def pp(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return Poly({(): (x, 0)})
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return pa(atom("rv", repr(x)))
        f = Fraction(repr(x))
        return Poly({(): (int(f) if f.denominator == 1 else f, 0)})
    if isinstance(x, Fraction):
        return Poly({(): (x, 0)})
    if isinstance(x, complex):
        return pp(x.real) + Poly({(): (0, 1)}) * pp(x.imag)
    if isinstance(x, Atom):
        return Poly({((x.id, 1),): C1})
    if isinstance(x, IntPoly):
        return int2poly(x)
    if hasattr(x, "term"):
        return x.term
    if hasattr(x, "poly"):
        return int2poly(x.poly)
    raise Unsupported("scalar %r" % (x,))


def pa(a):
    return Poly({((a.id, 1),): C1})


_I2P = {}


def int2poly(x):
    r = _I2P.get(x)
    if r is None:
        d = {}
        for m, c in x.terms:
            mono = tuple(sorted((atom("iv", ints._ATOMS[a]).id, e) for a, e in m))
            d[mono] = (c, 0)
        r = Poly(d)
        _I2P[x] = r
    return r


def _boolean(at):
    return at.kind == "ind" or (at.kind == "fn" and at.data[0] in ("lt", "eq"))


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        e2 = d.get(a, 0) + e
        if e2 > 1 and _boolean(_ATL[a]):
            e2 = 1
        if e2:
            d[a] = e2
        else:
            del d[a]
    return tuple(sorted(d.items()))


_MULC = {}
MAXTERMS = 150000


def pmul(p, q):
    if not p.terms or not q.terms:
        return ZERO
    if p is ONE:
        return q
    if q is ONE:
        return p
    k = (p.id, q.id) if p.id <= q.id else (q.id, p.id)
    r = _MULC.get(k)
    if r is not None:
        return r
    if len(p.terms) * len(q.terms) > MAXTERMS:
        raise Unsupported("term explosion in a product")
    d = {}
    special = ZERO
    for m1, c1 in p.terms:
        for m2, c2 in q.terms:
            m = mono_mul(m1, m2)
            c = cmul(c1, c2)
            if _needs_norm(m):
                special = special + scale(norm_mono(m), c)
                continue
            d[m] = cadd(d[m], c) if m in d else c
    r = Poly(d) + special
    _MULC[k] = r
    return r


def scale(p, c):
    if c == C1:
        return p
    return Poly({m: cmul(cc, c) for m, cc in p.terms})


def _needs_norm(m):
    """sqrt(P)^2 -> P, and rec(P)^-1 -> P"""
    for a, e in m:
        at = _ATL[a]
        if at.kind == "fn" and at.data[0] == "sqrt" and (e >= 2 or e <= -2):
            return True
        if at.kind == "rec" and e < 0:
            return True
        if at.kind == "fn" and at.data[0] == "sqrt" and _root_of(at, e, m) is not None:
            return True
    return False


def _root_of(at, e, m):
    """x^k sqrt(x)^-1 -> x^(k-1) sqrt(x), x^-k sqrt(x) -> x^(1-k) sqrt(x)^-1: the atom x"""
    b = at.data[1][0].terms
    if len(b) != 1 or b[0][1] != C1 or len(b[0][0]) != 1 or b[0][0][0][1] != 1:
        return None
    x = b[0][0][0][0]
    for a, k in m:
        if a == x and ((e == -1 and k > 0) or (e == 1 and k < 0)):
            return x
    return None


def norm_mono(m):
    for a, e in m:
        at = _ATL[a]
        if at.kind == "fn" and at.data[0] == "sqrt" and (e == 1 or e == -1):
            x = _root_of(at, e, m)
            if x is not None:
                d = dict(m)
                d[x] += e
                d[a] = -e
                if not d[x]:
                    del d[x]
                m = tuple(sorted(d.items()))
                return norm_mono(m) if _needs_norm(m) else Poly({m: C1})
    r = ONE
    rest = []
    for a, e in m:
        at = _ATL[a]
        if at.kind == "fn" and at.data[0] == "sqrt" and (e >= 2 or e <= -2):
            k = int(e / 2)  # toward zero
            base = at.data[1][0]
            r = r * ppow(base, k)
            if e - 2 * k:
                rest.append((a, e - 2 * k))
        elif at.kind == "rec" and e < 0:
            r = r * ppow(at.data[0], -e)
        else:
            rest.append((a, e))
    return r * Poly({tuple(rest): C1})


def ppow(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return ppow(recip(p), -n)
    r = ONE
    for _ in range(n):
        r = r * p
    return r


def recip(p):
    if not p.terms:
        raise ZeroDivisionError("division by the zero term")
    if len(p.terms) == 1:
        m, c = p.terms[0]
        inv = tuple((a, -e) for a, e in m)
        if any(_boolean(_ATL[a]) for a, e in m):
            # 1/[c]: keep symbolic
            return pa(atom("rec", p))
        q = Poly({inv: cinv(c)}) if not _needs_norm(inv) else scale(norm_mono(inv), cinv(c))
        return q
    # normalise: pull out common monomial and leading coefficient
    common = None
    for m, c in p.terms:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) for a, e in common.items()}
            for a, e in d.items():
                if a not in common and e < 0:
                    common[a] = e
            for a in list(common):
                if a not in d and common[a] > 0:
                    common[a] = 0
            common = {a: e for a, e in common.items() if e}
    common = {
        a: e for a, e in (common or {}).items() if _ATL[a].kind != "ind"
    }
    lead = p.terms[0][1]
    li = cinv(lead)
    inv_common = tuple(sorted((a, -e) for a, e in common.items()))
    q = Poly({mono_mul(m, inv_common): cmul(c, li) for m, c in p.terms})
    # case: reciprocal of a rec-containing poly is left as is
    r = pa(atom("rec", q))
    m = tuple(sorted(common.items()))
    inv = tuple((a, -e) for a, e in m)
    front = scale(norm_mono(inv), li) if _needs_norm(inv) else Poly({inv: li})
    return front * r


# ---------------------------------------------------------------- conj / re / im
_CJ = {}


def conj(p):
    if p.real:
        return p
    r = _CJ.get(p.id)
    if r is None:
        r = ZERO
        for m, c in p.terms:
            t = Poly({(): (c[0], -c[1])})
            for a, e in m:
                t = t * ppow_atom(conj_atom(_ATL[a]), e)
            r = r + t
        _CJ[p.id] = r
        _CJ[r.id] = p
    return r


def ppow_atom(p, e):
    """p^e for p the image of an atom"""
    if e == 1:
        return p
    if len(p.terms) == 1 and p.terms[0][1] == C1:
        m = tuple((a, k * e) for a, k in p.terms[0][0])
        return norm_mono(m) if _needs_norm(m) else Poly({m: C1})
    return ppow(p, e)


CONJ_LAM = {"inv"}  # functions with f(conj A) = conj f(A)


def conj_atom(at):
    if at.real:
        return pa(at)
    k, d = at.kind, at.data
    if k == "el":
        return pa(atom("el", d[0], 1 - d[1], d[2]))
    if k == "sum":
        vs, body = open_sum(at)
        return msum(vs, conj(body))
    if k == "rec":
        return recip(conj(d[0]))
    if k == "lam":
        name, consts, lams, idx, cj = d
        if name in CONJ_LAM:
            return lam(name, consts, [close_fn(u, p, conj) for u, p in lams], idx, 0)
        return pa(atom("lam", name, consts, lams, idx, 1 - cj))
    raise AssertionError(k)


def re(p):
    return scale(p + conj(p), (Fraction(1, 2), 0))


def im(p):
    return scale(p - conj(p), (0, Fraction(-1, 2)))


# ---------------------------------------------------------------- functions
def sqrt(p):
    if p.is_zero():
        return ZERO
    if p.is_const() and p.const()[1] == 0:
        c = Fraction(p.const()[0])
        from math import isqrt

        if c >= 0:
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                f = Fraction(n, d)
                return pp(f)
    return pa(atom("fn", "sqrt", (p,)))


def absval(p):
    if p.is_const() and p.const()[1] == 0:
        return pp(abs(Fraction(p.const()[0])))
    return sqrt(p * conj(p))


def nonneg(p):
    """is every term of p visibly nonnegative (squared moduli, positive tensors, ...)"""
    return all(c[1] == 0 and c[0] >= 0 and _nonneg_mono(m) for m, c in p.terms)


def _nonneg_mono(m):
    d = dict(m)
    for a, e in m:
        at = _ATL[a]
        k = at.kind
        if k == "ind" or k == "el" and at.data[0].endswith("+"):
            continue
        if k == "iv" or k in ("el", "lam") and at.real:
            if e % 2 == 0:
                continue
            if k == "iv":
                r = RANGES.get(at.data[0])
                if r is not None and r[0] is not None and r[0].is_const() and r[0].const() >= 0:
                    continue
            return False
        if k == "fn" and at.data[0] == "sqrt":
            continue
        if k == "fn" and at.data[0] == "max" and any(nonneg(x) for x in at.data[1]):
            continue
        if k == "sum" and _nonneg_mono(at.data[1]):
            continue
        if k == "rec" and nonneg(at.data[0]):
            continue
        c = conj(pa(at))
        if len(c.terms) == 1 and len(c.terms[0][0]) == 1 and c.terms[0][1] == C1:
            b = c.terms[0][0][0][0]
            if b == a and e % 2 == 0 or b != a and d.get(b) == e:
                continue
        return False
    return True


TINY = Fraction(1, 2 ** 120)


def fmax(p, q):
    if p is q:
        return p
    for a, b in ((p, q), (q, p)):
        # a floor at (next to) nothing of something nonnegative: the smallest positive numbers
        # of the floating-point formats count as 0 in exact arithmetic
        if a.is_const() and a.const()[1] == 0 and 0 <= a.const()[0] < TINY and nonneg(b):
            return b
    if p.is_const() and q.is_const():
        return p if p.const()[0] >= q.const()[0] else q
    a = sorted([p, q], key=lambda x: x.id)
    return pa(atom("fn", "max", tuple(a)))


def fmin(p, q):
    return -fmax(-p, -q)


def fn(name, *args):
    args = tuple(pp(a) for a in args)
    if name == "sqrt":
        return sqrt(args[0])
    if name == "max":
        return fmax(*args)
    return pa(atom("fn", name, args))


# ---------------------------------------------------------------- indicator
def ind(cond, hyp=()):
    """Iverson bracket, simplified with the path facts and `hyp`"""
    c = c_const(cond)
    if c is not None:
        return ONE if c else ZERO
    d = decide(cond, hyp)
    if d is not None:
        return ONE if d else ZERO
    return ind_raw(cond)


def ind_raw(cond):
    c = c_const(cond)
    if c is not None:
        return ONE if c else ZERO
    # canonical orientation for >=: first variable coefficient negative (prefix form)
    if cond[0] == "ge":
        p = cond[1]
        for m, k in p.terms:
            if m != ():
                if k > 0:
                    return ONE - pa(atom("ind", c_ge(-p - 1)))
                break
    return pa(atom("ind", cond))


DECIDE = [lambda cond, hyp: None]  # installed by ctx


def decide(cond, hyp=()):
    return DECIDE[0](cond, hyp)


# ---------------------------------------------------------------- sums
def open_sum(at, avoid=frozenset()):
    uppers, mono = at.data
    avoid = set(avoid) | at.vars
    h = at.h
    mp = {}
    vs = []
    for j, u in enumerate(uppers):
        v = pool_var(u.subst(mp), avoid)
        avoid.add(v)
        mp[bvar(h, j)] = ip(v)
        vs.append(v)
    body = subst(Poly({mono: C1}), mp)
    return [(v, RANGES[v][1]) for v in vs], body


UNITARY = {}  # name of a tensor of square unitary matrices (last two indices) -> size


def msum(vs, p):
    """sum over vs = [(var, upper)] of polynomial p"""
    if p.is_zero():
        return ZERO
    r = ZERO
    for m, c in p.terms:
        r = r + scale(sum_mono(list(vs), m), c)
    return r


def _avoid(vs, mono):
    a = set(v for v, _ in vs)
    for _, u in vs:
        a |= u.vars
    for x, _e in mono:
        a |= _ATL[x].vars
    return a


def sum_mono(vs, mono):
    names = frozenset(v for v, _ in vs)
    # 1. nested sums
    for a, e in mono:
        at = _ATL[a]
        if at.kind == "sum" and (at.vars & names) and e > 0:
            rest = mono_mul(tuple(x for x in mono if x[0] != a), ((a, e - 1),) if e > 1 else ())
            ivs, body = open_sum(at, _avoid(vs, mono))
            return msum(vs + ivs, body * Poly({rest: C1}))
    # 2. indicators
    for a, e in mono:
        at = _ATL[a]
        if at.kind != "ind" or not (at.vars & names):
            continue
        cond = at.data[0]
        rest = tuple(x for x in mono if x[0] != a)
        d = decide(cond)
        if d is True:
            return sum_mono(vs, rest)
        if d is False:
            return ZERO
        if cond[0] == "eq":
            for i, (v, u) in enumerate(vs):
                k = cond[1].coef_of(v)
                if k in (1, -1):
                    e_ = cond[1].subst({v: ints.ZERO})
                    e_ = -e_ if k == 1 else e_
                    others = [
                        (w, uu.subst({v: e_})) for j, (w, uu) in enumerate(vs) if j != i
                    ]
                    body = subst(Poly({rest: C1}), {v: e_})
                    body = body * ind(c_ge(e_)) * ind(c_ge(u - 1 - e_))
                    return msum(others, body)
        else:
            hit = [v for v, _ in vs if v in cond[1].vars]
            if len(hit) == 1:
                v = hit[0]
                k = cond[1].coef_of(v)
                i = [w for w, _ in vs].index(v)
                u = vs[i][1]
                if k == 1:
                    # [v >= l] = 1 - [v < l]
                    neg = atom("ind", c_ge(-cond[1] - 1))
                    return sum_mono(vs, rest) - sum_mono(
                        vs, mono_mul(rest, ((neg.id, 1),))
                    )
                if k == -1:
                    lim = cond[1] + ip(v) + 1  # v < lim
                    if decide(c_ge(u - lim)) is True:
                        nv = pool_var(lim, _avoid(vs, mono))
                        nvs = list(vs)
                        nvs[i] = (nv, lim)
                        nvs = [(w, uu.subst({v: ip(nv)})) for w, uu in nvs]
                        return msum(nvs, subst(Poly({rest: C1}), {v: ip(nv)}))
                    if decide(c_ge(lim - u)) is True:
                        return sum_mono(vs, rest)
    # 2b. rows and columns of unitary matrices are orthonormal
    if UNITARY:
        for v, u in vs:
            hit = [(a, e) for a, e in mono if v in _ATL[a].vars]
            if len(hit) != 2 or any(e != 1 or _ATL[a].kind != "el" for a, e in hit):
                continue
            x, y = (_ATL[a].data for a, _ in hit)
            if x[0] != y[0] or x[0] not in UNITARY or {x[1], y[1]} != {0, 1} or x[2][:-2] != y[2][:-2]:
                continue
            if u != UNITARY[x[0]] or any(v in w.vars for w in x[2][:-2]) or any(v in uu.vars for _, uu in vs):
                continue
            for k, o in ((-1, -2), (-2, -1)):
                if x[2][k] is y[2][k] and x[2][k] == ip(v) and v not in x[2][o].vars and v not in y[2][o].vars:
                    rest = tuple(t for t in mono if t not in hit)
                    return msum([w for w in vs if w[0] is not v], Poly({rest: C1}) * ind(c_eq(x[2][o] - y[2][o])))
    # 3. split off independent factors and unused variables
    out = []
    dep = []
    for a, e in mono:
        (dep if (_ATL[a].vars & names) else out).append((a, e))
    res = Poly({tuple(out): C1})
    # connected components
    comps = []  # (set of vars, list of factors)
    for a, e in dep:
        vv = set(_ATL[a].vars & names)
        fac = [(a, e)]
        keep = []
        for cv, cf in comps:
            if cv & vv:
                vv |= cv
                fac = cf + fac
            else:
                keep.append((cv, cf))
        comps = keep + [(vv, fac)]
    used = set()
    for cv, _ in comps:
        used |= cv
    upper = dict(vs)
    # dependent upper bounds join components
    changed = True
    while changed:
        changed = False
        for v, u in vs:
            dv = u.vars & names
            if dv:
                grp = [c for c in comps if c[0] & (dv | {v})]
                if v not in used and not grp:
                    continue
                vv = {v} | set(dv)
                fac = []
                for c in grp:
                    vv |= c[0]
                    fac += c[1]
                if len(grp) != 1 or vv != grp[0][0]:
                    comps = [c for c in comps if c not in grp] + [(vv, fac)]
                    used |= vv
                    changed = True
    for v, u in vs:
        if v not in used:
            if u.vars & names:
                raise Unsupported("dependent range")
            if decide(c_ge(u)) is True:
                res = res * int2poly(u)
            elif decide(c_ge(-u)) is True:
                return ZERO
            else:
                res = res * int2poly(u) * ind(c_ge(u))
    for cv, fac in comps:
        cvs = [(v, upper[v]) for v, _ in vs if v in cv]
        # an empty or singleton range
        done = False
        for i, (v, u) in enumerate(cvs):
            if (u.is_const() and u.const() <= 0) or decide(c_ge(-u)) is True:
                return ZERO
            if u.is_const() and u.const() <= 4:
                body = Poly({tuple(sorted(fac)): C1})
                others = cvs[:i] + cvs[i + 1 :]
                t = ZERO
                for k in range(u.const()):
                    o2 = [(w, uu.subst({v: ip(k)})) for w, uu in others]
                    t = t + msum(o2, subst(body, {v: ip(k)}))
                res = res * t
                done = True
                break
        if done:
            continue
        res = res * pa(canon_sum(cvs, tuple(sorted(fac))))
    return res


def canon_sum(cvs, mono):
    h = 1 + max(_ATL[a].h for a, _ in mono)
    n = len(cvs)
    best = None
    p = Poly({mono: C1})
    if n == 1:
        perms = [(0,)]
    else:
        # group by upper bound id; permute within groups only
        order = sorted(range(n), key=lambda i: (len(cvs[i][1].vars & frozenset(v for v, _ in cvs)), cvs[i][1].id))
        groups = []
        for i in order:
            k = (len(cvs[i][1].vars & frozenset(v for v, _ in cvs)), cvs[i][1].id)
            if groups and groups[-1][0] == k:
                groups[-1][1].append(i)
            else:
                groups.append((k, [i]))
        perms = [()]
        for _, g in groups:
            # refine the group by a structural signature
            sig = {i: _var_sig(cvs[i][0], mono) for i in g}
            subg = {}
            for i in g:
                subg.setdefault(sig[i], []).append(i)
            for s in sorted(subg):
                perms = [q + r for q in perms for r in permutations(subg[s])]
        if len(perms) > 720:
            if __import__("os").environ.get("VT_DEBUG"): print("SYM", len(cvs), str(p)[:3000])
            raise Unsupported("sum with too many symmetric indices")
    for pm in perms:
        mp = {cvs[i][0]: ip(bvar(h, j)) for j, i in enumerate(pm)}
        q = ONE
        for a, e in mono:
            at = _ATL[a]
            if at.kind == "ind":
                q = q * pa(atom("ind", c_subst(at.data[0], mp)))
            else:
                q = q * ppow_atom(subst_atom(at, mp, True), e)
        uppers = tuple(cvs[i][1].subst(mp) for i in pm)
        if len(q.terms) != 1 or q.terms[0][1] != C1:
            raise Unsupported("sum canonicalisation changed the body")
        key = tuple(sorted(_struct_key(a) + (e,) for a, e in q.terms[0][0]))
        if best is None or key < best[0]:
            best = (key, uppers, q.terms[0][0])
    return atom("sum", best[1], best[2])


def _struct_key(a):
    return (a,)


def _var_sig(v, mono):
    out = []
    for a, e in mono:
        at = _ATL[a]
        if v not in at.vars:
            continue
        if at.kind == "el":
            pos = tuple(
                j for j, p in enumerate(at.data[2]) if v in p.vars
            )
            out.append((0, str(at.data[0]), at.data[1], pos, e))
        else:
            out.append((1, at.kind, 0, (), e))
    return tuple(sorted(out))


# ---------------------------------------------------------------- lambda atoms
def close_fn(uppers, p, f):
    """apply f to the body of a lambda, re-closing it"""
    h = p.h + 1
    mp = {}
    vs = []
    avoid = set(p.vars)
    for u in uppers:
        avoid |= u.vars
    for j, u in enumerate(uppers):
        v = pool_var(u, avoid)
        avoid.add(v)
        mp[bvar(h, j)] = ip(v)
        vs.append(v)
    return (vs, [u for u in uppers], f(subst(p, mp)))


def lam(name, consts, opened, idx, cj=0):
    """opened: list of (vars, uppers, body); builds the canonical lambda atom.  The inverse of
    a transpose is the transpose of the inverse, a maximum does not depend on the order:
    one representative is kept"""
    if name == "amax":
        return amax(list(zip(opened[0][0], opened[0][1])), opened[0][2])
    if name == "inv" and len(opened) == 1:
        vs, us, body = opened[0]
        n = len(vs) // 2
        if n and len(vs) == 2 * n and list(us[:n]) == list(us[n:]):
            t1 = _lam(name, consts, opened, idx, cj)
            jdx = tuple(idx[n:]) + tuple(idx[:n])
            t2 = _lam(name, consts, [(list(vs[n:]) + list(vs[:n]), us, body)], jdx, cj)
            a1, a2 = _ATL[t1.terms[0][0][0][0]], _ATL[t2.terms[0][0][0][0]]
            return t1 if a1.data[2][0][1].id <= a2.data[2][0][1].id else t2
    return _lam(name, consts, opened, idx, cj)


def amax(vs, body):
    """max over bound variables; nested maxima are merged; binders sorted canonically"""
    if not vs:
        return body
    if len(body.terms) == 1 and body.terms[0][1] == C1 and len(body.terms[0][0]) == 1:
        a, e = body.terms[0][0][0]
        at = _ATL[a]
        if e == 1 and at.kind == "lam" and at.data[0] == "amax":
            iv, us, b = open_lam(*at.data[2][0], avoid=set(v for v, _ in vs))
            return amax(list(vs) + list(zip(iv, us)), b)
    used = [(v, u) for v, u in vs if v in body.vars]
    if not used:
        return body
    best = None
    perms = list(permutations(used)) if len(used) <= 4 else [tuple(used)]
    for pm in perms:
        t = _lam("amax", (), [([v for v, _ in pm], [u for _, u in pm], body)], (), 2)
        k = t.terms[0][0][0][0]
        if best is None or k < best[0]:
            best = (k, t)
    return best[1]


def _lam(name, consts, opened, idx, cj=0):
    lams = []
    for vs, uppers, body in opened:
        h = body.h + 1
        mp = {v: ip(bvar(h, j)) for j, v in enumerate(vs)}
        b = subst(body, mp, raw=True)
        if b.h + 1 != h:  # height changed by simplification: redo
            h2 = b.h + 1
            mp2 = {bvar(h, j): ip(bvar(h2, j)) for j in range(len(vs))}
            b = subst(b, mp2, raw=True)
        lams.append((tuple(uppers), b))
    return pa(atom("lam", name, tuple(consts), tuple(lams), tuple(idx), cj))


def open_lam(uppers, p, avoid=frozenset()):
    h = p.h + 1
    avoid = set(avoid) | p.vars
    for u in uppers:
        avoid |= u.vars
    vs = []
    for u in uppers:
        vs.append(pool_var(u, avoid))
        avoid.add(vs[-1])
    mp = {bvar(h, j): ip(v) for j, v in enumerate(vs)}
    return vs, list(uppers), subst(p, mp)


# ---------------------------------------------------------------- substitution
_SUBC = {}
EPOCH = [0]


def clear_caches():
    _SUBC.clear()
    _MULC.clear()
    _CJ.clear()
    EPOCH[0] += 1


def subst(p, mp, raw=False):
    if not mp or not any(v in mp for v in p.vars):
        return p
    mp = {v: e for v, e in mp.items() if v in p.vars}
    key = (p.id, frozenset((v.id, e.id) for v, e in mp.items()), raw)
    r = _SUBC.get(key)
    if r is not None:
        return r
    plain = {}
    r = ZERO
    for m, c in p.terms:
        keep = []
        t = None
        for a, e in m:
            at = _ATL[a]
            if any(v in mp for v in at.vars):
                q = ppow_atom(subst_atom(at, mp, raw), e)
                t = q if t is None else t * q
            else:
                keep.append((a, e))
        if t is None:
            plain[m] = c
        else:
            r = r + t * Poly({tuple(keep): c})
    if plain:
        r = r + Poly(plain)
    _SUBC[key] = r
    return r


_SUBA = _SUBC


def subst_atom(at, mp, raw=False):
    key = ("a", at.id, frozenset((v.id, e.id) for v, e in mp.items() if v in at.vars), raw)
    r = _SUBC.get(key)
    if r is not None:
        return r
    k, d = at.kind, at.data
    if k in ("sum", "lam"):
        avoid = set(mp)
        for x in mp.values():
            avoid |= x.vars
    if k == "iv":
        r = int2poly(ints.subst_atom(d[0], mp))
    elif k == "el":
        r = pa(atom("el", d[0], d[1], tuple(i.subst(mp) for i in d[2])))
    elif k == "ind":
        c = c_subst(d[0], mp)
        r = ind_raw(c) if raw else ind(c)
    elif k == "sum":
        vs, body = open_sum(at, avoid)
        avoid |= set(v for v, _ in vs) | body.vars
        nvs = []
        m2 = dict(mp)
        for v, u in vs:
            u2 = u.subst(m2)
            if u2 is not u:
                nv = pool_var(u2, avoid)
                avoid.add(nv)
                m2[v] = ip(nv)
                nvs.append((nv, u2))
            else:
                nvs.append((v, u))
        r = msum(nvs, subst(body, m2))
    elif k == "rec":
        r = recip(subst(d[0], mp, raw))
    elif k == "fn":
        r = fn(d[0], *[subst(x, mp, raw) for x in d[1]])
    elif k == "lam":
        name, consts, lams, idx, cj = d
        opened = []
        for uppers, b in lams:
            vs, us, body = open_lam(uppers, b, avoid)
            av = avoid | set(vs) | body.vars
            m2 = dict(mp)
            nvs, nus = [], []
            for v, u in zip(vs, us):
                u2 = u.subst(m2)
                if u2 is not u:
                    nv = pool_var(u2, av)
                    av.add(nv)
                    m2[v] = ip(nv)
                    nvs.append(nv)
                else:
                    nvs.append(v)
                nus.append(u2)
            opened.append((nvs, nus, subst(body, m2, raw)))
        consts2 = tuple(
            subst(c, mp) if isinstance(c, Poly) else (c.subst(mp) if isinstance(c, IntPoly) else c)
            for c in consts
        )
        r = lam(name, consts2, opened, tuple(i.subst(mp) for i in idx), cj)
    else:
        r = pa(at)
    _SUBC[key] = r
    return r


def replace_atoms(p, mp):
    """replace whole atoms (atom id -> Poly) at the top level of p"""
    r = ZERO
    for m, c in p.terms:
        t = Poly({(): c})
        for a, e in m:
            if a in mp:
                t = t * (ppow(mp[a], e) if e >= 0 else ppow(recip(mp[a]), -e))
            else:
                t = t * Poly({((a, e),): C1})
        r = r + t
    return r


_RS = {}


def resimplify(p):
    """rebuild p under the current facts (indicators may now be decided)"""
    r = ZERO
    for m, c in p.terms:
        t = Poly({(): c})
        for a, e in m:
            t = t * ppow_atom(resimplify_atom(_ATL[a]), e)
            if t.is_zero():
                break
        r = r + t
    return r


def resimplify_atom(at):
    k, d = at.kind, at.data
    if k == "ind":
        return ind(d[0])
    if k == "sum":
        if not has_ind(at) and not any(u.vars for u in d[0]):
            return pa(at)
        vs, body = open_sum(at)
        return msum(vs, resimplify(body))
    if not has_ind(at):
        return pa(at)
    if k == "rec":
        return recip(resimplify(d[0]))
    if k == "fn":
        return fn(d[0], *[resimplify(x) for x in d[1]])
    if k == "lam":
        name, consts, lams, idx, cj = d
        opened = []
        for uppers, b in lams:
            vs, us, body = open_lam(uppers, b)
            opened.append((vs, us, resimplify(body)))
        return lam(name, consts, opened, idx, cj)
    return pa(at)


_HI = {}


def has_ind(at):
    r = _HI.get(at.id)
    if r is None:
        k, d = at.kind, at.data
        if k == "ind":
            r = True
        elif k == "sum":
            r = any(has_ind(_ATL[a]) for a, _ in d[1])
        elif k == "rec":
            r = p_has_ind(d[0])
        elif k == "fn":
            r = any(p_has_ind(x) for x in d[1])
        elif k == "lam":
            r = any(p_has_ind(b) for _, b in d[2])
        else:
            r = False
        _HI[at.id] = r
    return r


def p_has_ind(p):
    return any(has_ind(_ATL[a]) for m, _ in p.terms for a, _e in m)


def find_ind(p):
    """some undecided indicator on free variables occurring in p (outermost first)"""
    inner = None
    for m, _ in p.terms:
        for a, _e in m:
            at = _ATL[a]
            if at.kind == "ind":
                return at
    for m, _ in p.terms:
        for a, _e in m:
            at = _ATL[a]
            if has_ind(at):
                r = _find_ind_atom(at)
                if r is not None:
                    return r
    return inner


def _find_ind_atom(at):
    k, d = at.kind, at.data
    if k == "ind":
        return at if not any(isinstance(v.data, tuple) and v.data[0] == "b" for v in at.vars) else None
    subs = []
    if k == "sum":
        subs = [_ATL[a] for a, _ in d[1]]
    else:
        ps = [d[0]] if k == "rec" else (list(d[1]) if k == "fn" else ([b for _, b in d[2]] if k == "lam" else []))
        for p in ps:
            for m, _ in p.terms:
                subs += [_ATL[a] for a, _e in m]
    for s in subs:
        if has_ind(s):
            r = _find_ind_atom(s)
            if r is not None:
                return r
    return None


def atoms_in(p):
    out = []
    for m, _ in p.terms:
        for a, e in m:
            out.append((_ATL[a], e))
    return out


def has_fn(p, names):
    hit = []

    def look(at, args):
        if at.kind == "fn" and at.data[0] in names:
            hit.append(at)
        return None

    map_atoms(p, look)
    return bool(hit)


def map_atoms(p, f):
    """rebuild p bottom-up; f(atom, mapped function arguments or None) may return a
    replacement polynomial for an atom"""
    memo = {}

    def go(q):
        if q.id in memo:
            return memo[q.id]
        r = ZERO
        for m, c in q.terms:
            t = Poly({(): c})
            for a, e in m:
                v = at(_ATL[a])
                if e >= 0 or (len(v.terms) == 1 and v.terms[0][1] == C1):
                    t = t * ppow_atom(v, e)
                else:
                    t = t * ppow(recip(v), -e)
            r = r + t
        memo[q.id] = r
        return r

    def at(a):
        k, d = a.kind, a.data
        if k in ("iv", "rv", "el", "ind"):
            r = f(a, None)
            return pa(a) if r is None else r
        if k == "sum":
            r = f(a, None)
            if r is not None:
                return r
            vs, body = open_sum(a)
            return msum(vs, go(body))
        if k == "rec":
            return recip(go(d[0]))
        if k == "fn":
            args = [go(x) for x in d[1]]
            r = f(a, args)
            return fn(d[0], *args) if r is None else r
        if k == "lam":
            r = f(a, None)
            if r is not None:
                return r
            name, consts, lams, idx, cj = d
            opened = []
            for uppers, b in lams:
                vs, us, body = open_lam(uppers, b)
                opened.append((vs, us, go(body)))
            return lam(name, consts, opened, idx, cj)
        return pa(a)

    return go(p)


# ---------------------------------------------------------------- named subterms
DEFS = {}  # name -> (formal variables, body)
_DEFN = {}
_WT = {}


def weight_atom(at):
    w = _WT.get(at.id)
    if w is None:
        k, d = at.kind, at.data
        w = 1
        if k == "sum":
            w += sum(weight_atom(_ATL[a]) for a, _ in d[1])
        elif k == "rec":
            w += weight(d[0])
        elif k == "fn":
            w += sum(weight(x) for x in d[1])
        elif k == "lam":
            w += sum(weight(b) for _, b in d[2])
        _WT[at.id] = w
    return w


def weight(p):
    return sum(1 + sum(weight_atom(_ATL[a]) for a, _ in m) for m, _ in p.terms)


def name_body(formal_vars, sizes, body, real):
    """a definitional name for the tensor with this body; unfolded on demand by the prover"""
    if (real and not body.real) or not (body.vars <= body.vars):
        return body
    # variables that are neither formals nor sizes (loop counters) stay parameters of the name
    key = (tuple(formal_vars), tuple(sizes), body)
    n = _DEFN.get(key)
    if n is None:
        n = "D#%d" % len(_DEFN)
        _DEFN[key] = n
        DEFS[n] = (tuple(formal_vars), body)
        _SIZES[n] = tuple(sizes)
    return pa(atom("el", n, 2 if real else 0, tuple(ip(v) for v in formal_vars)))


def unfold_atom(at):
    n, cj, idx = at.data
    fv, body = DEFS[n]
    b = subst(body, dict(zip(fv, idx)))
    return conj(b) if cj == 1 else b


def defs_in(p, out=None, seen=None):
    """names occurring in p (nested included)"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    for m, _ in p.terms:
        for a, _e in m:
            if a in seen:
                continue
            seen.add(a)
            at = _ATL[a]
            k, d = at.kind, at.data
            if k == "el":
                if d[0] in DEFS:
                    out.add(d[0])
            elif k == "sum":
                defs_in(Poly({d[1]: C1}), out, seen)
            elif k == "rec":
                defs_in(d[0], out, seen)
            elif k == "fn":
                for x in d[1]:
                    defs_in(x, out, seen)
            elif k == "lam":
                for _, b in d[2]:
                    defs_in(b, out, seen)
                for c in d[1]:
                    if isinstance(c, Poly):
                        defs_in(c, out, seen)
    return out


def lemma_var(level, i, v):
    """an index variable with the range of v, used only in equalities of definitions"""
    r = RANGES[v]
    w = ints.iatom("v", ("m", level, i, r[0].id if r[0] is not None else None, r[1].id if r[1] is not None else None))
    RANGES[w] = r
    return w


def rename_def(p, old, new):
    def f(at, args):
        if at.kind == "el" and at.data[0] == old:
            return pa(atom("el", new, at.data[1], at.data[2]))
        return None

    return map_atoms(p, f)


STOP = "const "  # prefix of the copy of a tensor that carries no gradient
_STOPPED = {}
_STOPPED_DEF = {}
_SIZES = {}


def stop(p):
    """the value of p with no gradient: the same function of constant copies of the tensors
    (a pure function of constants is a constant, so this is what detach() means)"""

    def f(at, args):
        if at.kind != "el":
            return None
        if at.data[0] in DEFS:
            n = _STOPPED_DEF.get(at.data[0])
            if n is None:
                fv, body = DEFS[at.data[0]]
                n = _STOPPED_DEF[at.data[0]] = name_body(fv, _SIZES[at.data[0]], stop(body), at.data[1] == 2).terms[0][0][0][0]
                n = _STOPPED_DEF[at.data[0]] = _ATL[n].data[0]
            return pa(atom("el", n, at.data[1], at.data[2]))
        if at.data[0].startswith(STOP):
            return None
        n = STOP + at.data[0]
        _STOPPED[n] = at.data[0]
        if at.data[0] in UNITARY:
            UNITARY[n] = UNITARY[at.data[0]]
        return pa(atom("el", n, at.data[1], at.data[2]))

    return map_atoms(p, f)


def unfold(p, names=None):
    """replace the names by their definitions"""

    def f(at, args):
        if at.kind == "el" and at.data[0] in DEFS and (names is None or at.data[0] in names):
            b = unfold_atom(at)
            return unfold(b) if names is None else b
        return None

    return map_atoms(p, f)
