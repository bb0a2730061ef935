"""Symbolic integers: polynomials over integer atoms, with conditions decided by z3.

An IntPoly is canonical (sorted monomials over interned atoms), so structural
equality is semantic equality of polynomials.  Sizes, indices and loop counters
of the code under verification are IntPolys wrapped in `I` (see sym.py).
"""
import z3

_ATOM_IDS = {}
_ATOMS = []


class IAtom:
    """integer atom: kind 'v' (variable), 'div', 'mod', 'fn' (opaque function)"""

    __slots__ = ("id", "kind", "data", "vars")

    def __hash__(self):
        return self.id  # runs are reproducible: sets of atoms are ordered the same way

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if self.kind == "v":
            n = self.data
            if isinstance(n, str):
                return n
            return "_".join(map(str, n))
        if self.kind in ("div", "mod"):
            return "%s(%r,%r)" % (self.kind, *self.data)
        return "%s%r" % (self.data[0], self.data[1:])


def iatom(kind, data):
    key = (kind, data)
    a = _ATOM_IDS.get(key)
    if a is None:
        a = IAtom()
        a.id = len(_ATOMS)
        a.kind = kind
        a.data = data
        if kind == "v":
            a.vars = frozenset([a])
        elif kind in ("div", "mod"):
            a.vars = data[0].vars | data[1].vars
        else:
            vs = frozenset()
            for x in data[1:]:
                vs = vs | _vars_of(x)
            a.vars = vs
        _ATOM_IDS[key] = a
        _ATOMS.append(a)
    return a


def _vars_of(x):
    if hasattr(x, "vars"):
        return x.vars
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r = r | _vars_of(y)
        return r
    return frozenset()


_POLY = {}


class IntPoly:
    __slots__ = ("terms", "_hash", "vars", "id")

    # terms: tuple of (mono, coef); mono: tuple of (atom.id, exp) sorted
    def __new__(cls, terms):
        t = tuple(sorted((m, c) for m, c in terms.items() if c != 0))
        p = _POLY.get(t)
        if p is not None:
            return p
        p = object.__new__(cls)
        p.terms = t
        p._hash = hash(t)
        vs = frozenset()
        for m, _ in t:
            for a, _e in m:
                vs = vs | _ATOMS[a].vars
        p.vars = vs
        p.id = len(_POLY)
        _POLY[t] = p
        return p

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    def is_const(self):
        return len(self.terms) == 0 or (
            len(self.terms) == 1 and self.terms[0][0] == ()
        )

    def const(self):
        return self.terms[0][1] if self.terms else 0

    def __add__(self, o):
        o = ip(o)
        d = dict(self.terms)
        for m, c in o.terms:
            d[m] = d.get(m, 0) + c
        return IntPoly(d)

    __radd__ = __add__

    def __neg__(self):
        return IntPoly({m: -c for m, c in self.terms})

    def __sub__(self, o):
        return self + (-ip(o))

    def __rsub__(self, o):
        return ip(o) - self

    def __mul__(self, o):
        o = ip(o)
        d = {}
        for m1, c1 in self.terms:
            for m2, c2 in o.terms:
                m = _mmul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        return IntPoly(d)

    __rmul__ = __mul__

    def coef_of(self, atom):
        """linear coefficient of atom; None when atom occurs non-linearly / nested"""
        c = 0
        for m, k in self.terms:
            for a, e in m:
                if a == atom.id:
                    if len(m) != 1 or e != 1:
                        return None
                    c = k
                elif atom in _ATOMS[a].vars:
                    return None
        return c

    def subst(self, mp):
        if not any(v in mp for v in self.vars):
            return self
        r = ZERO
        for m, c in self.terms:
            t = ip(c)
            for a, e in m:
                at = _ATOMS[a]
                if at in mp:
                    v = mp[at]
                elif any(x in mp for x in at.vars):
                    v = subst_atom(at, mp)
                else:
                    v = IntPoly({((a, 1),): 1})
                for _ in range(e):
                    t = t * v
            r = r + t
        return r

    def __repr__(self):
        if not self.terms:
            return "0"
        out = []
        for m, c in self.terms:
            s = "*".join(
                repr(_ATOMS[a]) + ("^%d" % e if e > 1 else "") for a, e in m
            )
            if not s:
                out.append("%+d" % c)
            elif c == 1:
                out.append("+" + s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append("%+d*%s" % (c, s))
        return "".join(out).lstrip("+")

    def z3(self):
        r = z3.IntVal(0)
        for m, c in self.terms:
            t = z3.IntVal(c)
            for a, e in m:
                for _ in range(e):
                    t = t * z3_atom(_ATOMS[a])
            r = r + t
        return r


def subst_atom(at, mp):
    if at.kind == "v":
        return mp.get(at, IntPoly({((at.id, 1),): 1}))
    if at.kind == "div":
        return idiv(at.data[0].subst(mp), at.data[1].subst(mp))
    if at.kind == "mod":
        return imod(at.data[0].subst(mp), at.data[1].subst(mp))
    return ip(iatom("fn", (at.data[0],) + tuple(_subst_any(x, mp) for x in at.data[1:])))


def _subst_any(x, mp):
    if hasattr(x, "subst"):
        return x.subst(mp)
    if isinstance(x, tuple):
        return tuple(_subst_any(y, mp) for y in x)
    return x


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def ip(x):
    if isinstance(x, IntPoly):
        return x
    if isinstance(x, IAtom):
        return IntPoly({((x.id, 1),): 1})
    if isinstance(x, bool):
        return IntPoly({(): int(x)})
    if isinstance(x, int):
        return IntPoly({(): x})
    if hasattr(x, "poly"):
        return x.poly
    if hasattr(x, "__index__"):
        return IntPoly({(): x.__index__()})
    raise TypeError("not an integer: %r" % (x,))


def atoms_of(p):
    return [_ATOMS[a] for m, _ in p.terms for a, _e in m]


ZERO = IntPoly({})
ONE = IntPoly({(): 1})


def ivar(name):
    return ip(iatom("v", name))


def idiv(p, q):
    p, q = ip(p), ip(q)
    if q.is_const() and q.const() != 0:
        k = q.const()
        if p.is_const():
            return ip(p.const() // k)
        # pull out the exactly divisible part
        d = {m: c // k for m, c in p.terms if c % k == 0 and m != ()}
        r = {m: c for m, c in p.terms if not (c % k == 0 and m != ())}
        rest = IntPoly(r)
        if rest.is_const():
            return IntPoly(d) + (rest.const() // k)
        if d:
            return IntPoly(d) + ip(iatom("div", (rest, q)))
    return ip(iatom("div", (p, q)))


def exact_div(p, q):
    """p // q, as a polynomial when the monomial q divides every term of p"""
    p, q = ip(p), ip(q)
    if len(q.terms) == 1:
        m, c = list(q.terms)[0]
        dm = dict(m)
        d = {}
        for pm, pc in p.terms:
            e = dict(pm)
            if pc % c or any(e.get(v, 0) < k for v, k in dm.items()):
                break
            for v, k in dm.items():
                e[v] -= k
            d[tuple((v, e[v]) for v, _ in pm if e[v])] = pc // c
        else:
            return IntPoly(d)
    return idiv(p, q)


def imod(p, q):
    p, q = ip(p), ip(q)
    if q.is_const() and p.is_const() and q.const() != 0:
        return ip(p.const() % q.const())
    return p - q * idiv(p, q)


_Z3C = {}


def z3_atom(a):
    if a.kind == "v":
        c = _Z3C.get(a.id)
        if c is None:
            c = z3.Int("i%d_%s" % (a.id, a.data if isinstance(a.data, str) else "b"))
            _Z3C[a.id] = c
        return c
    if a.kind == "div":
        p, q = a.data
        if q.is_const() and q.const() > 0:
            return p.z3() / z3.IntVal(q.const())
    c = _Z3C.get(a.id)
    if c is None:
        c = z3.Int("f%d" % a.id)
        _Z3C[a.id] = c
    return c


def div_facts(p, out=None):
    """defining facts for symbolic floor divisions occurring in p"""
    out = [] if out is None else out
    for a in atoms_of(p):
        if a.kind == "div":
            x, q = a.data
            div_facts(x, out)
            if not q.is_const():
                r = z3_atom(a)
                out.append(
                    z3.Implies(
                        q.z3() > 0,
                        z3.And(q.z3() * r <= x.z3(), x.z3() < q.z3() * r + q.z3()),
                    )
                )
    return out


# ---- conditions -------------------------------------------------------
# ('ge', p): p >= 0 ; ('eq', p): p == 0


def c_ge(p):
    return ("ge", ip(p))


def c_eq(p):
    p = ip(p)
    if p.terms and p.terms[-1][1] < 0:
        p = -p
    return ("eq", p)


def c_vars(c):
    return c[1].vars


def c_subst(c, mp):
    return c_ge(c[1].subst(mp)) if c[0] == "ge" else c_eq(c[1].subst(mp))


def c_const(c):
    p = c[1]
    if not p.is_const():
        return None
    return p.const() >= 0 if c[0] == "ge" else p.const() == 0


def c_z3(c):
    return c[1].z3() >= 0 if c[0] == "ge" else c[1].z3() == 0


def c_neg_z3(c):
    return z3.Not(c_z3(c))


def c_key(c):
    return (c[0], c[1].id)
