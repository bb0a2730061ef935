"""Dependency analysis: which elements of a batch a term reads."""
from . import ints, poly
from .ints import ip, c_eq
from .poly import _ATL


def polys(x):
    if isinstance(x, poly.Poly):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            yield from polys(y)


def _batch_positions(c, name, n):
    ax = c.el_axes.get(name)
    if ax is None:
        return None
    return [(k, s) for k, s in enumerate(ax) if s in c.batch_sizes]


def local(c, p, bs):
    """bs: {batch size: index of the output along it}.  Returns (ok, reason)"""
    bvars = set()
    for k in bs.values():
        bvars |= set(k.vars)
    svars = set()
    for s in c.batch_sizes:
        svars |= set(s.vars)
    seen = set()

    def idx_ok(name, idx, skip):
        for k, i in enumerate(idx):
            if k in skip:
                continue
            r = int_ok(name, i)
            if r:
                return r
        return None

    def int_ok(name, i):
        if not ((bvars | svars) & i.vars):
            return None
        for a in ints.atoms_of(i):
            if a.kind == "v":
                if a in bvars:
                    return "batch position used as a plain index of %s" % name
                if a in svars:
                    return "batch size used in an index of %s" % name
            elif a.kind in ("div", "mod"):
                for x in a.data:
                    r = int_ok(name, x)
                    if r:
                        return r
            elif a.data[0] == "term":
                r = go(a.data[1])
                if r:
                    return r
            elif (bvars | svars) & a.vars:
                return "opaque index of %s" % name
        return None

    def at(a):
        if a.id in seen:
            return None
        seen.add(a.id)
        k, d = a.kind, a.data
        if k == "rv":
            return None
        if k in ("iv", "ind"):
            if a.vars & bvars:
                return "value depends on the position in the batch"
            if a.vars & svars:
                return "value depends on the size of the batch"
            return None
        if k == "el":
            name, cj, idx = d
            if name in poly.DEFS:
                return go(poly.unfold_atom(a))
            pos = _batch_positions(c, name, len(idx))
            if pos is None:
                if (a.vars & bvars) or (a.vars & svars):
                    return "unknown tensor %s" % name
                return None
            skip = set()
            for q, s in pos:
                skip.add(q)
                want = bs.get(s)
                if want is None:
                    return "the whole batch of %s is read" % name
                if idx[q] != want:
                    return "element %r of the batch of %s is read" % (idx[q], name)
            return idx_ok(name, idx, skip)
        if k == "sum":
            for u in d[0]:
                if set(u.vars) & svars:
                    return "sum over the batch"
            vs, body = poly.open_sum(a)
            return go(body)
        if k == "rec":
            return go(d[0])
        if k == "fn":
            for x in d[1]:
                r = go(x)
                if r:
                    return r
            return None
        if k == "lam":
            name, consts, lams, idx, cj = d
            for x in polys(consts):
                r = go(x)
                if r:
                    return r
            for uppers, b in lams:
                for u in uppers:
                    if set(u.vars) & svars:
                        return "%s acts across the batch" % name
                vs, us, body = poly.open_lam(uppers, b)
                r = go(body)
                if r:
                    return r
            return idx_ok(name, idx, ())
        return "unknown term"

    memo = {}

    def go(q):
        if q.id in memo:
            return memo[q.id]
        memo[q.id] = None
        for m, _ in q.terms:
            for a, e in m:
                r = at(_ATL[a])
                if r:
                    memo[q.id] = r
                    return r
        return None

    why = go(p)
    return why is None, why


def scramble(c, p, bs):
    """(p, p with every other element of the batch of every input replaced)"""
    p = poly.unfold(p)

    def f(a, args):
        if a.kind != "el":
            return None
        name, cj, idx = a.data
        pos = _batch_positions(c, name, len(idx))
        if not pos:
            return None
        same = poly.ONE
        for q, s in pos:
            want = bs.get(s)
            if want is None:
                same = poly.ZERO
                break
            if idx[q] != want:
                same = same * poly.ind(c_eq(idx[q] - want))
        if same == poly.ONE:
            return None
        other = poly.pa(poly.atom("el", "other " + name, cj, idx))
        return same * poly.pa(a) + (poly.ONE - same) * other

    return p, poly.map_atoms(p, f)


def _corner(p, mp):
    """value of p with scalar / sigmoid atoms replaced by numbers (None: another atom)"""
    tot = 0.0
    for m, c in p.terms:
        if c[1] != 0:
            return None
        v = float(c[0])
        for a, e in m:
            if a not in mp:
                return None
            v *= mp[a] ** e
        tot += v
    return tot


def within(p, lo, hi):
    """lo <= p <= hi where p is multilinear in sigmoid atoms and in the scalar parameters of
    [0, 1]; a multilinear function takes its extremes at the corners"""
    ats = {}
    for q in (p, lo, hi):
        for m, c in q.terms:
            for a, e in m:
                at = _ATL[a]
                if not (at.kind == "rv" or (at.kind == "fn" and at.data[0] == "sigmoid")):
                    return False, "not an affine function of sigmoids: %s" % poly.atom_repr(at)[:200]
                if e != 1:
                    return False, "not multilinear"
                ats[a] = 1
    if len(ats) > 10:
        return False, "too many atoms"
    for q in (p - lo, hi - p):
        for m, c in q.terms:
            if any(e != 1 for a, e in m):
                return False, "not multilinear"
        ks = sorted(ats)
        for bits in range(2 ** len(ks)):
            v = _corner(q, {a: (bits >> i) & 1 for i, a in enumerate(ks)})
            if v is None:
                return False, "not evaluated"
            if v < -1e-12:
                return False, "violated by %g at a corner" % v
    return True, ""
