"""Path exploration, path facts, and the obligation prover.

A contract is executed once per feasible path.  Every branch on a symbolic integer
condition is decided by z3 under the path facts when it is entailed, and forks
otherwise (decision-trace re-execution).  Branches on tensor data are opaque: both
outcomes are explored and recorded.
"""
import itertools
import time

import z3

from . import ints, poly
from .ints import ip, c_ge, c_eq, c_z3, c_const, c_key, IntPoly, IAtom
from .poly import Unsupported, Poly, RANGES


class EndPath(Exception):
    """the current path is complete (generic loop iteration) or infeasible"""


class Infeasible(EndPath):
    pass


class PathLimit(Exception):
    pass


class Obligation:
    __slots__ = ("name", "prop", "ok", "how", "detail", "path", "time")

    def __init__(self, name, prop, ok, how, detail, path, t):
        self.name, self.prop, self.ok, self.how = name, prop, ok, how
        self.detail, self.path, self.time = detail, path, t


def _evalterm():
    from . import evalterm

    return evalterm


class Ctx:
    def __init__(self, z3_timeout=20000):
        self.z3_timeout = z3_timeout
        self.trace = []  # decisions of this path
        self.pos = 0
        self.pending = []
        self.obligations = []
        self.events = []
        self.stats = {"z3_queries": 0, "z3_time": 0.0, "paths": 0, "unknown": 0}
        self.cur = None
        self.assumed = []
        self.loop_handler = None
        self.eigh_oracle = None
        self.step_hook = None
        self.gradient = False  # tell values with a gradient from values without
        self.loop_stack = []
        self.reset_path()

    def reset_path(self):
        self.facts = []  # list of (cond, polarity)
        self.bool_facts = []
        self.pos = 0
        self.labels = []
        self.solver = z3.Solver()
        # a deterministic resource limit; the time-out is only a safety net on a slow machine
        self.solver.set("rlimit", 20000000)
        self.solver.set("timeout", self.z3_timeout)
        self.known_vars = set()
        self.cache = {}
        self.merged, self.merging = {}, 0
        self.events = []
        self.batch_sizes = []
        self.el_axes = {}
        self.loop_stack = []
        self.counters = {}
        self.writes = []
        self.nograd = False
        self.deadline = None
        poly.clear_caches()

    def count(self, key):
        self.counters[key] = self.counters.get(key, 0) + 1
        return self.counters[key]

    # ------------------------------------------------------------ facts
    def _declare(self, vars_):
        todo = [v for v in vars_ if v not in self.known_vars]
        while todo:
            v = todo.pop()
            if v in self.known_vars:
                continue
            self.known_vars.add(v)
            r = RANGES.get(v)
            if r is not None:
                lo, hi = r
                zv = ints.z3_atom(v)
                if lo is not None:
                    self.solver.add(zv >= lo.z3())
                    todo += [w for w in lo.vars if w not in self.known_vars]
                if hi is not None:
                    self.solver.add(zv < hi.z3())
                    todo += [w for w in hi.vars if w not in self.known_vars]
        return

    def _ranges(self, vars_):
        """range facts of bound variables and tensor indices: they hold for the query at
        hand only (the range may be empty)"""
        out, seen = [], set()
        todo = [v for v in vars_ if v not in self.known_vars]
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            r = RANGES.get(v)
            if r is not None:
                zv = ints.z3_atom(v)
                if r[0] is not None:
                    out.append(zv >= r[0].z3())
                    todo += [w for w in r[0].vars if w not in self.known_vars]
                if r[1] is not None:
                    out.append(zv < r[1].z3())
                    out += ints.div_facts(r[1])
                    todo += [w for w in r[1].vars if w not in self.known_vars]
        return out

    def assume(self, cond, val=True):
        c = c_const(cond)
        if c is not None:
            if c != val:
                raise Infeasible()
            return
        self.facts.append((cond, val))
        self._declare(cond[1].vars)
        for f in ints.div_facts(cond[1]):
            self.solver.add(f)
        z = c_z3(cond)
        self.solver.add(z if val else z3.Not(z))
        self.cache = {}
        poly.clear_caches()

    def _check(self, *extra):
        t = time.time()
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        self.solver.pop()
        self.stats["z3_queries"] += 1
        self.stats["z3_time"] += time.time() - t
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def entails(self, cond):
        """True / False (negation entailed) / None"""
        c = c_const(cond)
        if c is not None:
            return c
        k = c_key(cond)
        if k in self.cache:
            return self.cache[k]
        z = c_z3(cond)
        df = ints.div_facts(cond[1]) + self._ranges(cond[1].vars)
        r = None
        if self._check(z3.Not(z), *df) == z3.unsat:
            r = True
        elif self._check(z, *df) == z3.unsat:
            r = False
        self.cache[k] = r
        return r

    def feasible(self):
        return self._check() != z3.unsat

    def decide(self, cond, hyp=()):
        return self.entails(cond)

    def model(self):
        self.solver.check()
        try:
            m = self.solver.model()
        except z3.Z3Exception:
            return {}
        return {str(d): m[d].as_long() for d in m.decls() if z3.is_int_value(m[d])}

    # ------------------------------------------------------------ branching
    def branch(self, cond):
        """decide a symbolic integer condition, forking when both are possible"""
        d = self.entails(cond)
        if d is not None:
            return d
        v = self.choose(2, ("int", cond))
        val = v == 0
        self.assume(cond, val)
        if not self.feasible():
            raise Infeasible()
        return val

    def choose(self, n, label):
        """non-deterministic choice among n alternatives"""
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
        else:
            v = 0
            self.trace.append(0)
            for k in range(1, n):
                self.pending.append(self.trace[: self.pos] + [k])
        self.pos += 1
        self.labels.append((label, v))
        return v

    def explore(self, run, max_paths=400, deadline=None):
        """run() is called once per path"""
        self.pending = [[]]
        n = 0
        while self.pending:
            self.trace = self.pending.pop()
            self.reset_path()
            self.deadline = deadline
            if deadline and time.process_time() > deadline:
                raise PathLimit("time limit")
            n += 1
            if n > max_paths:
                raise PathLimit("more than %d paths" % max_paths)
            with active(self):
                try:
                    run()
                except EndPath:
                    pass
        self.stats["paths"] += n
        return n

    # ------------------------------------------------------------ equality facts
    def eq_subst(self):
        """substitution solving the equality facts for variables"""
        mp = {}
        # facts q >= 0 and -q >= 0 make an equality
        ge = {}
        for cond, val in self.facts:
            if cond[0] == "ge":
                q = cond[1] if val else -cond[1] - 1
                ge[q.id] = q
        eqs = [cond[1] for cond, val in self.facts if cond[0] == "eq" and val]
        eqs += [q for q in ge.values() if (-q).id in ge]
        for p in eqs:
            p = p.subst(mp)
            if p.is_const():
                continue
            best = None
            for v in sorted(p.vars, key=lambda a: -a.id):
                k = p.coef_of(v)
                if k in (1, -1):
                    best = (v, k)
                    break
            if best is None:
                continue
            v, k = best
            e = p.subst({v: ints.ZERO})
            e = -e if k == 1 else e
            mp = {w: x.subst({v: e}) for w, x in mp.items()}
            mp[v] = e
        return mp

    # ------------------------------------------------------------ proving
    def prove_zero(self, p, depth=0, budget=None):
        """is p identically zero under the path facts?  returns (ok, residual)"""
        budget = budget or [400]
        budget[0] -= 1
        if budget[0] < 0:
            return False, p
        if self.deadline and time.process_time() > self.deadline:
            return False, p
        if p.is_zero():
            return True, None
        mp = self.eq_subst()
        p = poly.resimplify(poly.subst(p, mp))
        if p.is_zero():
            return True, None
        p = clear_denominators(p)
        if p.is_zero():
            return True, None
        at = poly.find_ind(p)
        if at is None or depth > 14:
            if depth <= 14:
                names = poly.defs_in(p)
                if names:
                    q = self._merge_defs(p, names)
                    if q is not None:
                        return self.prove_zero(q, depth, budget)
                    # unfold the definition that leaves the smallest term
                    best = None
                    for n in sorted(names, key=lambda x: (poly.weight(poly.DEFS[x][1]), int(x[2:])))[:6]:
                        q = clear_denominators(poly.unfold(p, {n}))
                        if q.is_zero():
                            return True, None
                        w = poly.weight(q)
                        if best is None or w < best[0]:
                            best = (w, q)
                    return self.prove_zero(best[1], depth, budget)
                r = self._bool_split(p, depth, budget)
                if r is not None:
                    return r
                r = self._range_split(p, depth, budget)
                if r is not None:
                    return r
                r = self._const_split(p, depth, budget)
                if r is not None:
                    return r
            return False, p
        cond = at.data[0]
        saved = self._save()
        for val in (True, False):
            try:
                self.assume(cond, val)
                if self._check() != z3.unsat:
                    ok, res = self.prove_zero(p, depth + 1, budget)
                    if not ok:
                        self._restore(saved)
                        return False, res
            except Infeasible:
                pass
            self._restore(saved)
        return True, None

    def _bool_split(self, p, depth, budget):
        """case split on a comparison of data (an innermost one, not below a binder)"""
        found = {}
        free = set(p.vars)

        def look(at, args):
            if at.kind == "fn" and at.data[0] in ("lt", "eq") and not found:
                if all(set(x.vars) <= free and not poly.has_fn(x, ("lt", "eq")) for x in at.data[1]):
                    found[at.id] = at
            return None

        poly.map_atoms(p, look)
        if not found:
            return None
        for val in (poly.ONE, poly.ZERO):
            q = poly.map_atoms(p, lambda at, args: val if at.id in found else None)
            ok, res = self.prove_zero(q, depth + 1, budget)
            if not ok:
                return False, res
        return True, None

    def _merge_defs(self, p, names):
        """replace a name by an earlier one whose definition is provably the same tensor"""
        if self.merging >= 4:
            return None
        names = sorted(names, key=lambda x: int(x[2:]))
        fk = None
        for j, b in enumerate(names):
            vb, db = poly.DEFS[b]
            for a in names[:j]:
                va, da = poly.DEFS[a]
                if va != vb:
                    continue
                if fk is None:
                    fk = tuple((c_key(c), v) for c, v in self.facts)
                k = (a, b, fk)
                if k not in self.merged:
                    mp = {v: ip(poly.lemma_var(self.merging, i, v)) for i, v in enumerate(va)}
                    d = poly.subst(da, mp) - poly.subst(db, mp)
                    self.merged[k] = False
                    if d.is_zero():
                        self.merged[k] = True
                    elif _evalterm().refute(self, d, tries=12, want=2, seconds=4.0)[0] != "refuted":
                        self.merging += 1
                        try:
                            self.merged[k] = self.prove_zero(d, 0, [120])[0]
                        finally:
                            self.merging -= 1
                if self.merged[k]:
                    return poly.rename_def(p, b, a)
        return None

    def _range_split(self, p, depth, budget):
        """case split on undecided orderings of summation limits"""
        lims = []
        for at, e in poly.atoms_in(p):
            if at.kind == "sum":
                for u in at.data[0]:
                    if u not in lims and not u.is_const():
                        lims.append(u)
        cands = []
        for u in lims:
            c = c_ge(u - 1)
            if self.entails(c) is None:
                cands.append(c)
        for c in cands[:3]:
            saved = self._save()
            good = True
            for val in (True, False):
                try:
                    self.assume(c, val)
                    if self._check() != z3.unsat:
                        q = p
                        if not val:
                            q = drop_empty_sums(self, p)
                        ok, res = self.prove_zero(q, depth + 1, budget)
                        if not ok:
                            good = False
                            self._restore(saved)
                            break
                except Infeasible:
                    pass
                self._restore(saved)
            if good:
                return True, None
        return None

    def _const_split(self, p, depth, budget):
        """an index over a constant number of values: check each value"""
        for v in sorted(p.vars, key=lambda a: a.id):
            r = RANGES.get(v)
            if r is None or r[0] is None or r[1] is None or not (r[0].is_const() and r[1].is_const()):
                continue
            lo, hi = r[0].const(), r[1].const()
            if hi - lo > 6:
                continue
            for k in range(lo, hi):
                saved = self._save()
                res = None
                ok = True
                try:
                    self.assume(c_eq(ip(v) - k))
                    if self._check() != z3.unsat:
                        ok, res = self.prove_zero(poly.subst(p, {v: ip(k)}), depth + 1, budget)
                except Infeasible:
                    pass
                self._restore(saved)
                if not ok:
                    return False, res
            return True, None
        return None

    def _save(self):
        self.solver.push()
        return (list(self.facts), set(self.known_vars))

    def _restore(self, s):
        self.solver.pop()
        self.facts = list(s[0])
        self.known_vars = set(s[1])
        self.cache = {}
        poly.clear_caches()
        self.solver.push()

    def oblige(self, name, prop, ok, how, detail="", t=0.0):
        self.obligations.append(
            Obligation(name, prop, bool(ok), how, detail, self.path_str(), t)
        )
        return ok

    def path_str(self):
        out = []
        for (kind, c), v in self.labels:
            out.append("%s=%s" % (label_str(kind, c), v == 0 if kind == "int" else v))
        return "; ".join(out)


def label_str(kind, c):
    if kind == "int":
        return "(%r %s 0)" % (c[1], ">=" if c[0] == "ge" else "==")
    return "%s:%s" % (kind, c)


def drop_empty_sums(ctx, p):
    mp = {}
    for at, e in poly.atoms_in(p):
        if at.kind == "sum" and any(ctx.entails(c_ge(-u)) for u in at.data[0]):
            mp[at.id] = poly.ZERO
    if not mp:
        return p
    r = poly.ZERO
    for m, c in p.terms:
        if any(a in mp for a, e in m):
            continue
        r = r + Poly({m: c})
    return r


def clear_denominators(p):
    """multiply p by the top-level reciprocals it contains"""
    for _ in range(8):
        if p.is_zero():
            return p
        recs = {}
        for at, e in poly.atoms_in(p):
            if at.kind == "rec" and e > 0:
                recs[at.id] = max(recs.get(at.id, 0), e)
        # negative powers of sqrt: multiply so that sqrt^2 rules apply
        if not recs:
            break
        a = max(recs, key=lambda i: poly._ATL[i].h)
        k = recs[a]
        den = poly._ATL[a].data[0]
        r = poly.ZERO
        for m, c in p.terms:
            j = dict(m).get(a, 0)
            rest = tuple(x for x in m if x[0] != a)
            r = r + Poly({rest: c}) * poly.ppow(den, k - j)
        p = r
    # clear negative exponents
    neg = {}
    for at, e in poly.atoms_in(p):
        if e < 0:
            neg[at.id] = min(neg.get(at.id, 0), e)
    if neg:
        f = tuple(sorted((a, -e) for a, e in neg.items()))
        r = poly.ZERO
        for m, c in p.terms:
            mm = poly.mono_mul(m, f)
            q = poly.norm_mono(mm) if poly._needs_norm(mm) else Poly({mm: poly.C1})
            r = r + poly.scale(q, c)
        p = r
    return p


_CUR = []


class active:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        _CUR.append(self.ctx)
        self.old = poly.DECIDE[0]
        poly.DECIDE[0] = self.ctx.decide
        poly.clear_caches()
        return self.ctx

    def __exit__(self, *a):
        _CUR.pop()
        poly.DECIDE[0] = self.old
        poly.clear_caches()


def cur():
    if not _CUR:
        raise RuntimeError("no active verification context")
    return _CUR[-1]


# ---------------------------------------------------------------- symbolic scalars
class I:
    """symbolic integer"""

    __slots__ = ("poly",)

    def __init__(self, p):
        self.poly = p

    def __add__(self, o):
        return _iop(self, o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return _iop(self, o, lambda a, b: a - b)

    def __rsub__(self, o):
        return _iop(self, o, lambda a, b: b - a)

    def __mul__(self, o):
        return _iop(self, o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return _iop(self, o, ints.idiv)

    def __rfloordiv__(self, o):
        return _iop(self, o, lambda a, b: ints.idiv(b, a))

    def __mod__(self, o):
        return _iop(self, o, ints.imod)

    def __rmod__(self, o):
        return _iop(self, o, lambda a, b: ints.imod(b, a))

    def __truediv__(self, o):
        if _is_num(o):
            return R(poly.pp(self) / poly.pp(o))
        return NotImplemented

    def __rtruediv__(self, o):
        if _is_num(o):
            return R(poly.pp(o) / poly.pp(self))
        return NotImplemented

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            r = ip(1)
            for _ in range(n):
                r = r * self.poly
            return mki(r)
        return NotImplemented

    def __neg__(self):
        return mki(-self.poly)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __eq__(self, o):
        if not _is_int(o):
            return False if o is None or isinstance(o, (str, tuple, list)) else NotImplemented
        return mkb(c_eq(self.poly - ip(o)))

    def __ne__(self, o):
        if not _is_int(o):
            return True if o is None or isinstance(o, (str, tuple, list)) else NotImplemented
        return mkb(c_eq(self.poly - ip(o)), neg=True)

    def __lt__(self, o):
        if isinstance(o, float):
            return _cmpf(self, o, "lt")
        return mkb(c_ge(ip(o) - self.poly - 1))

    def __le__(self, o):
        if isinstance(o, float):
            return _cmpf(self, o, "le")
        return mkb(c_ge(ip(o) - self.poly))

    def __gt__(self, o):
        if isinstance(o, float):
            return _cmpf(self, o, "gt")
        return mkb(c_ge(self.poly - ip(o) - 1))

    def __ge__(self, o):
        if isinstance(o, float):
            return _cmpf(self, o, "ge")
        return mkb(c_ge(self.poly - ip(o)))

    def __bool__(self):
        return not bool(self == 0)

    def __hash__(self):
        return hash(("I", self.poly.id))

    def __index__(self):
        if self.poly.is_const():
            return self.poly.const()
        raise Unsupported("a concrete integer is needed for %r" % (self.poly,))

    __int__ = __index__

    def __float__(self):
        raise Unsupported("float of symbolic integer")

    def __repr__(self):
        return "<%r>" % (self.poly,)

    def __format__(self, spec):
        return repr(self)


class PackDim(I):
    """the (variadic) leading batch dimensions of a tensor"""

    __slots__ = ()


def _cmpf(a, o, op):
    if o == int(o):
        return getattr(a, "__%s__" % op)(int(o))
    raise Unsupported("comparison of a size with %r" % o)


def _is_int(o):
    return isinstance(o, (int, I)) or (hasattr(o, "__index__") and not hasattr(o, "term") and not hasattr(o, "axes"))


def _is_num(o):
    return isinstance(o, (int, float, complex, I, R))


def mki(p):
    if p.is_const():
        return p.const()
    return I(p)


def _iop(a, b, f):
    if isinstance(b, (float, complex, R)):
        fa, fb = R(poly.pp(a)), R(poly.pp(b))
        if f is ints.idiv or f is ints.imod:
            raise Unsupported("floor division of reals")
        return R(f(fa.term, fb.term))
    if not _is_int(b):
        return NotImplemented
    return mki(f(a.poly, ip(b)))


class B:
    """symbolic boolean (integer condition)"""

    __slots__ = ("cond", "neg")

    def __init__(self, cond, neg=False):
        self.cond, self.neg = cond, neg

    def __bool__(self):
        r = cur().branch(self.cond)
        return r != self.neg

    def __invert__(self):
        return B(self.cond, not self.neg)

    def __and__(self, o):
        return bool(self) and bool(o)

    def __or__(self, o):
        return bool(self) or bool(o)

    __rand__ = __and__
    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return id(self)


def mkb(cond, neg=False):
    c = c_const(cond)
    if c is not None:
        return c != neg
    return B(cond, neg)


class R:
    """symbolic real (or complex) scalar"""

    __slots__ = ("term",)

    def __init__(self, t):
        self.term = t

    def _op(self, o, f):
        if isinstance(o, (int, float, complex, I, R)):
            return R(f(self.term, poly.pp(o)))
        return NotImplemented

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._op(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._op(o, lambda a, b: b / a)

    def __neg__(self):
        return R(-self.term)

    def __abs__(self):
        return R(poly.absval(self.term))

    def __pow__(self, n):
        if isinstance(n, int):
            return R(poly.ppow(self.term, n))
        if n == 0.5:
            return R(poly.sqrt(self.term))
        return NotImplemented

    def _cmp(self, o, op):
        d = self.term - poly.pp(o)
        if d.is_const():
            c = d.const()[0]
            return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[op]
        return DataBool("real-cmp", (op, d))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if not isinstance(o, (int, float, complex, I, R)):
            return NotImplemented
        d = self.term - poly.pp(o)
        if d.is_zero():
            return True
        if d.is_const():
            return False
        return DataBool("real-eq", d)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (not r)

    def __hash__(self):
        return hash(("R", self.term.id))

    def __repr__(self):
        return "<R %r>" % (self.term,)

    def __bool__(self):
        return bool(DataBool("real-nonzero", self.term))


class DataBool:
    """outcome depends on tensor data or real parameters: both branches explored"""

    __slots__ = ("kind", "data")

    def __init__(self, kind, data):
        self.kind, self.data = kind, data

    def __bool__(self):
        c = cur()
        key = ("databool", self.kind, self.data)
        if key in c.counters:
            return c.counters[key]
        v = c.choose(2, ("data", self.kind))
        c.counters[key] = v == 0
        c.events.append(("data-branch", self.kind, self.data))
        return v == 0

    def __invert__(self):
        return not bool(self)


def sint(name, lo=None, hi=None):
    """declare a symbolic integer input lo <= x (< hi)"""
    v = ints.iatom("v", name)
    RANGES[v] = (None if lo is None else ip(lo), None if hi is None else ip(hi))
    cur()._declare([v])
    return I(ip(v))


def sreal(name):
    return R(poly.pa(poly.atom("rv", name)))
