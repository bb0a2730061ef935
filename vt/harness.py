"""Contract sessions.

A contract is a python function of a session S.  Run with a symbolic session it
generates proof obligations over the real source of /repo for all sizes and all tensor
contents; run with a concrete session the same contract is evaluated on the real
package with real torch (replay, and the bounded stand-in where the verifier cannot
reach)."""
import hashlib
import os
import random
import re
import sys
import time
import traceback

from . import ints, poly, evalterm, locality
from .ctx import Ctx, active, cur, I, R, PackDim, sint, sreal, EndPath, Infeasible, PathLimit, mki, B
from .ints import ip, c_ge, c_eq, c_const
from .poly import Unsupported
from .tensor import Tensor, TorchError, TorchIndexError, formals, broadcast_el, fresh, same_size, DType
from . import tensor as tz
from . import loader

REGISTRY = []


class Contract:
    view = None

    def __init__(self, fn, props, name, functions, modes, weight, trials, assumes):
        self.fn, self.props, self.name = fn, props, name
        self.functions, self.modes, self.weight = functions, modes, weight
        self.trials = trials
        self.assumes = assumes


# Views of one contract: the same symbolic execution of the real code, other obligations.
#   C09: every value the contract speaks about depends, for each element of the batch,
#        only on that element of the inputs (and of the generic loop states)
#   C10: shapes, dtypes in single and double precision, no narrowing, frame
#   C17: the whole contract with the parameters given at the call, the constructor holding
#        arbitrary other values, and the state an earlier call may have left made unreadable
#   C23: the whole contract where x.detach(), and whatever is computed under no_grad, is a function
#        of constant copies of the tensors: the code then computes the specified function with the
#        specified gradient, not only with the specified value
VIEWS = {"C09": "[batch independence] ", "C10": "[shape, dtype, frame] ", "C17": "[call parameters, any history] ",
         "C23": "[gradient] "}
GRADIENT = ("C02", "C03", "C04", "C05", "C06", "C07", "C08", "C11", "C12", "C13", "C14", "C15", "C16", "C18")


def contract(props, name, functions=(), modes="both", weight=1, trials=None, assumes=(), views=None):
    props = (props,) if isinstance(props, str) else tuple(props)
    if views is None:
        views = ("C09", "C10") if modes in ("both", "sym") else ()
        if props[0] in GRADIENT or len(props) > 1:
            views += ("C23",)
    elif "C17" in views and props[0] in GRADIENT:
        views = tuple(views) + ("C23",)

    def deco(fn):
        REGISTRY.append(Contract(fn, props, name, tuple(functions), modes, weight, trials, tuple(assumes)))
        for v in views:
            k = Contract(fn, (v,), VIEWS[v] + name, tuple(functions), "sym" if v not in ("C10", "C23") else modes, weight,
                         (trials or 60) if modes == "con" else max(8, (trials or 60) // 4), tuple(assumes))
            k.view = v
            k.origin = props
            REGISTRY.append(k)
        return fn

    return deco


class Reject(Exception):
    """precondition not met by this sample"""


class Missing(Exception):
    """an internal function the contract is attached to does not exist any more"""


class Failure(Exception):
    """a contract fails on a concrete input"""


# ---------------------------------------------------------------- symbolic session
class SymS:
    sym = True

    def __init__(self, ctx, pkg, con, prop, rank="pack"):
        self.c = ctx
        self.pkg = pkg
        self.con = con
        self.prop = prop
        self.T = pkg.facades["torch"]
        self.rank = rank
        self.inputs = {}
        self.excused = []
        self.gradient = False
        self.view = con.view if con.view not in ("C17", "C23") else None
        self.by_call = con.view == "C17"
        self._double = None

    def double(self):
        """precision of the caller's tensors"""
        if self.view != "C10":
            return True
        if self._double is None:
            self._double = self.choose("precision", ["double", "single"]) == "double"
        return self._double

    # -- inputs
    def mod(self, name):
        return self.pkg.load(name)

    def fn(self, mod, name):
        m = self.mod(mod)
        if not hasattr(m, name):
            raise Unsupported("function %s.%s does not exist" % (mod, name))
        return getattr(m, name)

    def by_contract(self, *names):
        """verify the callers of these functions against their contracts (decided under
        C13/C14), not their bodies"""
        for n in names:
            mod, _, f = n.rpartition(".")
            self.pkg.load(mod)
            self.pkg.stub(mod, f, CALLEE[f](self.pkg.facades["torch"]))

    def call(self, cls, X, **params):
        """the object and its result on X; under the C17 view the parameters are given at the
        call (None: at construction, as None at the call means the constructor's value)"""
        if not self.by_call:
            o = cls(**params)
            return o, o(X)
        ctor, over = {}, {}
        for k, v in params.items():
            if v is None:
                ctor[k] = None
                continue
            over[k] = v
            if isinstance(v, bool):
                ctor[k] = not v
            elif isinstance(v, (int, I)):
                ctor[k] = sint("constructor's " + k, 0)
            elif isinstance(v, (float, R)):
                ctor[k] = sreal("constructor's " + k)
            elif isinstance(v, str):
                ctor[k] = v + " (constructor)"
            else:
                ctor[k] = OpaqueModel(self, "constructor's " + k)
        o = cls(**ctor)
        # attributes that hold a parameter stay (and must be unchanged afterwards)
        held = {n for n, v in o.__dict__.items() if any(v is c for c in ctor.values() if c is not None)}
        stale = self.pkg.written(cls) - held
        for n in stale:
            o.__dict__[n] = loader.Poison("state of an earlier call (%s)" % n)
        before = dict(o.__dict__)
        Y = o(X, **over)
        ch = [n for n, v in before.items() if n not in stale and o.__dict__.get(n) is not v]
        self._record("a call leaves the object's parameters as they were", not ch, "evaluation" if not ch else "refuted", ", ".join(ch))
        for m in ctor.values():
            if isinstance(m, OpaqueModel):
                self._record("the model of the call replaces the one of the constructor", not m.calls, "evaluation" if not m.calls else "refuted")
        for m in over.values():
            if isinstance(m, OpaqueModel):
                ok = all(r > 0 for r in m.resets_at)
                self._record("the source model is reset before its first use", ok, "evaluation" if ok else "refuted")
        return o, Y

    def size(self, name, lo=1, hi=None):
        return sint(name, lo, hi)

    def herm2(self, name, batch, dtype=None):
        """a 2x2 Hermitian matrix with arbitrary entries"""
        dtype = dtype or self.c128
        T = self.T
        a = self.real(name + "11", batch, tz.to_real(dtype)) + 0j
        d = self.real(name + "22", batch, tz.to_real(dtype)) + 0j
        b = self.cplx(name + "12", batch, dtype)
        return T.stack([T.stack([a, b], dim=-1), T.stack([b.conj(), d], dim=-1)], dim=-2)

    def unclamped(self, t):
        """t where no floor is active: max(scalar, x) -> x"""
        return Tensor(t.axes, poly.map_atoms(poly.unfold(t.body), _unclamp), t.dtype)

    def generic(self, t):
        """t where no equality of data holds: eq(x, y) -> false"""
        return Tensor(t.axes, poly.map_atoms(poly.unfold(t.body), _no_eq), t.dtype)

    def batch(self, name="B"):
        if self.rank == "pack":
            d = sint(name, 1)
            self.c.batch_sizes.append(d.poly)
            return (PackDim(d.poly),)
        ds = tuple(sint("%s%d" % (name, i), 1) for i in range(self.rank))
        self.c.batch_sizes += [d.poly for d in ds]
        return ds

    def choose(self, name, options):
        if len(options) == 1:
            return options[0]
        k = self.c.choose(len(options), ("choice", name))
        self.c.labels[-1] = (("choice", "%s:%s" % (name, options[k])), k)
        return options[k]

    def assume(self, cond):
        if isinstance(cond, B):
            self.c.assume(cond.cond, not cond.neg)
            if not self.c.feasible():
                raise Infeasible()
        elif not cond:
            raise Infeasible()

    def _t(self, name, shape, dtype):
        t = fresh(name, shape, dtype)
        t.is_input = name
        t.snapshot = t.body
        self.inputs[name] = t
        return t

    def cplx(self, name, shape, dtype=None):
        return self._t(name, shape, dtype or self.c128)

    def real(self, name, shape, dtype=None):
        return self._t(name, shape, dtype or self.f64)

    def pos(self, name, shape, dtype=None):
        return self._t(name + "+", shape, dtype or self.f64)

    def scalar(self, name, lo=None, hi=None):
        return sreal(name)

    eps = scalar

    def herm(self, name, batch, n, dtype=None):
        """a Hermitian matrix G G^H"""
        G = self.cplx(name, tuple(batch) + (n, n), dtype)
        H = self.T.einsum("...ab,...cb->...ac", G, G.conj())
        return H

    def unitary(self, name, batch, n, dtype=None):
        """arbitrary unitary matrices"""
        t = fresh(name, tuple(batch) + (n, n), dtype or self.c128)
        poly.UNITARY[name] = ip(n)
        return t

    def eigh_returns(self, *facts):
        """the assumed contract of torch.linalg.eigh, call by call: (M, val, vec) with M = vec
        diag(val) vec^H and vec unitary; another argument is outside this contract"""
        facts = list(facts)

        def oracle(A):
            if not facts:
                raise Unsupported("eigh: more decompositions than the contract provides")
            M, val, vec = facts.pop(0)
            A = self.unclamped(A)
            if not self._same_shape(A, M):
                raise Unsupported("eigh of another matrix (shape)")
            idx = formals(A.axes)
            ok, _ = self.c.prove_zero(A.el(idx) - M.el(idx))
            if not ok:
                raise Unsupported("eigh of another matrix")
            self._record("argument of the eigenvalue decomposition", True, "rewriting + z3 case split")
            return val, vec

        self.c.eigh_oracle = oracle

    def owned(self, t, name):
        """mark a derived tensor as caller-owned"""
        t = t.clone()
        t.is_input = name
        t.snapshot = t.body
        self.inputs[name] = t
        return t

    # -- obligations
    def _record(self, tag, ok, how, detail="", t=0.0, prop=None):
        self.c.oblige(self.con.name + " :: " + tag, prop or self.prop, ok, how, detail, t)
        return ok

    def note(self, s):
        pass

    def eq(self, tag, a, b, tol=None, prop=None):
        if self.view == "C09":
            return self.local(tag, a)
        if self.view:
            return True
        t0 = time.time()
        if not isinstance(a, Tensor):
            a = Tensor([], poly.pp(a), tz.float64)
        if not isinstance(b, Tensor):
            b = Tensor([], poly.pp(b), tz.float64)
        if not self._same_shape(a, b):
            return self._record(tag + " (shape)", False, "refuted", "%r vs %r" % (a.shape, b.shape), time.time() - t0, prop)
        idx = formals(a.axes)
        p = a.el(idx) - broadcast_el(b, a.axes)(idx)
        return self.zero(tag, p, t0, prop, a.axes)

    def eq_any(self, tag, pairs, tol=None):
        """one of the equalities holds (for all inputs)"""
        if self.view:
            return self.eq(tag, *pairs[0])
        t0 = time.time()
        for a, b in pairs:
            if not self._same_shape(a, b):
                return self._record(tag + " (shape)", False, "refuted", "%r vs %r" % (a.shape, b.shape), time.time() - t0)
            idx = formals(a.axes)
            p = a.el(idx) - broadcast_el(b, a.axes)(idx)
            saved = self.c._save()
            try:
                if p.is_zero() or self.c.prove_zero(p)[0]:
                    return self._record(tag, True, "rewriting + z3 case split", "", time.time() - t0)
            except Unsupported:
                self.c._restore(saved)
        return self.eq(tag, *pairs[0])

    def local(self, tag, t):
        """element b of the batch of t depends on element b of the inputs only"""
        t0 = time.time()
        tag = "batch independence: " + tag
        if not isinstance(t, Tensor):
            t = Tensor([], poly.pp(t), tz.float64)
        bs = {}
        idx = formals(t.axes)
        for ax, i in zip(t.axes, idx):
            for s, k in zip(ax.factors, i):
                if s in self.c.batch_sizes:
                    bs[s] = k
        ok, why = locality.local(self.c, t.el(idx), bs)
        if ok:
            return self._record(tag, True, "dependency analysis", "", time.time() - t0)
        p, q = locality.scramble(self.c, t.el(idx), bs)
        status, info = evalterm.refute(self.c, p - q)
        return self._record(tag, False, "refuted" if status == "refuted" else "open", "%s; sizes %s" % (why, info), time.time() - t0)

    def excuse(self, t):
        """a decision that cannot influence a result (by the lemma the contract states with `lemma`)"""
        self.excused.append(t.el(formals(t.axes)))

    def lemma(self, tag, a, b):
        """an equation used by a view"""
        v, self.view = self.view, None
        try:
            return self.eq(tag, a, b)
        finally:
            self.view = v

    def step_local(self, loop, end):
        for n in sorted(end):
            self.local("loop variable %s after one iteration" % n, end[n])

    def _same(self, p, q):
        saved = self.c._save()
        try:
            return (p - q).is_zero() or self.c.prove_zero(p - q)[0]
        except Unsupported:
            return False
        finally:
            self.c._restore(saved)

    def decided(self, tag, ts):
        """every decision on data made so far is one of the Booleans ts or its negation"""
        qs = [t.el(formals(t.axes)) for t in ts]
        for e in self.c.events:
            if e[0] == "data-branch":
                ps = list(locality.polys(e[2]))
                if len(ps) != 1 or not any(self._same(ps[0], q) or self._same(ps[0], 1 - q) for q in qs):
                    return self._record(tag, False, "open", "decision on %s" % [poly.poly_repr(x, 300) for x in ps])
        return self._record(tag, True, "rewriting + z3 case split")

    def branches(self):
        """no decision depends on the data of several elements of the batch"""
        for e in self.c.events:
            if e[0] != "data-branch":
                continue
            for p in locality.polys(e[2]):
                if any(self._same(p, q) or self._same(p, 1 - q) for q in self.excused):
                    continue
                ok, why = locality.local(self.c, p, {})
                if not ok:
                    return self._record("batch independence: control flow", False, "open", why)
        return self._record("batch independence: control flow", True, "event log")

    def zero(self, tag, p, t0=None, prop=None, axes=()):
        if self.view:
            return True
        t0 = t0 or time.time()
        if p.is_zero():
            return self._record(tag, True, "term identity", "", time.time() - t0, prop)
        st = len(self.c.facts)
        saved = self.c._save()
        try:
            ok, res = self.c.prove_zero(p)
        except Unsupported:
            ok, res = False, None
            self.c._restore(saved)
        if ok:
            return self._record(tag, True, "rewriting + z3 case split", "", time.time() - t0, prop)
        if any(self.c.entails(c_ge(-a.size)) is True for a in axes if not a.pack):
            return self._record(tag, True, "empty axis", "", time.time() - t0, prop)
        status, info = evalterm.refute(self.c, p)
        how = {"refuted": "refuted", "numerically-zero": "open", "unknown": "open"}[status]
        return self._record(
            tag, False, how, "residual %s; sizes %s" % (poly.poly_repr(res if res is not None else p, 500), info),
            time.time() - t0, prop)

    def _same_shape(self, a, b):
        if len(a.axes) != len(b.axes):
            return False
        for x, y in zip(a.axes, b.axes):
            if x.pack != y.pack and (x.factors or y.factors):
                return False
            if not same_size(x.size, y.size):
                return False
        return True

    def bounds(self, tag, t, lo, hi):
        """lo <= t <= hi for all contents (sigmoid atoms range over [0, 1])"""
        if self.view == "C09":
            return self.local(tag, t)
        if self.view:
            return True
        t0 = time.time()
        p = poly.unfold(t.el(formals(t.axes)))
        ok, why = locality.within(p, poly.pp(lo), poly.pp(hi))
        return self._record(tag, ok, "interval argument (multilinear corners)" if ok else "open", why, time.time() - t0)

    def shape(self, tag, t, shape, prop=None):
        if self.view == "C09":
            return True
        sh = tuple(shape)
        ok = len(t.axes) == len(sh)
        if ok:
            for a, s in zip(t.axes, sh):
                if isinstance(s, PackDim) != a.pack and (a.factors or not (isinstance(s, I) and False)):
                    if isinstance(s, PackDim) and not a.pack:
                        ok = False
                if not same_size(a.size, ip(s)):
                    ok = False
        return self._record(tag, ok, "z3 sizes" if ok else "refuted", "" if ok else "%r vs %r" % (t.shape, sh), prop=prop)

    def dtype(self, tag, t, dt, prop=None):
        if self.view == "C09":
            return True
        ok = t.dtype is dt
        return self._record(tag, ok, "dtype" if ok else "refuted", "" if ok else "%r vs %r" % (t.dtype, dt), prop=prop)

    def true(self, tag, cond, detail="", prop=None):
        if self.view:
            return True
        if isinstance(cond, B):
            e = self.c.entails(cond.cond)
            ok = e is not None and e != cond.neg
            return self._record(tag, ok, "z3" if ok else "refuted", detail, prop=prop)
        return self._record(tag, bool(cond), "evaluation" if cond else "refuted", detail, prop=prop)

    def unchanged(self, prop=None):
        """frame: none of the caller's tensors was written"""
        if self.view == "C09":
            return True
        ok = True
        for n, t in self.inputs.items():
            if t.body is not t.snapshot:
                ok = False
                self._record("frame: input %s is not modified" % n, False, "refuted", "", prop=prop)
        if ok:
            self._record("frame: inputs are not modified", True, "write log", prop=prop)

    def no_events(self, *kinds, prop=None):
        if self.view:
            return True
        bad = [e for e in self.c.events if e[0] in kinds]
        return self._record("no " + "/".join(kinds), not bad, "event log" if not bad else "refuted", repr(bad[:3]), prop=prop)

    def raises(self, tag, exc, f, prop=None):
        if self.view:
            return True
        try:
            f()
        except exc:
            return self._record(tag, True, "path analysis", prop=prop)
        return self._record(tag, False, "refuted", "no exception", prop=prop)

    def loops(self, handler):
        self.c.loop_handler = handler

    # helpers common to both sessions
    def eye(self, n, m=None, dtype=None):
        return self.T.eye(n, n if m is None else m, dtype=dtype or self.c128)

    def model(self, name="model", mask=False):
        return OpaqueModel(self, name)

    c128 = property(lambda s: tz.complex128 if s.double() else tz.complex64)
    c64 = property(lambda s: tz.complex64)
    f64 = property(lambda s: tz.float64 if s.double() else tz.float32)
    f32 = property(lambda s: tz.float32)


def _c_eigh_2x2(T):
    from . import symtorch as st

    def eigh_2x2(A, B=None, eps=0.0):
        ms = [A] if B is None else [A, B]
        for m in ms:
            for ax in m.axes[-2:]:
                if not same_size(ax.size, ip(2)):
                    raise AssertionError("2x2")
        return (st.matrix_function("geval", ms, "vector", (eps,), True), st.matrix_function("gevec", ms, "matrix", (eps,)))

    return eigh_2x2


def _c_eigh(T):
    from . import symtorch as st

    def eigh(A, B=None, eps=1e-15, use_eigh_cpu=False):
        if B is None:
            return T.linalg.eigh(A)
        ms = [A, B]
        return (st.matrix_function("Geval", ms, "vector", (eps,), True), st.matrix_function("Gevec", ms, "matrix", (eps,)))

    return eigh


CALLEE = {"eigh_2x2": _c_eigh_2x2, "eigh": _c_eigh}


class ModuleLike:
    """the parts of the torch.nn.Module interface that do not compute anything"""

    training = False

    def parameters(self, recurse=True):
        return iter(())

    def named_parameters(self, *a, **k):
        return iter([("p%d" % i, p) for i, p in enumerate(self.parameters())])

    def buffers(self, recurse=True):
        return iter(())

    def modules(self):
        return iter((self,))

    def children(self):
        return iter(())

    def train(self, mode=True):
        self.training = mode
        return self

    def eval(self):
        return self.train(False)

    def requires_grad_(self, flag=True):
        return self

    def forward(self, *a, **k):
        return self(*a, **k)


class OpaqueModel(ModuleLike):
    """an arbitrary source model: an uninterpreted function of its whole argument
    (per batch element), positive, same shape, real"""

    def __init__(self, S, name):
        self.S, self.name = S, name
        self.memo = {}
        self.calls = []
        self.resets = 0
        self.resets_at = []

    def reset(self):
        self.resets += 1

    def parameters(self):
        return iter(())

    def __call__(self, Y):
        # the result is an arbitrary tensor, the same for the same argument
        self.calls.append(Y)
        self.resets_at.append(self.resets)
        key = (tuple(a.size for a in Y.axes), Y.body)
        if key not in self.memo:
            self.memo[key] = "%s(%d)+" % (self.name, len(self.memo))
        return fresh(self.memo[key], Y.shape, tz.to_real(Y.dtype))


def _scalarish(p):
    return all(a.kind == "rv" for a, e in poly.atoms_in(p))


def _no_eq(at, args):
    return poly.ZERO if at.kind == "fn" and at.data[0] == "eq" else None


def _unclamp(at, args):
    if at.kind == "fn" and at.data[0] == "max":
        a, b = args
        if _scalarish(a):
            return b
        if _scalarish(b):
            return a
    return None


# ---------------------------------------------------------------- concrete session
class ConS:
    sym = False

    def __init__(self, con, prop, seed, hints=None, small=False):
        import torch

        self.T = torch
        self.con, self.prop = con, prop
        self.rng = random.Random(seed)
        self.seed = seed
        self.g = torch.Generator().manual_seed(self.rng.randrange(2**31))
        self.hints = hints or {}
        self.log = {}
        self.checked = 0
        self.inputs = {}
        self.view = con.view
        self.gradient = con.view == "C23"
        self.leaves = []
        if self.gradient:
            self.prop = self.rng.choice(con.origin)
        self.c128, self.c64, self.f64, self.f32 = torch.complex128, torch.complex64, torch.float64, torch.float32
        if self.view == "C10" and self.rng.random() < 0.6:
            self.c128, self.f64 = self.c64, self.f32
            self.log["precision"] = "single"

    def mod(self, name):
        import importlib

        m = importlib.import_module("torchiva." + name if name else "torchiva")
        return m

    def fn(self, mod, name):
        m = self.mod(mod)
        if not hasattr(m, name):
            raise Missing("function %s.%s does not exist" % (mod, name))
        return getattr(m, name)

    by_call = False

    def by_contract(self, *names):
        pass

    def call(self, cls, X, **params):
        o = cls(**params)
        return o, o(X)

    def herm2(self, name, batch, dtype=None):
        return self.herm(name, batch, 2, dtype)

    def unclamped(self, t):
        return t

    generic = unclamped

    def size(self, name, lo=1, hi=None):
        if name in self.hints and self.rng.random() < 0.6:
            v = max(lo, min(int(self.hints[name]), 12))
        else:
            v = lo + self.rng.choice([0, 1, 1, 2, 2, 3, 4])
        if hi is not None:
            if hi <= lo:
                raise Reject()
            v = min(v, hi - 1)
        self.log[name] = v
        return v

    def batch(self, name="B"):
        b = self.rng.choice([(), (), (1,), (2,), (3,), (2, 3), (2, 1, 2)])
        self.log[name] = b
        return b

    def choose(self, name, options):
        o = self.rng.choice(list(options))
        self.log[name] = str(o)
        return o

    def assume(self, cond):
        if not cond:
            raise Reject()

    def _layout(self, t):
        """exercise memory layouts: sometimes a non-contiguous view"""
        k = self.rng.random()
        if t.ndim >= 2 and k < 0.25:
            t = t.transpose(-1, -2).contiguous().transpose(-1, -2)
        elif t.ndim >= 1 and k < 0.35 and t.shape[-1] > 0:
            z = t.new_zeros(t.shape[:-1] + (2 * t.shape[-1],))
            z[..., ::2] = t
            t = z[..., ::2]
        return t

    def _own(self, name, t):
        self.inputs[name] = (t, t.detach().clone())
        return t

    def _leaf(self, t):
        """under the gradient view every generated tensor is an independent variable"""
        if self.gradient:
            t.requires_grad_(True)
            self.leaves.append(t)
        return t

    def cplx(self, name, shape, dtype=None, scales=(1.0, 1.0, 1.0, 1.0, 1.0, 0.1, 3.0, 30.0, 0.005)):
        T = self.T
        s = self.rng.choice(scales)
        t = T.randn(tuple(shape), generator=self.g, dtype=T.float64) + 1j * T.randn(tuple(shape), generator=self.g, dtype=T.float64)
        return self._own(name, self._layout(self._leaf((s * t).to(dtype or self.c128))))

    def real(self, name, shape, dtype=None):
        T = self.T
        t = T.randn(tuple(shape), generator=self.g, dtype=T.float64)
        return self._own(name, self._layout(self._leaf(t.to(dtype or self.f64))))

    def pos(self, name, shape, dtype=None):
        T = self.T
        t = 0.1 + T.rand(tuple(shape), generator=self.g, dtype=T.float64)
        return self._own(name, self._layout(self._leaf(t.to(dtype or self.f64))))

    def scalar(self, name, lo=None, hi=None):
        v = self.rng.choice([1e-5, 1e-3, 0.05, 0.5])
        if lo is not None:
            v = lo + (hi - lo) * self.rng.random()
        self.log[name] = v
        return v

    def eps(self, name, lo=None, hi=None):
        v = self.rng.choice([1e-6, 1e-5, 1e-3, 0.02])
        self.log[name] = v
        return v

    def herm(self, name, batch, n, dtype=None):
        G = self.cplx(name, tuple(batch) + (n, n), dtype, (1.0, 1.0, 1.0, 0.1, 3.0))
        return self.T.einsum("...ab,...cb->...ac", G, G.conj())

    def owned(self, t, name):
        t = t.clone()
        return self._own(name, t)

    def fail(self, tag, msg):
        raise Failure("%s :: %s: %s [inputs %s]" % (self.con.name, tag, msg, self.log))

    def note(self, s):
        self.log["note"] = s

    def eq_any(self, tag, pairs, tol=None):
        for a, b in pairs[:-1]:
            try:
                return self.eq(tag, a, b, tol=tol)
            except (Reject, Failure):
                pass
        return self.eq(tag, *pairs[-1], tol=tol)

    def grad_of(self, y, c):
        """gradient of Re <c, y> with respect to every leaf"""
        T = self.T
        for x in self.leaves:
            x.grad = None
        if not y.requires_grad:
            return [T.zeros_like(x) for x in self.leaves]
        v = (y * c.conj()).sum()
        (v.real if v.is_complex() else v).backward(retain_graph=True)
        return [T.zeros_like(x) if x.grad is None else x.grad.clone() for x in self.leaves]

    def eq_gradient(self, tag, a, b, tol=None):
        """the gradient of the result is the gradient of the specified function"""
        T = self.T
        if not T.is_tensor(a) or not T.is_tensor(b) or a.numel() == 0 or not self.leaves or a.shape != b.shape:
            return True
        if not (a.is_complex() or a.is_floating_point()):
            return True
        c = T.randn(a.shape, generator=self.g, dtype=T.float64).to(b.dtype if b.is_complex() else a.dtype)
        if c.is_complex():
            c = c + 1j * T.randn(a.shape, generator=self.g, dtype=T.float64)
        if tol is not None and tol >= 1e-3:
            return True  # an approximate identity says nothing about derivatives
        if not b.requires_grad:
            # against a constant: the gradient exists and is finite
            self.checked += 1
            ga = self.grad_of(a, c)
            if not all(bool(T.isfinite(T.view_as_real(g) if g.is_complex() else g).all()) for g in ga):
                self.fail(tag, "gradient: not finite")
            return True
        try:
            gb = self.grad_of(b, c)
        except RuntimeError:
            raise Reject()
        if not all(bool(T.isfinite(T.view_as_real(g) if g.is_complex() else g).all()) for g in gb):
            raise Reject()
        ref = max([float(g.abs().max()) for g in gb if g.numel()] or [0.0])
        if ref > 1e8:
            raise Reject()
        self.checked += 1
        try:
            ga = self.grad_of(a, c)
        except RuntimeError as e:
            self.fail(tag, "no gradient: %s" % str(e)[:200])
        err = max([float((x - y).abs().max()) for x, y in zip(ga, gb) if x.numel()] or [0.0])
        if not err <= 1e-3 * (ref + 1e-3):
            self.fail(tag, "gradient: relative error %.3g (max |expected| %.3g)" % (err / (ref + 1e-30), ref))
        return True

    def eq(self, tag, a, b, tol=None, prop=None):
        if self.gradient:
            return self.eq_gradient(tag, a, b, tol)
        if self.view:
            return True
        T = self.T
        self.checked += 1
        if a is None:
            self.fail(tag, "no value")
        if not T.is_tensor(a):
            a = T.as_tensor(a)
        if not T.is_tensor(b):
            b = T.as_tensor(b)
        a, b = a.detach().resolve_conj(), b.detach().resolve_conj()
        if tuple(a.shape) != tuple(b.shape):
            self.fail(tag, "shape %s != %s" % (tuple(a.shape), tuple(b.shape)))
        if a.numel() == 0:
            return True
        if not bool(T.isfinite(T.view_as_real(a) if a.is_complex() else a.double()).all()):
            if not bool(T.isfinite(T.view_as_real(b) if b.is_complex() else b.double()).all()):
                raise Reject()
            self.fail(tag, "non-finite value")
        if not bool(T.isfinite(T.view_as_real(b) if b.is_complex() else b.double()).all()):
            raise Reject()
        dt = T.complex128 if (a.is_complex() or b.is_complex()) else T.float64
        a2, b2 = a.detach().to(dt), b.detach().to(dt)
        single = a.dtype in (T.float32, T.complex64) or b.dtype in (T.float32, T.complex64)
        tol = tol if tol is not None else (2e-3 if single else 1e-6)
        err = float((a2 - b2).abs().max())
        ref = float(b2.abs().max())
        if err > tol * (ref + 1e-3):
            self.fail(tag, "relative error %.3g (max |expected| %.3g)" % (err / (ref + 1e-30), ref))
        return True

    def bounds(self, tag, t, lo, hi):
        if self.view:
            return True
        self.checked += 1
        a, b = float(t.min()), float(t.max())
        if not (a >= lo - 1e-6 * max(1.0, abs(lo)) * 0.2 and b <= hi + 2e-7):
            self.fail(tag, "values in [%.9g, %.9g], expected within [%.9g, %.9g]" % (a, b, lo, hi))
        return True

    def local(self, tag, t):
        return True

    def shape(self, tag, t, shape, prop=None):
        if self.gradient:
            return True
        self.checked += 1
        if tuple(t.shape) != tuple(shape):
            self.fail(tag, "shape %s, expected %s" % (tuple(t.shape), tuple(shape)))
        return True

    def dtype(self, tag, t, dt, prop=None):
        if self.gradient:
            return True
        self.checked += 1
        if t.dtype != dt:
            self.fail(tag, "dtype %s, expected %s" % (t.dtype, dt))
        return True

    def true(self, tag, cond, detail="", prop=None):
        if self.view:
            return True
        self.checked += 1
        if not bool(cond):
            self.fail(tag, detail or "condition is false")
        return True

    def unchanged(self, prop=None):
        if self.gradient:
            return
        self.checked += 1
        for n, (t, c) in self.inputs.items():
            if not self.T.equal(t, c) and not (t != t).any():
                self.fail("frame", "input %s was modified" % n)

    def no_events(self, *k, prop=None):
        return True

    def raises(self, tag, exc, f, prop=None):
        if self.view:
            return True
        self.checked += 1
        try:
            f()
        except exc:
            return True
        self.fail(tag, "no exception")

    def loops(self, h):
        pass

    def eye(self, n, m=None, dtype=None):
        return self.T.eye(n, n if m is None else m, dtype=dtype or self.c128)

    def model(self, name="model", mask=False):
        return ConcreteModel(self)


class ConcreteModel(ModuleLike):
    """a deterministic positive function of its argument"""

    def __init__(self, S):
        self.T = S.T
        self.calls = []
        self.resets = 0
        self.k = S.rng.choice([0, 1, 2])
        self.gain = S.rng.choice([1.0, 1.0, 1.0, 1e-3, 1e3])
        self.theta = []
        if S.gradient:  # a trainable parameter
            self.gain = S._leaf(self.T.tensor(self.gain, dtype=self.T.float64))
            self.theta = [self.gain]

    def reset(self):
        self.resets += 1

    def parameters(self):
        return iter(self.theta)

    def __call__(self, Y):
        self.calls.append(Y)
        p = Y.real**2 + Y.imag**2
        if self.k == 0:
            r = 1.0 / (0.3 + self.T.sqrt(p.mean(dim=-2, keepdim=True))).expand(p.shape).clone()
        elif self.k == 1:
            r = 1.0 / (0.5 + p)
        else:
            r = (0.2 + p.mean(dim=-1, keepdim=True)) / (0.4 + p)
        return self.gain * r


# ---------------------------------------------------------------- running
_PKG = [None]


def package():
    if _PKG[0] is None:
        _PKG[0] = loader.Package()
    return _PKG[0]


class SymResult:
    def __init__(self):
        self.obligations = []
        self.unsupported = None
        self.error = None
        self.stats = {}
        self.hints = []
        self.rank = None
        self.hashes = {}
        self.seconds = 0.0
        self.events = []


def run_symbolic(con, prop, seconds=60, max_paths=2500):
    """explore every path of the contract; returns a SymResult"""
    ranks = ["pack", 0, 1, 2]
    first = None
    merged = None
    for rank in ranks:
        r = _run_symbolic(con, prop, rank, seconds, max_paths)
        if rank == "pack":
            if r.unsupported is None and r.error is None:
                return r
            first = r
            if "variadic" not in (r.unsupported or ""):
                return r
            continue
        if r.unsupported or r.error:
            return first
        if merged is None:
            merged = r
        else:
            merged.obligations += r.obligations
            for k, v in r.stats.items():
                merged.stats[k] = merged.stats.get(k, 0) + v
            merged.seconds += r.seconds
    merged.rank = "batch ranks 0, 1, 2 (bounded rank: %s)" % first.unsupported
    return merged


def _run_symbolic(con, prop, rank, seconds, max_paths):
    c = Ctx()
    res = SymResult()
    res.rank = "any batch rank" if rank == "pack" else rank
    t0 = time.time()
    pkg = package()

    def run():
        c.loop_handler = None
        c.eigh_oracle = None
        poly.UNITARY.clear()
        pkg.unstub()
        S = SymS(c, pkg, con, prop, rank)
        c.gradient = con.view == "C23"
        c.step_hook = S.step_local if con.view == "C09" else None
        n0 = len(c.obligations)
        try:
            con.fn(S)
            if S.view == "C09":
                S.branches()
            elif S.view == "C10":
                S.unchanged()
                if S.double():
                    bad = [e for e in c.events if e[0] == "narrowing"]
                    S._record("no intermediate loss of precision", not bad, "refuted" if bad else "event log", repr(bad[:3]))
        except EndPath:
            raise
        except (TorchError, TorchIndexError) as e:
            tb = traceback.extract_tb(e.__traceback__)
            src = [f for f in tb if "/torchiva/" in f.filename]
            where = src[-1] if src else tb[-1]
            if not src:
                raise
            S._record("operations are well defined (%s:%d)" % (os.path.basename(where.filename), where.lineno), False,
                      "refuted", "%s" % e)
        for o in c.obligations[n0:]:
            if not o.ok:
                res.hints.append(c.model())
                break
        if len(c.obligations) > n0 and not c.feasible():
            raise Infeasible()

    try:
        c.explore(run, max_paths=max_paths, deadline=time.process_time() + seconds)
    except Unsupported as e:
        res.unsupported = str(e) or "unsupported"
        tb = traceback.extract_tb(e.__traceback__)
        src = [f for f in tb if "/torchiva/" in f.filename]
        if src:
            res.unsupported += " (at %s:%d)" % (os.path.basename(src[-1].filename), src[-1].lineno)
        if os.environ.get("VT_DEBUG"):
            traceback.print_exc()
    except PathLimit as e:
        res.unsupported = "path exploration: %s" % e
    except RecursionError:
        res.unsupported = "term too deep"
    except Exception as e:  # a construct the facade executes differently from torch
        res.error = "%s: %s" % (type(e).__name__, e)
        tb = traceback.extract_tb(e.__traceback__)
        res.error += " (at %s:%d)" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        if os.environ.get("VT_DEBUG"):
            traceback.print_exc()
    res.obligations = c.obligations
    res.stats = dict(c.stats)
    res.hashes = dict(pkg.hashes)
    res.seconds = time.time() - t0
    return res


def signature_changed(e, tb):
    """the call of an internal function by the contract itself does not bind any more"""
    return (isinstance(e, TypeError) and "/contracts/" in tb[-1].filename
            and re.search(r"argument|positional|keyword|takes", str(e)) is not None)


class ConResult:
    def __init__(self):
        self.trials = 0
        self.checked = 0
        self.failure = None
        self.seed = None
        self.error = None
        self.skipped = None
        self.seconds = 0.0


def run_concrete(con, prop, base_seed, trials, seconds, hints=(), seeds=None):
    sys.dont_write_bytecode = True
    if loader.REPO not in sys.path:
        sys.path.insert(0, loader.REPO)
    import warnings

    warnings.filterwarnings("ignore")
    import torch

    torch.set_num_threads(1)
    r = ConResult()
    t0 = time.time()
    k = 0
    done = 0
    hints = list(hints)
    while done < trials and k < trials * 6:
        if time.time() - t0 > seconds:
            break
        seed = int(hashlib.sha256(("%s/%s/%d" % (con.name, base_seed, k)).encode()).hexdigest()[:12], 16)
        if seeds is not None:
            if k >= len(seeds):
                break
            seed = seeds[k]
        k += 1
        h = hints[(k // 2) % len(hints)] if hints and k % 2 else {}
        S = ConS(con, prop, seed, h)
        S.seconds = seconds
        try:
            con.fn(S)
            if con.view == "C10":
                S.unchanged()
            r.checked += S.checked
            done += 1
        except Reject:
            continue
        except Missing as e:
            r.skipped = str(e)
            break
        except Failure as e:
            r.failure, r.seed = str(e), seed
            r.hint = h
            break
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any("/torchiva/" in f.filename for f in tb):
                r.failure = "%s :: unexpected %s: %s [inputs %s] at %s" % (
                    con.name, type(e).__name__, e, S.log,
                    ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb if "/torchiva/" in f.filename][-1])
                r.seed = seed
                r.hint = h
            elif signature_changed(e, tb):
                r.skipped = "signature changed: %s" % e
            else:
                r.error = "".join(traceback.format_exception(e))[-1500:]
            break
    r.trials = done
    r.seconds = time.time() - t0
    return r
