"""Numeric evaluation of terms: used to tell a refuted obligation (the two sides differ
at some concrete sizes and values) from one the prover merely failed to discharge."""
import cmath
import hashlib
import itertools
import math
import random

import numpy as np

from . import ints, poly
from .poly import RANGES, Unsupported


class Skip(Exception):
    pass


def _h(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(d, "little") / 2.0**64


class Eval:
    def __init__(self, seed=0, budget=400000, scaled=False):
        self.seed = seed
        self.scaled = scaled  # inputs of various magnitudes, small scalar parameters
        self.ienv = {}
        self.budget = budget
        self.memo = {}

    # -------------------------------------------------------- integers
    def iat(self, a):
        if a in self.ienv:
            return self.ienv[a]
        if a.kind == "div":
            return self.ip(a.data[0]) // self.ip(a.data[1])
        if a.kind == "mod":
            return self.ip(a.data[0]) % self.ip(a.data[1])
        if a.kind == "fn":
            if a.data[0] == "term":
                return int(round(self.p(a.data[1]).real))
            raise Skip("integer function")
        if a.kind == "v":
            raise Skip("unassigned %r" % (a,))
        raise Skip(a.kind)

    def ip(self, q):
        r = 0
        for m, c in q.terms:
            t = c
            for a, e in m:
                t *= self.iat(ints._ATOMS[a]) ** e
            r += t
        return r

    def cond(self, c):
        v = self.ip(c[1])
        return v >= 0 if c[0] == "ge" else v == 0

    # -------------------------------------------------------- scalars
    def p(self, q):
        self.budget -= 1
        if self.budget < 0:
            raise Skip("budget")
        vs = [v for v in q.vars if v.kind == "v"]
        key = (q.id, tuple(sorted((v.id, self.ienv.get(v)) for v in vs)))
        if key in self.memo:
            return self.memo[key]
        r = 0j
        for m, c in q.terms:
            t = complex(float(c[0]), float(c[1]))
            # indicators first: they guard out-of-range elements
            for a, e in m:
                at = poly._ATL[a]
                if at.kind == "ind" and not self.cond(at.data[0]):
                    t = 0j
                    break
            if t == 0:
                continue
            for a, e in m:
                at = poly._ATL[a]
                if at.kind == "ind":
                    continue
                v = self.at(at)
                if e < 0 and abs(v) < 1e-12:
                    raise Skip("division by zero")
                t *= v**e
            r += t
        if len(self.memo) < 300000:
            self.memo[key] = r
        return r

    def at(self, a):
        k, d = a.kind, a.data
        if k == "iv":
            return complex(self.iat(d[0]))
        if k == "rv":
            h = _h("rv", d[0], self.seed)
            return complex(10.0 ** (-1 - 4 * h) if self.scaled else 0.05 + h)
        if k == "el":
            idx = tuple(self.ip(i) for i in d[2])
            if d[0] in poly.DEFS:
                fv, body = poly.DEFS[d[0]]
                key = (d[0], idx)
                if key not in self.memo:
                    old = {v: self.ienv.get(v) for v in fv}
                    self.ienv.update(zip(fv, idx))
                    try:
                        self.memo[key] = self.p(body)
                    finally:
                        for v, o in old.items():
                            if o is None:
                                self.ienv.pop(v, None)
                            else:
                                self.ienv[v] = o
                v = self.memo[key]
                return v.conjugate() if d[1] == 1 else v
            if d[0] in poly.UNITARY:
                n = self.ip(poly.UNITARY[d[0]])
                key = ("unitary", d[0], idx[:-2], n)
                if key not in self.memo:
                    g = [[complex(_h(str(d[0]), idx[:-2], i, j, self.seed) - 0.5, _h(str(d[0]), idx[:-2], i, j, 7, self.seed) - 0.5)
                          for j in range(n)] for i in range(n)]
                    self.memo[key] = np.linalg.qr(np.array(g))[0]
                v = complex(self.memo[key][idx[-2:]])
                return v.conjugate() if d[1] == 1 else v
            x = 2 * _h(str(d[0]), idx, 0, self.seed) - 1
            y = 2 * _h(str(d[0]), idx, 1, self.seed) - 1
            if self.scaled:
                g = (1.0, 30.0, 0.02, 2e4, 2e-5)[int(5 * _h(str(d[0]), "scale", self.seed))]
                x, y = g * x, g * y
            if str(d[0]).endswith("+"):
                return complex((0.2 if not self.scaled else 0.0) + abs(x))
            return complex(x) if d[1] == 2 else complex(x, y if d[1] == 0 else -y)
        if k == "ind":
            return 1 + 0j if self.cond(d[0]) else 0j
        if k == "sum":
            uppers, mono = d
            h = a.h
            bv = [poly.bvar(h, j) for j in range(len(uppers))]
            body = poly.Poly({mono: poly.C1})
            return self._loop(bv, list(uppers), 0, lambda: self.p(body), 0j, lambda s, v: s + v)
        if k == "rec":
            v = self.p(d[0])
            if abs(v) < 1e-12:
                raise Skip("division by zero")
            return 1 / v
        if k == "fn":
            xs = [self.p(x) for x in d[1]]
            n = d[0]
            if n == "sqrt":
                return cmath.sqrt(xs[0]) if abs(xs[0].imag) > 1e-9 else complex(math.sqrt(max(xs[0].real, 0)))
            if n == "max":
                return complex(max(x.real for x in xs))
            if n == "lt":
                return 1 + 0j if xs[0].real < xs[1].real else 0j
            if n == "eq":
                return 1 + 0j if abs(xs[0]) < 1e-12 else 0j
            if n == "exp":
                return cmath.exp(xs[0])
            if n in ("log", "log10"):
                if xs[0].real <= 0:
                    raise Skip("log")
                return complex(math.log(xs[0].real) / (math.log(10) if n == "log10" else 1))
            if n == "pow":
                return xs[0] ** xs[1]
            if n == "sigmoid":
                return 1 / (1 + cmath.exp(-xs[0]))
            s = sum(x * (0.3 + _h(n, i)) for i, x in enumerate(xs))
            return s + cmath.sin(s.real)
        if k == "lam":
            return self.lam(a)
        raise Skip(k)

    def _loop(self, vs, ups, j, f, s, comb):
        if j == len(vs):
            return comb(s, f())
        old = self.ienv.get(vs[j])
        n = self.ip(ups[j])
        for x in range(n):
            self.ienv[vs[j]] = x
            s = self._loop(vs, ups, j + 1, f, s, comb)
        if old is None:
            self.ienv.pop(vs[j], None)
        else:
            self.ienv[vs[j]] = old
        return s

    def table(self, uppers, body):
        h = body.h + 1
        bv = [poly.bvar(h, j) for j in range(len(uppers))]
        dims = []
        out = []
        self._loop(bv, list(uppers), 0, lambda: self.p(body), None, lambda s, v: out.append(v))
        dims = [self.ip(u) for u in uppers]
        return np.array(out, dtype=complex).reshape(dims)

    def lam(self, a):
        name, consts, lams, idx, cj = a.data
        ii = tuple(self.ip(i) for i in idx)
        tabs = [self.table(u, b) for u, b in lams]
        if name == "inv":
            t = tabs[0]
            n = t.ndim // 2
            r, c = t.shape[:n], t.shape[n:]
            m = t.reshape(int(np.prod(r)), int(np.prod(c)))
            if m.shape[0] != m.shape[1]:
                raise Skip("not square")
            if m.size and not np.linalg.cond(m) < 1e7:  # the two sides could differ by rounding alone
                raise Skip("badly conditioned")
            v = np.linalg.inv(m).reshape(c + r)[ii]
            return complex(np.conj(v) if cj == 1 else v)
        if name in ("logabsdet", "sgndet"):
            t = tabs[0]
            k = t.ndim // 2
            m = t.reshape(int(np.prod(t.shape[:k])), int(np.prod(t.shape[k:])))
            if m.shape[0] != m.shape[1] or (m.size and not np.linalg.cond(m) < 1e7):
                raise Skip("badly conditioned")
            v = np.linalg.slogdet(m)[0 if name == "sgndet" else 1]
            return complex(np.conj(v) if cj == 1 else v)
        if name == "amax":
            return complex(tabs[0].real.max()) if tabs[0].size else 0j
        if name.startswith("argsort"):
            t = tabs[0].real
            o = np.argsort(-t if name.endswith("desc") else t, kind="stable")
            return complex(o[ii[0]])
        s = 0j
        w = 0.0
        for k, t in enumerate(tabs):
            for ix in itertools.product(*[range(n) for n in t.shape]):
                v = t[ix]
                s += v * complex(_h(name, k, ix, ii, 0) - 0.5, _h(name, k, ix, ii, 1) - 0.5)
                w += (v * v.conjugate()).real * _h(name, k, ix, ii, 2)
        cs = 0.0
        for c in consts:
            if isinstance(c, poly.Poly):
                cs += self.p(c).real
            elif isinstance(c, ints.IntPoly):
                cs += self.ip(c)
            else:
                cs += _h(str(c))
        v = s + math.sin(w + cs + 3 * _h(name, ii))
        if cj == 2:
            return complex(v.real + v.imag)
        return v.conjugate() if cj == 1 else v


def sample_env(ev, facts, vars_, rng, spread=3):
    """assign the free integer variables inside their ranges, respecting the facts"""
    todo = list(vars_)
    order = []
    seen = set()

    # bounds of single variables that the facts impose (n >= 6, not n - 3 >= 0, ...)
    low, high = {}, {}
    for c, val in facts:
        if c[0] == "ge" and len(c[1].vars) == 1 and all(sum(e for _, e in m) <= 1 for m, _ in c[1].terms):
            (v,) = c[1].vars
            a = sum(k for m, k in c[1].terms if m)
            b = sum(k for m, k in c[1].terms if not m)
            if a in (1, -1):
                # a v + b >= 0, or a v + b <= -1
                lower = (a == 1) == bool(val)
                t = -a * b if val else -a * (b + 1)
                if lower:
                    low[v] = max(low.get(v, t), t)
                else:
                    high[v] = min(high.get(v, t), t)

    def visit(v):
        if v in seen:
            return
        seen.add(v)
        if v.kind != "v":
            return
        r = RANGES.get(v)
        if r is not None:
            for b in r:
                if b is not None:
                    for w in b.vars:
                        visit(w)
        order.append(v)

    for v in todo:
        visit(v)
    for c, _ in facts:
        for v in c[1].vars:
            visit(v)
    for v in order:
        lo, hi = RANGES.get(v, (None, None))
        lo = 0 if lo is None else ev.ip(lo)
        lo = max(lo, low.get(v, lo))
        if hi is None:
            x = lo + rng.choice([0, 1, 1, 2, 2, spread])
            x = min(x, max(high.get(v, x), lo))
        else:
            h = min(ev.ip(hi), high.get(v, ev.ip(hi)) + 1)
            if h <= lo:
                return False
            x = rng.randrange(lo, h)
        ev.ienv[v] = x
    return all(ev.cond(c) == val for c, val in facts)


def _decisions(ctx):
    """decisions on data made on this path, with their outcomes"""
    out = []
    for e in getattr(ctx, "events", ()):
        if e[0] == "data-branch":
            key = ("databool", e[1], e[2])
            if key in ctx.counters:
                out.append((e[1], e[2], bool(ctx.counters[key])))
    return out


def _decided(ev, kind, data):
    """value of a decision for this sample; None: not evaluated"""
    try:
        if kind == "real-cmp":
            v = ev.p(data[1]).real
            return {"lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[data[0]]
        if not isinstance(data, poly.Poly):
            return None
        v = abs(ev.p(data))
        return v < 1e-12 if kind == "real-eq" else v > 1e-12
    except (Skip, OverflowError, ZeroDivisionError, IndexError, ValueError):
        return None


def _has_eq(p, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(p, poly.Poly):
        return any(_has_eq(x, seen) for x in p) if isinstance(p, (tuple, list)) else False
    if p.id in seen:
        return False
    seen.add(p.id)
    for m, _ in p.terms:
        for a, e in m:
            at = poly._ATL[a]
            if at.kind == "fn" and at.data[0] == "eq":
                return True
            if at.kind == "fn" and _has_eq(at.data[1], seen) or at.kind in ("lam", "rec") and _has_eq(at.data, seen):
                return True
            if at.kind == "sum" and _has_eq(poly.Poly({at.data[1]: poly.C1}), seen):
                return True
    return False


def refute(ctx, p, tries=60, want=30, seconds=6.0):
    """search sizes/values where p != 0; returns (status, info)
    status: 'refuted', 'numerically-zero', 'unknown'

    On a path with decisions on data, samples that take these decisions come first; the others count only
    when no sample takes them (a threshold out of reach of the samples)."""
    ds = _decisions(ctx)
    if not ds:
        return _refute(ctx, p, tries, want, seconds, [])
    hit = [0]
    r = _refute(ctx, p, tries, want, seconds, ds, hit)
    if hit[0] or any(k == "tensor" and _has_eq(d) for k, d, _ in ds):
        return r
    return _refute(ctx, p, tries, want, seconds, [])


def _refute(ctx, p, tries, want, seconds, ds, hit=None):
    import time

    t0 = time.process_time()
    good = 0
    facts = list(ctx.facts)
    if len(p.terms) > 4000:
        return "unknown", "term too large"
    free = sorted((v for v in p.vars if v.kind == "v"), key=lambda v: v.id)
    mags = []
    for k in range(tries * 20):
        if time.process_time() - t0 > seconds:
            break
        rng = random.Random(k)
        ev = Eval(seed=k, scaled=k % 2 == 1)
        try:
            if not sample_env(ev, facts, free, rng, 2 + (k % 3)):
                continue
            if ds:
                if any(_decided(ev, kd, d) not in (o, None) for kd, d, o in ds):
                    continue
                hit[0] += 1
            v = ev.p(p)
            scale = 0.0
            for m, c in p.terms[:50]:
                q = poly.Poly({m: c})
                scale = max(scale, abs(ev.p(q)))
        except (Skip, OverflowError, ZeroDivisionError, IndexError):
            continue
        tol = 1e-5 if ev.scaled else 1e-7
        if abs(v) > tol * (scale + 1e-30) and abs(v) > 1e-11:
            return "refuted", {str(a): b for a, b in ev.ienv.items() if not str(a).startswith("('b'")}
        good += 1
        if good >= want:
            return "numerically-zero", None
    return ("numerically-zero", None) if good >= 2 else ("unknown", None)
