"""python -m vt.conform: differential check of the assumed contracts of the torch
operations (vt/tensor.py, vt/symtorch.py, vt/ops_extra.py) against the installed torch.

Each case is a function of (T, tensors).  It is executed once on the facade with symbolic
sizes (all paths) and a variadic batch, the resulting terms are evaluated at sampled sizes
and contents, and compared with the same function on real torch; the facade must also
report an error exactly where torch does.  Bounded: it tests assumptions, it proves nothing."""
import itertools
import os
import random
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import numpy as np
import torch

from . import ints, evalterm, tensor as tz, symtorch
from .ctx import Ctx, sint, PackDim, EndPath, Infeasible
from .poly import Unsupported
from .tensor import Tensor, TorchError, TorchIndexError, formals

CASES = []


def case(name, spec, fn, mixed=False):
    """spec: one string per input, 'c:n,m' complex, 'r:..' real, '+:..' positive, 'b:..' boolean;
    '*' is the variadic batch, digits are literal sizes"""
    CASES.append((name, spec, fn))


def C(name, spec, fn):
    case(name, spec.split(" "), fn)


mods = None
A = "c:*,n,m"

# views and indexing
for _i, _f in enumerate([
    lambda T, x: x[..., 0], lambda T, x: x[..., :, 0], lambda T, x: x[..., None, :, :], lambda T, x: x[..., 1:],
    lambda T, x: x[..., :-1, :], lambda T, x: x[..., -1], lambda T, x: x[..., [0]], lambda T, x: x[..., 0, None, 1:],
    lambda T, x: x.transpose(-1, -2), lambda T, x: x.mT, lambda T, x: x.unsqueeze(-1), lambda T, x: x.unsqueeze(-2),
    lambda T, x: x[..., :, None], lambda T, x: x.flatten(-2, -1), lambda T, x: x.flatten(-2).reshape(x.shape[:-2] + (x.shape[-2], x.shape[-1])),
    lambda T, x: x.narrow(-1, 0, 1), lambda T, x: x.unfold(-1, x.shape[-1] - 1, 1), lambda T, x: x.unfold(-2, 2, 1), lambda T, x: T.nn.functional.normalize(x, p=1.0, dim=-1), lambda T, x: x.select(-1, 0), lambda T, x: x.swapaxes(-1, -2), lambda T, x: x.swapdims(-1, -2),
    lambda T, x: x.adjoint(), lambda T, x: x.mH, lambda T, x: x.flip(-1), lambda T, x: T.flip(x, dims=(-1, -2)), lambda T, x: T.roll(x, 1, dims=-1),
    lambda T, x: x.roll(-1, -2), lambda T, x: T.moveaxis(x, -1, -2), lambda T, x: T.movedim(x, -2, -1), lambda T, x: T.diagonal(x @ x.mH, dim1=-2, dim2=-1),
    lambda T, x: T.stack([x, 2 * x], dim=-1), lambda T, x: T.cat([x, x + 1], dim=-2), lambda T, x: T.cat([x[..., :1], x], dim=-1),
    lambda T, x: x.expand(x.shape), lambda T, x: T.broadcast_to(x[..., :1], x.shape), lambda T, x: x.squeeze(-1),
    lambda T, x: T.triu(x), lambda T, x: x.tril(-1), lambda T, x: T.diag_embed(x), lambda T, x: T.view_as_real(x), lambda T, x: x.clone(),
    lambda T, x: x.conj(), lambda T, x: x.real, lambda T, x: x.imag, lambda T, x: x.abs(), lambda T, x: abs(x), lambda T, x: -x, lambda T, x: x.pow(2),
    lambda T, x: x ** 2, lambda T, x: x ** 3, lambda T, x: x.square(), lambda T, x: x.reciprocal(), lambda T, x: 1.0 / x, lambda T, x: x / 2, lambda T, x: x - 1,
    lambda T, x: 2 - x, lambda T, x: x * 1j, lambda T, x: x.sum(-1), lambda T, x: x.sum(dim=(-2, -1)), lambda T, x: x.mean(dim=-2, keepdim=True),
    lambda T, x: x.norm(dim=-1), lambda T, x: T.linalg.norm(x, dim=-2), lambda T, x: T.norm(x, dim=(-1, -2)), lambda T, x: T.linalg.norm(x, dim=(-2, -1), keepdim=True),
    lambda T, x: x.abs().max(dim=-1)[0], lambda T, x: x.abs().min(-2).values, lambda T, x: x.abs().amax(dim=(-1, -2)), lambda T, x: x.real.amin(-1),
    lambda T, x: T.zeros_like(x), lambda T, x: T.full_like(x, 3), lambda T, x: x.new_ones(x.shape[-2:]), lambda T, x: T.eye(x.shape[-1]),
    lambda T, x: x.real.clamp(min=0.1), lambda T, x: T.clamp(x.abs(), max=0.5), lambda T, x: x.real.clamp(min=-0.1, max=0.2), lambda T, x: T.exp(x.real),
    lambda T, x: T.sigmoid(x.imag), lambda T, x: T.log(x.abs()), lambda T, x: T.log10(x.abs()), lambda T, x: T.sqrt(x.abs()), lambda T, x: x.abs().rsqrt(),
    lambda T, x: x.sgn(), lambda T, x: x.abs() ** 0.3, lambda T, x: x.abs().pow(1.5), lambda T, x: x.real > 0, lambda T, x: x.real <= x.imag,
    lambda T, x: T.where(x.real > 0, x, x * 0), lambda T, x: x.masked_fill(x.real > 0, 0.0), lambda T, x: x.real.maximum(x.imag), lambda T, x: T.minimum(x.real, x.imag),
    lambda T, x: T.max(x.real, x.imag), lambda T, x: T.relu(x.real), lambda T, x: T.cumsum(x, dim=-1), lambda T, x: x.cumsum(-2), lambda T, x: x.var(-1, unbiased=False),
    lambda T, x: x.std(dim=-1, unbiased=False), lambda T, x: T.complex(x.imag, x.real), lambda T, x: T.view_as_complex(T.view_as_real(x)),
    lambda T, x: T.argsort(x.abs(), dim=-1), lambda T, x: x.abs().argsort(dim=-2, descending=True), lambda T, x: x.abs().sort(-1)[0], lambda T, x: T.sort(x.abs(), dim=-1, descending=True).values,
    lambda T, x: x.abs().topk(1, -1)[0], lambda T, x: T.gather(x, -1, T.argsort(x.abs(), dim=-1)), lambda T, x: T.take_along_dim(x, T.argsort(x.abs(), dim=-2)[..., :1], dim=-2),
    lambda T, x: T.nn.functional.pad(x, (1, 0)), lambda T, x: T.nn.functional.pad(x, (0, 2, 1, 0)), lambda T, x: T.nn.functional.pad(x, (-1, 1)),
    lambda T, x: T.nn.functional.normalize(x.real, dim=-1), lambda T, x: T.hstack([x[..., 0, 0], x[..., 0, 0]]) if False else x, lambda T, x: T.tile(x[..., 0], (2,)) ,
    lambda T, x: x.unflatten(-1, (1, x.shape[-1])), lambda T, x: T.einsum("...nm->...n", x), lambda T, x: T.einsum("...nm,...km->...nk", x, x.conj()),
    lambda T, x: T.lerp(x, 2 * x, 0.25), lambda T, x: T.addcmul(x, x, x, value=2), lambda T, x: T.subtract(x, x.conj(), alpha=2), lambda T, x: x.add(x, alpha=3),
    lambda T, x: x @ x.mH, lambda T, x: T.matmul(x.mT, x), lambda T, x: x @ x[..., 0, :, None], lambda T, x: T.linalg.vecdot(x, 2 * x, dim=-1),
    lambda T, x: T.reshape(x, x.shape[:-2] + (-1,)), lambda T, x: x.view(*x.shape[:-2], 1, x.shape[-2], x.shape[-1]),
]):
    C("unary%d" % _i, A, _f)


def _ip(f):
    def g(T, x, *a):
        x = x.clone()
        f(T, x, *a)
        return x
    return g


for _i, _f in enumerate([
    lambda T, x: x.add_(1), lambda T, x: x.mul_(2j), lambda T, x: x.div_(3), lambda T, x: x.sub_(x.conj().clone()), lambda T, x: x[..., 0].fill_(1), lambda T, x: x[..., :, 1:].zero_(),
    lambda T, x: x.__setitem__((Ellipsis, 0, slice(None)), 5), lambda T, x: x.__setitem__((Ellipsis, slice(1, None)), x[..., :1] * 2), lambda T, x: x.real.mul_(2), lambda T, x: x.imag.fill_(0),
    lambda T, x: x.transpose(-1, -2)[..., 0, :].copy_(x[..., -1].clone()), lambda T, x: x.masked_fill_(x.real > 0, 2), lambda T, x: x.square_(), lambda T, x: (x @ x.mH).diagonal(dim1=-2, dim2=-1).add_(1),
    lambda T, x: x.__setitem__((Ellipsis, slice(None, 1)), x[..., -1:]), lambda T, x: x.__setitem__(Ellipsis, 0), lambda T, x: x.flatten(-2)[..., 0].mul_(7), lambda T, x: x.unsqueeze(-1)[..., 0, 0].fill_(2),
    lambda T, x: T.view_as_real(x)[..., 1].mul_(-1), lambda T, x: x.conj().mul_(1j), lambda T, x: x.clip_(min=0) if False else x.neg_(), lambda T, x: x.addcmul_(x, x), lambda T, x: x.__setitem__((Ellipsis, 0), x.real[..., 0]),
]):
    C("inplace%d" % _i, A, _ip(_f))

B2 = "c:*,n,m c:*,k,l"
for _i, _f in enumerate([
    lambda T, x, y: x + y, lambda T, x, y: x * y.conj(), lambda T, x, y: x / y, lambda T, x, y: x - y, lambda T, x, y: x @ y, lambda T, x, y: T.cat([x, y], dim=-1), lambda T, x, y: T.cat([x, y], dim=-2),
    lambda T, x, y: T.stack([x, y], dim=-3), lambda T, x, y: T.einsum("...nm,...mk->...nk", x, y), lambda T, x, y: T.einsum("...nm,...nk->...mk", x, y), lambda T, x, y: T.einsum("...nm,...nm->...", x, y),
    lambda T, x, y: T.einsum("...ab,...cd->...abcd", x, y), lambda T, x, y: x[..., :, None, :] * y[..., None, :, :], lambda T, x, y: T.where(x.real > y.real, x, y), lambda T, x, y: T.broadcast_tensors(x, y)[0],
    lambda T, x, y: x.expand_as(y), lambda T, x, y: T.maximum(x.abs(), y.abs()), lambda T, x, y: x.real < y.imag,
]):
    C("binary%d" % _i, B2, _f)
C("inplace-binary", B2, _ip(lambda T, x, y: x.add_(y)))
C("inplace-set", B2, _ip(lambda T, x, y: x.__setitem__((Ellipsis, 0, slice(None)), y[..., 0])))
def _dg(T, x):
    x = x.clone()
    x.diagonal(dim1=-2, dim2=-1).add_(1)
    x.diagonal(dim1=-1, dim2=-2).mul_(2j)
    return x


C("diagonal in place", "c:*,n,n", _dg)
C("slogdet", "c:*,n,n", lambda T, x: T.linalg.slogdet(x)[1])
C("slogdet sign", "c:*,n,n", lambda T, x: T.linalg.slogdet(x)[0])
C("inv", "c:*,n,n", lambda T, x: T.linalg.inv(x))
C("solve", "c:*,n,n c:*,n,k", lambda T, x, y: T.linalg.solve(x, y))
C("solve vector", "c:n,n c:n", lambda T, x, y: T.linalg.solve(x, y))
C("solve mismatch", "c:n,n c:m,k", lambda T, x, y: T.linalg.solve(x, y))
C("real+complex", "r:*,n c:*,n", lambda T, x, y: x + y)
C("real scalar complex", "r:*,n", lambda T, x: x * 1j)
for _i, _f in enumerate([
    lambda T, x: x.permute(2, 0, 1), lambda T, x: T.permute(x, (1, 2, 0)), lambda T, x: T.unbind(x[:2] if False else x[..., :1], -1)[0], lambda T, x: x.reshape(-1, x.shape[-1]), lambda T, x: x.reshape(x.shape[0], -1),
    lambda T, x: x.split([1, x.shape[1] - 1], 1)[1], lambda T, x: T.tensordot(x, x, dims=([0, 1], [0, 1])), lambda T, x: T.bmm(x, x.transpose(1, 2)), lambda T, x: T.baddbmm(x, x, x.transpose(1, 2)) if False else x,
    lambda T, x: x.index_select(1, T.arange(1)), lambda T, x: x.repeat(1, 2, 1), lambda T, x: T.vstack([x, x]), lambda T, x: T.hstack([x, x]), lambda T, x: x.T if False else x.mT, lambda T, x: x[0], lambda T, x: x[:, 0], lambda T, x: x[:, None],
    lambda T, x: x[..., 0][1:], lambda T, x: x[-1, ..., None], lambda T, x: T.moveaxis(x, 0, -1), lambda T, x: T.moveaxis(x, (0, 1), (-1, -2)), lambda T, x: x.transpose(0, 2).reshape(x.shape[2], -1), lambda T, x: x.sum(), lambda T, x: x.mean(),
    lambda T, x: x.abs().max(), lambda T, x: x.trace() if False else T.trace(x[0]), lambda T, x: T.outer(x[0, 0], x[0, :, 0]), lambda T, x: T.mv(x[0], x[0, 0]), lambda T, x: T.vdot(x[0, 0], x[0, 0]), lambda T, x: T.dot(x[0, 0], x[0, 0]),
    lambda T, x: x.ravel(), lambda T, x: T.as_strided(x, (x.shape[0], x.shape[1], x.shape[2]), x.stride()), lambda T, x: T.stack(list(x[:, :1].unbind(1))), lambda T, x: x.flatten(), lambda T, x: x.flatten(0, 1),
    lambda T, x: x.permute(1, 0, 2).reshape(x.shape[1], -1)[:, 0], lambda T, x: x.flatten(0, 1).transpose(0, 1).unflatten(1, (x.shape[0], x.shape[1])), lambda T, x: x[:, [0]], lambda T, x: x.squeeze(0), lambda T, x: x[:, :, :1].squeeze(2),
    lambda T, x: T.arange(x.shape[0]) + 0.5, lambda T, x: T.tensor([1.0, 2.0]), lambda T, x: T.eye(x.shape[0], x.shape[1]), lambda T, x: T.zeros(x.shape), lambda T, x: T.ones(x.shape[1], dtype=x.dtype), lambda T, x: T.full((x.shape[0], 2), 0.5),
]):
    C("plain%d" % _i, "c:n,m,k", _f)


def build_input(c, s, k, sizes, batch):
    kind, dims = s.split(":")
    shape, names = [], []
    for d in dims.split(","):
        names.append(d)
        if d == "*":
            shape.append(batch)
        elif d.isdigit():
            shape.append(int(d))
        else:
            shape.append(sizes[d])
    nm = "x%d" % k + ("+" if kind == "+" else "")
    dt = tz.complex128 if kind == "c" else tz.float64
    return tz.fresh(nm, tuple(shape), dt), names


def value(ev, t):
    """numpy array of a facade tensor at the sampled sizes"""
    dims = [[ev.ip(f) for f in a.factors] for a in t.axes]
    body = t.body
    fs = [x for f in formals(t.axes) for x in f]
    vs = [list(f.vars)[0] for f in fs]
    flat = [n for d in dims for n in d]
    out = np.zeros(flat, dtype=complex)
    for ix in itertools.product(*[range(n) for n in flat]):
        for v, i in zip(vs, ix):
            ev.ienv[v] = i
        ev.memo = {}
        out[ix] = ev.p(body)
    for v in vs:
        ev.ienv.pop(v, None)
    return out.reshape([int(np.prod(d)) if d else 1 for d in dims])


def run_case(name, spec, fn, T, seed=0, verbose=False):
    c = Ctx()
    bad, n, uns = [], [0], []

    def path():
        names = sorted({d for s in spec for d in s.split(":")[1].split(",") if d.isalpha()})
        sizes = {d: sint(d, 1, None) for d in names}
        b = sint("B", 1)
        c.batch_sizes.append(b.poly)
        ins = [build_input(c, s, k, sizes, PackDim(b.poly)) for k, s in enumerate(spec)]
        err = res = None
        try:
            res = fn(T, *[t for t, _ in ins])
        except (TorchError, TorchIndexError) as e:
            err = e
        if not c.feasible():
            raise Infeasible()
        if any(e[0] == "imag-dropped" for e in c.events):
            return
        done = 0
        for k in range(120):
            if done >= 5:
                break
            ev = evalterm.Eval(seed=k + seed)
            rng = random.Random("%s %d %d" % (name, k, seed))
            free = [list(s.poly.vars)[0] for s in sizes.values()] + [list(b.poly.vars)[0]]
            try:
                if not evalterm.sample_env(ev, c.facts, free, rng, 3):
                    continue
                vals = []
                bn = ev.ip(b.poly)
                for t, nm in ins:
                    v = value(ev, Tensor(t.axes, t.snapshot if t.is_input else t.body, t.dtype))
                    if t.dtype is tz.float64:
                        v = v.real
                    vals.append(v)
                want = value(ev, res) if res is not None else None
            except evalterm.Skip:
                continue
            bsh = [(bn,)] + [(p, bn // p) for p in range(1, bn + 1) if bn % p == 0] + ([()] if bn == 1 else [])
            bs = bsh[rng.randrange(len(bsh))]
            args = []
            for v, (t, nm) in zip(vals, ins):
                if nm[0] == "*":
                    v = v.reshape(tuple(bs) + v.shape[1:])
                args.append(torch.from_numpy(v.copy()))
            try:
                got = fn(torch, *args)
            except (RuntimeError, IndexError) as e:
                done += 1
                n[0] += err is not None
                if err is None:
                    bad.append("torch raises %s, facade does not (sizes %s)" % (str(e).split("\n")[0], ev.ienv))
                continue
            n[0] += 1
            done += 1
            if err is not None:
                bad.append("facade raises %s, torch does not; shapes %s" % (err, [tuple(a.shape) for a in args]))
                continue
            g = got.resolve_conj().numpy()
            if res.has_pack():
                g = g.reshape((bn,) + g.shape[len(bs):])
            if g.shape != want.shape:
                bad.append("shape %s, torch %s" % (want.shape, g.shape))
            elif not np.allclose(g, want, rtol=1e-7, atol=1e-9):
                bad.append("values differ by %g at sizes %s" % (np.abs(g - want).max(), {str(a): v for a, v in ev.ienv.items()}))
            dt = {"complex128": tz.complex128, "float64": tz.float64, "bool": tz.bool_, "int64": tz.int64, "float32": tz.float32, "complex64": tz.complex64}[str(got.dtype)[6:]]
            if dt is not res.dtype:
                bad.append("dtype %s, torch %s" % (res.dtype, got.dtype))

    try:
        c.explore(path, max_paths=200)
    except Unsupported as e:
        uns.append(str(e))
    return bad, n[0], uns


def main():
    from . import loader

    pkg = loader.Package()
    T = pkg.facades["torch"]
    only = sys.argv[1] if len(sys.argv) > 1 else ""
    tot = fail = uns = 0
    for name, spec, fn in CASES:
        if only and only != name:
            continue
        bad, n, u = run_case(name, spec, fn, T)
        tot += n
        if u:
            uns += 1
            print("unsupported  %s: %s" % (name, u[0]))
        elif n == 0:
            print("not compared %s" % name)
        if bad:
            fail += 1
            import inspect
            print("DIFFERS %s: %s" % (name, bad[0]))
    print("conform: %d cases, %d comparisons with torch %s, %d differ, %d unsupported" % (len(CASES), tot, torch.__version__, fail, uns))
    return 1 if fail else 0


if __name__ == "__main__":
    sys.exit(main())
