"""The torch facade: assumed contracts of the torch operations used by torchiva.

Each function states, as an exact term over element indices, what the torch operation
of the same name computes in exact arithmetic (the trusted base of the verification).
"""
import functools
import math
import types
from contextlib import contextmanager

from . import ints, poly
from .ints import ip, c_ge, c_eq, IntPoly
from .poly import Unsupported, Poly, pp, ZERO, ONE, msum, ind, fresh_var, RANGES
from .ctx import cur, I, R, B, PackDim, mki
from .tensor import *  # noqa
from .tensor import (
    Tensor, Axis, Shape, TorchError, TorchIndexError, formals, broadcast_axes, broadcast_el,
    unify_axis, conv_index, binary, full, fresh as fresh_tensor, axis_of, same_size, promote,
    to_real, to_complex, DType, bool_, is_scalar, amax as amax_term, lin, MinMax, Stride, _shp,
    has_data,
)


# ---------------------------------------------------------------- creation
def eye(n, m=None, dtype=None, device=None, **k):
    m = n if m is None else m
    axes = [axis_of(n), axis_of(m)]
    f = formals(axes)
    i = f[0][0] if f[0] else ints.ZERO
    j = f[1][0] if f[1] else ints.ZERO
    return Tensor(axes, ind(c_eq(i - j)), dtype or float32)


def zeros(*shape, dtype=None, device=None, **k):
    return full(_shp(shape), ZERO, dtype or float32)


def ones(*shape, dtype=None, device=None, **k):
    return full(_shp(shape), ONE, dtype or float32)


def full_(shape, v, dtype=None, **k):
    return full(tuple(shape), pp(v), dtype or float32)


def zeros_like(t, dtype=None, **k):
    return full(t.shape, ZERO, dtype or t.dtype)


def ones_like(t, dtype=None, **k):
    return full(t.shape, ONE, dtype or t.dtype)


def empty_like(t, dtype=None, **k):
    return t.new_empty(t.shape, dtype=dtype)


def empty(*shape, dtype=None, **k):
    n = cur().count("empty")
    return fresh_tensor("uninit%d" % n, _shp(shape), dtype or float32)


def arange(a, b=None, step=1, dtype=None, **k):
    if b is None:
        a, b = 0, a
    if step != 1:
        raise Unsupported("arange step")
    ax = [axis_of(b - a)]
    f = formals(ax)
    i = f[0][0] if f[0] else ints.ZERO
    return Tensor(ax, pp(ip(a) + i), dtype or int64)


def tensor(x, dtype=None, **k):
    if is_scalar(x):
        d = dtype or (float32 if isinstance(x, (float, R)) else complex64 if isinstance(x, complex) else int64)
        return Tensor([], pp(x), d)
    if isinstance(x, Tensor):
        return x.clone()
    if isinstance(x, (list, tuple)) and all(is_scalar(v) for v in x):
        d = dtype or (float32 if any(isinstance(v, (float, R)) for v in x) else int64)
        return stack([Tensor([], pp(v), d) for v in x], dim=0)
    raise Unsupported("torch.tensor of nested data")


as_tensor = tensor


# ---------------------------------------------------------------- pointwise
def _m(name):
    def f(x, *a, **k):
        k.pop("out", None)
        if not isinstance(x, Tensor):
            raise Unsupported("torch.%s of a non-tensor" % name)
        return getattr(x, name)(*a, **k)

    f.__name__ = name
    return f


for _n in (
    "sqrt square abs conj reciprocal exp log log10 sigmoid sgn rsqrt clamp clamp_min sum mean norm max min "
    "amax transpose permute moveaxis movedim swapaxes reshape flatten unsqueeze squeeze diagonal clone detach pow neg add sub "
    "mul div broadcast_to is_complex is_floating_point numel"
).split():
    globals()[_n] = _m(_n)

absolute = globals()["abs"]
clip = globals()["clamp"]
multiply = globals()["mul"]
true_divide = divide = globals()["div"]
subtract = globals()["sub"]
_abs = globals()["abs"]


def max(x, *a, **k):  # noqa
    if a and isinstance(a[0], Tensor):
        return binary(x, a[0], poly.fmax)
    return x.max(*a, **k)


def maximum(a, b):
    return binary(a, b, poly.fmax)


def minimum(a, b):
    return binary(a, b, poly.fmin)


def real(x):
    return x.real


def imag(x):
    return x.imag


def relu(x, inplace=False):
    return binary(x, 0, poly.fmax)


def conj_physical(x):
    return x.conj().clone()


def resolve_conj(x):
    return x


def where(c, a, b):
    if is_scalar(a):
        a = Tensor([], pp(a), (b.dtype if isinstance(b, Tensor) else float32))
    if is_scalar(b):
        b = Tensor([], pp(b), a.dtype)
    axes = broadcast_axes([c.axes, a.axes, b.axes])
    idx = formals(axes)
    cc = broadcast_el(c, axes)(idx)
    return Tensor(
        axes,
        cc * broadcast_el(a, axes)(idx) + (ONE - cc) * broadcast_el(b, axes)(idx),
        promote(a.dtype, b.dtype),
    )


def broadcast_tensors(*ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    axes = broadcast_axes([t.axes for t in ts])

    def mk(t):
        def rec(u):
            return broadcast_el(u, axes)(formals(axes))

        return t._view(axes, rec)

    return tuple(mk(t) for t in ts)


def broadcast_shapes(*ss):
    axes = broadcast_axes([[axis_of(s) for s in sh] for sh in ss])
    return Shape(a.dim() for a in axes)


# ---------------------------------------------------------------- joining
def cat(ts, dim=0, axis=None):
    dim = dim if axis is None else axis
    if type(ts).__name__ == "SymList":
        d = ts.value.ax(dim)
        return ts.stacked(d).flatten(d, d + 1)
    ts = list(ts)
    d = ts[0].ax(dim)
    n = len(ts[0].axes)
    dt = ts[0].dtype
    for t in ts[1:]:
        if len(t.axes) != n:
            raise TorchError("cat: different ranks")
        dt = promote(dt, t.dtype)
    axes = []
    for i in range(n):
        if i == d:
            tot = ints.ZERO
            for t in ts:
                tot = tot + t.axes[i].size
            if any(len(t.axes[i].factors) > 1 for t in ts):
                raise Unsupported("cat along a flattened axis")
            axes.append(Axis((tot,)))
        else:
            a = ts[0].axes[i]
            for t in ts[1:]:
                b = t.axes[i]
                if not same_size(a.size, b.size):
                    if not bool(a.dim() == b.dim()):
                        raise TorchError("cat: sizes must match")
            axes.append(a)
    idx = formals(axes)
    k = idx[d][0] if idx[d] else ints.ZERO
    off = ints.ZERO
    body = ZERO
    for t in ts:
        s = t.axes[d].size
        sub = []
        for i in range(n):
            if i == d:
                sub.append((k - off,) if t.axes[i].factors else ())
            else:
                sub.append(conv_index(idx[i], t.axes[i], axes[i]))
        c = ind(c_ge(k - off)) * ind(c_ge(off + s - 1 - k))
        body = body + c * t.el(sub)
        off = off + s
    return Tensor(axes, body, dt)


concat = concatenate = cat


def stack(ts, dim=0):
    if type(ts).__name__ == "SymList":
        return ts.stacked(dim)
    ts = list(ts)
    return cat([t.unsqueeze(dim) for t in ts], dim=dim)


def flip(x, dims):
    dims = dims if isinstance(dims, (tuple, list)) else (dims,)
    ds = [x.ax(d) for d in dims]
    idx = formals(x.axes)
    out = []
    for i, f in enumerate(idx):
        if i in ds and f:
            if len(f) > 1:
                raise Unsupported("flip of a flattened axis")
            out.append((x.axes[i].size - 1 - f[0],))
        else:
            out.append(f)
    return Tensor(x.axes, x.el(out), x.dtype)


def diag_embed(x, offset=0, dim1=-2, dim2=-1):
    if offset != 0 or (dim1, dim2) != (-2, -1):
        raise Unsupported("diag_embed arguments")
    axes = list(x.axes) + [x.axes[-1]]
    idx = formals(axes)
    a, b = idx[-2], idx[-1]
    c = ONE
    for i, j in zip(a, b):
        c = c * ind(c_eq(i - j))
    return Tensor(axes, c * x.el(idx[:-2] + [a]), x.dtype)


def diag(x):
    if len(x.axes) == 1 and not x.has_pack():
        return diag_embed(x)
    raise Unsupported("diag")


def view_as_real(x):
    if x.dtype.cat != 3:
        raise TorchError("view_as_real is only supported for complex tensors")
    axes = list(x.axes) + [Axis((ip(2),))]

    def rec(t):
        idx = formals(axes)
        b = t.el(idx[:-1])
        k = idx[-1][0]
        return ind(c_eq(k)) * poly.re(b) + ind(c_eq(k - 1)) * poly.im(b)

    def wb(base, body):
        new = Tensor(axes, body, to_real(base.dtype))
        f = formals(base.axes)
        j = Poly({(): (0, 1)})
        base._write(new.el(f + [(ints.ZERO,)]) + j * new.el(f + [(ints.ONE,)]))

    return x._view(axes, rec, wb, dtype=to_real(x.dtype))


def view_as_complex(x):
    if x.dtype.cat != 2 or not (x.axes and same_size(x.axes[-1].size, ip(2))):
        raise TorchError("view_as_complex: last dimension must be 2 and real")
    axes = x.axes[:-1]

    def rec(t):
        f = formals(axes)
        j = Poly({(): (0, 1)})
        return t.el(f + [(ints.ZERO,)]) + j * t.el(f + [(ints.ONE,)])

    return x._view(axes, rec, None, dtype=to_complex(x.dtype))


def complex(re, im):  # noqa
    j = Poly({(): (0, 1)})
    r = binary(re, im, lambda a, b: a + j * b)
    return Tensor(r.axes, r.body, to_complex(r.dtype))


# ---------------------------------------------------------------- contraction
def einsum(spec, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = tuple(ops[0])
    if len(ops) > 1:
        ops = tuple(named(t, NAME_OPERAND) for t in ops)
    spec = spec.replace(" ", "")
    if "->" not in spec:
        raise Unsupported("implicit einsum output")
    lhs, out = spec.split("->")
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise TorchError("einsum: operands")
    letters = {}
    batches = []
    parsed = []
    dt = ops[0].dtype
    for s, t in zip(ins, ops):
        dt = promote(dt, t.dtype)
    for t in ops:
        widening(t, dt)
    for s, t in zip(ins, ops):
        if "..." in s:
            pre, post = s.split("...")
            if pre:
                raise Unsupported("einsum letters before the ellipsis")
            nb = len(t.axes) - len(post)
            if nb < (1 if t.has_pack() else 0):
                if t.has_pack():
                    raise Unsupported("einsum reaches the variadic batch")
                raise TorchError("einsum: not enough dimensions")
            batches.append(t.axes[:nb])
            ls = post
        else:
            nb = 0
            ls = s
            if len(t.axes) != len(ls):
                raise (Unsupported if t.has_pack() else TorchError)("einsum: number of subscripts")
            batches.append([])
        for l, a in zip(ls, t.axes[nb:]):
            letters[l] = a if l not in letters else unify_axis(letters[l], a)
        parsed.append((nb, ls))
    baxes = broadcast_axes(batches) if any(batches) else []
    if "..." in out:
        pre, post = out.split("...")
        if pre:
            raise Unsupported("einsum output letters before the ellipsis")
    else:
        post = out
        if baxes:
            raise TorchError("einsum: ellipsis dropped in the output") if not any(a.factors for a in baxes) else Unsupported("einsum sums over the batch")
    axes = list(baxes) + [letters[l] for l in post]
    idx = formals(axes)
    val = {}
    for l, f in zip(post, idx[len(baxes):]):
        val[l] = f
    vs = []
    for l in letters:
        if l not in val:
            t = tuple(fresh_var(s) for s in letters[l].factors)
            vs += list(zip(t, letters[l].factors))
            val[l] = tuple(ip(v) for v in t)
    prod = ONE
    for (nb, ls), t, bx in zip(parsed, ops, batches):
        sub = []
        off = len(baxes) - nb
        for i in range(nb):
            sub.append(conv_index(idx[off + i], t.axes[i], baxes[off + i]))
        for l, a in zip(ls, t.axes[nb:]):
            sub.append(conv_index(val[l], a, letters[l]))
        prod = prod * t.el(sub)
    return named(Tensor(axes, msum(vs, prod), dt), NAME_RESULT)


def matmul(a, b):
    na, nb = len(a.axes), len(b.axes)
    la, lb = na - a.has_pack(), nb - b.has_pack()
    if la >= 2 and lb >= 2:
        _mm_check(a.axes[-1], b.axes[-2])
        return einsum("...ij,...jk->...ik", a, b)
    if a.has_pack() or b.has_pack():
        if la >= 2 and lb == 1 and not b.has_pack():
            return einsum("...ij,j->...i", a, b)
        raise Unsupported("matmul of packed vectors")
    if na == 1 and nb == 1:
        return einsum("i,i->", a, b)
    if nb == 1:
        _mm_check(a.axes[-1], b.axes[-1])
        return einsum("...ij,j->...i", a, b)
    if na == 1:
        return einsum("i,...ij->...j", a, b)
    raise TorchError("matmul")


def _mm_check(p, q):
    if not same_size(p.size, q.size):
        if not bool(p.dim() == q.dim()):
            raise TorchError("matmul: inner sizes differ")


def bmm(a, b):
    if a.has_pack() or b.has_pack() or len(a.axes) != 3 or len(b.axes) != 3:
        raise TorchError("bmm expects 3D tensors") if not (a.has_pack() or b.has_pack()) else Unsupported("bmm with variadic batch")
    return matmul(a, b)


# ---------------------------------------------------------------- strided views
def as_strided(x, size, stride, storage_offset=None):
    if storage_offset not in (None, 0):
        raise Unsupported("as_strided offset")
    size, stride = tuple(size), tuple(stride)
    if any(not isinstance(s, Stride) or s.t is not x for s in stride):
        raise Unsupported("as_strided with foreign strides")
    axes = [axis_of(s) for s in size]
    use = [s.i for s in stride]
    # every access must stay inside the base tensor
    for i, a in enumerate(x.axes):
        hits = [k for k, u in enumerate(use) if u == i]
        if not hits:
            continue
        if len(hits) == 1 and same_size(axes[hits[0]].size, a.size):
            continue
        last = ints.ZERO
        for k in hits:
            last = last + axes[k].size - 1
        if a.pack or len(a.factors) > 1:
            raise Unsupported("as_strided over a flattened axis")
        if cur().entails(c_ge(a.size - 1 - last)) is not True:
            cur().events.append(("out-of-bounds-view", repr(last), repr(a.size)))

    def rec(t):
        idx = formals(axes)
        out = []
        for i, a in enumerate(t.axes):
            hits = [k for k, u in enumerate(use) if u == i]
            if not hits:
                out.append(tuple(ints.ZERO for _ in a.factors))
            elif len(hits) == 1:
                out.append(conv_index(idx[hits[0]], a, axes[hits[0]]) if a.factors else ())
            else:
                s = ints.ZERO
                for k in hits:
                    s = s + (idx[k][0] if idx[k] else ints.ZERO)
                out.append((s,) if a.factors else ())
        return t.el(out)

    return x._view(axes, rec)


def f_pad(x, pad, mode="constant", value=None):
    if mode != "constant":
        raise Unsupported("pad mode")
    v = ZERO if value is None else pp(value)
    pad = tuple(pad)
    axes = list(x.axes)
    n = len(axes)
    maps = {}
    for k in range(len(pad) // 2):
        lo, hi = pad[2 * k], pad[2 * k + 1]
        i = n - 1 - k
        if axes[i].pack or len(axes[i].factors) > 1:
            raise Unsupported("pad of a flattened axis")
        size = axes[i].size
        new = size + ip(lo) + ip(hi)
        if cur().entails(c_ge(new)) is False:
            raise TorchError("pad: negative size")
        maps[i] = (ip(lo), size)
        axes[i] = Axis((new,))
    idx = formals(axes)
    sub, c = [], ONE
    for i in range(n):
        if i in maps:
            lo, size = maps[i]
            j = (idx[i][0] if idx[i] else ints.ZERO) - lo
            c = c * ind(c_ge(j)) * ind(c_ge(size - 1 - j))
            sub.append((j,) if x.axes[i].factors else ())
        else:
            sub.append(idx[i])
    return Tensor(axes, c * x.el(sub) + (ONE - c) * v, x.dtype)


# ---------------------------------------------------------------- linear algebra
def _inv_el(A, batch_idx, rows, cols):
    """element (rows, cols) of the inverse of A (axes[-2:]) at the batch index"""
    ra, ca = A.axes[-2], A.axes[-1]
    if not same_size(ra.size, ca.size):
        if not bool(ra.dim() == ca.dim()):
            raise TorchError("A must be batches of square matrices")
    r = [fresh_var(s) for s in ra.factors]
    c = [fresh_var(s) for s in ca.factors]
    body = A.el(list(batch_idx) + [tuple(ip(v) for v in r), tuple(ip(v) for v in c)])
    if not r:
        return poly.recip(body)
    return poly.lam("inv", (), [(r + c, list(ra.factors) + list(ca.factors), body)], tuple(rows) + tuple(cols))


def linalg_inv(A):
    idx = formals(A.axes)
    # rows of the inverse follow the columns of A
    return Tensor(A.axes, _inv_el(A, idx[:-2], idx[-2], idx[-1]), A.dtype)


def linalg_solve(A, b, left=True):
    if not left:
        raise Unsupported("right solve")
    vec = False
    if len(b.axes) == 1 and not b.has_pack():
        vec = True
    elif len(b.axes) == len(A.axes) - 1 and b.has_pack() == A.has_pack():
        vec = all(same_size(x.size, y.size) for x, y in zip(b.axes, A.axes[:-1]))
    bb = b.unsqueeze(-1) if vec else b
    if not same_size(A.axes[-2].size, A.axes[-1].size):
        if not bool(A.axes[-2].dim() == A.axes[-1].dim()):
            raise TorchError("solve: A must be square")
    if not same_size(bb.axes[-2].size, A.axes[-1].size):
        if not bool(bb.axes[-2].dim() == A.axes[-1].dim()):
            raise TorchError("solve: incompatible sizes")
    if A.dtype is not b.dtype:
        raise TorchError("linalg.solve: expected A and B to have the same dtype, got %s and %s" % (A.dtype.name, b.dtype.name))
    baxes = broadcast_axes([A.axes[:-2], bb.axes[:-2]]) if (A.axes[:-2] or bb.axes[:-2]) else []
    axes = list(baxes) + [A.axes[-1], bb.axes[-1]]
    idx = formals(axes)
    nb = len(baxes)

    def bidx(t):
        n = len(t.axes) - 2
        return [conv_index(idx[nb - n + i], t.axes[i], baxes[nb - n + i]) for i in range(n)]

    k = tuple(fresh_var(s) for s in A.axes[-2].factors)
    ki = tuple(ip(v) for v in k)
    inv = _inv_el(A, bidx(A), idx[nb], ki)
    be = bb.el(bidx(bb) + [conv_index(ki, bb.axes[-2], A.axes[-2]), idx[nb + 1]])
    r = named(Tensor(axes, msum(list(zip(k, A.axes[-2].factors)), inv * be), promote(A.dtype, b.dtype)), NAME_OPERAND)
    return r[..., 0] if vec else r


def linalg_norm(x, ord=None, dim=None, keepdim=False):
    if isinstance(dim, (tuple, list)) and len(dim) == 2 and ord not in (None, "fro"):
        raise Unsupported("matrix norm")
    return x.norm(ord, dim, keepdim)


class EighResult(tuple):
    def __new__(cls, a, b):
        t = tuple.__new__(cls, (a, b))
        t.eigenvalues, t.eigenvectors = a, b
        return t


def linalg_eigh(A, UPLO="L"):
    if not same_size(A.axes[-2].size, A.axes[-1].size):
        raise TorchError("eigh: A must be square")
    if cur().eigh_oracle:
        return EighResult(*cur().eigh_oracle(A))
    idx = formals(A.axes)
    r = [fresh_var(s) for s in A.axes[-2].factors]
    c = [fresh_var(s) for s in A.axes[-1].factors]
    body = A.el(idx[:-2] + [tuple(ip(v) for v in r), tuple(ip(v) for v in c)])
    us = list(A.axes[-2].factors) + list(A.axes[-1].factors)
    cj = 0 if A.dtype.cat == 3 else 2
    vec = poly.lam("evec", (), [(r + c, us, body)], tuple(idx[-2]) + tuple(idx[-1]), cj)
    vaxes = A.axes[:-1]
    vidx = formals(vaxes)
    body2 = A.el(vidx[:-1] + [tuple(ip(v) for v in r), tuple(ip(v) for v in c)])
    val = poly.lam("eval", (), [(r + c, us, body2)], tuple(vidx[-1]), 2)
    return EighResult(Tensor(vaxes, val, to_real(A.dtype)), Tensor(A.axes, vec, A.dtype))


def matrix_function(name, mats, out, consts=(), real=False, order=None):
    """an uninterpreted function of whole matrices (per batch element): the result of a
    callee known only through its contract.  out: 'matrix' or 'vector' (axes of mats[0])"""
    baxes = broadcast_axes([m.axes[:-2] for m in mats]) if any(m.axes[:-2] for m in mats) else []
    tail = {"matrix": list(mats[0].axes[-2:]), "vector": [mats[0].axes[-1]], "scalar": []}[out]
    axes = list(baxes) + tail
    idx = formals(axes)
    nb = len(baxes)
    opened = []
    for m in mats:
        n = len(m.axes) - 2
        bi = [conv_index(idx[nb - n + i], m.axes[i], baxes[nb - n + i]) for i in range(n)]
        r = [fresh_var(s) for s in m.axes[-2].factors]
        c = [fresh_var(s) for s in m.axes[-1].factors]
        body = m.el(bi + [tuple(ip(v) for v in r), tuple(ip(v) for v in c)])
        opened.append((r + c, list(m.axes[-2].factors) + list(m.axes[-1].factors), body))
    cs = tuple(pp(c) if not isinstance(c, str) else c for c in consts)
    t = poly.lam(name, cs, opened, tuple(j for g in idx[nb:] for j in g), 2 if real else 0)
    dt = mats[0].dtype
    for m in mats[1:]:
        dt = promote(dt, m.dtype)
    for m in mats:
        widening(m, dt)
    return Tensor(axes, t, to_real(dt) if real else dt)


def linalg_slogdet(A):
    """sign and logarithm of the modulus of the determinant, functions of the whole matrix"""
    if not same_size(A.axes[-2].size, A.axes[-1].size):
        raise TorchError("slogdet: A must be square")
    return matrix_function("sgndet", [A], "scalar", real=not A.is_complex()), matrix_function("logabsdet", [A], "scalar", real=True)


def linalg_det(A):
    raise Unsupported("det")


# ---------------------------------------------------------------- sorting / gather
def argsort(x, dim=-1, descending=False, axis=None, stable=False):
    dim = dim if axis is None else axis
    d = x.ax(dim)
    if len(x.axes[d].factors) > 1:
        raise Unsupported("argsort of a flattened axis")
    idx = formals(x.axes)
    if not x.axes[d].factors:
        return Tensor(x.axes, ZERO, int64)
    v = fresh_var(x.axes[d].size)
    sub = list(idx)
    sub[d] = (ip(v),)
    body = x.el(sub)
    t = poly.lam("argsort" + ("-desc" if descending else ""), (), [([v], [x.axes[d].size], body)], idx[d], 2)
    return Tensor(x.axes, t, int64)


def to_index(p, size):
    """a scalar term used as an index"""
    if all(a.kind == "iv" for a, e in poly.atoms_in(p)) and p.real:
        d = {}
        for m, c in p.terms:
            if c[0] != int(c[0]):
                raise Unsupported("fractional index")
            mono = tuple(sorted((poly._ATL[a].data[0].id, e) for a, e in m))
            d[mono] = int(c[0])
        return IntPoly(d)
    return ip(ints.iatom("fn", ("term", p)))


def gather(x, dim, index):
    d = x.ax(dim)
    if len(x.axes) != len(index.axes):
        raise TorchError("gather: ranks")
    idx = formals(index.axes)
    j = to_index(index.body, x.axes[d].size)
    sub = []
    for i, f in enumerate(idx):
        if i == d:
            sub.append((j,) if x.axes[i].factors else ())
        else:
            a, b = index.axes[i], x.axes[i]
            if not same_size(a.size, b.size):
                # index may be smaller than the input along other dimensions
                if cur().entails(c_ge(b.size - a.size)) is not True:
                    if not bool(mki(b.size) >= mki(a.size)):
                        raise TorchError("gather: index larger than input")
                sub.append(f if len(b.factors) == 1 and len(f) == 1 else (() if not b.factors else ((ints.ZERO,) if not f else f)))
            else:
                sub.append(conv_index(f, b, a))
    return Tensor(index.axes, x.el(sub), x.dtype)


# ---------------------------------------------------------------- fft
class FFTVec:
    """marker stored on a tensor: the DFT of `sig` zero padded / cut to n"""


def fft_rfft(x, n=None, dim=-1, norm=None):
    d = x.ax(dim)
    if d != len(x.axes) - 1:
        raise Unsupported("rfft dim")
    if x.dtype.cat == 3:
        raise TorchError("rfft expects a real input tensor")
    n = x.axes[d].dim() if n is None else n
    m = ints.idiv(ip(n), ip(2)) + 1
    axes = x.axes[:-1] + [Axis((m,))]
    # the spectrum is an opaque function of the signal; the padded signal is kept
    k = len(cur().counters)
    idx = formals(axes)
    v = fresh_var(x.axes[d].size)
    body = x.el(idx[:-1] + [(ip(v),) if x.axes[d].factors else ()])
    t = poly.lam("rfft", (ip(n),), [([v], [x.axes[d].size], body)], idx[-1], 0)
    r = Tensor(axes, t, to_complex(x.dtype))
    return r


def fft_irfft(X, n=None, dim=-1, norm=None):
    """inverse of products of two rfft spectra of the same length (circular convolution)"""
    d = X.ax(dim)
    if d != len(X.axes) - 1 or n is None:
        raise Unsupported("irfft arguments")
    axes = X.axes[:-1] + [axis_of(n)]
    idx = formals(axes)
    k = fresh_var(X.axes[d].size)
    body = X.el(idx[:-1] + [(ip(k),)])
    tot = ZERO
    out = idx[-1][0] if idx[-1] else ints.ZERO
    for mono, coef in body.terms:
        sp, rest = [], []
        for a, e in mono:
            at = poly._ATL[a]
            if at.kind == "lam" and at.data[0] == "rfft" and at.data[3] == (ip(k),) and e > 0:
                sp += [at] * e
            else:
                rest.append((a, e))
                if k in at.vars:
                    raise Unsupported("irfft of a general spectrum")
        if len(sp) not in (1, 2):
            raise Unsupported("irfft of a general spectrum")
        if any(not same_size(s.data[1][0], ip(n)) for s in sp):
            raise Unsupported("irfft length differs from the rfft length")

        def sig(at, i):
            (u,), b = at.data[2][0]
            # signal value at index i in [0, n): zero beyond its length (cut at n)
            vs, us, body_ = poly.open_lam((u,), b)
            return poly.subst(body_, {vs[0]: i}) * ind(c_ge(i)) * ind(c_ge(u - 1 - i))

        if len(sp) == 1:
            val = sig(sp[0], out)
        else:
            (u0,), b0 = sp[0].data[2][0]
            (u1,), b1 = sp[1].data[2][0]
            # no wrap-around when n >= len0 + len1 - 1 : plain convolution
            if cur().entails(c_ge(ip(n) - u0 - u1 + 1)) is not True:
                raise Unsupported("circular convolution")
            v = fresh_var(u0)
            val = msum([(v, u0)], sig(sp[0], ip(v)) * sig(sp[1], out - ip(v)))
        tot = tot + val * Poly({tuple(rest): coef})
    return Tensor(axes, tot, to_real(X.dtype))


# ---------------------------------------------------------------- stft
def _win_ok(window, win_length, n_fft):
    if win_length is not None and not same_size(ip(win_length), ip(n_fft)):
        raise Unsupported("window shorter than the transform")
    if isinstance(window, Tensor):
        if len(window.axes) != 1 or not same_size(window.axes[0].size, ip(n_fft)):
            raise TorchError("stft: the window must be a vector of n_fft samples")


def stft(x, n_fft, hop_length=None, win_length=None, window=None, center=True, pad_mode="reflect",
         normalized=False, onesided=None, return_complex=None):
    if not center or normalized or onesided is False or not return_complex or pad_mode != "reflect":
        raise Unsupported("stft options")
    if len(x.axes) > 2 or any(a.pack for a in x.axes):
        raise TorchError("stft expects a tensor with 1 or 2 dimensions")
    _win_ok(window, win_length, n_fft)
    return stft_rows(x, n_fft, hop_length, window)


def stft_rows(x, n_fft, hop_length=None, window=None):
    """the transform of every signal along the last axis"""
    hop = hop_length if hop_length is not None else n_fft // 4
    n = x.axes[-1].size
    frames = ints.idiv(n, ip(hop)) + 1
    axes = x.axes[:-1] + [Axis((ints.idiv(ip(n_fft), ip(2)) + 1,)), Axis((frames,))]
    idx = formals(axes)
    v = fresh_var(n)
    body = x.el(idx[:-2] + [(ip(v),) if x.axes[-1].factors else ()])
    w = _win_id(window)
    t = poly.lam("stft", (ip(n_fft), ip(hop), w), [([v], [n], body)], tuple(idx[-2]) + tuple(idx[-1]), 0)
    return Tensor(axes, t, to_complex(x.dtype))


def istft(X, n_fft, hop_length=None, win_length=None, window=None, center=True, normalized=False,
          onesided=None, length=None, return_complex=False):
    if not center or normalized or return_complex or onesided is False:
        raise Unsupported("istft options")
    if len(X.axes) > 3 or any(a.pack for a in X.axes):
        raise TorchError("istft expects a tensor with 2 or 3 dimensions")
    if not same_size(X.axes[-2].size, ints.idiv(ip(n_fft), ip(2)) + 1):
        raise TorchError("istft: wrong number of frequencies")
    _win_ok(window, win_length, n_fft)
    return istft_rows(X, n_fft, hop_length, window, length)


def istft_rows(X, n_fft, hop_length=None, window=None, length=None):
    hop = hop_length if hop_length is not None else n_fft // 4
    frames = X.axes[-1].size
    n = ip(length) if length is not None else ip(hop) * (frames - 1)
    axes = X.axes[:-2] + [Axis((n,))]
    idx = formals(axes)
    f = fresh_var(X.axes[-2].size)
    m = fresh_var(frames)
    body = X.el(idx[:-1] + [(ip(f),) if X.axes[-2].factors else (), (ip(m),) if X.axes[-1].factors else ()])
    w = _win_id(window)
    fi = idx[-1][0] if idx[-1] else ints.ZERO
    # assumed contract: synthesis inverts analysis with the same parameters (complete hops)
    if length is None and len(body.terms) == 1 and body.terms[0][1] == poly.C1 and len(body.terms[0][0]) == 1:
        at = poly._ATL[body.terms[0][0][0][0]]
        if (body.terms[0][0][0][1] == 1 and at.kind == "lam" and at.data[0] == "stft"
                and at.data[1] == (ip(n_fft), ip(hop), w) and tuple(at.data[3]) == (ip(f), ip(m))):
            vs, us, b = poly.open_lam(*at.data[2][0])
            return Tensor(axes, poly.subst(b, {vs[0]: fi}), to_real(X.dtype))
    t = poly.lam("istft", (ip(n_fft), ip(hop), w), [([f, m], [X.axes[-2].size, frames], body)], idx[-1], 2)
    return Tensor(axes, t, to_real(X.dtype))


def _win_id(w):
    if w is None:
        return "none"
    return w.body if isinstance(w, Tensor) else repr(w)


def _window(name):
    def f(n, periodic=True, dtype=None, **k):
        ax = [axis_of(n)]
        idx = formals(ax)
        t = poly.lam("window-" + name + ("" if periodic else "-sym"), (ip(n),), [], idx[0], 2)
        return Tensor(ax, t, dtype or float32)

    return f


hann_window = _window("hann")
hamming_window = _window("hamming")
blackman_window = _window("blackman")
bartlett_window = _window("bartlett")


# ---------------------------------------------------------------- modules
class Module:
    def __init__(self, *a, **k):
        self.__dict__.setdefault("training", False)

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def parameters(self, recurse=True):
        out = []
        for v in list(self.__dict__.values()):
            if isinstance(v, Parameter):
                out.append(v)
            elif isinstance(v, Module):
                out += list(v.parameters())
        return iter(out)

    def named_parameters(self, *a, **k):
        return iter([(n, v) for n, v in self.__dict__.items() if isinstance(v, Parameter)])

    def register_buffer(self, name, t, persistent=True):
        setattr(self, name, t)

    def to(self, *a, **k):
        return self

    def eval(self):
        return self

    def train(self, mode=True):
        return self

    def state_dict(self, *a, **k):
        return {}

    def load_state_dict(self, sd, strict=True):
        cur().events.append(("load_state_dict", id(self), sd))

    def modules(self):
        yield self

    def children(self):
        return iter([v for v in self.__dict__.values() if isinstance(v, Module)])

    def apply(self, f):
        return self


class Parameter(Tensor):
    def __init__(self, t=None, requires_grad=True):
        if t is None:
            t = Tensor([], ZERO, float32)
        Tensor.__init__(self, t.axes, t.body, t.dtype)


class ModuleList(list, Module):
    def __init__(self, xs=()):
        list.__init__(self, xs)

    def parameters(self):
        out = []
        for m in self:
            out += list(m.parameters())
        return iter(out)


class Sequential(ModuleList):
    def __init__(self, *xs):
        list.__init__(self, xs)

    def __call__(self, x):
        for m in self:
            x = m(x)
        return x


_layer = [0]


class Layer(Module):
    kindname = "layer"

    def __init__(self, *a, **k):
        Module.__init__(self)
        _layer[0] += 1
        self.lid = "%s%d" % (self.kindname, _layer[0])


class Linear(Layer):
    kindname = "Linear"

    def __init__(self, in_features, out_features, bias=True, **k):
        Layer.__init__(self)
        self.i, self.o = in_features, out_features

    def forward(self, x):
        return opaque_map(self.lid, x, [-1], [self.o], check=[(-1, self.i)])


class _Conv(Layer):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, **k):
        Layer.__init__(self)
        if stride != 1 or k:
            raise Unsupported("conv options")
        self.i, self.o, self.k, self.p = in_channels, out_channels, kernel_size, padding

    def forward(self, x):
        return opaque_map(self.lid, x, [-2, -1], [self.o, self.length(x.shape[-1])], check=[(-2, self.i)])


class Conv1d(_Conv):
    kindname = "Conv1d"

    def length(self, n):
        return n + 2 * self.p - (self.k - 1)


class ConvTranspose1d(_Conv):
    kindname = "ConvTranspose1d"

    def length(self, n):
        return n - 2 * self.p + (self.k - 1)


class BatchNorm1d(Layer):
    kindname = "BatchNorm1d"

    def __init__(self, n, **k):
        Layer.__init__(self)
        self.n = n

    def forward(self, x):
        return opaque_map(self.lid, x, [-2], [self.n], check=[(-2, self.n)])


class MaxPool1d(Layer):
    kindname = "MaxPool1d"

    def __init__(self, kernel_size, **k):
        Layer.__init__(self)
        self.k = kernel_size

    def forward(self, x):
        return opaque_map(self.lid, x, [-1], [x.shape[-1] // self.k])


class Dropout(Layer):
    kindname = "Dropout"

    def forward(self, x):
        return x  # evaluation mode


class LSTM(Layer):
    kindname = "LSTM"

    def __init__(self, input_size, hidden_size, num_layers=1, dropout=0.0, bidirectional=False, batch_first=False, **k):
        Layer.__init__(self)
        if batch_first:
            raise Unsupported("batch_first")
        self.i, self.h, self.bi = input_size, hidden_size, bidirectional

    def forward(self, x):
        # (time, batch, features): mixes time and features, never the batch
        o = self.h * (2 if self.bi else 1)
        return opaque_map(self.lid, x, [-3, -1], [x.shape[-3], o], check=[(-1, self.i)]), None


class MelScale(Layer):
    kindname = "MelScale"

    def __init__(self, n_mels=128, sample_rate=16000, f_min=0.0, f_max=None, n_stft=201, **k):
        Layer.__init__(self)
        self.n_mels, self.n_stft = n_mels, n_stft

    def forward(self, x):
        return opaque_map(self.lid, x, [-2], [self.n_mels], check=[(-2, self.n_stft)])


def opaque_map(name, x, dims, sizes, check=(), cj=None):
    """uninterpreted function of the slices of x along dims; other axes are elementwise"""
    for d, n in check:
        if not same_size(x.axes[x.ax(d)].size, ip(n)):
            if not bool(x.axes[x.ax(d)].dim() == n):
                raise TorchError("%s: wrong input size" % name)
    ds = [x.ax(d) for d in dims]
    axes = list(x.axes)
    for d, s in zip(ds, sizes):
        axes[d] = axis_of(s)
    idx = formals(axes)
    sub = list(idx)
    vs, us, oi = [], [], []
    for d in ds:
        t = [fresh_var(s) for s in x.axes[d].factors]
        vs += t
        us += list(x.axes[d].factors)
        sub[d] = tuple(ip(v) for v in t)
        oi += list(idx[d])
    body = x.el(sub)
    if cj is None:
        cj = 0 if x.dtype.cat == 3 else 2
    r = poly.lam(name, (), [(vs, us, body)], tuple(oi), cj)
    dt = x.dtype if cj == 0 else to_real(x.dtype)
    return Tensor(axes, r, dt)


def f_normalize(x, p=2.0, dim=1, eps=1e-12):
    if p == 1.0:
        n = x.abs().sum(dim, True)
    elif p == 2.0:
        n = x.norm(None, dim, True)
    else:
        raise Unsupported("normalize order")
    return x / n.clamp(min=eps)


class _NoGrad:
    """torch.no_grad(): as a context and as a decorator; only contracts about gradients
    (the C23 view) distinguish values with and without gradient"""

    def __init__(self, on=True):
        self.on = on
        self.old = []

    def __call__(self, f=None):
        if not callable(f):
            return _NoGrad(self.on)

        @functools.wraps(f)
        def g(*a, **k):
            with _NoGrad(self.on):
                return f(*a, **k)

        return g

    def __enter__(self):
        c = cur()
        self.old.append(c.nograd)
        c.nograd = self.on and c.gradient
        return self

    def __exit__(self, *a):
        cur().nograd = self.old.pop()
        return False


def checkpoint(fn, *args, preserve_rng_state=True, use_reentrant=None, **k):
    """torch.utils.checkpoint: runs fn(*args) (recomputed in the backward pass)"""
    return fn(*args, **k)


def manual_seed(s):
    return None


class Generator:
    pass


class device_cls(str):
    pass


# ---------------------------------------------------------------- module objects
class Facade(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("%s.%s" % (self.__name__, name))


def build():
    t = Facade("torch")
    g = globals()
    for n in (
        "eye zeros ones zeros_like ones_like empty_like empty arange tensor as_tensor sqrt square abs absolute conj reciprocal exp log "
        "log10 sigmoid sgn rsqrt clamp clip clamp_min sum mean norm max min amax transpose permute moveaxis movedim swapaxes reshape "
        "flatten unsqueeze squeeze diagonal clone detach pow neg add sub mul div multiply divide true_divide subtract "
        "broadcast_to is_complex is_floating_point numel maximum minimum real imag relu conj_physical resolve_conj where "
        "broadcast_tensors broadcast_shapes cat concat concatenate stack flip diag_embed diag view_as_real view_as_complex complex einsum "
        "matmul bmm as_strided argsort gather stft istft hann_window hamming_window blackman_window "
        "bartlett_window Tensor float16 float32 float64 complex64 complex128 int64 int32 manual_seed Generator"
    ).split():
        setattr(t, n, g[n])
    t.full = full_
    t.float = float32
    t.double = float64
    t.cfloat = complex64
    t.cdouble = complex128
    t.long = int64
    t.int = int32
    t.bool = bool_
    t.dtype = DType
    t.Size = Shape
    t.no_grad = _NoGrad()
    t.inference_mode = _NoGrad()
    t.enable_grad = _NoGrad(False)
    t.device = device_cls
    t.get_default_dtype = lambda: float32
    t.__version__ = "facade"
    la = Facade("torch.linalg")
    la.inv, la.solve, la.norm, la.eigh, la.slogdet, la.det = (
        linalg_inv, linalg_solve, linalg_norm, linalg_eigh, linalg_slogdet, linalg_det,
    )
    la.vector_norm = linalg_norm
    la.matmul = matmul
    t.linalg = la
    fft = Facade("torch.fft")
    fft.rfft, fft.irfft = fft_rfft, fft_irfft
    t.fft = fft
    cuda = Facade("torch.cuda")
    cuda.is_available = lambda: False
    t.cuda = cuda
    nn = Facade("torch.nn")
    for n in "Module Parameter ModuleList Sequential Linear Conv1d ConvTranspose1d BatchNorm1d MaxPool1d Dropout LSTM".split():
        setattr(nn, n, g[n])
    F = Facade("torch.nn.functional")
    F.pad, F.normalize, F.relu = f_pad, f_normalize, relu
    F.sigmoid = g["sigmoid"]
    nn.functional = F
    t.nn = nn
    ut = Facade("torch.utils")
    ck = Facade("torch.utils.checkpoint")
    ck.checkpoint = checkpoint
    ck.CheckpointFunction = object
    ut.checkpoint = ck
    t.utils = ut
    ta = Facade("torchaudio")
    tt = Facade("torchaudio.transforms")
    tt.MelScale = MelScale
    ta.transforms = tt
    from . import ops_extra

    ops_extra.install(t)
    mods = {
        "torch": t, "torch.nn": nn, "torch.nn.functional": F, "torch.linalg": la, "torch.fft": fft,
        "torch.utils": ut, "torch.utils.checkpoint": ck, "torchaudio": ta, "torchaudio.transforms": tt,
        "torch.cuda": cuda,
    }
    return mods
