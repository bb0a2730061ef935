"""Further torch operations, stated through the ones of vt/tensor.py and vt/symtorch.py
(vt/conform.py compares all of them with the installed torch)."""
from . import ints, poly
from .ints import ip, c_ge, c_eq
from .poly import Unsupported, ZERO, ONE, ind, pp
from .ctx import cur, I, R, mki
from .tensor import (Tensor, Axis, Shape, TorchError, TorchIndexError, formals, binary, full, broadcast_axes,
                     broadcast_el, float32, float64, complex64, complex128, int64, bool_, MinMax, DType, is_scalar,
                     to_real, to_complex, promote)
from . import symtorch as st

METHODS, FUNCS = {}, {}


def both(*names):
    def deco(f):
        for n in names or (f.__name__.rstrip("_"),):
            METHODS[n] = f
            FUNCS[n] = f
        return f
    return deco


def meth(*names):
    def deco(f):
        for n in names or (f.__name__,):
            METHODS[n] = f
        return f
    return deco


def func(*names):
    def deco(f):
        for n in names or (f.__name__.rstrip("_"),):
            FUNCS[n] = f
        return f
    return deco


def _key(x, dim, k):
    d = x.ax(dim)
    key = [slice(None)] * len(x.axes)
    key[d] = k
    return tuple([Ellipsis] + key[1:]) if x.has_pack() and d > 0 else tuple(key)


def _lift(x, like):
    return x if isinstance(x, Tensor) else Tensor([], pp(x), like.dtype)


# ---------------------------------------------------------------- views
@both()
def narrow(x, dim, start, length):
    return x[_key(x, dim, slice(start, start + length))]


@meth()
def unfold(x, dimension, size, step):
    d = x.ax(dimension)
    a = x.axes[d]
    if a.pack or len(a.factors) > 1 or ip(step).is_const() is False or ip(step) != ip(1):
        raise Unsupported("unfold")
    n = a.size - ip(size) + 1
    if not cur().branch(c_ge(n - 1)):
        raise TorchError("maximum size for tensor at dimension %d" % d)
    axes = list(x.axes) + [st.axis_of(ip(size))]
    axes[d] = st.axis_of(n)

    def rec(t):
        idx = formals(axes)
        out = list(idx[:-1])
        last = idx[-1][0] if idx[-1] else ints.ZERO
        out[d] = ((out[d][0] if out[d] else ints.ZERO) + last,) if t.axes[d].factors else ()
        return t.el(out)

    return x._view(axes, rec)


@func()
def select(x, dim, index):
    return x.select(dim, index)


@both()
def unbind(x, dim=0):
    d = x.ax(dim)
    return tuple(x.select(d, i) for i in range(_const(x.axes[d].size, "unbind")))


def _const(p, what):
    if not p.is_const():
        raise Unsupported("%s along a dimension of symbolic size" % what)
    return int(p.const())


@both()
def split(x, split_size_or_sections, dim=0):
    s = split_size_or_sections
    n = x.axes[x.ax(dim)].size
    if not isinstance(s, (list, tuple)):
        n = _const(n, "split")
        s = int(s)
        s = [min(s, n - k) for k in range(0, n, s)]
    else:
        tot = ints.ZERO
        for v in s:
            tot = tot + ip(v)
        if not bool(mki(tot) == mki(n)):
            raise TorchError("split sizes do not sum to the size")
    out, o = [], 0
    for v in s:
        out.append(narrow(x, dim, o, v))
        o = o + v
    return tuple(out)


@both()
def chunk(x, chunks, dim=0):
    n = x.axes[x.ax(dim)].size
    if n.is_const():
        n = int(n.const())
        return split(x, -(-n // chunks), dim)
    return split(x, [mki(n) // chunks] * chunks, dim) if bool(mki(n) % chunks == 0) else _no("chunk")


def _no(s):
    raise Unsupported(s)


for _n in ("swapdims", "swapaxes"):
    both(_n)(lambda x, a, b: x.transpose(a, b))
both("adjoint")(lambda x: x.mH)


@both("t")
def t_(x):
    if len(x.axes) > 2 or x.has_pack():
        raise Unsupported("t")
    return x if len(x.axes) < 2 else x.transpose(0, 1)


@both()
def unflatten(x, dim, sizes):
    d = x.ax(dim)
    sh = list(x.shape)
    return x.reshape(*(sh[:d] + list(sizes) + sh[d + 1:]))


@both("ravel")
def ravel(x):
    return x.flatten()


@meth()
def view(x, *shape):
    if len(shape) == 1 and isinstance(shape[0], DType):
        raise Unsupported("view as another dtype")
    return x.reshape(*shape)


meth("reshape_as", "view_as")(lambda x, o: x.reshape(*o.shape))
meth("flip")(lambda x, *d: st.flip(x, d[0] if len(d) == 1 else d))
func("fliplr")(lambda x: st.flip(x, 1))
func("flipud")(lambda x: st.flip(x, 0))


@both()
def roll(x, shifts, dims=None):
    if dims is None:
        raise Unsupported("roll without dims")
    ss = shifts if isinstance(shifts, (tuple, list)) else (shifts,)
    ds = dims if isinstance(dims, (tuple, list)) else (dims,)
    for s, d in zip(ss, ds):
        n = x.shape[x.ax(d) - len(x.axes)]
        s = s % n
        if isinstance(s, int) and s == 0:
            continue
        x = st.cat([narrow(x, d, n - s, s), narrow(x, d, 0, n - s)], dim=d)
    return x


@both()
def index_select(x, dim, index):
    if isinstance(index, Tensor):
        d = x.ax(dim)
        i = index
        for k in range(len(x.axes) - 1 - d):
            i = i.unsqueeze(-1)
        for k in range(d):
            i = i.unsqueeze(0)
        sh = list(x.shape)
        sh[d] = index.shape[-1]
        return st.gather(x, d, i.broadcast_to(tuple(sh)))
    raise Unsupported("index_select")


@both()
def tile(x, *reps):
    reps = reps[0] if len(reps) == 1 and isinstance(reps[0], (tuple, list)) else reps
    if len(reps) < len(x.axes):
        reps = (1,) * (len(x.axes) - len(reps)) + tuple(reps)
    return repeat(x, *reps)


@meth()
def repeat(x, *reps):
    reps = reps[0] if len(reps) == 1 and isinstance(reps[0], (tuple, list)) else reps
    while len(x.axes) < len(reps):
        x = x.unsqueeze(0)
    for d, r in enumerate(reps):
        if not isinstance(r, int):
            raise Unsupported("symbolic repetition")
        if r != 1:
            x = st.cat([x] * r, dim=d)
    return x.clone()




@func()
def hstack(ts):
    return st.cat(list(ts), dim=0 if len(ts[0].axes) == 1 else 1)


@func("vstack", "row_stack")
def vstack(ts):
    return st.cat([x if len(x.axes) > 1 else x.unsqueeze(0) for x in ts], dim=0)


@both()
def take_along_dim(x, indices, dim=None):
    if dim is None:
        raise Unsupported("take_along_dim without dim")
    d = x.ax(dim)
    ax = broadcast_axes([[a if i != d else Axis(()) for i, a in enumerate(t.axes)] for t in (x, indices)])
    ia = [indices.axes[d] if i == d else a for i, a in enumerate(ax)]
    xa = [x.axes[d] if i == d else a for i, a in enumerate(ax)]
    return st.gather(x.broadcast_to(tuple(a.dim() for a in xa)), d, indices.broadcast_to(tuple(a.dim() for a in ia)))


meth("gather")(lambda x, dim, index: st.gather(x, dim, index))
meth("argsort")(lambda x, dim=-1, descending=False, stable=False: st.argsort(x, dim, descending))


@both()
def sort(x, dim=-1, descending=False, stable=False):
    i = st.argsort(x, dim, descending)
    return MinMax(st.gather(x, dim, i), i)


@both()
def topk(x, k, dim=-1, largest=True, sorted=True):
    i = narrow(st.argsort(x, dim, largest), dim, 0, k)
    return MinMax(st.gather(x, dim, i), i)


# ---------------------------------------------------------------- creation
func("full_like")(lambda x, v, dtype=None, **k: full(x.shape, pp(v), dtype or x.dtype))
func("scalar_tensor")(lambda v, dtype=None, **k: Tensor([], pp(v), dtype or float32))
meth("new_tensor")(lambda x, v, dtype=None, **k: st.tensor(v, dtype=dtype or x.dtype))


@func("diag_embed_")
def _de(x):
    return st.diag_embed(x)


FUNCS.pop("diag_embed_")
meth("diag_embed")(lambda x, *a, **k: st.diag_embed(x, *a, **k))


def _tri(x, d, upper):
    f = formals(x.axes)
    i = f[-2][0] if f[-2] else ints.ZERO
    j = f[-1][0] if f[-1] else ints.ZERO
    if any(len(q) > 1 for q in f[-2:]):
        raise Unsupported("tri of a flattened axis")
    c = ind(c_ge(j - i - ip(d))) if upper else ind(c_ge(i + ip(d) - j))
    return Tensor(x.axes, c * x.body, x.dtype)


both("triu")(lambda x, diagonal=0: _tri(x, diagonal, True))
both("tril")(lambda x, diagonal=0: _tri(x, diagonal, False))


# ---------------------------------------------------------------- pointwise
@both()
def masked_fill(x, mask, v):
    return st.where(mask, Tensor([], pp(v) if not isinstance(v, Tensor) else v.body, x.dtype), x)


meth("where")(lambda x, c, o: st.where(c, x, o))
meth("maximum", "fmax")(lambda x, o: binary(x, o, poly.fmax))
meth("minimum", "fmin")(lambda x, o: binary(x, o, poly.fmin))
func("fmax")(st.maximum)
func("fmin")(st.minimum)
meth("divide", "true_divide")(lambda x, o: x / o)
meth("multiply")(lambda x, o: x * o)


def _alpha(f):
    def g(x, o, alpha=1, out=None):
        if out is not None:
            raise Unsupported("out=")
        return f(x, o if alpha == 1 else o * alpha)
    return g


both("subtract", "sub")(_alpha(lambda x, o: x - o))
both("add")(_alpha(lambda x, o: x + o))
func("rsub")(lambda x, o: o - x)
both("positive")(lambda x: x)
both("negative")(lambda x: -x)
both("absolute")(lambda x: x.abs())
both("clamp_max")(lambda x, m: x.clamp(max=m))
both("clip")(lambda x, min=None, max=None: x.clamp(min, max))
for _n, _f in {"lt": "__lt__", "gt": "__gt__", "le": "__le__", "ge": "__ge__", "eq": "__eq__", "ne": "__ne__",
               "less": "__lt__", "greater": "__gt__", "less_equal": "__le__", "greater_equal": "__ge__",
               "not_equal": "__ne__"}.items():
    both(_n)(lambda x, o, _f=_f: getattr(x, _f)(o))
both("logical_not")(lambda x: ~x)
both("logical_and", "bitwise_and")(lambda x, o: x & o)
both("logical_or", "bitwise_or")(lambda x, o: x | o)
meth("__or__")(lambda x, o: Tensor(*(lambda r: (r.axes, r.body))(binary(x, o, lambda a, b: a + b - a * b)), bool_))
both("addcmul")(lambda x, a, b, value=1: x + (a * b if value == 1 else value * a * b))
both("addcdiv")(lambda x, a, b, value=1: x + (a / b if value == 1 else value * a / b))
both("lerp")(lambda x, e, w: x + w * (e - x))
both("square")(lambda x: x.square())
both("rsqrt")(lambda x: x.rsqrt())
both("conj_physical")(lambda x: x.conj().clone())
both("resolve_conj", "resolve_neg")(lambda x: x)
both("log2")(lambda x: _no("log2"))
for _n in "log2".split():
    METHODS.pop(_n), FUNCS.pop(_n)
meth("relu")(st.relu)


# in place
def _ip(name, f):
    def g(x, *a, **k):
        x._inplace(f(x, *a, **k))
        return x
    METHODS.setdefault(name, g)


for _n in "square sqrt abs neg reciprocal exp log sigmoid sgn rsqrt pow conj_physical".split():
    _ip(_n + "_", lambda x, *a, _n=_n, **k: getattr(x, _n)(*a, **k))
_ip("clip_", lambda x, min=None, max=None: x.clamp(min, max))
_ip("clamp_min_", lambda x, m: x.clamp(min=m))
_ip("clamp_max_", lambda x, m: x.clamp(max=m))
_ip("masked_fill_", masked_fill)
_ip("addcmul_", FUNCS["addcmul"])
_ip("addcdiv_", FUNCS["addcdiv"])
_ip("multiply_", lambda x, o: x * o)
_ip("divide_", lambda x, o: x / o)
_ip("subtract_", lambda x, o: x - o)
_ip("triu_", lambda x, diagonal=0: _tri(x, diagonal, True))
_ip("tril_", lambda x, diagonal=0: _tri(x, diagonal, False))
_ip("lerp_", FUNCS["lerp"])


@meth()
def __ipow__(x, n):
    x._inplace(x.pow(n))
    return x


# ---------------------------------------------------------------- reductions, products
@both()
def amin(x, dim=None, keepdim=False):
    if dim is None:
        return -((-x).amax())
    return -((-x).amax(dim, keepdim))


@func()
def min_(x, *a, **k):
    if a and isinstance(a[0], Tensor):
        return binary(x, a[0], poly.fmin)
    return x.min(*a, **k)


func("any")(lambda x, *a, **k: x.any(*a, **k))
func("all")(lambda x, *a, **k: x.all(*a, **k))


@both()
def var(x, dim=None, unbiased=True, keepdim=False, correction=None):
    corr = correction if correction is not None else (1 if unbiased else 0)
    ds = x._red_dims(dim)
    n = ints.ONE
    for d in ds:
        n = n * x.axes[d].size
    m = x - x.mean(dim if dim is not None else list(range(-len(x.axes), 0)), keepdim=True)
    return x_norm2(m, dim, keepdim) / mki(n - ip(corr))


def x_norm2(m, dim, keepdim):
    s = m * m.conj()
    s = s.real if m.dtype.cat == 3 else s
    return s.sum(dim, keepdim)


both("std")(lambda x, *a, **k: var(x, *a, **k).sqrt())


@both()
def trace(x):
    return x.diagonal().sum(-1)


@both("cumsum")
def cumsum(x, dim):
    d = x.ax(dim)
    if len(x.axes[d].factors) > 1 or x.axes[d].pack:
        raise Unsupported("cumsum of a flattened axis")
    if not x.axes[d].factors:
        return x.clone()
    f = formals(x.axes)
    v = poly.fresh_var(x.axes[d].size)
    sub = list(f)
    sub[d] = (ip(v),)
    body = poly.msum([(v, x.axes[d].size)], ind(c_ge(f[d][0] - ip(v))) * x.el(sub))
    return Tensor(x.axes, body, x.dtype if x.dtype.cat else int64)


both("outer", "ger")(lambda a, b: st.einsum("i,j->ij", a, b))
both("dot")(lambda a, b: st.einsum("i,i->", a, b))
both("vdot")(lambda a, b: st.einsum("i,i->", a.conj(), b))
both("mv")(lambda a, b: st.einsum("ij,j->i", a, b))
both("mm")(lambda a, b: st.einsum("ij,jk->ik", a, b))
both("inner")(lambda a, b: st.einsum("...i,i->...", a, b) if len(b.axes) == 1 else _no("inner"))
both("bmm")(st.bmm)
both("baddbmm")(lambda x, a, b, beta=1, alpha=1: (x if beta == 1 else beta * x) + (st.bmm(a, b) if alpha == 1 else alpha * st.bmm(a, b)))
both("addmm")(lambda x, a, b, beta=1, alpha=1: (x if beta == 1 else beta * x) + (st.matmul(a, b) if alpha == 1 else alpha * st.matmul(a, b)))
both("inverse")(st.linalg_inv)
func("vecdot")(lambda a, b, dim=-1: (a.conj() * b).sum(dim))


@func()
def tensordot(a, b, dims=2):
    if isinstance(dims, int):
        da, db = list(range(-dims, 0)), list(range(dims))
    else:
        da, db = dims
        da = [da] if isinstance(da, int) else list(da)
        db = [db] if isinstance(db, int) else list(db)
    la = [chr(97 + i) for i in range(len(a.axes))]
    lb = [chr(110 + i) for i in range(len(b.axes))]
    if a.has_pack() or b.has_pack():
        raise Unsupported("tensordot with a variadic batch")
    for i, j in zip(da, db):
        lb[j] = la[i]
    s = set(la[i] for i in da)
    out = [c for c in la if c not in s] + [c for c in lb if c not in s]
    return st.einsum("%s,%s->%s" % ("".join(la), "".join(lb), "".join(out)), a, b)


# ---------------------------------------------------------------- attributes
class FInfo:
    def __init__(self, d):
        d = to_real(d)
        self.bits = d.bits
        self.eps = 2.0 ** -52 if d.bits == 64 else 2.0 ** -23
        self.tiny = self.smallest_normal = 2.2250738585072014e-308 if d.bits == 64 else 1.1754943508222875e-38
        self.max = 1.7976931348623157e308 if d.bits == 64 else 3.4028234663852886e38
        self.min = -self.max


func("finfo")(lambda d=float32: FInfo(d))
func("is_tensor")(lambda x: isinstance(x, Tensor))
func("is_storage", "is_inference_mode_enabled", "is_grad_enabled")(lambda *a: False)
func("promote_types")(promote)
func("result_type")(lambda a, b: promote(a.dtype, b.dtype) if isinstance(a, Tensor) and isinstance(b, Tensor) else _no("result_type"))
meth("nelement")(lambda x: x.numel())
meth("get_device")(lambda x: -1)
meth("half")(lambda x: _no("half precision"))
meth("cfloat")(lambda x: x._conv(complex64))
meth("cdouble")(lambda x: x._conv(complex128))
meth("bool")(lambda x: x if x.dtype is bool_ else _no("bool()"))
PROPS = {
    "data": lambda x: x.detach(),
    "H": lambda x: x.mH,
    "is_cuda": lambda x: False,
    "layout": lambda x: "strided",
    "itemsize": lambda x: x.dtype.bits // 8,
    "grad_fn": lambda x: None,
    "is_leaf": lambda x: True,
}


def install(torch):
    for n, f in METHODS.items():
        if f is None:
            continue
        if n not in Tensor.__dict__ or n in ("sub", "add"):
            setattr(Tensor, n, f)
    for n, f in PROPS.items():
        if n not in Tensor.__dict__:
            setattr(Tensor, n, property(f))
    for n, f in FUNCS.items():
        if f is not None and (n not in torch.__dict__ or n in ("min", "sub", "add", "subtract")):
            setattr(torch, n, f)
    la = torch.linalg
    for n, f in (("vecdot", FUNCS["vecdot"]), ("diagonal", lambda x, offset=0, dim1=-2, dim2=-1: x.diagonal(offset, dim1, dim2))):
        if n not in la.__dict__:
            setattr(la, n, f)
