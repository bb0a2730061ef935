"""Symbolic tensors.

A tensor is a list of axes and one scalar term (Poly) over its formal index variables.
An axis is a tuple of factors (sizes); () is an axis of size one, several factors are
the row-major flattening of dimensions (reshape).  The leading batch dimensions of any
rank are a single axis with pack=True whose index is the linearised batch index.
Views share storage: a view is recomputed from its base when the base was written, and
in-place writes through a view are propagated to the base.
"""
from . import ints, poly
from .ints import ip, c_ge, c_eq, iatom, IntPoly
from .poly import Unsupported, Poly, pp, RANGES, ZERO, ONE, subst, msum, ind, fresh_var
from .ctx import cur, I, R, B, PackDim, mki, DataBool


class TorchError(RuntimeError):
    """an error real torch would raise"""


class TorchIndexError(IndexError):
    pass


# ---------------------------------------------------------------- dtypes
class DType:
    def __init__(self, name, cat, bits):
        self.name, self.cat, self.bits = name, cat, bits
        self.is_complex = cat == 3
        self.is_floating_point = cat == 2

    def __repr__(self):
        return "torch." + self.name


float16 = DType("float16", 2, 16)
float32 = DType("float32", 2, 32)
float64 = DType("float64", 2, 64)
complex64 = DType("complex64", 3, 32)
complex128 = DType("complex128", 3, 64)
int64 = DType("int64", 1, 64)
int32 = DType("int32", 1, 32)
bool_ = DType("bool", 0, 1)


def to_real(d):
    return {complex64: float32, complex128: float64}.get(d, d)


def to_complex(d):
    return {float32: complex64, float64: complex128}.get(d, d)


def promote(a, b):
    if a is b:
        return a
    if a.cat < b.cat:
        a, b = b, a
    if a.cat == b.cat:
        return a if a.bits >= b.bits else b
    if a.cat == 3 and b.cat == 2:
        return complex128 if max(a.bits, b.bits) == 64 else complex64
    return a


def scalar_dtype(d, s):
    """dtype of (tensor of dtype d) op (python scalar s)"""
    if isinstance(s, complex):
        return to_complex(d) if d.cat >= 2 else complex64
    if isinstance(s, (float, R)):
        return d if d.cat >= 2 else float32
    return d


class Axis:
    __slots__ = ("factors", "pack")

    def __init__(self, factors, pack=False):
        self.factors = tuple(f for f in factors if not (f.is_const() and f.const() == 1))
        self.pack = pack

    @property
    def size(self):
        r = ints.ONE
        for f in self.factors:
            r = r * f
        return r

    def dim(self):
        return PackDim(self.size) if self.pack else mki(self.size)

    def __repr__(self):
        return ("*" if self.pack else "") + "x".join(map(repr, self.factors or (1,)))


def axis_of(n):
    if isinstance(n, PackDim):
        return Axis((n.poly,), pack=True)
    return Axis((ip(n),))


class Shape(tuple):
    """tuple of sizes; the first one may be a PackDim"""

    def numel(self):
        r = 1
        for s in self:
            r = s * r
        return r

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Shape(tuple.__getitem__(self, k))
        if isinstance(k, int) and k >= 0 and len(self) and isinstance(tuple.__getitem__(self, 0), PackDim):
            raise Unsupported("shape[%d] of a tensor with variadic batch" % k)
        return tuple.__getitem__(self, k)

    def __add__(self, o):
        return Shape(tuple.__add__(self, tuple(o)))

    def __radd__(self, o):
        return Shape(tuple(o) + tuple(self))

    def __eq__(self, o):
        o = tuple(o)
        if len(self) != len(o):
            return False
        for a, b in zip(self, o):
            if not bool(a == b):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = tuple.__hash__


def formal(pos, j, size):
    v = iatom("v", ("x", pos, j, size.id))
    if v not in RANGES:
        RANGES[v] = (ints.ZERO, size)
    return v


def formals(axes):
    n = len(axes)
    return [
        tuple(ip(formal(n - 1 - i, j, f)) for j, f in enumerate(ax.factors))
        for i, ax in enumerate(axes)
    ]


def lin(idx, factors):
    r = ints.ZERO
    for i, f in zip(idx, factors):
        r = r * f + i
    return r


def has_data(p):
    return any(a.kind in ("el", "lam", "fn", "sum", "rec") for a, e in poly.atoms_in(p))


def widening(t, d):
    """a constant rounded to single precision enters a computation in double precision"""
    if d.cat < 2 or t.dtype.cat < 2 or t.dtype.bits >= d.bits or not t.axes:
        return
    b = t.body
    for m, c in b.terms:
        if all(x == int(x) or (x.denominator & (x.denominator - 1)) == 0 for x in map(_frac, c)) and not any(poly._ATL[a].kind == "rv" for a, e in m):
            continue
        if not has_data(poly.Poly({m: c})):
            cur().events.append(("narrowing", "constant", t.dtype.name))
            return


def _frac(x):
    from fractions import Fraction

    return x if isinstance(x, Fraction) else Fraction(x)


NAME_OPERAND = 14
NAME_RESULT = 40


def named(t, limit):
    """t with its elements given a definitional name when they are large terms"""
    if poly.weight(t.body) <= limit:
        return t
    f = formals(t.axes)
    fv = [next(iter(i.vars)) for g in f for i in g]
    extra = [v for v in sorted(t.body.vars, key=lambda v: v.id) if v not in fv and v in RANGES and RANGES[v][0] is not None]
    b = poly.name_body(fv + extra, [s for a in t.axes for s in a.factors], t.body, t.dtype.cat != 3)
    return Tensor(t.axes, b, t.dtype)


def same_size(p, q):
    if p is q:
        return True
    return cur().entails(c_eq(p - q)) is True


class Tensor:
    __array_priority__ = 1000

    def __init__(self, axes, body, dtype, base=None, recompute=None, writeback=None):
        self.axes = list(axes)
        self._body = body
        self.dtype = dtype
        self._base = base
        self._recompute = recompute
        self._writeback = writeback
        self._version = 0
        self._seen = base._ver() if base is not None else 0
        self.is_input = None  # name of the caller-owned tensor
        self.requires_grad = False
        self.device = "cpu"
        if cur().nograd:
            self._body = stopped(self._body)
            if base is not None:
                self._recompute = lambda b: stopped(recompute(b))

    # ------------------------------------------------------------ storage
    def _ver(self):
        if self._base is not None:
            return self._base._ver()
        return self._version

    def root(self):
        return self if self._base is None else self._base.root()

    @property
    def body(self):
        if self._base is not None:
            v = self._base._ver()
            if v != self._seen:
                self._body = self._recompute(self._base)
                self._seen = v
        return self._body

    def _write(self, body, src_dtype=None):
        """in-place overwrite of the whole tensor"""
        if cur().nograd and self._base is not None:
            raise Unsupported("in-place write through a view without gradient")
        if src_dtype is not None and src_dtype.bits > self.dtype.bits and src_dtype.cat >= 2 and has_data(body):
            cur().events.append(("narrowing", src_dtype.name, self.dtype.name))
        if src_dtype is not None and src_dtype.cat == 3 and self.dtype.cat < 3 and not body.real:
            cur().events.append(("imag-dropped", src_dtype.name, self.dtype.name))
            body = poly.re(body)
        if self._base is None:
            if self.is_input:
                cur().events.append(("input-mutated", self.is_input))
            cur().writes.append(self)
            self._body = body
            self._version += 1
        else:
            if self._writeback is None:
                raise Unsupported("in-place write through this kind of view")
            self._writeback(self._base, body)
            self._seen = self._base._ver()
            self._body = body

    # ------------------------------------------------------------ access
    def el(self, idx):
        """idx: list (per axis) of tuples of IntPoly (per factor)"""
        mp = {}
        for f, i in zip(formals(self.axes), idx):
            for a, b in zip(f, i):
                if a is not b:
                    mp[list(a.vars)[0]] = b
        return subst(self.body, mp)

    @property
    def shape(self):
        return Shape(a.dim() for a in self.axes)

    def size(self, dim=None):
        return self.shape if dim is None else self.shape[dim]

    @property
    def ndim(self):
        if any(a.pack for a in self.axes):
            raise Unsupported("ndim of a tensor with variadic batch")
        return len(self.axes)

    def dim(self):
        return self.ndim

    def numel(self):
        return self.shape.numel()

    def has_pack(self):
        return bool(self.axes) and self.axes[0].pack

    def ax(self, d, extra=0):
        """position of dimension d"""
        n = len(self.axes) + extra
        d = int(d)
        if d < 0:
            if n + d < 0 or (self.has_pack() and n + d == 0):
                if self.has_pack():
                    raise Unsupported("dimension %d reaches the variadic batch" % d)
                raise TorchIndexError("Dimension out of range")
            return n + d
        if self.has_pack():
            raise Unsupported("positive dimension on a tensor with variadic batch")
        if d >= n:
            raise TorchIndexError("Dimension out of range")
        return d

    def __repr__(self):
        return "Tensor(%r, %s, %s)" % (self.axes, self.dtype.name, poly.poly_repr(self.body, 300))

    def __bool__(self):
        if any(a.factors for a in self.axes):
            raise TorchError("Boolean value of Tensor with more than one value is ambiguous")
        b = self.body
        if b.is_const():
            return bool(b.const()[0])
        return bool(DataBool("tensor", b))

    def __len__(self):
        return int(self.shape[0])

    def __iter__(self):
        n = int(self.shape[0])
        return iter([self[i] for i in range(n)])

    def __hash__(self):
        return id(self)

    def __format__(self, s):
        return "Tensor"

    # ------------------------------------------------------------ indexing
    def __getitem__(self, key):
        if _is_advanced(key):
            return self._advanced(key)
        axes, mapping, inverse = _index_plan(self, key)

        def rec(t):
            return t.el(mapping(formals(axes)))

        def wb(base, body):
            base[key] = Tensor(axes, body, base.dtype)

        return Tensor(axes, rec(self), self.dtype, base=self, recompute=rec, writeback=wb)

    def _advanced(self, key):
        key = key if isinstance(key, tuple) else (key,)
        # at most one list / integer tensor index, others basic
        pos = [i for i, k in enumerate(key) if isinstance(k, (list, Tensor))]
        if len(pos) != 1:
            raise Unsupported("advanced indexing with several index arrays")
        k = key[pos[0]]
        items = []
        basic = list(key)
        basic[pos[0]] = slice(None)
        # python ints elsewhere would be broadcast together with the list index
        if any(_is_intlike(b) for i, b in enumerate(basic)):
            raise Unsupported("list index mixed with integer index")
        if isinstance(k, Tensor):
            raise Unsupported("tensor index")
        if any(isinstance(x, bool) for x in k):
            raise Unsupported("boolean mask index")
        base = self[tuple(basic)]
        # position of that dimension in the result, counted in the expanded key
        n_explicit_after = 0
        seen_el = False
        d = None
        right = 0
        for i in range(len(key) - 1, -1, -1):
            b = basic[i]
            if b is Ellipsis:
                break
            if i == pos[0]:
                d = -1 - right
                break
            right += 1
        if d is None:
            left = 0
            for i in range(pos[0]):
                left += 1
            d = left
        elif Ellipsis not in [b for b in basic if b is Ellipsis] and not any(b is Ellipsis for b in basic):
            # no ellipsis: count from the left
            d = sum(1 for i in range(pos[0]))
        outs = [base.select(d, x).unsqueeze(d) for x in k]
        from .symtorch import cat

        r = outs[0] if len(outs) == 1 else cat(outs, dim=d)
        return Tensor(r.axes, r.body, r.dtype)  # a copy

    def select(self, dim, i):
        d = self.ax(dim)
        key = [slice(None)] * len(self.axes)
        key[d] = i
        if self.has_pack():
            key = [Ellipsis] + key[1:]
        return self[tuple(key)]

    def __setitem__(self, key, val):
        if _is_advanced(key):
            raise Unsupported("in-place advanced indexing")
        axes, mapping, inverse = _index_plan(self, key)
        if not isinstance(val, Tensor):
            val = Tensor([], pp(val), scalar_dtype(self.dtype, val))
        # broadcast val to axes
        src = broadcast_el(val, axes)
        fs = formals(self.axes)
        conds, sub = inverse(fs)
        new = src(sub)
        c = ONE
        for x in conds:
            c = c * ind(x)
        old = self.body
        body = c * new + (ONE - c) * old if c is not ONE else new
        widening(val, self.dtype)
        self._write(body, val.dtype)

    # ------------------------------------------------------------ views
    def _view(self, axes, rec, wb=None, dtype=None):
        return Tensor(axes, rec(self), dtype or self.dtype, base=self, recompute=rec, writeback=wb)

    def unsqueeze(self, dim):
        d = self.ax(dim, extra=1)
        axes = list(self.axes)
        axes.insert(d, Axis(()))
        return self._restruct(axes, [i for i in range(len(axes)) if i != d])

    def squeeze(self, dim=None):
        if dim is None:
            raise Unsupported("squeeze without dim")
        d = self.ax(dim)
        if not bool(self.axes[d].dim() == 1):
            return self
        if self.axes[d].factors:
            raise Unsupported("squeeze of a symbolic size-one axis")
        axes = [a for i, a in enumerate(self.axes) if i != d]
        keep = list(range(d)) + [None] + list(range(d, len(axes)))

        def rec(t):
            f = formals(axes)
            return t.el([() if k is None else f[k] for k in keep])

        return self._view(axes, rec)

    def _restruct(self, axes, src_pos):
        """src_pos[i]: position in the new axes of old axis i"""

        def rec(t):
            f = formals(axes)
            return t.el([f[p] for p in src_pos])

        def wb(base, body):
            f = formals(base.axes)
            new = Tensor(axes, body, base.dtype)
            idx = [()] * len(axes)
            for i, p in enumerate(src_pos):
                idx[p] = f[i]
            base._write(new.el(idx))

        return self._view(axes, rec, wb)

    def permute(self, *dims):
        if len(dims) == 1 and isinstance(dims[0], (list, tuple)):
            dims = tuple(dims[0])
        if self.has_pack():
            raise Unsupported("permute of a tensor with variadic batch")
        ds = [self.ax(d) for d in dims]
        if sorted(ds) != list(range(len(self.axes))):
            raise TorchError("permute dims")
        axes = [self.axes[d] for d in ds]
        return self._restruct(axes, [ds.index(i) for i in range(len(ds))])

    def transpose(self, a, b):
        a, b = self.ax(a), self.ax(b)
        order = list(range(len(self.axes)))
        order[a], order[b] = order[b], order[a]
        return self._restruct([self.axes[i] for i in order], [order.index(i) for i in range(len(order))])

    swapaxes = transpose

    @property
    def mT(self):
        return self.transpose(-2, -1)

    @property
    def mH(self):
        return self.transpose(-2, -1).conj()

    @property
    def T(self):
        if self.has_pack() or len(self.axes) != 2:
            raise Unsupported(".T")
        return self.transpose(0, 1)

    def moveaxis(self, src, dst):
        ss = [self.ax(d) for d in (src if isinstance(src, (tuple, list)) else (src,))]
        ds = [self.ax(d) for d in (dst if isinstance(dst, (tuple, list)) else (dst,))]
        if len(ss) != len(ds) or len(set(ss)) != len(ss) or len(set(ds)) != len(ds):
            raise TorchError("moveaxis: repeated or mismatched dimensions")
        order = [i for i in range(len(self.axes)) if i not in ss]
        for d, s in sorted(zip(ds, ss)):
            order.insert(d, s)
        return self._restruct([self.axes[i] for i in order], [order.index(i) for i in range(len(order))])

    movedim = moveaxis

    def broadcast_to(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        axes = [axis_of(s) for s in shape]
        # check compatibility
        r = broadcast_axes([self.axes, axes])
        if len(r) != len(axes):
            raise TorchError("broadcast_to")
        for a, b in zip(r, axes):
            if not same_size(a.size, b.size):
                raise TorchError("broadcast_to: sizes")

        def rec(t):
            return broadcast_el(t, r)(formals(r))

        return self._view(r, rec)

    def expand(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        n = len(shape)
        out = []
        for i, s in enumerate(shape):
            if isinstance(s, int) and s == -1:
                out.append(self.axes[len(self.axes) - n + i].dim())
            else:
                out.append(s)
        return self.broadcast_to(tuple(out))

    def expand_as(self, o):
        return self.broadcast_to(o.shape)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        axes, mapping = _reshape_plan(self, shape)

        def rec(t):
            return t.el(mapping(formals(axes)))

        return self._view(axes, rec)

    view = reshape

    def flatten(self, start=0, end=-1):
        s, e = self.ax(start) if start else 0, self.ax(end)
        shp = list(self.shape)
        n = 1
        for x in shp[s : e + 1]:
            n = n * x
        return self.reshape(tuple(shp[:s]) + (n,) + tuple(shp[e + 1 :]))

    def diagonal(self, offset=0, dim1=0, dim2=1):
        if offset != 0:
            raise Unsupported("diagonal offset")
        a, b = self.ax(dim1), self.ax(dim2)
        if not same_size(self.axes[a].size, self.axes[b].size):
            raise Unsupported("diagonal of a non-square matrix")
        axes = [x for i, x in enumerate(self.axes) if i not in (a, b)] + [self.axes[a]]

        def rec(t):
            f = formals(axes)
            it = iter(f[:-1])
            return t.el([f[-1] if i in (a, b) else next(it) for i in range(len(t.axes))])

        def wb(base, body):
            new = Tensor(axes, body, base.dtype)
            g = formals(base.axes)
            c = ONE
            for x, y in zip(g[a], g[b]):
                c = c * ind(c_eq(x - y))
            v = new.el([x for i, x in enumerate(g) if i not in (a, b)] + [g[a]])
            base._write(c * v + (ONE - c) * base.body)

        return self._view(axes, rec, wb)

    def stride(self, dim=None):
        s = tuple(Stride(self, i) for i in range(len(self.axes)))
        return s if dim is None else s[dim]

    # ------------------------------------------------------------ conversion
    def _conv(self, dtype):
        b = self.body
        if dtype is self.dtype:
            return self
        if dtype.cat >= 2 and self.dtype.cat >= 2 and dtype.bits < self.dtype.bits and has_data(b):
            cur().events.append(("narrowing", self.dtype.name, dtype.name))
        widening(self, dtype)
        if dtype.cat < 3 and self.dtype.cat == 3 and not b.real:
            cur().events.append(("imag-dropped", self.dtype.name, dtype.name))
            b = poly.re(b)
        if dtype.cat < 2 and self.dtype.cat >= 2:
            raise Unsupported("conversion of reals to integers")
        return Tensor(self.axes, b, dtype)

    def type_as(self, o):
        return self._conv(o.dtype)

    def type(self, d=None):
        return self.dtype if d is None else self._conv(d)

    def to(self, *a, **k):
        d = k.get("dtype")
        for x in a:
            if isinstance(x, DType):
                d = x
            elif isinstance(x, Tensor):
                d = x.dtype
        return self if d is None else self._conv(d)

    def float(self):
        return self._conv(float32)

    def double(self):
        return self._conv(float64)

    def cpu(self):
        return self

    def cuda(self, *a):
        return self

    def contiguous(self, *a, **k):
        return Tensor(self.axes, self.body, self.dtype) if self._base is not None else self

    def clone(self, *a, **k):
        return Tensor(self.axes, self.body, self.dtype)

    def detach(self):
        if cur().gradient:
            return self._view(self.axes, lambda t: stopped(t.body), None)
        return self._view(self.axes, lambda t: t.body, lambda b, body: b._write(body))

    data = property(detach)

    def requires_grad_(self, v=True):
        self.requires_grad = v
        return self

    def item(self):
        if any(a.factors for a in self.axes):
            raise TorchError("item of a non-scalar")
        return R(stopped(self.body) if cur().gradient else self.body)

    def tolist(self):
        raise Unsupported("tolist")

    def numpy(self):
        raise Unsupported("numpy")

    def is_complex(self):
        return self.dtype.cat == 3

    def is_floating_point(self):
        return self.dtype.cat == 2

    def is_contiguous(self, *a, **k):
        raise Unsupported("is_contiguous")

    def new_zeros(self, *shape, dtype=None, **k):
        return full(_shp(shape), ZERO, dtype or self.dtype)

    def new_ones(self, *shape, dtype=None, **k):
        return full(_shp(shape), ONE, dtype or self.dtype)

    def new_empty(self, *shape, dtype=None, **k):
        n = cur().count("empty")
        return fresh("uninit%d" % n, _shp(shape), dtype or self.dtype)

    def new_full(self, shape, v, dtype=None, **k):
        return full(tuple(shape), pp(v), dtype or self.dtype)

    def uniform_(self, *a):
        n = cur().count("uniform")
        t = fresh("uniform%d" % n, self.shape, self.dtype)
        self._write(t.body)
        return self

    def fill_(self, v):
        self._write(pp(v))
        return self

    def zero_(self):
        self._write(ZERO)
        return self

    def copy_(self, o):
        self[...] = o
        return self

    # ------------------------------------------------------------ arithmetic
    def __add__(self, o):
        return binary(self, o, lambda a, b: a + b)

    def __radd__(self, o):
        return binary(self, o, lambda a, b: a + b)

    def __sub__(self, o):
        return binary(self, o, lambda a, b: a - b)

    def __rsub__(self, o):
        return binary(self, o, lambda a, b: b - a)

    def __mul__(self, o):
        return binary(self, o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return binary(self, o, _div, div=True)

    def __rtruediv__(self, o):
        return binary(self, o, lambda a, b: _div(b, a), div=True)

    def __neg__(self):
        return Tensor(self.axes, -self.body, self.dtype)

    def __pos__(self):
        return self

    def __abs__(self):
        return self.abs()

    def __pow__(self, n):
        return self.pow(n)

    def __iadd__(self, o):
        r = self + o
        self._inplace(r)
        return self

    def __isub__(self, o):
        r = self - o
        self._inplace(r)
        return self

    def __imul__(self, o):
        r = self * o
        self._inplace(r)
        return self

    def __itruediv__(self, o):
        r = self / o
        self._inplace(r)
        return self

    def add_(self, o):
        return self.__iadd__(o)

    def sub_(self, o):
        return self.__isub__(o)

    def mul_(self, o):
        return self.__imul__(o)

    def div_(self, o):
        return self.__itruediv__(o)

    def clamp_(self, min=None, max=None):
        self._inplace(self.clamp(min, max))
        return self

    def _inplace(self, r):
        if len(r.axes) != len(self.axes) or any(
            not same_size(a.size, b.size) for a, b in zip(r.axes, self.axes)
        ):
            raise TorchError("in-place result has a different shape")
        if r.dtype.cat > self.dtype.cat:
            raise TorchError("result type can't be cast in place")
        body = broadcast_el(r, self.axes)(formals(self.axes))
        self._write(body, r.dtype)

    def __matmul__(self, o):
        from .symtorch import matmul

        return matmul(self, o)

    def _cmp(self, o, name, neg=False):
        r = binary(self, o, lambda a, b: poly.fn(name, a, b))
        b = ONE - r.body if neg else r.body
        return Tensor(r.axes, b, bool_)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __ge__(self, o):
        return self._cmp(o, "lt", neg=True)

    def __gt__(self, o):
        r = binary(self, o, lambda a, b: poly.fn("lt", b, a))
        return Tensor(r.axes, r.body, bool_)

    def __le__(self, o):
        r = binary(self, o, lambda a, b: poly.fn("lt", b, a))
        return Tensor(r.axes, ONE - r.body, bool_)

    def __eq__(self, o):
        if not isinstance(o, (Tensor, int, float, I, R)):
            return NotImplemented
        r = binary(self, o, lambda a, b: poly.fn("eq", a - b))
        return Tensor(r.axes, r.body, bool_)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Tensor(r.axes, ONE - r.body, bool_)

    def __invert__(self):
        return Tensor(self.axes, ONE - self.body, bool_)

    def __and__(self, o):
        return Tensor(*_ab(binary(self, o, lambda a, b: a * b)), bool_)

    def add(self, o):
        return self + o

    def sub(self, o):
        return self - o

    def mul(self, o):
        return self * o

    def div(self, o):
        return self / o

    def matmul(self, o):
        return self @ o

    # ------------------------------------------------------------ unary
    def _un(self, f, dtype=None):
        return Tensor(self.axes, f(self.body), dtype or self.dtype)

    def conj(self):
        if self.dtype.cat != 3:
            return self
        return self._view(self.axes, lambda t: poly.conj(t.body), lambda b, body: b._write(poly.conj(body)))

    @property
    def real(self):
        if self.dtype.cat != 3:
            return self

        def wb(b, body):
            j = Poly({(): (0, 1)})
            b._write(body + j * poly.im(b.body))

        return self._view(self.axes, lambda t: poly.re(t.body), wb, dtype=to_real(self.dtype))

    @property
    def imag(self):
        if self.dtype.cat != 3:
            raise TorchError("imag is not implemented for tensors with non-complex dtypes")

        def wb(b, body):
            j = Poly({(): (0, 1)})
            b._write(poly.re(b.body) + j * body)

        return self._view(self.axes, lambda t: poly.im(t.body), wb, dtype=to_real(self.dtype))

    def abs(self):
        return self._un(poly.absval, to_real(self.dtype))

    def square(self):
        return self._un(lambda b: b * b)

    def sqrt(self):
        return self._un(poly.sqrt)

    def rsqrt(self):
        return self._un(lambda b: poly.recip(poly.sqrt(b)))

    def reciprocal(self):
        return self._un(poly.recip)

    def exp(self):
        return self._un(lambda b: poly.fn("exp", b))

    def log(self):
        return self._un(lambda b: poly.fn("log", b))

    def log10(self):
        return self._un(lambda b: poly.fn("log10", b))

    def sigmoid(self):
        return self._un(lambda b: poly.fn("sigmoid", b))

    def sgn(self):
        return self._un(lambda b: b * poly.recip(poly.absval(b)))

    def neg(self):
        return -self

    def pow(self, n):
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int):
            if n == 2:
                return self.square()
            return self._un(lambda b: poly.ppow(b, n))
        if isinstance(n, (float, R, I)):
            if isinstance(n, float) and n == 0.5:
                return self.sqrt()
            return self._un(lambda b: poly.fn("pow", b, pp(n)))
        raise Unsupported("pow")

    def clamp(self, min=None, max=None):
        r = self
        if min is not None:
            r = binary(r, min, poly.fmax)
        if max is not None:
            r = binary(r, max, poly.fmin)
        return Tensor(r.axes, r.body, r.dtype)

    def clamp_min(self, m):
        return self.clamp(min=m)

    def clip(self, min=None, max=None):
        return self.clamp(min, max)

    # ------------------------------------------------------------ reductions
    def _red_dims(self, dim):
        if dim is None:
            return list(range(len(self.axes)))
        ds = dim if isinstance(dim, (tuple, list)) else (dim,)
        return [self.ax(d) for d in ds]

    def _reduce(self, ds, keepdim, f, dtype=None):
        axes = []
        for i, a in enumerate(self.axes):
            if i in ds:
                if keepdim:
                    axes.append(Axis(()))
            else:
                axes.append(a)
        out = formals(axes)
        idx, vs, j = [], [], 0
        for i, a in enumerate(self.axes):
            if i in ds:
                t = tuple(fresh_var(s) for s in a.factors)
                vs += list(zip(t, a.factors))
                idx.append(tuple(ip(v) for v in t))
                if keepdim:
                    j += 1
            else:
                idx.append(out[j])
                j += 1
        body = f(vs, self.el(idx))
        return named(Tensor(axes, body, dtype or self.dtype), NAME_RESULT)

    def sum(self, dim=None, keepdim=False, axis=None, dtype=None):
        dim = axis if dim is None else dim
        d = self.dtype if self.dtype.cat else int64
        return self._reduce(self._red_dims(dim), keepdim, msum, d)

    def mean(self, dim=None, keepdim=False, axis=None):
        dim = axis if dim is None else dim
        ds = self._red_dims(dim)
        n = ints.ONE
        for d in ds:
            n = n * self.axes[d].size
        return self._reduce(ds, keepdim, lambda vs, b: msum(vs, b) / pp(n))

    def norm(self, p=None, dim=None, keepdim=False):
        if p not in (None, 2, "fro"):
            raise Unsupported("norm order %r" % (p,))
        return self._reduce(
            self._red_dims(dim), keepdim,
            lambda vs, b: poly.sqrt(msum(vs, b * poly.conj(b))), to_real(self.dtype),
        )

    def _extreme(self, dim, keepdim, sign):
        def f(vs, b):
            b = b if sign > 0 else -b
            r = amax(vs, b)
            return r if sign > 0 else -r

        if dim is None:
            return self._reduce(self._red_dims(None), False, f)
        r = self._reduce(self._red_dims(dim), keepdim, f)
        return MinMax(r, OpaqueIndices())

    def max(self, dim=None, keepdim=False, axis=None):
        return self._extreme(axis if dim is None else dim, keepdim, 1)

    def min(self, dim=None, keepdim=False, axis=None):
        return self._extreme(axis if dim is None else dim, keepdim, -1)

    def amax(self, dim=None, keepdim=False):
        if dim is None:
            return self._extreme(None, False, 1)
        ds = self._red_dims(dim)
        return self._reduce(ds, keepdim, lambda vs, b: amax(vs, b))

    def _bool_fold(self, dim, keepdim, join):
        """any / all along one dimension of small constant size, element by element"""
        if dim is None or isinstance(dim, (tuple, list)):
            return None
        d = self.ax(dim)
        n = self.axes[d].size
        if not n.is_const() or int(n.const()) > 4:
            return None
        ts = [self.select(d - len(self.axes), i) for i in range(int(n.const()))]
        b = ts[0].body
        for t in ts[1:]:
            b = join(b, t.body)
        r = Tensor(ts[0].axes, b, bool_)
        return r.unsqueeze(d - len(self.axes)) if keepdim else r

    def any(self, dim=None, keepdim=False):
        if self.dtype is not bool_:
            raise Unsupported("any of a tensor that is not boolean")
        r = self._bool_fold(dim, keepdim, lambda a, b: a + b - a * b)
        if r is not None:
            return r
        r = self.amax(dim, keepdim)
        return Tensor(r.axes, r.body, bool_)

    def all(self, dim=None, keepdim=False):
        if self.dtype is not bool_:
            raise Unsupported("all of a tensor that is not boolean")
        r = self._bool_fold(dim, keepdim, lambda a, b: a * b)
        if r is not None:
            return r
        n = Tensor(self.axes, poly.ONE - self.body, float32)
        r = n.amax(dim, keepdim)
        return Tensor(r.axes, poly.ONE - r.body, bool_)

    def __getattr__(self, name):
        raise Unsupported("Tensor.%s" % name) if not name.startswith("__") else AttributeError(name)


def _ab(t):
    return t.axes, t.body


class OpaqueIndices:
    pass


class MinMax(tuple):
    def __new__(cls, values, indices):
        t = tuple.__new__(cls, (values, indices))
        t.values = values
        t.indices = indices
        return t


class Stride:
    def __init__(self, t, i):
        self.t, self.i = t, i


amax = poly.amax


def _div(a, b):
    if b.is_zero():
        cur().events.append(("division-by-zero",))
        n = cur().count("div0")
        return poly.pa(poly.atom("rv", "div0_%d" % n))
    return a * poly.recip(b)


def _shp(shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        return tuple(shape[0])
    return tuple(shape)


def full(shape, body, dtype):
    axes = [axis_of(s) for s in shape]
    for a in axes:
        if not a.pack and cur().entails(c_ge(a.size)) is False:
            raise TorchError("negative dimension")
    return Tensor(axes, body, dtype)


def stopped(body):
    """the value without gradient (see poly.stop)"""
    r = poly.stop(body)
    for n, m in poly._STOPPED.items():
        if m in cur().el_axes:
            cur().el_axes.setdefault(n, cur().el_axes[m])
    return r


def fresh(name, shape, dtype):
    """an uninterpreted tensor"""
    axes = [axis_of(s) for s in shape]
    idx = tuple(i for f in formals(axes) for i in f)
    cj = 0 if dtype.cat == 3 else 2
    cur().el_axes[name] = tuple(s for a in axes for s in a.factors)
    return Tensor(axes, poly.pa(poly.atom("el", name, cj, idx)), dtype)


# ---------------------------------------------------------------- broadcasting
def broadcast_axes(list_of_axes):
    n = max(len(a) for a in list_of_axes)
    packs = [a for a in list_of_axes if a and a[0].pack]
    out = []
    if packs:
        # the pack must be the leading axis; other operands may not reach beyond it
        n = max(len(a) for a in packs)
        for a in list_of_axes:
            if not (a and a[0].pack) and len(a) > n - 1:
                # ordinary leading axes line up with the variadic batch
                if True:
                    raise Unsupported("explicit axes broadcast against the variadic batch")
            if a and a[0].pack and len(a) != n:
                raise Unsupported("variadic batches at different depths")
    for i in range(n):
        cands = []
        for a in list_of_axes:
            j = len(a) - n + i
            if j >= 0:
                cands.append(a[j])
        cur_ax = cands[0]
        for c in cands[1:]:
            cur_ax = unify_axis(cur_ax, c)
        out.append(cur_ax)
    return out


def unify_axis(a, b):
    if not a.factors:
        return Axis(b.factors, a.pack or b.pack) if b.factors or a.pack or b.pack else a
    if not b.factors:
        return Axis(a.factors, a.pack or b.pack)
    if a.pack != b.pack:
        raise Unsupported("variadic batch against an ordinary axis")
    if a.factors == b.factors:
        return a
    if same_size(a.size, b.size):
        return a if len(a.factors) >= len(b.factors) else b
    ca = cur()
    if bool(a.dim() == b.dim()):
        return a if len(a.factors) >= len(b.factors) else b
    if bool(a.dim() == 1):
        return b
    if bool(b.dim() == 1):
        return a
    raise TorchError("The size of tensor a (%r) must match the size of tensor b (%r)" % (a.size, b.size))


def conv_index(idx, src, dst):
    """index tuple of axis `src` (given as tuple of factor indices `idx` of axis dst)"""
    if src.factors == dst.factors:
        return idx
    if not src.factors:
        return ()
    if len(src.factors) == len(dst.factors) and all(
        same_size(p, q) for p, q in zip(src.factors, dst.factors)
    ):
        return idx
    if not same_size(src.size, dst.size):
        # broadcast of a size known to be one on this path
        return tuple(ints.ZERO for _ in src.factors)
    k = lin(idx, dst.factors)
    if len(src.factors) == 1:
        return (k,)
    out = []
    for f in reversed(src.factors[1:]):
        out.append(ints.imod(k, f))
        k = ints.idiv(k, f)
    out.append(k)
    return tuple(reversed(out))


def broadcast_el(t, axes):
    """function from index over `axes` to the element of t broadcast to axes"""
    n, m = len(axes), len(t.axes)
    if m > n:
        extra = t.axes[: m - n]
        if any(a.factors for a in extra):
            raise TorchError("shape mismatch in broadcast")

    def f(idx):
        out = []
        for i, a in enumerate(t.axes):
            j = n - m + i
            if j < 0:
                out.append(())
                continue
            if not a.factors:
                out.append(())
            else:
                if not axes[j].factors:
                    if cur().entails(c_eq(a.size - 1)) is not True:
                        raise TorchError("shape mismatch in broadcast")
                    out.append(tuple(ints.ZERO for _ in a.factors))
                    continue
                if not same_size(a.size, axes[j].size) and cur().entails(c_eq(a.size - 1)) is not True:
                    raise TorchError(
                        "shape mismatch: value of size %r in a slot of size %r" % (a.size, axes[j].size)
                    )
                out.append(conv_index(idx[j], a, axes[j]))
        return t.el(out)

    return f


def is_scalar(o):
    return isinstance(o, (int, float, complex, I, R, bool))


def binary(a, b, f, div=False):
    if is_scalar(b):
        d = scalar_dtype(a.dtype, b)
        if div and d.cat < 2:
            d = float32
        return Tensor(a.axes, f(a.body, pp(b)), d)
    if not isinstance(b, Tensor):
        raise Unsupported("operand %r" % (type(b),))
    # dimension-0 tensors do not promote within a category
    da, db = a.dtype, b.dtype
    if not a.axes and b.axes and da.cat <= db.cat:
        d = db
    elif not b.axes and a.axes and db.cat <= da.cat:
        d = da
    else:
        d = promote(da, db)
    if div and d.cat < 2:
        d = float32
    widening(a, d)
    widening(b, d)
    axes = broadcast_axes([a.axes, b.axes])
    idx = formals(axes)
    return Tensor(axes, f(broadcast_el(a, axes)(idx), broadcast_el(b, axes)(idx)), d)


# ---------------------------------------------------------------- index plans
def _is_intlike(k):
    return isinstance(k, (int, I)) and not isinstance(k, bool)


def _is_advanced(key):
    ks = key if isinstance(key, tuple) else (key,)
    return any(isinstance(k, (list, Tensor)) for k in ks)


def norm_slice(s, size):
    """(start, length, step) of a python slice over an axis of the given size"""
    step = 1 if s.step is None else int(s.step)
    if step <= 0:
        raise TorchError("step must be greater than zero")
    n = mki(size)

    def nrm(v, default):
        if v is None:
            return default
        if bool(v < 0):
            v = n + v
            if bool(v < 0):
                v = 0
        if bool(v > n):
            v = n
        return v

    start = nrm(s.start, 0)
    stop = nrm(s.stop, n)
    if bool(stop < start):
        stop = start
    length = stop - start
    if step != 1:
        length = (length + (step - 1)) // step
    return ip(start), ip(length), step


def _index_plan(t, key):
    """basic indexing: result axes, map result-index -> source index, and its inverse"""
    key = key if isinstance(key, tuple) else (key,)
    n_cons = sum(1 for k in key if k is not None and k is not Ellipsis)
    if not any(k is Ellipsis for k in key):
        if t.has_pack() and any(k is not None and not (isinstance(k, slice) and k == slice(None)) for k in key):
            raise Unsupported("left-anchored indexing of a tensor with variadic batch")
        key = key + (Ellipsis,)
    navail = len(t.axes)
    if n_cons > navail - (1 if t.has_pack() else 0):
        if t.has_pack():
            raise Unsupported("index reaches the variadic batch")
        raise TorchIndexError("too many indices for tensor of dimension %d" % navail)
    # expand the ellipsis
    exp = []
    for k in key:
        if k is Ellipsis:
            exp += [slice(None)] * (navail - n_cons)
        else:
            exp.append(k)
    axes = []
    plan = []  # per source axis: ('int', poly) | ('slice', start, step, outpos) | ('id', outpos)
    src = 0
    for k in exp:
        if k is None:
            axes.append(Axis(()))
            continue
        a = t.axes[src]
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                plan.append(("id", len(axes)))
                axes.append(a)
            else:
                if a.pack:
                    raise Unsupported("slice of the variadic batch")
                start, length, step = norm_slice(k, a.size)
                if len(a.factors) > 1:
                    if start.is_const() and start.const() == 0 and same_size(length, a.size):
                        plan.append(("id", len(axes)))
                        axes.append(a)
                        src += 1
                        continue
                    raise Unsupported("slice of a flattened axis")
                plan.append(("slice", start, step, len(axes), length))
                axes.append(Axis((length,)))
        elif _is_intlike(k):
            n = a.dim()
            if bool(k < 0):
                k = n + k
                if bool(k < 0):
                    raise TorchIndexError("index out of range")
            if not bool(k < n):
                raise TorchIndexError("index out of range")
            if len(a.factors) > 1:
                raise Unsupported("integer index of a flattened axis")
            plan.append(("int", ip(k)))
        else:
            raise Unsupported("index %r" % (k,))
        src += 1

    def mapping(idx):
        out = []
        for (p, a) in zip(plan, t.axes):
            if p[0] == "id":
                out.append(idx[p[1]])
            elif p[0] == "int":
                out.append((p[1],) if a.factors else ())
            else:
                i = idx[p[3]][0] if idx[p[3]] else ints.ZERO
                out.append((p[1] + i * p[2],) if a.factors else ())
        return out

    def inverse(fs):
        """fs: index over t.axes -> (conditions, index over result axes)"""
        conds = []
        out = [()] * len(axes)
        for p, a, f in zip(plan, t.axes, fs):
            if p[0] == "id":
                out[p[1]] = f
            elif p[0] == "int":
                if a.factors:
                    conds.append(c_eq(f[0] - p[1]))
            else:
                if not a.factors:
                    continue
                i = f[0] - p[1]
                if p[2] != 1:
                    conds.append(c_eq(ints.imod(i, p[2])))
                    i = ints.idiv(i, p[2])
                conds.append(c_ge(f[0] - p[1]))
                conds.append(c_ge(p[4] - 1 - i))
                out[p[3]] = (i,) if axes[p[3]].factors else ()
        return conds, out

    return axes, mapping, inverse


def _reshape_plan(t, shape):
    old = []  # flattened factors
    for ai, a in enumerate(t.axes):
        for j, f in enumerate(a.factors):
            old.append((f, ai, j, a.pack))
    shape = list(shape)
    neg = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if len(neg) > 1:
        raise TorchError("only one dimension can be inferred")
    # walk from the right consuming factors until the -1, then from the left
    groups = [None] * len(shape)
    lo, hi = 0, len(old)

    def eat_right(i):
        nonlocal hi
        want = ip(shape[i])
        g = []
        prod_ = ints.ONE
        while True:
            if same_size(prod_, want):
                # absorb nothing more
                break
            if hi <= lo:
                return None
            hi -= 1
            g.insert(0, hi)
            prod_ = old[hi][0] * prod_
            if len(g) > 6:
                return None
        return g

    def eat_left(i):
        nonlocal lo
        want = ip(shape[i])
        g = []
        prod_ = ints.ONE
        while not same_size(prod_, want):
            if lo >= hi:
                return None
            g.append(lo)
            prod_ = prod_ * old[lo][0]
            lo += 1
            if len(g) > 6:
                return None
        return g

    ok = True
    stop = neg[0] if neg else -1
    for i in range(len(shape) - 1, stop, -1):
        g = eat_right(i)
        if g is None:
            ok = False
            break
        groups[i] = g
    if ok and neg:
        for i in range(stop):
            g = eat_left(i)
            if g is None:
                ok = False
                break
            groups[i] = g
        if ok:
            groups[stop] = list(range(lo, hi))
            lo = hi
    if ok and lo != hi:
        ok = False
    if ok:
        axes = []
        for i, g in enumerate(groups):
            pk = len(g) == 1 and isinstance(shape[i], PackDim)
            if isinstance(shape[i], PackDim) and not pk:
                raise Unsupported("reshape of the variadic batch")
            axes.append(Axis(tuple(old[k][0] for k in g), pack=pk))

        def mapping(idx):
            out = [[None] * len(a.factors) for a in t.axes]
            for i, g in enumerate(groups):
                for j, k in enumerate(g):
                    out[old[k][1]][old[k][2]] = idx[i][j]
            return [tuple(o) for o in out]

        return axes, mapping
    # general case: equal leading and trailing sizes map one to one, the middle through
    # the row-major linear index
    pre = suf = 0
    while pre < len(old) and pre < len(shape) and pre not in neg and isinstance(shape[pre], PackDim) == old[pre][3] and same_size(old[pre][0], ip(shape[pre])):
        pre += 1
    while suf < len(old) - pre and suf < len(shape) - pre and (len(shape) - 1 - suf) not in neg and not old[-1 - suf][3] and not isinstance(
            shape[-1 - suf], PackDim) and same_size(old[-1 - suf][0], ip(shape[-1 - suf])):
        suf += 1
    mid = list(range(pre, len(old) - suf))
    smid = list(range(pre, len(shape) - suf))
    if any(old[q][3] for q in mid) or any(isinstance(shape[i], PackDim) for i in smid):
        raise Unsupported("general reshape with variadic batch")
    total = ints.ONE
    for q in mid:
        total = total * old[q][0]
    axes = [None] * len(shape)
    for i in range(pre):
        axes[i] = Axis((old[i][0],), pack=old[i][3])
    for i in range(suf):
        axes[len(shape) - 1 - i] = Axis((old[-1 - i][0],))
    known = ints.ONE
    for i in smid:
        if i not in neg:
            known = known * ip(shape[i])
    for i in smid:
        axes[i] = Axis((ints.exact_div(total, known) if i in neg else ip(shape[i]),))
    tot2 = ints.ONE
    for i in smid:
        tot2 = tot2 * axes[i].size
    if not same_size(total, tot2):
        if not bool(mki(total) == mki(tot2)):
            raise TorchError("shape is invalid for input of this size")

    def mapping(idx):
        k = ints.ZERO
        for i in smid:
            for f, j in zip(axes[i].factors, idx[i]):
                k = k * f + j
        flat = [None] * len(old)
        for i in range(pre):
            flat[i] = idx[i][0]
        for i in range(suf):
            flat[len(old) - 1 - i] = idx[len(shape) - 1 - i][0]
        for q in reversed(mid[1:]):
            flat[q] = ints.imod(k, old[q][0])
            k = ints.idiv(k, old[q][0])
        if mid:
            flat[mid[0]] = k
        out = [[None] * len(a.factors) for a in t.axes]
        for q, o in enumerate(old):
            out[o[1]][o[2]] = flat[q]
        return [tuple(o) for o in out]

    return axes, mapping
