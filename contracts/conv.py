"""Contracts of fftconvolve (C18) and select_most_energetic (C19)."""
from vt.harness import contract
from vt import ints, poly
from vt.ints import ip, c_ge
from vt.tensor import Tensor, Axis, axis_of, formals, broadcast_axes, conv_index

FC = ["torchiva.fftconvolve.fftconvolve"]


def full(S, x, h):
    """y[m] = sum_k x[k] h[m - k], m = 0 .. n1 + n2 - 2 (last axis)"""
    T = S.T
    n1, n2 = x.shape[-1], h.shape[-1]
    if not S.sym:
        y = T.zeros(T.broadcast_shapes(x.shape[:-1], h.shape[:-1]) + (n1 + n2 - 1,), dtype=x.dtype)
        for k in range(n1):
            y[..., k : k + n2] += x[..., k : k + 1] * h
        return y
    axes = list(x.axes[:-1]) + [axis_of(n1 + n2 - 1)]
    f = formals(axes)
    m = f[-1][0] if f[-1] else ints.ZERO
    v = poly.fresh_var(x.axes[-1].size)
    j = m - ip(v)
    n2p = h.axes[-1].size
    b = [conv_index(g, a, c) for g, a, c in zip(f[:-1], h.axes[:-1], axes[:-1])]
    t = x.el(f[:-1] + [(ip(v),)]) * h.el(b + [(j,)]) * poly.ind(c_ge(j)) * poly.ind(c_ge(n2p - 1 - j))
    return Tensor(axes, poly.msum([(v, x.axes[-1].size)], t), x.dtype)


@contract("C18", "fftconvolve", FC, trials=200,
          assumes=["torch.fft: the inverse transform of the product of the n-point transforms of two sequences is their circular convolution"])
def conv(S):
    T = S.T
    b = S.batch()
    n1, n2 = S.size("n1"), S.size("n2")
    if not S.sym:
        n1, n2 = n1 + S.rng.choice([0, 0, 5, 30]), n2 + S.rng.choice([0, 0, 5, 30])
    x, h = S.real("x", b + (n1,)), S.real("h", b + (n2,))
    mode = S.choose("mode", ["default", "full", "same", "valid"])
    f = S.fn("fftconvolve", "fftconvolve")
    other = len(b) > 0 and S.choose("axis", ["last", "other"]) == "other"
    kw = {} if mode == "default" else {"mode": mode}
    if other and not S.sym:
        y = f(x.transpose(0, -1).contiguous(), h.transpose(0, -1).contiguous(), dim=0, **kw).transpose(0, -1)
    else:
        y = f(x, h, **kw)
    ref = full(S, x, h)
    n = n1 + n2 - 1
    if mode in ("default", "full"):
        lo, m = 0, n
    elif mode == "same":
        m = n1
        lo = (n - m) // 2
    else:
        # overlap complete: |n1 - n2| + 1 samples
        big = n1 >= n2
        if bool(big):
            m = n1 - n2 + 1
        else:
            m = n2 - n1 + 1
        lo = (n - m) // 2
    S.shape("length for mode %s" % mode, y, b + (m,))
    S.eq("linear convolution (%s)" % mode, y, ref[..., lo : lo + m], tol=1e-6)
    S.dtype("dtype", y, S.f64)
    S.unchanged()


@contract("C18", "fftconvolve rejects unknown modes", FC)
def conv_bad(S):
    b = S.batch()
    x, h = S.real("x", b + (S.size("n1"),)), S.real("h", b + (S.size("n2"),))
    S.raises("unknown mode raises ValueError", ValueError, lambda: S.fn("fftconvolve", "fftconvolve")(x, h, mode="circular"))


# ------------------------------------------------------------------ selection
SM = ["torchiva.utils.select_most_energetic"]


@contract("C19", "select_most_energetic", SM, trials=200,
          assumes=["torch.argsort returns the sorting permutation (assumed contract)"])
def select(S):
    T = S.T
    b, C, N = S.batch(), S.size("channels"), S.size("samples")
    num = S.size("num", 1, C + 1)
    cp = S.choose("complex", [False, True])
    x = (S.cplx if cp else S.real)("x", b + (C, N))
    lay = S.choose("layout", ["channels first", "channels last", "default"])
    f = S.fn("utils", "select_most_energetic")
    if lay == "default":
        y = f(x, num)
    elif lay == "channels first":
        y = f(x, num, dim=-2, dim_reduc=-1)
    else:
        y = f(x.transpose(-1, -2), num, dim=-1, dim_reduc=-2).transpose(-1, -2)
    S.shape("shape", y, b + (num, N))
    S.dtype("dtype", y, x.dtype)
    p = (x * x.conj()).real.mean(dim=-1) if cp else (x * x).mean(dim=-1)
    if S.sym:
        o = T.argsort(p, dim=-1, descending=True)[..., :num]
        S.eq("the channels in the order of decreasing power", y, T.gather(x, -2, o[..., None].expand(b + (num, N))))
    else:
        q = (y * y.conj()).real.mean(dim=-1) if cp else (y * y).mean(dim=-1)
        s = T.sort(p, dim=-1, descending=True).values[..., :num]
        S.eq("the largest powers in decreasing order", q, s)
        # every output is one of the inputs, none twice
        eq = (y[..., :, None, :] == x[..., None, :, :]).all(dim=-1)
        S.true("every output is an input channel", bool(eq.any(dim=-1).all()))
        if bool((p[..., :, None] - p[..., None, :] + T.eye(C)).abs().min() > 1e-12):
            S.true("no channel twice", bool((eq.sum(dim=-2) <= 1).all()))
    S.unchanged()
