"""Specification functions shared by the contracts (not taken from the code)."""
from vt import ints, poly
from vt.ints import ip, c_ge
from vt.loader import Plan
from vt.poly import Unsupported
from vt.tensor import Tensor, Axis, axis_of, formals, same_size, fresh
from vt import tensor as tz


def lagged(S, X, taps, delay):
    """X_bar[..., c, f, t, n] = X[..., c, f, n - lag(t)] with lag(t) = delay + taps - t,
    zero before the start of the signal"""
    T = S.T
    if not S.sym:
        out = X.new_zeros(X.shape[:-1] + (taps, X.shape[-1]))
        for t in range(taps):
            lag = delay + taps - t
            if lag < X.shape[-1]:
                out[..., t, lag:] = X[..., : X.shape[-1] - lag]
        return out
    axes = list(X.axes[:-1]) + [axis_of(taps), X.axes[-1]]
    f = formals(axes)
    t = f[-2][0] if f[-2] else ints.ZERO
    n = f[-1][0] if f[-1] else ints.ZERO
    k = n - (ip(delay) + ip(taps) - t)
    body = poly.ind(c_ge(k)) * X.el(f[:-2] + [(k,)])
    return Tensor(axes, body, X.dtype)


def demix(S, X, Xbar, W, H):
    """Y = W X - H X_bar, W (..., s, f, c), H (..., s, f, c, t)"""
    Y = S.T.einsum("...sfc,...cfn->...sfn", W, X)
    if H is None or (not S.sym and H.shape[-1] == 0):
        return Y
    return Y - S.T.einsum("...sfct,...cftn->...sfn", H, Xbar)


def power(X):
    return (X * X.conj()).real


def ls_general(S, A, b, load=1e-5, eps=1e-5):
    """minimiser of the row-normalised regularised least squares |A x - b|^2; the normalisation
    does not change the solution and is not differentiated"""
    T = S.T
    w = 1.0 / T.clamp(T.sqrt(power(A.detach()).sum(dim=-1, keepdim=True)), min=eps)
    Aw, bw = A * w, b * w
    n = A.shape[-1]
    G = T.einsum("...km,...kn->...mn", Aw.conj(), Aw) + load * S.eye(n, dtype=A.dtype)
    return T.linalg.solve(G, T.einsum("...km,...kn->...mn", Aw.conj(), bw))


def solvable(S, A, eps=1e-5):
    """the regularisation of ls_general does not matter (concrete values)"""
    T = S.T
    w = 1.0 / T.clamp(T.sqrt(power(A).sum(dim=-1, keepdim=True)), min=eps)
    return float(T.linalg.svdvals(A * w)[..., -1].min()) > 0.1 and float(T.linalg.cond(A).max()) < 20


def loaded(S, A, load):
    T = S.T
    lam = T.clamp(load * A.abs().amax(dim=(-2, -1), keepdim=True), min=load)
    return A + lam * S.eye(A.shape[-1], dtype=A.dtype)


def herm(A):
    return A.conj().transpose(-2, -1)


def background(S, W, H, X, Xbar, n_src, eps):
    """J (..., b, f, s) such that the background J X1 - X2 is uncorrelated with the
    sources Y = W X - H X_bar (regularised)"""
    T = S.T
    N = X.shape[-1]
    CX = T.einsum("...cfn,...dfn->...fcd", X, X.conj()) / N
    A = T.einsum("...sfc,...fcd->...fsd", W, CX)
    if H is not None and (S.sym or H.shape[-1] > 0):
        CB = T.einsum("...cftn,...dfn->...fctd", Xbar, X.conj()) / N
        A = A - T.einsum("...sfct,...fctd->...fsd", H, CB)
    M, R = A[..., :n_src], A[..., n_src:]
    JH = ls_general(S, M, R, load=eps, eps=eps)
    return JH.conj().moveaxis(-1, -3)


def pb_matrix(S, W, J, n_src, n_chan, ref):
    """(lhs, rhs) of the projection back equations lhs a = rhs, per frequency"""
    T = S.T
    if J is not None:
        B = W[..., :n_src] + T.einsum("...sfb,...bfk->...sfk", W[..., n_src:], J)
        lhs = T.einsum("...sfk->...fks", B)
        if bool(ref < n_src):
            rhs = S.eye(n_src, dtype=W.dtype)[:, [ref]]
        else:
            rhs = J[..., ref - n_src, :, :][..., None]
    else:
        lhs = T.einsum("...sfk->...fks", W)
        rhs = S.eye(n_src, dtype=W.dtype)[:, [ref]]
    return lhs, rhs


def sizes_match(t, sizes):
    if not isinstance(t, Tensor) or len(t.axes) < len(sizes):
        return False
    return all(same_size(a.size, ip(s)) for a, s in zip(t.axes[len(t.axes) - len(sizes):], sizes))


def well_posed(S, f, X, amp=1e4):
    """reference result f(X) (a tuple of tensors); samples where the textbook iteration
    itself amplifies rounding errors are rejected (not a statement about the code)"""
    from vt.harness import Reject

    T = S.T
    a = f(X)
    d = 1e-9
    noise = T.randn(X.shape, generator=S.g, dtype=T.float64) + 1j * T.randn(X.shape, generator=S.g, dtype=T.float64)
    b = f(X * (1 + d * noise.to(X.dtype)))
    for x, y in zip(a, b):
        if x is None or x.numel() == 0:
            continue
        m = float(x.abs().max())
        if not (m < 1e8) or float((x - y).abs().max()) > amp * d * (m + 1e-3):
            raise Reject()
    return a
