"""Contracts of WPE (C07)."""
from vt.harness import contract, ModuleLike
from vt.loader import Plan
from vt.poly import Unsupported
from vt.tensor import Tensor, fresh
from vt import tensor as tz

from .common import *

FN = ["torchiva.wpe." + x for x in ("WPE.forward", "wpe_one_iter", "wpe_default_weights", "derev")] + [
    "torchiva.linalg." + x for x in ("hankel_view", "mag_sq", "solve_loaded")] + ["torchiva.base.DRBSSBase._set_params"]


def frame_model(S):
    if S.sym:
        return FrameModel(S)
    import torch

    class M(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.f = FrameModel(S)

        def forward(self, Y):
            return self.f(Y)

    return M()


class FrameModel(ModuleLike):
    """weights (..., f, n) from an estimate (..., c, f, n): arbitrary positive function"""

    def __init__(self, S):
        self.S, self.inner = S, S.model("frame model")

    def reset(self):
        self.inner.reset()

    def parameters(self, recurse=True):
        return self.inner.parameters()

    def __call__(self, Y):
        if self.S.sym:
            return self.inner(Y)[..., 0, :, :].clone()
        return self.inner(Y).mean(dim=-3)

    def __bool__(self):
        return True


def weights(S, P, Y):
    T = S.T
    if P.model is not None:
        return P.model(Y)
    w = 1.0 / T.clamp(power(Y).mean(dim=-3), min=P.eps)
    return w / w.sum(dim=-1, keepdim=True)


def filt(S, P, X, Xbar, w):
    """prediction filter: minimiser of the weighted prediction error (loaded)"""
    T = S.T
    L = P.C * P.taps
    R = T.einsum("...fn,...cftn,...dfun->...fctdu", w, Xbar, Xbar.conj()).reshape(P.batch + (P.F, L, L))
    r = T.einsum("...fn,...cftn,...sfn->...fcts", w, Xbar, X.conj()).reshape(P.batch + (P.F, L, P.C))
    return T.linalg.solve(loaded(S, R, P.eps), r).reshape(P.batch + (P.F, P.C, P.taps, P.C))


def apply(S, H, X, Xbar):
    return X - S.T.einsum("...fcts,...cftn->...sfn", H.conj(), Xbar)


class Problem:
    def __init__(self, S):
        self.S = S
        self.batch = S.batch()
        self.C, self.F, self.N = S.size("n_chan"), S.size("n_freq"), S.size("n_frames")
        self.taps, self.delay = S.size("n_taps", 1), S.size("n_delay", 0)
        if not S.sym:
            self.N += S.rng.choice([4, 9, 25])
        self.X = S.cplx("X", self.batch + (self.C, self.F, self.N))
        self.model = frame_model(S) if S.choose("model", ["default", "given"]) == "given" else None
        self.eps = S.eps("eps")


class WPEPlan(Plan):
    """invariant: the estimate is the input minus a linear prediction from the delayed input"""

    def __init__(self, P, loop):
        self.P = P
        self.names = [n for n, v in loop.entry.items() if isinstance(v, Tensor) and sizes_match(v, (P.C, P.F, P.N)) and v.dtype.cat == 3]
        if len(self.names) != 1 or loop.parent is not None:
            raise Unsupported("loop not recognised at %s" % loop.site)

    def entry(self, loop):
        P = self.P
        P.S.eq("initial estimate is the input", loop.entry[self.names[0]], P.X)

    def state(self, loop, i):
        P = self.P
        P.H = fresh("H@%d" % loop.c.count("state"), P.batch + (P.F, P.C, P.taps, P.C), P.X.dtype)
        self.cur = apply(P.S, P.H, P.X, P.Xbar)
        return {self.names[0]: self.cur}

    def step(self, loop, i, end):
        P, S = self.P, self.P.S
        H = filt(S, P, P.X, P.Xbar, weights(S, P, self.cur))
        S.eq("one iteration: weighted prediction error minimised", end[self.names[0]], apply(S, H, P.X, P.Xbar))

    def final(self, loop):
        return self.state(loop, None)


@contract("C07", "WPE update rule", FN, modes="sym", views=("C09", "C10", "C17"), weight=5,
          assumes=["the weights of a user model are an arbitrary positive function of the current estimate"])
def wpe_sym(S):
    P = Problem(S)
    P.Xbar = lagged(S, P.X, P.taps, P.delay)
    n_iter = S.size("n_iter", 0)
    S.loops(lambda loop: WPEPlan(P, loop))
    Y = S.call(S.mod("wpe").WPE, P.X, n_iter=n_iter, n_delay=P.delay, n_taps=P.taps, model=P.model, eps=P.eps)[1]
    S.shape("output shape", Y, P.batch + (P.C, P.F, P.N))
    S.dtype("output dtype", Y, P.X.dtype)
    if bool(n_iter == 0):
        S.eq("no iteration: the input", Y, P.X)
    else:
        S.eq("output is the input minus a prediction from frames at least the delay earlier", Y, apply(S, P.H, P.X, P.Xbar))
    S.unchanged()


@contract("C07", "WPE of one iteration", FN, modes="sym", weight=4)
def wpe_one(S):
    """the public call with one iteration, from the definition"""
    P = Problem(S)
    P.Xbar = lagged(S, P.X, P.taps, P.delay)
    Y = S.mod("wpe").WPE(n_iter=1, n_delay=P.delay, n_taps=P.taps, model=P.model, eps=P.eps)(P.X)
    H = filt(S, P, P.X, P.Xbar, weights(S, P, P.X))
    S.eq("one iteration", Y, apply(S, H, P.X, P.Xbar))


def ref_wpe(S, P, X, n_iter):
    Xbar = lagged(S, X, P.taps, P.delay)
    Y = X
    for _ in range(n_iter):
        H = filt(S, P, X, Xbar, weights(S, P, Y))
        Y = apply(S, H, X, Xbar)
    return (Y,)


@contract("C07", "WPE against the textbook reference", FN, modes="con", weight=4, trials=80)
def wpe_concrete(S):
    T = S.T
    P = Problem(S)
    X = P.X + 0.5 * P.X.roll(1, -3) + 0.4 * P.X.roll(1, -1)
    if S.choose("special", ["none"] * 5 + ["silent frames"]) == "silent frames":
        X = X.clone()
        X[..., : min(3, P.N - 1)] = 0
    P.X = S.owned(X, "X")
    P.eps = S.choose("epsilon", [1e-5, 1e-3, 1e-2])
    n_iter = S.choose("n_iter", [0, 1, 1, 2, 3])
    Yr = well_posed(S, lambda X: ref_wpe(S, P, X, n_iter), P.X)[0]
    W = S.mod("wpe").WPE
    if S.choose("parameters", ["constructor", "call"]) == "constructor":
        Y = W(n_iter=n_iter, n_delay=P.delay, n_taps=P.taps, model=P.model, eps=P.eps)(P.X)
    else:
        Y = W(n_iter=9, n_delay=5, n_taps=7)(P.X, n_iter=n_iter, n_delay=P.delay, n_taps=P.taps, model=P.model, eps=P.eps)
    S.shape("output shape", Y, P.batch + (P.C, P.F, P.N))
    S.dtype("dtype", Y, S.c128)
    S.eq("dereverberated signal", Y, Yr, tol=1e-7)
    k = min(P.delay + 1, P.N)
    S.eq("the first frames cannot be predicted", Y[..., :k], P.X[..., :k])
    S.unchanged()
