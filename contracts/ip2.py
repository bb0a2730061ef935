"""Contracts of AuxIVA with pairwise iterative projection (C05 update rule, C03 projection back)."""
from vt.harness import contract
from vt.loader import Plan
from vt.poly import Unsupported
from vt.tensor import Tensor, fresh, same_size
from vt.ints import ip

from .common import *

FN = ["torchiva.auxiva_ip2." + x for x in ("AuxIVA_IP2.forward", "spatial_model_update_ip2")] + [
    "torchiva.linalg." + x for x in ("mag_sq", "divide", "hermite", "inv_2x2", "eigh_2x2")] + [
    "torchiva.base.DRBSSBase._set_params", "torchiva.base.DRBSSBase._reset"]
MODEL_ASSUME = ["the source model is an arbitrary real function of the current estimate with an output of the same shape"]
GEV_ASSUME = ["the generalized eigenvectors of 2x2 matrices are those of the contract of C14 (callee contract)"]


def weighted_cov(S, X, w):
    """V (..., f, c, d) = average of w X X^H, Hermitian"""
    V = S.T.einsum("...fn,...cfn,...dfn->...fcd", w, X, X.conj()) / X.shape[-1]
    return 0.5 * (V + herm(V))


def update(S, X, w, eps):
    """the pair of demixing vectors: generalized eigenvectors of (V_1, V_0), largest
    eigenvalue first, each with unit weighted output power; rows of W"""
    T = S.T
    V0, V1 = weighted_cov(S, X, w[..., 0, :, :]), weighted_cov(S, X, w[..., 1, :, :])
    _, E = S.fn("linalg", "eigh_2x2")(V1, V0, eps=eps)
    rows = []
    for k, V in ((1, V0), (0, V1)):
        v = E[..., k]
        p = T.einsum("...c,...cd,...d->...", v.conj(), V, v).abs()
        s = T.clamp(T.sqrt(T.clamp(p, min=1e-7)), min=eps)
        rows.append((v / s[..., None]).conj())
    return T.stack(rows, dim=-2)


def demix(S, W, X):
    return S.T.einsum("...fsc,...cfn->...sfn", W, X)


class IP2Plan(Plan):
    """invariant: the estimate is the input demixed by W, and A is the inverse of W"""

    def __init__(self, S, P, loop):
        self.S, self.P = S, P
        self.mats, self.sig = [], []
        for n, v in loop.entry.items():
            if isinstance(v, Tensor) and v.dtype.cat == 3:
                if sizes_match(v, (2, P.F, P.N)):
                    self.sig.append(n)
                elif sizes_match(v, (P.F, 2, 2)):
                    self.mats.append(n)
        if len(self.sig) != 1 or (P.proj is not None and not self.mats):
            raise Unsupported("loop state not recognised at %s" % loop.site)
        self.is_inv = {}

    def entry(self, loop):
        S, P = self.S, self.P
        S.eq("initial estimate is the input", loop.entry[self.sig[0]], P.X)
        for n in self.mats:
            S.eq("initial matrices are the identity", loop.entry[n], S.eye(2).expand(P.batch + (P.F, 2, 2)))

    def mk(self, loop):
        S, P = self.S, self.P
        W = fresh("W@%d" % loop.c.count("state"), P.batch + (P.F, 2, 2), P.X.dtype)
        self.W = W
        st = {self.sig[0]: demix(S, W, P.X)}
        # the mixing matrix is the one whose name is not the demixing matrix: decided by
        # the step obligation below
        for n in self.mats:
            st[n] = P.inverse(W) if self.P.inv_name(n, self.mats) else W
        return st

    def state(self, loop, i):
        return self.mk(loop)

    def step(self, loop, i, end):
        S, P = self.S, self.P
        T = S.T
        Y0 = demix(S, self.W, P.X)
        g = T.clamp(power(Y0).mean(dim=(-2, -1), keepdim=True), min=1e-5)
        Wn = update(S, P.X, P.model(Y0) * g, P.eps)
        S.eq("estimate after one iteration", end[self.sig[0]], demix(S, Wn, P.X))
        for n in self.mats:
            if P.inv_name(n, self.mats):
                S.eq("mixing matrix is the inverse of the demixing matrix", end[n], P.inverse(Wn))
            else:
                S.eq("demixing matrix after one iteration", end[n], Wn)

    def final(self, loop):
        return self.mk(loop)


class Problem:
    def __init__(self, S):
        self.S = S
        self.batch = S.batch()
        self.F, self.N = S.size("n_freq"), S.size("n_frames")
        if not S.sym:
            self.N += S.rng.choice([5, 10, 25])
        self.X = S.cplx("X", self.batch + (2, self.F, self.N))
        self.model = S.model()
        self.eps = S.eps("eps")
        self.flip = False

    def inverse(self, W):
        return self.S.fn("linalg", "inv_2x2")(W)

    def inv_name(self, n, mats):
        k = mats.index(n)
        return (k == len(mats) - 1) != self.flip if len(mats) > 1 else True


def ip2_sym(S):
    P = Problem(S)
    n_iter = S.size("n_iter", 0)
    P.proj = S.choose("proj", [None, 0, 1])
    plans = []

    def handler(loop):
        if loop.parent is not None:
            raise Unsupported("unexpected loop at %s" % loop.site)
        plans.append(IP2Plan(S, P, loop))
        return plans[-1]

    S.loops(handler)
    S.mod("auxiva_ip2")
    S.by_contract("linalg.eigh_2x2")
    Y = S.call(S.mod("auxiva_ip2").AuxIVA_IP2, P.X, n_iter=n_iter, model=P.model, proj_back_mic=P.proj, eps=P.eps)[1]
    S.shape("output shape", Y, P.batch + (2, P.F, P.N))
    S.dtype("output dtype", Y, P.X.dtype)
    if not plans:
        S.eq("no iteration: the input", Y, P.X)
    elif P.proj is None:
        S.eq("output is the input demixed by one matrix per frequency", Y, demix(S, plans[-1].W, P.X))
    else:
        W = plans[-1].W
        A = P.inverse(W)
        S.eq("output scaled to the reference microphone", Y, A[..., P.proj, :].moveaxis(-1, -2)[..., None] * demix(S, W, P.X))
    S.true("the model was reset", P.model.resets >= 1)
    S.unchanged()


contract(("C05", "C03"), "AuxIVA-IP2 update rule and projection back", FN, modes="sym", views=("C09", "C10", "C17"), weight=5, assumes=MODEL_ASSUME + GEV_ASSUME)(ip2_sym)


# ------------------------------------------------------------------ concrete reference
def gevd(S, V1, V0):
    """generalized eigenvectors by the Cholesky reduction, ascending eigenvalues"""
    T = S.T
    L = T.linalg.cholesky(V0)
    Li = T.linalg.inv(L)
    M = Li @ V1 @ herm(Li)
    lam, U = T.linalg.eigh(0.5 * (M + herm(M)))
    return lam, herm(Li) @ U


def ref_ip2(S, X, model, n_iter):
    T = S.T
    Y = X
    W = S.eye(2).expand(tuple(X.shape[:-3]) + (X.shape[-2], 2, 2))
    V = None
    for _ in range(n_iter):
        w = model(Y) * T.clamp(power(Y).mean(dim=(-2, -1), keepdim=True), min=1e-5)
        V = [weighted_cov(S, X, w[..., k, :, :]) for k in (0, 1)]
        lam, E = gevd(S, V[1], V[0])
        if float(((lam[..., 1] - lam[..., 0]) / lam[..., 1].abs()).min()) < 1e-2:
            from vt.harness import Reject

            raise Reject()
        rows = []
        for k, Vk in ((1, V[0]), (0, V[1])):
            v = E[..., k]
            p = T.einsum("...c,...cd,...d->...", v.conj(), Vk, v).real
            rows.append((v / T.sqrt(p)[..., None]).conj())
        W = T.stack(rows, dim=-2)
        # fix the phase: first entry real positive
        W = W * (W[..., :1].abs() / W[..., :1])
        Y = demix(S, W, X)
    return Y, W


@contract(("C05", "C03"), "AuxIVA-IP2 against the textbook reference", FN, modes="con", weight=4, trials=80)
def ip2_concrete(S):
    T = S.T
    P = Problem(S)
    P.N = P.X.shape[-1]
    X = P.X + 0.5 * P.X.roll(1, -3) + 0.4 * P.X.roll(1, -1)
    X = X * (0.05 + T.rand(X.shape[-1:], generator=S.g, dtype=T.float64) ** 2)
    X = 2.0 * X / T.sqrt(power(X).mean())
    P.X = S.owned(X, "X")
    # the power of a filter is floored at 1e-7, the determinant at 1e-6: keep away from them
    P.model.gain = min(max(P.model.gain, 0.1), 10.0)
    n_iter = S.choose("n_iter", [0, 1, 1, 2, 3])
    proj = S.choose("proj", [None, 0, 1])
    Yr, Wr = well_posed(S, lambda X: ref_ip2(S, X, P.model, n_iter), P.X, amp=1e3)
    eps = 1e-14
    m = S.mod("auxiva_ip2")
    if S.choose("parameters", ["constructor", "call"]) == "constructor":
        Y = m.AuxIVA_IP2(n_iter=n_iter, model=P.model, proj_back_mic=proj, eps=eps)(P.X)
    else:
        kw = {} if proj is None else {"proj_back_mic": proj}
        Y = m.AuxIVA_IP2(n_iter=9, proj_back_mic=None)(P.X, n_iter=n_iter, model=P.model, eps=eps, **kw)
    S.shape("output shape", Y, P.batch + (2, P.F, P.N))
    S.dtype("dtype", Y, S.c128)
    if n_iter == 0:
        S.eq("no iteration: the input", Y, P.X)
    elif proj is None:
        if S.prop == "C05":
            # one unit-modulus factor per source and frequency is not determined
            c = (Y * Yr.conj()).sum(dim=-1, keepdim=True)
            S.eq("separated signals", Y, Yr * c / T.clamp(c.abs(), min=1e-12), tol=1e-7)
    else:
        A = T.linalg.inv(Wr)
        if float(T.linalg.cond(Wr).max()) < 1e3 and float(T.linalg.det(Wr).abs().min()) > 1e-5:
            S.eq("output scaled to the reference microphone", Y, A[..., proj, :].moveaxis(-1, -2)[..., None] * Yr, tol=1e-7)
            S.eq("the outputs add up to the reference microphone", Y.sum(dim=-3), P.X[..., proj, :, :], tol=1e-4)
    S.unchanged()
