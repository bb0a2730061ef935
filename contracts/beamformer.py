"""Contracts of the mask-based beamformers (C08)."""
from vt.harness import contract, Reject, ModuleLike
from vt.loader import Plan
from vt.poly import Unsupported
from vt.tensor import Tensor, fresh
from vt import tensor as tz

from .common import *
from .ip2 import gevd

B = lambda *n: ["torchiva.beamformer." + x for x in n]
LIN = ["torchiva.linalg." + x for x in ("solve_loaded", "eigh", "hermite", "bmm")] + ["torchiva.base.BFBase._set_params"]
ASSUME = ["the mask model is an arbitrary function of the reference channel returning positive masks (..., source, mask, frequency, frame)"]
EIG = ["the generalized eigenvectors are those of the contract of C14 (callee contract)"]

V17 = ("C09", "C10", "C17")


class MaskModel(ModuleLike):
    def __init__(self, S, n_src, n_masks):
        self.S, self.K, self.M = S, n_src, n_masks
        self.memo, self.calls = {}, []

    def parameters(self):
        return iter(())

    def __call__(self, Xr):
        S = self.S
        self.calls.append(Xr)
        if S.sym:
            key = (tuple(a.size for a in Xr.axes), Xr.body)
            self.memo.setdefault(key, "masks(%d)+" % len(self.memo))
            return fresh(self.memo[key], tuple(Xr.shape[:-2]) + (self.K, self.M) + tuple(Xr.shape[-2:]), tz.to_real(Xr.dtype))
        T = S.T
        p = power(Xr)[..., None, None, :, :]
        a = T.arange(1, self.K + 1, dtype=p.dtype)[:, None, None, None]
        b = T.arange(1, self.M + 1, dtype=p.dtype)[:, None, None]
        n = T.arange(Xr.shape[-1], dtype=p.dtype)
        return (0.2 + T.sin(a * 1.3 + b * 2.1 + p * 3 + n * a) ** 2) / (1.2 + 0.1 * a * b)


def covs(S, masks, X, k):
    return S.T.einsum("...sfn,...cfn,...dfn->...sfcd", masks[..., k, :, :], X, X.conj())


def out(S, bf, X):
    """y = bf^H x, bf (..., s, f, c)"""
    return S.T.einsum("...sfc,...cfn->...sfn", bf.conj(), X)


class Problem:
    def __init__(self, S, n_masks):
        self.S = S
        self.batch = S.batch()
        self.C, self.F, self.N, self.K = S.size("n_chan"), S.size("n_freq"), S.size("n_frames"), S.size("n_src")
        if not S.sym:
            self.N += S.rng.choice([6, 12, 25])
        self.X = S.cplx("X", self.batch + (self.C, self.F, self.N))
        if not S.sym:
            self.X = S.owned(self.X + 0.4 * self.X.roll(1, -3), "X")
        self.ref = S.size("ref", 0, self.C)
        self.model = MaskModel(S, self.K, n_masks)
        self.eps = S.eps("eps")

    def check(self, Y):
        S = self.S
        S.shape("output shape", Y, self.batch + (self.K, self.F, self.N))
        S.dtype("output dtype", Y, self.X.dtype)
        if S.sym:
            for i, x in enumerate(self.model.calls):
                S.eq("the masks are computed from the reference channel", x, self.X[..., self.ref, :, :])
        S.unchanged()

    def build(self, cls, **kw):
        """parameters given at construction or at the call; the mask model of the
        constructor is not used when another one is given"""
        S = self.S
        m = S.mod("beamformer")
        if S.by_call:
            return S.call(getattr(m, cls), self.X, mask_model=self.model, ref_mic=self.ref, eps=self.eps, **kw)[1]
        if S.choose("parameters", ["constructor", "call"]) == "constructor":
            return getattr(m, cls)(self.model, ref_mic=self.ref, eps=self.eps, **kw)(self.X)
        other = MaskModel(S, 5, 2)
        return getattr(m, cls)(other)(self.X, mask_model=self.model, ref_mic=self.ref, eps=self.eps, **kw)


def principal(S, Rt, Rn, eps=1e-15):
    """dominant generalized eigenvector of (Rt, Rn)"""
    if S.sym:
        E = S.fn("linalg", "eigh")(Rt, Rn, eps=eps)[1]
        return E[..., -1], E
    lam, E = gevd(S, Rt, Rn)
    if lam.shape[-1] > 1 and float(((lam[..., -1] - lam[..., -2]) / lam[..., -1].abs()).min()) < 1e-2:
        raise Reject()
    # the domain of the contract of eigh (C14): floors of 1e-5 on the eigenvalues of the second matrix
    if float(T_cond(S, Rn)) > 1e4 or float(S.T.linalg.eigvalsh(Rn).min()) < 1e-3:
        raise Reject()
    return E[..., -1], E


def T_cond(S, A):
    return S.T.linalg.cond(A).max()


def mvdr_weights(S, Rn, h, eps):
    """R_n^-1 h / (h^H R_n^-1 h), loaded"""
    T = S.T
    a = T.linalg.solve(loaded(S, Rn, eps), h[..., None])[..., 0]
    d = T.clamp(T.einsum("...c,...c->...", h.conj(), a).real, min=eps)
    return a / d[..., None]


def relative(S, R, v, ref):
    h = S.T.einsum("...cd,...d->...c", R, v)
    return h / h[..., ref][..., None]


class PowerPlan(Plan):
    def __init__(self, S, P, loop, R):
        self.S, self.P, self.R = S, P, R
        self.names = [n for n, v in loop.entry.items() if isinstance(v, Tensor) and sizes_match(v, (P.K, P.F, P.C))]
        if len(self.names) != 1 or loop.parent is not None:
            raise Unsupported("power iteration not recognised at %s" % loop.site)

    def phi(self):
        S = self.S
        return S.T.linalg.solve(loaded(S, self.R[1], 1e-5), self.R[0])

    def entry(self, loop):
        self.S.eq("power iteration starts from the first unit vector", loop.entry[self.names[0]], self.phi()[..., 0])

    def state(self, loop, i):
        P = self.P
        P.v = fresh("v@%d" % loop.c.count("state"), P.batch + (P.K, P.F, P.C), P.X.dtype)
        return {self.names[0]: P.v}

    def step(self, loop, i, end):
        S = self.S
        T = S.T
        y = T.einsum("...cd,...d->...c", self.phi(), self.P.v)
        n = T.clamp(T.sqrt(power(y).sum(dim=-1, keepdim=True)), min=1e-12)
        S.eq("one power iteration", end[self.names[0]], y / n)

    def final(self, loop):
        return self.state(loop, None)


def mvdr(S, n_masks, how):
    T = S.T
    P = Problem(S, n_masks)
    masks = P.model(P.X[..., P.ref, :, :])
    P.model.calls.clear()
    R = [covs(S, masks, P.X, k) for k in range(n_masks)]
    Rn_rtf = R[2] if n_masks == 3 else R[1]
    npow = None
    if how == "power":
        npow = S.size("n_power_iter", 1) if S.sym else S.choose("n_power_iter", [1, 2, 6])
    S.mod("beamformer")
    S.by_contract("linalg.eigh")

    class H:
        def __call__(self, loop):
            return PowerPlan(S, P, loop, (R[0], Rn_rtf))

        def skipped(self, loop):
            P.v = T.linalg.solve(loaded(S, Rn_rtf, 1e-5), R[0])[..., 0]

    S.loops(H())
    P.v = None
    Y = P.build("MVDRBeamformer", n_power_iter=npow)
    if how == "eigh":
        v, _ = principal(S, R[0], Rn_rtf)
    elif S.sym:
        v = P.v
        if v is None:
            raise Unsupported("power iterations not found")
    else:
        Phi = T.linalg.solve(loaded(S, Rn_rtf, 1e-5), R[0])
        v = S.eye(P.C)[0].expand(Phi.shape[:-1])
        for _ in range(npow):
            v = T.einsum("...cd,...d->...c", Phi, v)
            v = v / T.sqrt(power(v).sum(dim=-1, keepdim=True))
    h = relative(S, Rn_rtf, v, P.ref)
    if not S.sym and (float(h.abs().max()) > 1e3 or float(T_cond(S, R[1])) > 1e5 or float(T_cond(S, Rn_rtf)) > 1e5):
        raise Reject()
    S.eq("minimum variance filter with unit response in the direction of the source", Y, out(S, mvdr_weights(S, R[1], h, P.eps), P.X),
         tol=1e-7)
    P.check(Y)


for _n in (2, 3):
    for _h in ("eigh", "power"):
        contract("C08", "MVDR beamformer from the transfer function (%d masks, %s)" % (_n, _h),
                 B("MVDRBeamformer.forward", "compute_mvdr_rtf_eigh", "compute_mvdr_bf") + LIN, weight=4, trials=40, views=V17,
                 assumes=ASSUME + (EIG if _h == "eigh" else []))(lambda S, n=_n, h=_h: mvdr(S, n, h))


@contract("C08", "MVDR beamformer from the covariance matrices", B("MVDRBeamformer.forward", "compute_mvdr_bf2") + LIN, weight=3, trials=40, views=V17,
          assumes=ASSUME)
def mvdr_scm(S):
    T = S.T
    P = Problem(S, 2)
    masks = P.model(P.X[..., P.ref, :, :])
    P.model.calls.clear()
    Rt, Rn = covs(S, masks, P.X, 0), covs(S, masks, P.X, 1)
    Y = P.build("MVDRBeamformer", mvdr_type="scm")
    G = T.linalg.solve(Rn, Rt)
    tr = T.einsum("...cc->...", G) if not S.sym else T.diagonal(G, dim1=-2, dim2=-1).sum(dim=-1)
    if not S.sym and float(T_cond(S, Rn)) > 1e5:
        raise Reject()
    S.eq("filter from the covariance matrices", Y, out(S, (G / tr[..., None, None])[..., P.ref], P.X), tol=1e-7)
    P.check(Y)


def mwf(S, time_invariant):
    T = S.T
    P = Problem(S, 2 if time_invariant else 4)
    masks = P.model(P.X[..., P.ref, :, :])
    P.model.calls.clear()
    Rt, Rn = covs(S, masks, P.X, 0), covs(S, masks, P.X, 1)
    Y = P.build("MWFBeamformer", time_invariant=time_invariant)
    if time_invariant:
        bf = T.linalg.solve(loaded(S, Rt + Rn, P.eps), Rt[..., P.ref][..., None])[..., 0]
        S.eq("Wiener filter of the reference channel", Y, out(S, bf, P.X), tol=1e-7)
    else:
        Rt = Rt[..., None, :, :] * masks[..., 2, :, :][..., None, None]
        Rn = Rn[..., None, :, :] * masks[..., 3, :, :][..., None, None]
        bf = T.linalg.solve(loaded(S, Rt + Rn, P.eps), Rt[..., P.ref][..., None])[..., 0]
        S.eq("Wiener filter of every frame", Y, T.einsum("...sfnc,...cfn->...sfn", bf.conj(), P.X), tol=1e-7)
    P.check(Y)


for _ti in (True, False):
    contract("C08", "MWF beamformer (%s)" % ("time-invariant" if _ti else "time-varying"), B("MWFBeamformer.forward", "compute_mwf_bf") + LIN,
             weight=3, trials=40, assumes=ASSUME, views=V17)(lambda S, t=_ti: mwf(S, t))


@contract("C08", "GEV beamformer", B("GEVBeamformer.forward", "compute_gev_bf") + LIN, weight=3, trials=40, assumes=ASSUME + EIG, views=V17)
def gev(S):
    T = S.T
    P = Problem(S, 2)
    masks = P.model(P.X[..., P.ref, :, :])
    P.model.calls.clear()
    Rt, Rn = covs(S, masks, P.X, 0), covs(S, masks, P.X, 1)
    S.mod("beamformer")
    S.by_contract("linalg.eigh")
    Y = P.build("GEVBeamformer")
    v, E = principal(S, Rt, Rn)
    if S.sym:
        e = S.eye(P.C)[..., -1][..., None]
        a = T.linalg.solve(herm(E), e.expand(tuple(E.shape[:-1]) + (1,)))[..., 0]
    else:
        # the response of the source at the microphones, v^H a = 1
        a = T.einsum("...cd,...d->...c", Rn, v)
        a = a / T.einsum("...c,...c->...", v.conj(), a)[..., None]
    S.eq("maximum SNR filter scaled to the reference channel", Y, out(S, v * a[..., P.ref].conj()[..., None], P.X), tol=1e-7)
    P.check(Y)


@contract("C08", "beamforming helper functions", B("compute_mwf_bf", "compute_mvdr_bf", "compute_mvdr_bf2"), weight=1)
def helpers(S):
    T = S.T
    b, n = S.batch(), S.size("n")
    Rt, Rn = S.owned(S.herm("Rt", b, n), "Rtm"), S.owned(S.herm("Rn", b, n) + 0.5 * S.eye(n), "Rnm")
    eps = S.eps("eps")
    ref = S.size("ref", 0, n)
    G = S.fn("beamformer", "compute_mwf_bf")(Rt, Rn, eps=eps)
    S.eq("Wiener filters of all channels", G, T.linalg.solve(loaded(S, Rt + Rn, eps), Rt), tol=1e-5)
    g = S.fn("beamformer", "compute_mwf_bf")(Rt, Rn, eps=eps, ref_mic=ref)
    S.eq("Wiener filter of one channel is its column", g, G[..., ref], tol=1e-5)
    h = S.cplx("h", b + (n,))
    w = S.fn("beamformer", "compute_mvdr_bf")(Rn, h, eps=eps)
    S.eq("minimum variance filter", w, mvdr_weights(S, Rn, h, eps), tol=1e-5)
    if S.sym:
        Rl = S.T.linalg.inv(loaded(S, Rn, eps))
    S.unchanged()
