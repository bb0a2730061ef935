"""Contracts of FIVE (C06)."""
from vt.harness import contract, Reject
from vt.loader import Plan
from vt.poly import Unsupported
from vt.tensor import Tensor, fresh, same_size
from vt.ints import ip

from .common import *

FN = ["torchiva.five." + x for x in ("FIVE.forward", "smallest_eigenvector_eigh_cpu", "smallest_eigenvector_power_method")] + [
    "torchiva.linalg." + x for x in ("hermite", "eigh", "eigh_wrapper", "inv_loaded")] + [
    "torchiva.base.DRBSSBase._set_params", "torchiva.base.DRBSSBase._reset"]
MODEL_ASSUME = ["the source model is an arbitrary real function of the current estimate with an output of the same shape",
                "torch.linalg.eigh returns unit-norm eigenvectors in the order of ascending eigenvalues (assumed contract)"]


def hermitized(A):
    return 0.5 * (A + herm(A))


class Whitened:
    """whitening of the input without its first frequency"""

    def __init__(self, S, X, ref):
        T = S.T
        self.X0 = X[..., 1:, :]
        N = X.shape[-1]
        self.C = hermitized(T.einsum("...cfn,...dfn->...fcd", self.X0, self.X0.conj()) / N)
        lam, U = T.linalg.eigh(self.C)
        lam, U = T.flip(lam, dims=[-1]), T.flip(U, dims=[-1])  # descending
        r = T.sqrt(T.clamp(lam, min=1e-5))
        self.lam = lam
        self.Q = herm(U) / r[..., :, None]
        self.X = T.einsum("...fcd,...dfn->...cfn", self.Q, self.X0)
        self.ref = None if ref is None else U[..., ref, :] * r  # row of the inverse of Q
        self.Y = self.X[..., 0, :, :]
        if ref is not None:
            # E[x_ref conj(y)] : least squares scale of the unit power component
            z = T.einsum("...c,...c->...", self.Q[..., 0, :], self.C[..., ref])
            self.Y = z.conj()[..., None] * self.Y

    def cov(self, S, w):
        return hermitized(S.T.einsum("...fn,...cfn,...dfn->...fcd", w, self.X, self.X.conj()))

    def output(self, S, v):
        """the demixing vector v, scaled to the reference microphone, applied"""
        T = S.T
        if self.ref is not None:
            v = v * T.einsum("...c,...c->...", self.ref, v).conj()[..., None]
        return T.einsum("...fc,...cfn->...fn", v.conj(), self.X)


def add_dc(S, Y):
    z = 0 * Y[..., :1, :]
    return S.T.cat([z, Y], dim=-2)[..., None, :, :]


class Problem:
    def __init__(self, S):
        self.S = S
        self.batch = S.batch()
        self.C, self.F, self.N = S.size("n_chan"), S.size("n_freq", 2), S.size("n_frames")
        if not S.sym:
            self.N += S.rng.choice([5, 10, 25])
        self.X = S.cplx("X", self.batch + (self.C, self.F, self.N))
        self.model = S.model()
        self.proj = S.choose("proj", [None, "mic"])
        if self.proj is not None:
            self.proj = S.size("ref", 0, self.C)


class EpochPlan(Plan):
    def __init__(self, P, loop):
        self.P = P
        self.names = [n for n, v in loop.entry.items() if isinstance(v, Tensor) and sizes_match(v, (P.F - 1, P.N))
                      and len(v.axes) == len(P.batch) + 2 and v.dtype.cat == 3]
        if len(self.names) != 1:
            raise Unsupported("estimate not recognised at %s" % loop.site)

    def entry(self, loop):
        P = self.P
        P.S.eq("initial estimate: scaled first principal component", loop.entry[self.names[0]], P.w.Y)

    def state(self, loop, i):
        P = self.P
        P.cur = fresh("Y@%d" % loop.c.count("state"), P.batch + (P.F - 1, P.N), P.X.dtype)
        P.wcov = P.w.cov(P.S, P.model(P.cur))
        return {self.names[0]: P.cur}

    def step(self, loop, i, end):
        P, S = self.P, self.P.S
        if P.power is None:
            _, U = S.T.linalg.eigh(P.wcov)
            v = U[..., 0]
        elif P.last is not None:
            v = P.last
            v = v * S.T.sgn(v[..., 0]).conj()[..., None]
        else:
            raise Unsupported("power iterations not recognised")
        S.eq("new estimate: smallest eigenvector of the weighted covariance", end[self.names[0]], P.w.output(S, v))

    def final(self, loop):
        return self.state(loop, None)


class PowerPlan(Plan):
    """x is the current unit vector of the inverse iteration"""

    def __init__(self, P, loop):
        self.P = P
        self.names = [n for n, v in loop.entry.items() if isinstance(v, Tensor) and sizes_match(v, (P.F - 1, P.C))
                      and len(v.axes) == len(P.batch) + 2 and v.dtype.cat == 3]
        self.norms = [n for n, v in loop.entry.items() if isinstance(v, Tensor) and sizes_match(v, (P.F - 1,))
                      and len(v.axes) == len(P.batch) + 1 and v.dtype.cat == 2]
        if len(self.names) != 1:
            raise Unsupported("power iteration not recognised at %s" % loop.site)

    def unit(self, x):
        T = self.P.S.T
        return x / T.sqrt(power(x).sum(dim=-1, keepdim=True))

    def inv(self):
        S = self.P.S
        return S.T.linalg.inv(loaded(S, self.P.wcov, 1e-5))

    def entry(self, loop):
        S = self.P.S
        S.eq("inverse iteration starts from the first unit vector", loop.entry[self.names[0]], self.unit(self.inv()[..., 0]))

    def state(self, loop, i):
        P = self.P
        P.last = self.cur = fresh("x@%d" % loop.c.count("state"), P.batch + (P.F - 1, P.C), P.X.dtype)
        d = {self.names[0]: self.cur}
        for n in self.norms:
            d[n] = fresh("ev@%d" % loop.c.count("state"), P.batch + (P.F - 1,), P.S.f64)
        return d

    def step(self, loop, i, end):
        S = self.P.S
        S.eq("one inverse iteration", end[self.names[0]], self.unit(S.T.einsum("...fcd,...fd->...fc", self.inv(), self.cur)))

    def final(self, loop):
        return self.state(loop, None)


def five_sym(S, power_method):
    P = Problem(S)
    n_iter = S.size("n_iter", 0)
    P.power = S.size("n_power_iter", 1) if power_method else None
    m = S.mod("five")
    S.by_contract("linalg.eigh")
    P.w = Whitened(S, P.X, P.proj)
    P.last = None

    class H:
        def __call__(self, loop):
            if loop.parent is None:
                return EpochPlan(P, loop)
            if power_method:
                return PowerPlan(P, loop)
            raise Unsupported("unexpected loop at %s" % loop.site)

        def skipped(self, loop):
            # a single power iteration
            if power_method and loop.parent is not None:
                p = PowerPlan(P, loop)
                p.entry(loop)
                P.last = loop.entry[p.names[0]].clone()

    S.loops(H())
    Y = S.call(m.FIVE, P.X, n_iter=n_iter, model=P.model, proj_back_mic=P.proj, n_power_iter=P.power)[1]
    S.shape("output shape", Y, P.batch + (1, P.F, P.N))
    S.dtype("output dtype", Y, P.X.dtype)
    if bool(n_iter == 0):
        S.eq("no iteration: the initial estimate", Y, add_dc(S, P.w.Y))
    else:
        S.eq("output is the estimate with a silent first frequency", Y, add_dc(S, P.cur))
    S.true("the model was reset", P.model.resets >= 1)
    S.unchanged()


for _pm in (False, True):
    contract("C06", "FIVE update rule (%s)" % ("power method" if _pm else "eigenvectors"), FN, modes="sym", views=("C09", "C10", "C17"), weight=5,
             assumes=MODEL_ASSUME)(lambda S, pm=_pm: five_sym(S, pm))


# ------------------------------------------------------------------ concrete reference
def ref_five(S, X, model, n_iter, proj, n_power):
    T = S.T
    w = Whitened(S, X, proj)
    gaps = (w.lam[..., :-1] - w.lam[..., 1:]) / w.lam[..., :1].clamp(min=1e-12)
    if gaps.numel() and float(gaps.min()) < 1e-3 or float(w.lam.min()) < 1e-4:
        raise Reject()
    Y = w.Y
    for _ in range(n_iter):
        V = w.cov(S, model(Y))
        if n_power is None:
            lam, U = T.linalg.eigh(V)
            if lam.shape[-1] > 1 and float(((lam[..., 1] - lam[..., 0]) / lam[..., -1]).min()) < 1e-3:
                raise Reject()
            v = U[..., 0]
        else:
            Vi = T.linalg.inv(loaded(S, V, 1e-5))
            v = S.eye(X.shape[-3])[0].expand(V.shape[:-1])
            for _ in range(n_power):
                v = T.einsum("...cd,...d->...c", Vi, v)
                v = v / T.sqrt(power(v).sum(dim=-1, keepdim=True))
        Y = w.output(S, v)
    return (add_dc(S, Y),)


@contract("C06", "FIVE against the textbook reference", FN, modes="con", weight=4, trials=80)
def five_concrete(S):
    T = S.T
    P = Problem(S)
    X = P.X + 0.5 * P.X.roll(1, -3) + 0.4 * P.X.roll(1, -1)
    X = X * (1 + T.arange(P.C, dtype=T.float64))[:, None, None]
    X = X / T.sqrt(power(X).mean())
    P.X = S.owned(X, "X")
    n_iter = S.choose("n_iter", [0, 1, 1, 2, 3])
    npow = S.choose("power iterations", [None, None, 1, 2, 5])
    # the sign of an eigenvector is not determined: with no projection back the outputs
    # are compared up to one unit-modulus factor per frequency
    def f(X):
        Y = ref_five(S, X, P.model, n_iter, P.proj, npow)[0]
        return (Y if P.proj is not None else power(Y),)

    well_posed(S, f, P.X, amp=1e4)
    Yr = ref_five(S, P.X, P.model, n_iter, P.proj, npow)[0]
    m = S.mod("five")
    if S.choose("parameters", ["constructor", "call"]) == "constructor":
        Y = m.FIVE(n_iter=n_iter, model=P.model, proj_back_mic=P.proj, n_power_iter=npow)(P.X)
    else:
        kw = {} if P.proj is None else {"proj_back_mic": P.proj}
        Y = m.FIVE(n_iter=9, proj_back_mic=None)(P.X, n_iter=n_iter, model=P.model, n_power_iter=npow, **kw)
    S.shape("output shape", Y, P.batch + (1, P.F, P.N))
    S.dtype("dtype", Y, S.c128)
    if P.proj is None:
        c = (Y * Yr.conj()).sum(dim=-1, keepdim=True)
        Yr = T.where(c.abs() > 1e-12, Yr * c / T.clamp(c.abs(), min=1e-12), Yr)
    S.eq("extracted signal", Y, Yr, tol=1e-7)
    S.unchanged()


@contract("C06", "normalisation and global scale", ["torchiva.five." + x for x in ("normalize", "adjust_global_scale")], views=(), trials=40)
def five_helpers(S):
    T, m = S.T, S.mod("five")
    b, C, Fr, N = S.batch(), S.size("C", 1), S.size("F", 1), S.size("N", 1)
    x = S.cplx("x", b + (Fr, C, N))
    S.eq("unit norm over the channels", m.normalize(x), x / T.sqrt((x.real.square() + x.imag.square()).sum(dim=-2, keepdim=True)))
    Y, R = S.cplx("Y", b + (C, Fr, N)), S.cplx("R", b + (C, Fr, N))
    num = (Y.conj() * R).sum(dim=(-2, -1), keepdim=True) / (Fr * N)
    den = (Y.real.square() + Y.imag.square()).sum(dim=(-2, -1), keepdim=True) / (Fr * N)
    S.eq("least squares scale of each channel", m.adjust_global_scale(Y, R), Y * (num / T.clamp(den, min=1e-7)))
    S.unchanged()
