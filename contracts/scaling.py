"""Contracts of the scaling functions (C15)."""
from vt.harness import contract, Reject
from vt.loader import Plan
from vt.poly import Unsupported
from vt.tensor import Tensor, fresh, same_size, formals

from .common import sizes_match


def F(*n):
    return ["torchiva.scaling." + x for x in n]


def mics(S):
    b, K, Fr, N = S.batch(), S.size("K"), S.size("F"), S.size("N", 1)
    return b, K, Fr, N


@contract("C15", "minimum_distortion_l2", F("minimum_distortion_l2", "minimum_distortion"),
          assumes=["optimality of the scale is stated where the power floor is inactive"])
def mdl2(S):
    sc, T = S.mod("scaling"), S.T
    b, K, Fr, N = mics(S)
    Y, ref = S.cplx("Y", b + (K, Fr, N)), S.cplx("ref", b + (Fr, N))
    via = S.choose("via", ["l2", "md", "md2", "md22"])
    out = {"l2": lambda: sc.minimum_distortion_l2(Y, ref), "md": lambda: sc.minimum_distortion(Y, ref),
           "md2": lambda: sc.minimum_distortion(Y, ref, p=2.0), "md22": lambda: sc.minimum_distortion(Y, ref, p=2.0, q=2.0)}[via]()
    S.shape("shape", out, b + (K, Fr, N))
    S.dtype("dtype", out, S.c128)
    gain(S, out, Y, N)
    pw = (Y * Y.conj()).real.sum(dim=-1, keepdim=True) / N
    cr = T.einsum("...fn,...kfn->...kf", ref, Y.conj())[..., None] / N
    S.eq("scale with the power floored", out, Y * cr / T.clamp(pw, min=1e-7))
    S.unchanged()
    if not S.sym:
        S.assume(float(Y.abs().square().mean(dim=-1).min()) > 1e-6)
    E = ref[..., None, :, :] - S.unclamped(out)
    S.eq("the error is orthogonal to the signal", T.einsum("...kfn,...kfn->...kf", E, Y.conj()),
         0 * T.einsum("...kfn,...kfn->...kf", Y, Y.conj()), tol=1e-5)


def gain(S, out, Y, N):
    """out is Y times a gain that does not depend on time"""
    if S.sym:
        i, j = S.size("i", 0, N), S.size("j", 0, N)
        S.eq("the same complex gain at all frames", out[..., i] * Y[..., j], out[..., j] * Y[..., i])
    else:
        g = out / Y
        S.eq("the same complex gain at all frames", g, g[..., :1].expand(g.shape), tol=1e-5)


@contract("C15", "minimum_distortion_l2_phase", F("minimum_distortion_l2_phase"))
def mdphase(S):
    sc, T = S.mod("scaling"), S.T
    b, K, Fr, N = mics(S)
    Y, ref = S.cplx("Y", b + (K, Fr, N)), S.cplx("ref", b + (Fr, N))
    out = sc.minimum_distortion_l2_phase(Y, ref)
    S.shape("shape", out, b + (K, Fr, N))
    gain(S, out, Y, N)
    cr = T.einsum("...fn,...kfn->...kf", ref, Y.conj())[..., None] / N
    S.eq("unit-modulus gain with the phase of the correlation", out, Y * cr / T.clamp(cr.abs(), min=1e-5), tol=1e-5)
    S.unchanged()


CRITERIA = [("lp", 1.0, None), ("lp", 1.5, 1.5), ("lpq", 1.0, 2.0), ("lpq", 0.5, 1.5), ("model", None, None)]


def mm_weights(S, kind, E, p, q):
    """majorisation weights of the criterion, E: (..., K, F, N); learned weights are
    normalised over time"""
    T = S.T
    if kind == "model":
        w = p(E)
        return w / T.clamp(w.sum(dim=-1, keepdim=True), min=1e-5)
    if kind == "lp":
        return p / T.clamp(2.0 * E.abs().pow(2 - p), min=1e-5)
    A = E.abs() + 1e-5
    rn = (A.pow(q) + 1e-5).sum(dim=-2, keepdim=True).pow(1 - p / q)
    return p / T.clamp(2.0 * rn * A.pow(2 - q), min=1e-5)


@contract("C15", "minimum_distortion mixed norm", F("minimum_distortion", "lp_norm", "lpq_norm"), weight=2, views=("C10", "C23"),
          assumes=["the first two iterations from the definition; every later one by the loop contract of the next contract"])
def md(S):
    sc, T = S.mod("scaling"), S.T
    b, K, Fr, N = mics(S)
    Y, ref = S.cplx("Y", b + (K, Fr, N)), S.cplx("ref", b + (Fr, N))
    kind, p, q = S.choose("criterion", [("lp", 1.0, None), ("lp", 1.0, 1.0), ("lpq", 1.0, 2.0), ("lpq", 0.5, 1.5), ("lpq", 0.8, 1.0)])
    it = S.choose("iterations", [1, 2] if S.sym else [1, 2, 3, 8])
    if S.sym and kind == "lpq" and it == 2:
        S.assume(False)
    out = sc.minimum_distortion(Y, ref, p=p, q=q, max_iter=it, rtol=0.0 if not S.sym else 1e-2)
    S.shape("shape", out, b + (K, Fr, N))
    c = 1.0
    R = ref[..., None, :, :]
    for k in range(it):
        E = R - c * Y
        w = mm_weights(S, kind, E, p, q)
        num = (R * Y.conj() * w).sum(dim=-1, keepdim=True)
        den = T.clamp((Y.abs().square() * w).sum(dim=-1, keepdim=True), min=1e-5)
        c = num / den
    S.eq("iteratively reweighted least squares scale", out, c * Y, tol=1e-4)
    if not S.sym:
        gain(S, out, Y, N)
        far = sc.minimum_distortion(Y, ref, p=p, q=q, max_iter=30, rtol=0.0)

        def obj(o):
            e = (R - o).abs()
            return e.pow(p).sum(dim=(-2, -1)) if kind == "lp" else e.pow(q).sum(dim=-2).pow(p / q).sum(dim=-1)

        if float((R - out).abs().mean()) > 0.1:  # well above the floors of the weights
            S.true("the criterion does not increase with iterations", bool((obj(far) <= obj(out) * (1 + 1e-3) + 1e-6).all()),
               "criterion %s after %d iterations, %s after 30" % (obj(out).flatten()[:4].tolist(), it, obj(far).flatten()[:4].tolist()))
    S.unchanged()


class ReweightPlan(Plan):
    """invariant: the estimate is some gain per frequency and channel, the previous estimate
    equals it, signals that have converged are marked by some Boolean tensor.  The variables
    that are None before the first iterations get the type seen at the end of them."""

    def __init__(self, P, loop, seen):
        self.P, self.seen = P, seen
        P.plan = self
        self.gains = [n for n, v in loop.entry.items() if self.gain(v)]
        self.none = [n for n, v in loop.entry.items() if v is None or (isinstance(v, Tensor) and v.dtype == P.S.T.bool)]
        if not self.gains or loop.parent is not None:
            raise Unsupported("loop not recognised at %s" % loop.site)

    def gain(self, v):
        P = self.P
        return isinstance(v, Tensor) and sizes_match(v, (P.Fr, P.K)) and len(v.axes) == 2 + len(P.b)

    def entry(self, loop):
        self.first = dict(loop.entry)
        # the shape of the loop is recognised, not imposed: the concrete contract decides what is not
        for n in self.gains:
            if not self.equal(loop.entry[n], 1.0 + 0.0 * loop.entry[n]):
                raise Unsupported("the gain does not start at one")

    def equal(self, a, b):
        S = self.P.S
        if tuple(x.size for x in a.axes) != tuple(x.size for x in b.axes):
            return False
        idx = formals(a.axes)
        return S._same(a.el(idx), b.el(idx))

    def state(self, loop, i):
        P, S = self.P, self.P.S
        self.phase = 0 if bool(i == loop.lo) else 1 if bool(i == loop.lo + 1) else 2
        if self.phase == 0:
            self.c = loop.entry[self.gains[0]]
            self.conv = None
            return {n: loop.entry[n] for n in self.gains + self.none}
        kinds = self.seen.get(self.phase - 1)
        if kinds is None:
            raise Unsupported("types of the loop variables unknown")
        self.c = fresh("c@%d" % loop.c.count("state"), P.b + (P.Fr, P.K), P.Y.dtype)
        out, self.conv = {}, None
        for n, (k, t) in kinds.items():
            if k == "gain":
                out[n] = self.c
            elif k in ("flag", "active"):
                if self.conv is None:
                    self.conv = fresh("conv@%d" % loop.c.count("state"), t, S.T.float32) > 0
                out[n] = self.conv if k == "flag" else ~self.conv
            elif n in self.none:
                out[n] = self.first[n]
        if S.view == "C09":
            for t in self.stops():
                S.excuse(t)
        return out

    def step(self, loop, i, end):
        P, S = self.P, self.P.S
        T = S.T
        kinds = {}
        for n in self.gains + self.none:
            v = end.get(n)
            if self.gain(v):
                kinds[n] = ("gain", None)
                if not self.equal(v, self.next()):
                    raise Unsupported("the loop variable %s is not the next gain" % n)
                S.eq("one reweighted least squares step, signals that have converged kept", v, self.next())
                if self.phase == 2 and S.view == "C09":
                    S.lemma("a signal that has converged keeps its gain", T.where(self.conv, v, 0.0 * v), T.where(self.conv, self.c, 0.0 * v))
            elif isinstance(v, Tensor) and v.dtype == T.bool and self.phase == 0:
                w = self.first[n]
                if not isinstance(w, Tensor) or not self.equal(v, w) or not any(self.equal(w, x + 0 * w) for x in (0.0, 1.0)):
                    raise Unsupported("the loop variable %s does not mark the signals that have converged" % n)
                kinds[n] = ("none", None)
            elif isinstance(v, Tensor) and v.dtype == T.bool:
                f = self.flag()
                kinds[n] = ("flag" if self.equal(v, f) else "active", tuple(v.shape))
                if kinds[n][0] == "active":
                    if not self.equal(v, ~f):
                        raise Unsupported("the loop variable %s does not mark the signals that have converged" % n)
                    v = ~v
                S.eq("converged: the relative step of the signal lies below rtol", v, self.flag())
                if self.phase == 2 and S.view == "C09":
                    d = self.move()
                    S.lemma("a signal that has converged stays so: relative step below rtol", v, d < P.rtol)
                    S.lemma("a signal that has converged stays so: no step", T.where(self.conv, d, 0.0 * d), 0.0 * d)
            elif v is None:
                kinds[n] = ("none", None)
            else:
                raise Unsupported("loop variable %s" % n)
        self.decision()
        old = self.seen.get(self.phase)
        if old is not None and {n: k for n, (k, _) in old.items()} != {n: k for n, (k, _) in kinds.items()}:
            raise Unsupported("types of the loop variables change")
        self.seen[self.phase] = kinds
        if self.phase == 2 and {n: k for n, (k, _) in self.seen[1].items()} != {n: k for n, (k, _) in kinds.items()}:
            raise Unsupported("types of the loop variables change after the second iteration")

    def decision(self):
        """the loop is left when, and only when, all signals have converged"""
        S = self.P.S
        if not S.view and self.phase:
            S.decided("leaves the loop when all signals have converged", self.stops())

    def stops(self):
        """the same decision written in different ways"""
        return [self.flag().all(), (~self.flag()).any(), (self.move() >= self.P.rtol).any()]

    def move(self):
        """the relative step of every signal"""
        return (self.next() - self.c).abs().norm(dim=(-2, -1), keepdim=True) / self.c.abs().norm(dim=(-2, -1), keepdim=True)

    def flag(self):
        return self.move() < self.P.rtol

    def next(self):
        P, S = self.P, self.P.S
        T = S.T
        c = self.c.transpose(-2, -1)[..., None]  # (..., K, F, 1)
        R = P.ref[..., None, :, :]
        w = mm_weights(S, P.kind, R - c * P.Y, P.p, P.q)
        num = (R * P.Y.conj() * w).sum(dim=-1, keepdim=True)
        den = T.clamp((P.Y.abs().square() * w).sum(dim=-1, keepdim=True), min=1e-5)
        new = (num / den)[..., 0].transpose(-2, -1)
        return new if self.conv is None else T.where(self.conv, self.c, new)


@contract("C15", "minimum_distortion mixed norm, any number of iterations", F("minimum_distortion", "lp_norm", "lpq_norm"), modes="sym", views=("C09", "C10", "C23"), weight=2,
          assumes=["batch independence: a signal stops alone at its own convergence; in a batch it is proved to keep its gain from then on, and the "
                   "batch to stop only when all have converged"])
def md_loop(S):
    class P:
        pass

    sc, T = S.mod("scaling"), S.T
    P.S = S
    P.b, P.K, P.Fr, P.N = mics(S)
    P.Y, P.ref = S.cplx("Y", P.b + (P.K, P.Fr, P.N)), S.cplx("ref", P.b + (P.Fr, P.N))
    P.kind, P.p, P.q = S.choose("criterion", CRITERIA)
    model = P.p = S.model() if P.kind == "model" else P.p
    kw = {"model": model} if P.kind == "model" else {"p": P.p, "q": P.q}
    P.rtol = S.eps("rtol")
    P.plan = None
    n = S.size("max_iter", 1)
    S.loops(lambda loop: ReweightPlan(P, loop, MEMO.setdefault((P.kind, P.q), {})))
    out = sc.minimum_distortion(P.Y, P.ref, max_iter=n, rtol=P.rtol, **kw)
    P.plan.decision()
    S.shape("shape", out, P.b + (P.K, P.Fr, P.N))
    gain(S, out, P.Y, P.N)
    S.eq("scaled by the gain of the last iteration", out, P.Y * P.plan.next().transpose(-2, -1)[..., None])
    S.unchanged()


@contract("C15", "minimum_distortion stops every signal at its own convergence", F("minimum_distortion"), modes="con", views=(), trials=120)
def md_stop(S):
    sc, T = S.mod("scaling"), S.T
    b, K, Fr, N = mics(S)
    N = N + 12
    Y, ref = S.cplx("Y", b + (K, Fr, N)), S.cplx("ref", b + (Fr, N))
    if S.choose("correlated", [False, True]):
        ref = S.owned(0.3 * ref + Y[..., 0, :, :], "ref")
    kind, p, q = S.choose("criterion", CRITERIA)
    p = S.model() if kind == "model" else p
    kw = {"model": p} if kind == "model" else {"p": p, "q": q}
    rtol, it = S.choose("rtol", [1e-1, 1e-2, 1e-3]), S.choose("max_iter", [2, 3, 5, 10, 40, 100])
    R, c, done = ref[..., None, :, :], T.ones(b + (K, Fr, 1), dtype=S.c128), T.zeros(b + (1, 1, 1), dtype=T.bool)
    for k in range(it):
        w = mm_weights(S, kind, R - c * Y, p, q)
        new = (R * Y.conj() * w).sum(dim=-1, keepdim=True) / T.clamp((Y.abs().square() * w).sum(dim=-1, keepdim=True), min=1e-5)
        new = T.where(done, c, new)
        if k > 0:
            d = (new - c).abs().square().sum(dim=(-3, -2), keepdim=True).sqrt() / c.abs().square().sum(dim=(-3, -2), keepdim=True).sqrt()
            if bool(((d - rtol).abs() < 1e-6 * rtol).any()):
                raise Reject()
            done = done | (d < rtol)
        c = new
    S.eq("the iterates until the relative step is below rtol", sc.minimum_distortion(Y, ref, max_iter=it, rtol=rtol, **kw), c * Y, tol=1e-6)
    S.unchanged()


MEMO = {}


@contract("C15", "projection_back on a reference signal", F("projection_back"), trials=100)
def pb(S):
    sc, T = S.mod("scaling"), S.T
    b, K, Fr, N = mics(S)
    S.assume(N >= K)
    Y = S.cplx("Y", b + (K, Fr, N))
    if S.sym:
        ref = S.cplx("ref", b + (Fr, N))
        out = sc.projection_back(Y, ref)
        S.shape("shape", out, b + (K, Fr, N))
        gain(S, out, Y, N)
        Z = Y.transpose(-3, -2)
        loud = T.argsort(Y.abs().sum(dim=(-3, -2)), dim=-1)[..., -K:]
        A = T.gather(Z, -1, loud[..., None, None, :].expand(b + (Fr, K, K))).transpose(-2, -1)
        r = T.gather(ref, -1, loud[..., None, :].expand(b + (Fr, K)))
        c = T.linalg.solve(A + 1e-5 * S.eye(K), r[..., None])
        S.eq("gains solving the equations of the loudest frames", out, (Z * c).transpose(-3, -2))
        S.unchanged()
        return
    Y = S.owned(Y / Y.abs().max() * 30, "Y")
    a = S.cplx("a", b + (K, Fr))
    a = S.owned(a / a.abs().max(), "a")
    ref = S.owned((a[..., None] * Y).sum(dim=-3), "ref")
    # well posed problems only: the loudest frames determine the scales
    loud = T.argsort(Y.abs().sum(dim=(-3, -2)), dim=-1)[..., -K:]
    Z = T.gather(Y, -1, loud[..., None, None, :].expand(b + (K, Fr, K))).transpose(-3, -2)
    S.assume(float(T.linalg.svdvals(Z)[..., -1].min()) > 0.3)
    out = sc.projection_back(Y, ref)
    S.shape("shape", out, b + (K, Fr, N))
    S.eq("recovers the images of the sources at the reference", out, a[..., None] * Y, tol=1e-2)
    S.eq("the scaled signals add up to the reference", out.sum(dim=-3), ref, tol=1e-2)
    S.unchanged()
