"""Contracts of the source models (C11: Laplace and Gauss, C12: NMF)."""
from vt.harness import contract


def M(*n):
    return ["torchiva.models.classic." + x for x in n]


def power(X):
    return (X * X.conj()).real if X.is_complex() else X * X


@contract("C11", "LaplaceModel", M("LaplaceModel.__init__", "LaplaceModel.forward", "sqrt_nonneg"))
def laplace(S):
    T = S.T
    b, F, N = S.batch(), S.size("F"), S.size("N")
    cp = S.choose("complex", [True, False])
    X = S.cplx("X", b + (F, N)) if cp else S.real("X", b + (F, N))
    dflt = S.choose("default eps", [True, False])
    eps = 1e-5 if dflt else S.eps("eps")
    m = S.mod("models.classic").LaplaceModel() if dflt else S.mod("models.classic").LaplaceModel(eps=eps)
    w = m(X)
    S.shape("shape", w, b + (F, N))
    S.dtype("real weights", w, S.f64)
    r = 2.0 * T.sqrt(power(X).sum(dim=-2, keepdim=True))
    S.eq("inverse of twice the norm over frequency, floored", w, (1.0 / T.clamp(r, min=eps)).expand(b + (F, N)))
    S.unchanged()
    if not S.sym:
        S.true("positive and at most 1/eps", bool(((w > 0) & (w <= 1 / eps * (1 + 1e-9))).all()))
        Z = m(0 * X)
        S.eq("silence", Z, 0 * r.expand(b + (F, N)) + 1 / eps)


@contract("C11", "GaussModel", M("GaussModel.__init__", "GaussModel.forward"))
def gauss(S):
    T = S.T
    b, F, N = S.batch(), S.size("F"), S.size("N")
    cp = S.choose("complex", [True, False])
    X = S.cplx("X", b + (F, N)) if cp else S.real("X", b + (F, N))
    dflt = S.choose("default eps", [True, False])
    eps = 1e-5 if dflt else S.eps("eps")
    m = S.mod("models.classic").GaussModel() if dflt else S.mod("models.classic").GaussModel(eps=eps)
    w = m(X)
    S.shape("shape", w, b + (F, N))
    S.dtype("real weights", w, S.f64)
    r = power(X).sum(dim=-2, keepdim=True) / F
    S.eq("inverse of the mean power over frequency, floored", w, (1.0 / T.clamp(r, min=eps)).expand(b + (F, N)))
    S.unchanged()
    if not S.sym:
        S.true("positive and at most 1/eps", bool(((w > 0) & (w <= 1 / eps * (1 + 1e-9))).all()))
        Z = m(0 * X)
        S.eq("silence", Z, 0 * r.expand(b + (F, N)) + 1 / eps)


def nmf_step(S, P, Tm, V, iR, eps):
    """one multiplicative update of basis then activations (reference)"""
    T = S.T
    e = lambda s, *a: T.einsum(s, *a)
    Tm = Tm * T.sqrt(e("bfn,bnk->bfk", P * iR * iR, V) / e("bfn,bnk->bfk", iR, V))
    Tm = T.clamp(Tm, min=eps)
    iR = 1.0 / T.clamp(e("bfk,bnk->bfn", Tm, V), min=eps)
    V = V * T.sqrt(e("bfn,bfk->bnk", P * iR * iR, Tm) / e("bfn,bfk->bnk", iR, Tm))
    V = T.clamp(V, min=eps)
    iR = 1.0 / T.clamp(e("bfk,bnk->bfn", Tm, V), min=eps)
    return Tm, V, iR


@contract("C12", "NMFModel update", M("NMFModel.__init__", "NMFModel.forward", "NMFModel._init_state", "NMFModel._recompute_estimate"), weight=2)
def nmf(S):
    """class invariant: iR = 1 / max(T V^T, eps); a call performs one update of T, then of V"""
    T = S.T
    b, F, N, K = S.batch(), S.size("F"), S.size("N"), S.size("K")
    X = S.cplx("X", b + (F, N))
    eps = S.eps("eps")
    m = S.mod("models.classic").NMFModel(n_basis=K, eps=eps)
    m.reset()
    P = power(X.reshape((-1, F, N)))
    m._init_state(P)
    nb = P.shape[-3] if not S.sym else P.shape[0]
    Tb, Va = m.T, m.V
    T0, V0 = Tb, Va
    S.shape("basis shape", Tb, (nb, F, K))
    S.shape("activation shape", Va, (nb, N, K))
    if S.sym:
        S.eq("initial estimate", m.iR, 1.0 / T.clamp(T.einsum("bfk,bnk->bfn", Tb, Va), min=eps))
        # any state satisfying the invariant
        Tb = S.pos("Tb", (nb, F, K))
        Va = S.pos("Va", (nb, N, K))
        iR0 = 1.0 / T.clamp(T.einsum("bfk,bnk->bfn", Tb, Va), min=eps)
        m.T, m.V, m.iR = Tb, Va, iR0
        out = m(X)
        T1, V1, iR1 = nmf_step(S, P, Tb, Va, iR0, eps)
        S.eq("basis update", m.T, T1)
        S.eq("activation update", m.V, V1)
        S.eq("invariant: iR is the floored inverse of T V^T", m.iR, 1.0 / T.clamp(T.einsum("bfk,bnk->bfn", m.T, m.V), min=eps))
        S.shape("output shape", out, b + (F, N))
        S.eq("returns the inverse of the model power", out.reshape((-1, F, N)), iR1)
        S.unchanged()
        return
    S.true("initial values positive", bool((Tb > 0).all() and (Va > 0).all()))
    for name, M_ in (("basis", Tb), ("activations", Va)):
        S.true("initial %s: random factors of the requested rank" % name,
               bool((T.linalg.matrix_rank(M_, rtol=1e-9) == min(M_.shape[-2:])).all()), repr(M_))
    if nb > 1:
        S.true("the signals of a batch start from different factors", not bool((Tb[0] == Tb[1]).all()) and not bool((Va[0] == Va[1]).all()))
    m2 = S.mod("models.classic").NMFModel(n_basis=K, eps=eps)
    m2._init_state(P)
    S.true("fresh factors for every object", not bool((m2.T == Tb).all()) and not bool((m2.V == Va).all()))
    iR = 1.0 / T.clamp(T.einsum("bfk,bnk->bfn", Tb, Va), min=eps)

    def isdiv(iR):
        return float((P * iR - T.log(P * iR)).sum())

    d0 = isdiv(iR)
    for k in range(3):
        out = m(X)
        Tb, Va, iR = nmf_step(S, P, Tb, Va, iR, eps)
        S.eq("basis update (call %d)" % k, m.T, Tb)
        S.eq("activation update (call %d)" % k, m.V, Va)
        S.shape("output shape", out, b + (F, N))
        S.eq("weights (call %d)" % k, out.reshape((-1, F, N)), iR)
        S.true("weights positive, finite, at most 1/eps", bool(((out > 0) & (out <= 1 / eps * (1 + 1e-6))).all()))
    if float(T.stack([x.min() for x in (Tb, Va, 1 / iR)]).min()) > 2 * eps:
        S.true("the Itakura-Saito divergence does not increase", isdiv(iR) <= d0 + 1e-6 * abs(d0) + 1e-6)
    m.reset()
    m._init_state(P)
    S.true("fresh factors after reset", not bool((m.T == T0).all()) and not bool((m.V == V0).all()))
    m.reset()
    X2 = S.cplx("X2", b + (F + 1, N + 2))
    S.shape("usable on another shape after reset", m(X2), b + (F + 1, N + 2))
    S.unchanged()


@contract("C11", "LaplaceModel cost", M("LaplaceModel.cost"), views=(), trials=30)
def laplace_cost(S):
    b, K, F, N = S.batch(), S.size("K", 1), S.size("F", 1), S.size("N", 1)
    X = S.cplx("X", b + (K, F, N))
    S.eq("mean over time of the norms over frequency, summed over the sources", S.mod("models.classic").LaplaceModel().cost(X),
         S.T.sqrt(power(X).sum(dim=-2)).sum(dim=(-1, -2)) / N)
    S.unchanged()
