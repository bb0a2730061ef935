"""Contracts of torchiva.linalg (C13) and of its eigenvalue / 2x2 routines (C14)."""
from vt.harness import contract, Reject


def L(*n):
    return ["torchiva.linalg." + x for x in n]


# ------------------------------------------------------------------ C13
@contract("C13", "divide", L("divide"))
def divide(S):
    la = S.mod("linalg")
    b, n, m = S.batch(), S.size("n"), S.size("m")
    x = S.cplx("x", b + (n, m))
    d = S.real("d", b + (n, S.choose("cols", [m, 1])))
    eps = S.eps("eps")
    r = la.divide(x, d, eps=eps)
    S.shape("shape", r, b + (n, m))
    S.eq("quotient by the denominator floored at eps", r, x / S.T.clamp(d, min=eps))
    S.unchanged()


@contract("C13", "multiply", L("multiply"))
def multiply(S):
    la = S.mod("linalg")
    b, n, m = S.batch(), S.size("n"), S.size("m")
    k1, k2 = S.choose("kinds", [("c", "c"), ("c", "r"), ("r", "c"), ("r", "r")])
    x = S.cplx("x", b + (n, m)) if k1 == "c" else S.real("x", b + (n, m))
    y = S.cplx("y", b + (n, m)) if k2 == "c" else S.real("y", b + (n, m))
    r = la.multiply(x, y)
    S.dtype("dtype", r, S.f64 if (k1, k2) == ("r", "r") else S.c128)
    S.eq("element-wise product", r, x * y)
    S.unchanged()


@contract("C13", "mag_sq and mag", L("mag_sq", "mag"))
def mag_sq(S):
    la, T = S.mod("linalg"), S.T
    b, n = S.batch(), S.size("n")
    cp = S.choose("kind", ["c", "r"]) == "c"
    x = S.cplx("x", b + (n,)) if cp else S.real("x", b + (n,))
    r = la.mag_sq(x)
    S.dtype("dtype", r, S.f64)
    S.eq("squared modulus", r, (x * x.conj()).real if cp else x * x)
    S.eq("modulus", la.mag(x), x.abs())
    S.unchanged()


@contract("C13", "bmm and hermite", L("bmm", "hermite"))
def bmm(S):
    la, T = S.mod("linalg"), S.T
    b, n, m, k = S.batch(), S.size("n"), S.size("m"), S.size("k")
    x, y = S.cplx("x", b + (n, m)), S.cplx("y", b + (m, k))
    S.eq("complex matrix product", la.bmm(x, y), T.einsum("...ij,...jk->...ik", x, y))
    S.eq("conjugate transpose", la.hermite(x), x.conj().transpose(-2, -1))
    z = S.real("z", b + (n, m))
    S.eq("transpose", la.hermite(z), z.transpose(-2, -1))
    S.unchanged()


def loaded(S, A, load):
    T = S.T
    n = A.shape[-1]
    lam = T.clamp(load * A.abs().amax(dim=(-2, -1), keepdim=True), min=load)
    return A + lam * S.eye(n, dtype=A.dtype)


@contract("C13", "solve_loaded and inv_loaded", L("solve_loaded", "inv_loaded"))
def solve_loaded(S):
    la, T = S.mod("linalg"), S.T
    b, n, m = S.batch(), S.size("n"), S.size("m")
    real = S.choose("real", [False, True])
    mk = S.real if real else S.cplx
    A, y = mk("A", b + (n, n)), mk("y", b + (n, m))
    dflt = S.choose("default load", [True, False])
    load = 1e-6 if dflt else S.eps("load")
    x = la.solve_loaded(A, y) if dflt else la.solve_loaded(A, y, load=load)
    Al = loaded(S, A, load)
    S.shape("shape", x, b + (n, m))
    S.eq("solution of the loaded system", x, T.linalg.solve(Al, y), tol=1e-5)
    Ai = la.inv_loaded(A) if dflt else la.inv_loaded(A, load=load)
    S.eq("inverse of the loaded matrix", Ai, T.linalg.inv(Al), tol=1e-5)
    if not S.sym:
        S.eq("residual", T.einsum("...ij,...jk->...ik", Al, x), y, tol=1e-5)
    S.unchanged()


@contract("C13", "solve_loaded_general", L("solve_loaded_general"))
def solve_loaded_general(S):
    la, T = S.mod("linalg"), S.T
    b, n, m, k = S.batch(), S.size("n"), S.size("m"), S.size("k")
    A, y = S.cplx("A", b + (n, k)), S.cplx("y", b + (n, m))
    dflt = S.choose("default load", [True, False])
    load, eps = (1e-5, 1e-5) if dflt else (S.eps("load"), S.eps("eps"))
    x = la.solve_loaded_general(A, y) if dflt else la.solve_loaded_general(A, y, load=load, eps=eps)
    A0 = A.detach()  # the normalisation does not change the solution and is not differentiated
    w = 1.0 / T.clamp(T.sqrt((A0 * A0.conj()).real.sum(dim=-1, keepdim=True)), min=eps)
    Aw, yw = A * w, y * w
    G = T.einsum("...km,...kn->...mn", Aw.conj(), Aw) + load * S.eye(k)
    g = T.einsum("...km,...kn->...mn", Aw.conj(), yw)
    S.shape("shape", x, b + (k, m))
    S.eq("minimiser of the row-normalised regularised least squares", x, T.linalg.solve(G, g), tol=1e-5)
    S.unchanged()


@contract("C13", "diagonal_loading", L("diagonal_loading"))
def diagonal_loading(S):
    la, T = S.mod("linalg"), S.T
    b, n = S.batch(), S.size("n")
    A, d = S.cplx("A", b + (n, n)), S.real("d", b + (n,))
    S.eq("adds d to the diagonal", la.diagonal_loading(A, d), A + S.eye(n) * d[..., None])
    S.unchanged()


@contract("C13", "hankel_view", L("hankel_view"))
def hankel_view(S):
    la, T = S.mod("linalg"), S.T
    b, n, r = S.batch(), S.size("n"), S.size("r")
    S.assume(r <= n)
    x = S.cplx("x", b + (n,))
    h = la.hankel_view(x, r)
    S.shape("shape", h, b + (r, n - r + 1))
    if S.sym:
        i = S.size("i", 0, r)
        S.eq("row i is the signal advanced by i", h[..., i, :], x[..., i : i + (n - r + 1)])
    else:
        for i in range(r):
            S.eq("row i is the signal advanced by i", h[..., i, :], x[..., i : i + (n - r + 1)])
    S.no_events("out-of-bounds-view")
    S.unchanged()


# ------------------------------------------------------------------ C14
@contract("C14", "inv_2x2", L("inv_2x2"))
def inv_2x2(S):
    la, T = S.mod("linalg"), S.T
    b = S.batch()
    W = S.cplx("W", b + (2, 2))
    eps = S.choose("eps", [1e-6, 0.5])
    V = la.inv_2x2(W, eps=eps)
    det = W[..., 0, 0] * W[..., 1, 1] - W[..., 0, 1] * W[..., 1, 0]
    dc = T.where(det.abs() < eps, eps + 0 * det, det)
    c = (det / dc)[..., None, None]
    S.eq("left inverse where the determinant is not floored", T.einsum("...ij,...jk->...ik", V, W), c * S.eye(2))
    S.eq("right inverse where the determinant is not floored", T.einsum("...ij,...jk->...ik", W, V), c * S.eye(2))
    n = S.size("n")
    S.assume(n != 2)
    S.raises("rejects other sizes", ValueError, lambda: la.inv_2x2(S.cplx("Q", b + (n, n))))
    S.unchanged()


@contract("C14", "eigh_2x2 generalized", L("eigh_2x2", "eigh", "mag_sq", "multiply", "divide"),
          assumes=["2x2 generalized eigenproblem: stated where the floors on the discriminant, on det B and on the norm are inactive"])
def eigh_2x2_gen(S):
    la, T = S.mod("linalg"), S.T
    b = S.batch()
    A = S.owned(S.herm2("A", b), "Amat")
    B = S.owned(S.herm2("B", b), "Bmat")
    if not S.sym:
        B = S.owned(B + 0.1 * S.eye(2) * (1 + B.abs().amax()), "Bmat")
        A = S.owned(A + S.choose("shift", [0.0, 0.5, -3.0]) * S.eye(2), "Amat")
        A = S.owned(A * S.choose("scale of A", [1.0, 1e2, 1e-1]), "Amat")
        B = S.owned(B * S.choose("scale of B", [1.0, 1e2, 1e-1]), "Bmat")
    via = S.choose("entry point", ["eigh_2x2", "eigh"])
    if via == "eigh_2x2":
        lam, U = la.eigh_2x2(A, B, eps=1e-12)
    else:
        lam, U = la.eigh(A, B)
    S.shape("eigenvalues shape", lam, b + (2,))
    S.shape("eigenvectors shape", U, b + (2, 2))
    S.dtype("eigenvalues are real", lam, S.f64)
    lam, U = S.unclamped(lam), S.generic(S.unclamped(U))
    for k in (0, 1):
        v, l = U[..., k], lam[..., k]
        lhs = T.einsum("...ij,...j->...i", A, v)
        rhs = T.einsum("...ij,...j->...i", B, v) * l[..., None]
        S.eq("A v = lambda B v (%d)" % k, lhs, rhs, tol=1e-5)
        S.eq("unit norm (%d)" % k, (v * v.conj()).real.sum(dim=-1), 0 * l + 1.0)
    bb = (A[..., 0, 0] * B[..., 1, 1] + A[..., 1, 1] * B[..., 0, 0] - A[..., 0, 1] * B[..., 1, 0] - A[..., 1, 0] * B[..., 0, 1]).real
    dA = (A[..., 0, 0] * A[..., 1, 1] - A[..., 0, 1] * A[..., 1, 0]).real
    dB = (B[..., 0, 0] * B[..., 1, 1] - B[..., 0, 1] * B[..., 1, 0]).real
    S.eq("sum of the eigenvalues", (lam[..., 0] + lam[..., 1]) * dB, bb, tol=1e-5)
    S.eq("ascending order: gap is the square root of the discriminant", (lam[..., 1] - lam[..., 0]) * dB,
         T.sqrt(S.unclamped(T.clamp(bb * bb - 4 * dA * dB, min=0.0))), tol=1e-4)
    if not S.sym:
        S.true("ascending", bool((lam[..., 0] <= lam[..., 1] + 1e-9).all()))
    S.unchanged()


@contract("C14", "eigh_2x2 eigenvalues", L("eigh_2x2", "eigh"),
          assumes=["2x2 eigenproblem: stated where the floor on the discriminant is inactive"])
def eigh_2x2_std(S):
    la, T = S.mod("linalg"), S.T
    b = S.batch()
    A = S.owned(S.herm2("A", b), "Amat")
    lam, U = la.eigh_2x2(A)
    lam = S.unclamped(lam)
    tr = (A[..., 0, 0] + A[..., 1, 1]).real
    det = (A[..., 0, 0] * A[..., 1, 1] - A[..., 0, 1] * A[..., 1, 0]).real
    S.eq("sum of the eigenvalues is the trace", lam[..., 0] + lam[..., 1], tr)
    S.eq("product of the eigenvalues is the determinant", lam[..., 0] * lam[..., 1], det, tol=1e-5)
    S.unchanged()


def _vectors(S, T, A, lam, U, both=False):
    """A v = lambda v and unit norm; both: for v or for its conjugate"""
    for k in (0, 1):
        v, l = U[..., k], lam[..., k]
        r = T.einsum("...ij,...j->...i", A, v) - v * l[..., None]
        if both:
            q = T.einsum("...ij,...j->...i", A, v.conj()) - v.conj() * l[..., None]
            S.eq_any("A v = lambda v for v or its conjugate (%d)" % k, [(q, 0 * A[..., 0]), (r, 0 * A[..., 0])], tol=1e-5)
        else:
            S.eq("A v = lambda v (%d)" % k, r, 0 * A[..., 0], tol=1e-5)
        S.eq("unit norm (%d)" % k, (v * v.conj()).real.sum(dim=-1), 0 * l + 1.0)


@contract("C14", "eigh_2x2 real symmetric", L("eigh_2x2"),
          assumes=["2x2 real symmetric eigenproblem: stated where no floor is active (off-diagonal entry not zero)"])
def eigh_2x2_real(S):
    la, T = S.mod("linalg"), S.T
    b = S.batch()
    p, q, r = S.real("a11", b), S.real("a12", b), S.real("a22", b)
    A = S.owned(T.stack([T.stack([p, q], dim=-1), T.stack([q, r], dim=-1)], dim=-2), "Amat")
    lam, U = la.eigh_2x2(A)
    S.shape("eigenvalues shape", lam, b + (2,))
    S.shape("eigenvectors shape", U, b + (2, 2))
    lam, U = S.unclamped(lam), S.generic(S.unclamped(U))
    _vectors(S, T, A, lam, U)
    S.unchanged()


@contract("C14", "eigh_2x2 complex hermitian up to conjugation", L("eigh_2x2"),
          assumes=["2x2 complex eigenproblem: stated where no floor is active (off-diagonal entry not zero)"])
def eigh_2x2_herm_weak(S):
    la, T = S.mod("linalg"), S.T
    b = S.batch()
    A = S.owned(S.herm2("A", b), "Amat")
    lam, U = la.eigh_2x2(A)
    S.shape("eigenvalues shape", lam, b + (2,))
    S.shape("eigenvectors shape", U, b + (2, 2))
    S.dtype("eigenvalues are real", lam, S.f64)
    lam, U = S.unclamped(lam), S.generic(S.unclamped(U))
    _vectors(S, T, A, lam, U, both=True)
    S.unchanged()


@contract("C14", "eigh_2x2 of ascending diagonal matrices", L("eigh_2x2"), modes="con", trials=30, views=())
def eigh_2x2_asc(S):
    la, T = S.mod("linalg"), S.T
    A = _diag(S, T, 1)
    lam, U = la.eigh_2x2(A)
    _vectors(S, T, A, lam, U)


def _diag(S, T, sign):
    b = S.batch()
    p, q = S.real("a11", b), S.real("gap", b).abs() + 0.01
    q = p + sign * q
    o = 0 * p
    return S.owned(T.stack([T.stack([p, o], dim=-1), T.stack([o, q], dim=-1)], dim=-2), "Amat")


# known_findings.json lists what these two find
@contract("C14", "eigh_2x2 complex hermitian", L("eigh_2x2"), modes="con", trials=20, views=())
def eigh_2x2_herm(S):
    la, T = S.mod("linalg"), S.T
    b = S.batch()
    A = S.owned(S.herm2("A", b), "Amat")
    lam, U = la.eigh_2x2(A)
    lam, U = S.unclamped(lam), S.generic(S.unclamped(U))
    _vectors(S, T, A, lam, U)


@contract("C14", "eigh_2x2 of descending diagonal matrices", L("eigh_2x2"), modes="con", trials=20, views=())
def eigh_2x2_diag(S):
    la, T = S.mod("linalg"), S.T
    A = _diag(S, T, -1)
    lam, U = la.eigh_2x2(A)
    _vectors(S, T, A, lam, U)


@contract("C14", "eigh of any size", L("eigh", "eigh_wrapper"), modes="con", trials=150)
def eigh(S):
    la, T = S.mod("linalg"), S.T
    b, n = S.batch(), S.size("n")
    dt = S.choose("dtype", [S.c128, S.c128, S.c64])
    A = S.herm("A", b, n, dt)
    A = S.owned(A - S.choose("shift", [0.0, 1.0]) * S.eye(n, dtype=dt), "Amat")
    gen = S.choose("generalized", [False, True])
    B = S.herm("B", b, n, dt)
    B = S.owned(B + 0.2 * (1 + B.abs().amax()) * S.eye(n, dtype=dt), "Bmat")
    # the documented floors (1e-5 on the eigenvalues of B and on the norms) stay inactive
    sc = S.choose("scale of B", [1.0, 1.0, 1e5, 1e-2] if dt == S.c128 else [1.0])
    B = S.owned(sc * B, "Bmat")
    sa = S.choose("scale of A", [1.0, 1e3, 1e-4]) if dt == S.c128 else 1.0
    if not S.sym and S.gradient and (sc < 1 or sa < 1):  # the floors come near
        raise Reject()
    A = S.owned(A * sa, "Amat")
    if S.choose("diagonal", [0, 0, 1]):
        A = S.owned(A * S.eye(n, dtype=dt), "Amat")
        if gen:
            B = S.owned(B * S.eye(n, dtype=dt), "Bmat")
    lam, U = la.eigh(A, B) if gen else la.eigh(A)
    S.shape("eigenvalues", lam, b + (n,))
    S.shape("eigenvectors", U, b + (n, n))
    S.dtype("dtype", U, dt)
    lhs = T.einsum("...ij,...jk->...ik", A, U)
    rhs = T.einsum("...ij,...jk->...ik", B, U) if gen else U
    S.eq("A V = B V diag(lambda)", lhs, rhs * lam[..., None, :], tol=5e-3 if dt == S.c64 else 1e-5)
    S.eq("unit norm", U.abs().square().sum(dim=-2), T.ones_like(lam), tol=1e-3 if dt == S.c64 else 1e-6)
    S.true("ascending", bool((lam[..., :-1] <= lam[..., 1:] + 1e-5 * (1 + lam.abs().max())).all()))
    S.unchanged()


@contract("C14", "generalized eigh of any size", L("eigh", "eigh_wrapper", "hermite"), modes="sym", weight=3,
          assumes=["torch.linalg.eigh returns an orthonormal eigendecomposition with ascending eigenvalues",
                   "generalized eigh: stated where the floor on the eigenvalues of B and on the norms is inactive"])
def eigh_general(S):
    # every pair is of this form: B = Q diag(d) Q^H, A = B^(1/2) P diag(e) P^H B^(1/2)
    la, T = S.mod("linalg"), S.T
    b, n = S.batch(), S.size("n", 3)
    Q, P = S.unitary("Q", b, n), S.unitary("P", b, n)
    d, e = S.pos("d", b + (n,)), S.real("e", b + (n,))
    r = T.einsum("...ij,...j,...kj->...ik", Q, T.sqrt(d), Q.conj())
    B = T.einsum("...ij,...j,...kj->...ik", Q, d, Q.conj())
    M = T.einsum("...ij,...j,...kj->...ik", P, e, P.conj())
    A = T.einsum("...ij,...jk,...kl->...il", r, M, r)
    A, B = S.owned(A, "Amat"), S.owned(B, "Bmat")
    if S.choose("problem", ["generalized", "standard"]) == "standard":
        S.eigh_returns((B, d, Q))
        lam, U = la.eigh(B)
        S.eq("eigenvalues", lam, d)
        S.eq("eigenvectors", U, Q)
        S.unchanged()
        return
    S.eigh_returns((B, d, Q), (M, e, P))
    lam, U = la.eigh(A, B)
    S.shape("eigenvalues", lam, b + (n,))
    S.shape("eigenvectors", U, b + (n, n))
    S.dtype("eigenvalues are real", lam, S.f64)
    U = S.unclamped(U)
    S.eq("the eigenvalues keep the order", lam, e)
    lhs = T.einsum("...ij,...jk->...ik", A, U)
    rhs = T.einsum("...ij,...jk->...ik", B, U) * lam[..., None, :]
    S.eq("A V = B V diag(lambda)", lhs, rhs)
    S.eq("unit norm", (U * U.conj()).real.sum(dim=-2), 0 * lam + 1.0)
    S.unchanged()


@contract("C13", "dtype helpers", ["torchiva.dtypes." + x for x in ("is_complex_type", "dtype_f2cpx", "dtype_cpx2f")], views=(), trials=20)
def dtypes_contract(S):
    d, T = S.mod("dtypes"), S.T
    pairs = [(T.float32, T.complex64), (T.float64, T.complex128)]
    r, c = pairs[S.choose("precision", [0, 1])]
    t = S.choose("of", ["real", "complex"])
    x = {"real": r, "complex": c}[t]
    if S.choose("argument", ["dtype", "tensor"]) == "tensor":
        x = S.real("x", (S.size("n", 1),), dtype=x) if t == "real" else S.cplx("x", (S.size("n", 1),), dtype=x)
    S.true("complex or not", bool(d.is_complex_type(x)) is (t == "complex"))
    S.true("the complex type of the same precision", d.dtype_f2cpx(x) == c)
    S.true("the real type of the same precision", d.dtype_cpx2f(x) == r)
