"""Gradients of complete calls on the real code (C23): signals with silent parts, the
memory saving mode of T-ISS, directional derivatives. Bounded checks: the proved side is the
gradient view of the contracts of each function."""
from vt.harness import contract, Reject

from .history import Masks


def finite(T, t):
    return bool(T.isfinite(T.view_as_real(t.resolve_conj()) if t.is_complex() else t).all())


def model(S, kinds=("Laplace", "Gauss", "NMF")):
    m = S.mod("models")
    k = S.choose("model", list(kinds))
    return {"Laplace": lambda: m.LaplaceModel(), "Gauss": lambda: m.GaussModel(), "NMF": lambda: m.NMFModel(n_basis=2),
            "net": lambda: Net(S)}[k]()


def Net(S, drop=0.0):
    """a source model with trainable parameters"""
    T = S.T

    class N(T.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = T.nn.Parameter(0.5 + T.rand(3, generator=S.g, dtype=T.float64))
            self.b = T.nn.Parameter(T.tensor(0.7, dtype=T.float64))
            self.d = T.nn.Dropout(drop)
            self.k = 0

        def forward(self, X):
            p = X.real.square() + X.imag.square()
            r = self.w[0] / (0.3 + p.mean(dim=-2, keepdim=True)) + self.w[1] / (0.5 + p) + self.w[2] * self.b.square()
            return self.d(r) + 0.05

    return N()


def separators(S, C):
    """the calls of a complete separator: name -> function of the spectrum"""
    kind = S.choose("algorithm", ["tiss", "tiss", "ip", "ip2", "five", "wpe", "models"])
    n = S.choose("n_iter", [1, 2, 3])
    mic = S.choose("mic", [0, 1, None])
    if kind == "tiss":
        kw = dict(n_iter=n, n_src=S.choose("n_src", [None, 1, 2]), n_taps=S.choose("taps", [0, 1, 2]), n_delay=S.choose("delay", [0, 1]),
                  use_dmc=S.choose("dmc", [False, True]), proj_back_mic=mic)
        return kind, C, lambda m, x: S.mod("t_iss").T_ISS(model=m, **kw)(x)
    if kind == "ip":
        k = S.choose("n_src", [None, 1, 2])
        return kind, C, lambda m, x: S.mod("auxiva_ip").AuxIVA_IP(model=m, n_iter=n, n_src=k, proj_back_mic=mic)(x)
    if kind == "ip2":
        return kind, 2, lambda m, x: S.mod("auxiva_ip2").AuxIVA_IP2(model=m, n_iter=n, proj_back_mic=mic)(x)
    if kind == "five":
        q = S.choose("power", [None, 2])
        return kind, C, lambda m, x: S.mod("five").FIVE(model=m, n_iter=n, proj_back_mic=mic or 0, n_power_iter=q)(x)
    if kind == "models":
        return kind, C, lambda m, x: m(x)
    t, d = S.choose("taps", [1, 2]), S.choose("delay", [0, 1])
    return kind, C, lambda m, x: S.mod("wpe").WPE(n_iter=n, n_taps=t, n_delay=d)(x)


FN = ["torchiva." + f for f in ("t_iss.T_ISS.forward", "auxiva_ip.AuxIVA_IP.forward", "auxiva_ip2.AuxIVA_IP2.forward", "five.FIVE.forward",
                                "wpe.WPE.forward", "models.classic.LaplaceModel.forward", "models.classic.GaussModel.forward",
                                "models.classic.NMFModel.forward")]


@contract("C23", "finite gradients of signals with silent parts", FN, modes="con", trials=60, weight=3, views=())
def g_silent(S):
    T = S.T
    kind, C, call = separators(S, S.choose("channels", [2, 3]))
    dt = S.choose("precision", [T.complex64, T.complex128])
    b, F, N = S.choose("batch", [(), (2,)]), S.choose("n_freq", [2, 4]), S.choose("n_frames", [18, 23])
    x = T.randn(b + (C, F, N), generator=S.g, dtype=T.complex128)
    w = S.choose("silent", ["nothing", "everything", "first frames", "last frames", "a channel", "a frequency", "one element of the batch"])
    if w == "everything":
        x[:] = 0
    elif w == "first frames":
        x[..., :6] = 0
    elif w == "last frames":
        x[..., -5:] = 0
    elif w == "a channel":
        x[..., -1, :, :] = 0
    elif w == "a frequency":
        x[..., 0, :] = 0
    elif b and w != "nothing":
        x[0] = 0
    if kind == "five" and w not in ("nothing", "first frames", "last frames"):
        raise Reject()  # eigenvectors of degenerate pairs have no derivative
    x = x.to(dt).requires_grad_(True)
    T.manual_seed(S.rng.randrange(1 << 30))
    # (a model with a state of its own is not recomputable: known finding)
    dmc = kind == "tiss" and S.log.get("dmc") == "True"
    y = call(model(S, ("Laplace", "Gauss") if dmc else ("Laplace", "Gauss", "NMF")), x)
    if not finite(T, y.detach()):
        raise Reject()
    if not y.requires_grad:
        S.fail("gradient", "the result of %s does not depend on its input" % kind)
    (y.abs() ** 2).sum().backward()
    S.checked += 1
    if x.grad is None:
        S.fail("gradient", "no gradient reaches the input of %s" % kind)
    if not finite(T, x.grad):
        S.fail("gradient", "of %s not finite where the result is finite" % kind)


@contract("C23", "the memory saving mode of T-ISS has the same result and gradient", ["torchiva.t_iss.T_ISS.forward", "torchiva.t_iss.over_iss_t_one_iter_dmc"],
          modes="con", trials=50, weight=3, views=())
def g_dmc(S):
    T = S.T
    C = S.choose("channels", [2, 3])
    kw = dict(n_iter=S.choose("n_iter", [1, 2, 3]), n_src=S.choose("n_src", [None, 1, 2]), n_taps=S.choose("taps", [0, 2]),
              n_delay=S.choose("delay", [0, 1]), proj_back_mic=S.choose("mic", [0, 1, None]))
    if kw["n_src"] is not None and kw["n_src"] > C:
        raise Reject()
    b = S.choose("batch", [(), (2,)])
    x = T.randn(b + (C, 3, 20), generator=S.g, dtype=T.complex128)
    leaf = S.choose("signal requires grad", [False, True])
    drop = S.choose("dropout", [0.0, 0.0, 0.4])
    net = Net(S, drop)
    if S.choose("frozen parameter", [False, False, True]):
        net.b.requires_grad_(False)
    seed = S.rng.randrange(1 << 30)
    res = []
    for dmc in (False, True):
        z = x.clone().requires_grad_(leaf)
        net.zero_grad()
        T.manual_seed(seed)
        y = S.mod("t_iss").T_ISS(model=net, use_dmc=dmc, **kw)(z)
        if not y.requires_grad:
            S.fail("gradient", "the result (dmc=%s) does not depend on the model" % dmc)
        a = T.arange(1, y.numel() + 1, dtype=T.float64).reshape(y.shape)
        (T.sin(a) * y.real + T.cos(2 * a) * y.imag).sum().backward()
        res.append([y.detach()] + [None if p.grad is None else p.grad.clone() for p in net.parameters()] + [z.grad])
    names = ["the result"] + ["the gradient of parameter " + n for n, _ in net.named_parameters()] + ["the gradient of the signal"]
    for n, u, v in zip(names, *res):
        if u is None and v is None:
            continue
        S.checked += 1
        if u is None or v is None:
            S.fail("gradient", "%s exists only without the memory saving mode" % n if v is None else "%s exists only with it" % n)
        if not finite(T, u):
            continue
        if not bool(T.allclose(u, v, rtol=1e-6, atol=1e-6 * float(u.abs().max()) + 1e-12)):
            S.fail("gradient", "%s differs between the modes by %.3g" % (n, float((u - v).abs().max())))


def derivative(S, tag, f, xs, tol=2e-4):
    """the directional derivative by central differences against autograd"""
    T = S.T
    xs = [x.detach().clone().requires_grad_(True) for x in xs]
    y = f(*xs)
    if not finite(T, y.detach()):
        raise Reject()
    c = T.randn(y.shape, generator=S.g, dtype=T.float64)
    e = T.randn(y.shape, generator=S.g, dtype=T.float64)
    loss = lambda y: float((c * y.real + e * y.imag).sum()) if y.is_complex() else float((c * y).sum())
    L = (c * y.real + e * y.imag).sum() if y.is_complex() else (c * y).sum()
    if not y.requires_grad:
        S.fail("gradient", "the result of %s does not depend on its input" % tag)
    L.backward()
    for k, x in enumerate(xs):
        if x.grad is None:
            S.fail("gradient", "of %s: none for argument %d" % (tag, k))
    ds = [T.randn(x.shape, generator=S.g, dtype=T.float64).to(x.dtype) for x in xs]
    ds = [d + 1j * T.randn(d.shape, generator=S.g, dtype=T.float64) if d.is_complex() else d for d in ds]
    got = sum(float((x.grad.conj() * d).real.sum()) if x.is_complex() else float((x.grad * d).sum()) for x, d in zip(xs, ds))

    def at(h):
        with T.no_grad():
            return loss(f(*[x + h * d for x, d in zip(xs, ds)]))

    est = [(at(h) - at(-h)) / (2 * h) for h in (3e-5, 1e-5)]
    sc = max(abs(est[0]), abs(est[1]), sum(float(x.grad.abs().pow(2).sum()) for x in xs) ** 0.5, 1e-12)
    if abs(est[0] - est[1]) > 0.05 * tol * sc:
        raise Reject()  # not smooth at this scale
    S.checked += 1
    if abs(got - est[1]) > tol * sc:
        S.fail("gradient", "of %s: autograd %.8g, central differences %.8g" % (tag, got, est[1]))


@contract("C23", "directional derivatives of the separators", FN, modes="con", trials=50, weight=3, views=())
def g_derivative(S):
    """well conditioned signals, regularisation 1e-12; the row normalisation excluded from
    differentiation changes results only by the fixed loading (1e-3 and below) that some
    solutions keep, hence the tolerance"""
    T = S.T
    kind, C, call = separators_eps(S)
    b = S.choose("batch", [(), (2,)])
    x = T.randn(b + (C, 3, 40), generator=S.g, dtype=T.complex128)
    seed = S.rng.randrange(1 << 30)
    mk = S.choose("model", ["Laplace", "Gauss", "net"] + (["NMF"] if S.log.get("dmc") != "True" else []))
    net = Net(S)
    m = S.mod("models")

    def f(z):
        T.manual_seed(seed)
        md = {"Laplace": lambda: m.LaplaceModel(), "Gauss": lambda: m.GaussModel(), "NMF": lambda: m.NMFModel(n_basis=2), "net": lambda: net}[mk]()
        return call(md, z)

    derivative(S, kind, f, [x], tol=1e-2 if kind in ("tiss", "ip") else 1e-3)


def separators_eps(S):
    kind = S.choose("algorithm", ["tiss", "tiss", "ip", "ip2", "five", "wpe"])
    n = S.choose("n_iter", [1, 2])
    mic = S.choose("mic", [0, 1, None])
    C = S.choose("channels", [2, 3])
    e = 1e-12
    if kind == "tiss":
        kw = dict(n_iter=n, n_src=S.choose("n_src", [None, 1]), n_taps=S.choose("taps", [0, 1, 2]), n_delay=S.choose("delay", [0, 1]),
                  use_dmc=S.choose("dmc", [False, True]), proj_back_mic=mic, eps=e)
        return kind, C, lambda m, x: S.mod("t_iss").T_ISS(model=m, **kw)(x)
    if kind == "ip":
        k = S.choose("n_src", [None, 1])
        return kind, C, lambda m, x: S.mod("auxiva_ip").AuxIVA_IP(model=m, n_iter=n, n_src=k, proj_back_mic=mic, eps=e)(x)
    if kind == "ip2":
        return kind, 2, lambda m, x: S.mod("auxiva_ip2").AuxIVA_IP2(model=m, n_iter=n, proj_back_mic=mic or 0, eps=e)(x)
    if kind == "five":
        q = S.choose("power", [None, 3])
        return kind, C, lambda m, x: S.mod("five").FIVE(model=m, n_iter=n, proj_back_mic=mic or 0, n_power_iter=q, eps=e)(x)
    t, d = S.choose("taps", [1, 2]), S.choose("delay", [0, 1])
    W = S.mod("wpe").WPE
    return kind, C, lambda m, x: W(n_iter=n, n_taps=t, n_delay=d, eps=e)(x)


@contract("C23", "directional derivatives of the beamformers, with respect to signal and masks",
          ["torchiva.beamformer." + f for f in ("MVDRBeamformer.forward", "MWFBeamformer.forward", "GEVBeamformer.forward")], modes="con", trials=40,
          weight=2, views=())
def g_beamformers(S):
    T = S.T
    k = S.choose("class", ["MVDRBeamformer", "MWFBeamformer", "GEVBeamformer"])
    kw = dict(ref_mic=S.choose("ref", [0, 1]), eps=1e-12)
    if k == "MVDRBeamformer":
        kw.update(mvdr_type=S.choose("type", ["rtf", "scm"]), n_power_iter=S.choose("power", [1, 3]))
    if k == "MWFBeamformer":
        kw.update(time_invariant=S.choose("time_invariant", [True, False]))
    C = S.choose("channels", [2, 3])
    b = (S.choose("batch", [1, 2]),)
    n_m = S.choose("masks", [2, 3] if k == "MVDRBeamformer" else [4])
    x = T.randn(b + (C, 3, 40), generator=S.g, dtype=T.complex128)
    w = T.rand(b + (2, n_m, 3, 40), generator=S.g, dtype=T.float64) + 0.1

    class M(T.nn.Module):
        def __init__(self, w):
            super().__init__()
            self.w = w

        def forward(self, X):
            return self.w * T.ones_like(X.real)[..., None, None, :, :]

    cls = getattr(S.mod("beamformer"), k)
    f = lambda x, w: cls(mask_model=M(w), **kw)(x)
    derivative(S, k, f, [x, w])


@contract("C23", "gradient of the memory saving mode of T-ISS with the NMF model", ["torchiva.t_iss.T_ISS.forward", "torchiva.models.classic.NMFModel.forward"],
          modes="con", trials=4, views=())
def g_dmc_nmf(S):
    T = S.T
    x = T.randn((2, 3, 20), generator=S.g, dtype=T.complex128)
    seed = S.rng.randrange(1 << 30)
    res = []
    for dmc in (False, True):
        z = x.clone().requires_grad_(True)
        T.manual_seed(seed)
        y = S.mod("t_iss").T_ISS(model=S.mod("models").NMFModel(n_basis=2), n_iter=2, use_dmc=dmc)(z)
        try:
            y.abs().square().sum().backward()
        except RuntimeError as e:
            S.fail("gradient", "differentiation fails (%s)" % str(e)[:60])
        res.append(z.grad)
    S.checked += 1
    if not bool(T.allclose(*res, rtol=1e-6, atol=1e-9)):
        S.fail("gradient", "differs between the modes")
