"""Batch independence, shapes, dtypes and frame conditions on the real code (C09, C10;
concrete side of the proofs)."""
import itertools

from vt.harness import contract, Reject


def signal(S, name, b, shape, cplx=True, floor=0.0):
    """elements of the batch with very different levels, silent ones included"""
    T = S.T
    x = (S.cplx if cplx else S.real)(name, b + shape)
    if b:
        lv = [S.rng.choice([1.0, 1.0, 1e-3, 1e3, 30.0, 0.0 if floor == 0.0 else 1.0]) for _ in range(int(T.tensor(b).prod()))]
        g = T.tensor(lv, dtype=S.f64).reshape(b + (1,) * len(shape))
        S.log["levels of " + name] = lv
        x = S.owned(x * g, name)
    return x


def frame(S, tag, mk, xs, b, shape):
    """C10: documented shape and the caller's precision; a call writes neither to its
    arguments nor to the results of earlier calls"""
    T = S.T
    f = mk()
    out = f(*xs)
    outs = out if isinstance(out, (tuple, list)) else (out,)
    for k, o in enumerate(outs):
        S.dtype(tag + ": dtype of result %d" % k, o, S.c128 if o.is_complex() else S.f64)
        if shape is not None and k == 0:
            S.shape(tag, o, shape)
    S.unchanged()
    if S.f64 is T.float64:
        default_precision(S, tag, mk, xs, outs)
    keep = [o.clone() for o in outs]
    f(*[x + 0.3 * x.abs().flip(-1) for x in xs])
    for o, c in zip(outs, keep):
        S.checked += 1
        if not T.equal(o, c) and not bool((c != c).any()):
            S.fail(tag, "a later call changed an earlier result")
    S.unchanged()


def default_precision(S, tag, mk, xs, outs):
    """a computation in double precision contains nothing rounded to the default precision of torch"""
    T = S.T
    run = lambda: (lambda r: r if isinstance(r, (tuple, list)) else (r,))(mk()(*xs))
    again = run()
    if len(again) != len(outs) or not all(T.equal(a, o) for a, o in zip(again, outs)):
        return  # random or not finite
    T.set_default_dtype(T.float64)
    try:
        wide = run()
    finally:
        T.set_default_dtype(T.float32)
    for a, o in zip(wide, outs):
        S.checked += 1
        if a.shape != o.shape or not T.equal(a, o):
            d = float((a - o).abs().max()) if a.shape == o.shape and a.numel() else float("nan")
            S.fail(tag, "the result in double precision depends on the default precision of torch (difference %.3g)" % d)


def indep(S, tag, mk, xs, b, shape=None, tol=1e-6):
    T = S.T
    if S.view == "C10":
        return frame(S, tag, mk, xs, b, shape)
    f = lambda *a: mk()(*a)
    out = f(*xs)
    out = out if isinstance(out, (tuple, list)) else (out,)
    pos = list(itertools.product(*[range(n) for n in b]))
    for i in S.rng.sample(pos, min(3, len(pos))):
        y = [x[i].clone() for x in xs]
        o = f(*y)
        o = o if isinstance(o, (tuple, list)) else (o,)
        # rounding errors amplified by the algorithm itself are not a dependence
        p = f(*[v * (1 + 1e-11 * T.randn(v.shape, generator=S.g, dtype=T.float64)) if (v.is_floating_point() or v.is_complex()) else v for v in y])
        p = p if isinstance(p, (tuple, list)) else (p,)
        for k, (u, v, w) in enumerate(zip(out, o, p)):
            if tuple(u.shape) != b + tuple(v.shape):
                S.fail(tag, "result %d of the batch has shape %s, of one element %s" % (k, tuple(u.shape), tuple(v.shape)))
            fin = lambda z: bool(T.isfinite(T.view_as_real(z.resolve_conj()) if z.is_complex() else z).all())
            if not fin(v):
                continue
            if not fin(u[i]):
                S.fail(tag, "not finite in the batch, finite alone (element %s)" % (i,))
            S.checked += 1
            m = float(v.abs().max()) if v.numel() else 0.0
            amp = float((v - w).abs().max()) if v.numel() else 0.0
            if not amp <= 1e-7 * m:
                continue
            err = float((u[i] - v).abs().max()) if v.numel() else 0.0
            if err > tol * m:
                S.fail(tag, "element %s of the batch %s: relative difference %.3g to the result of the element alone" % (i, b, err / m))
    S.unchanged()


def bshape(S):
    b = S.choose("batch", [(2,), (3,), (2, 2), (1,), (3, 1), (2, 1, 2)])
    return b


def spec(S, b, C=None, extra=12, floor=0.0):
    C = C or S.choose("channels", [2, 2, 3])
    F, N = S.choose("n_freq", [1, 2, 3, 5]), extra + S.choose("frames", [1, 2, 6])
    return C, F, N, signal(S, "X", b, (C, F, N), floor=floor)


def models(S):
    m = S.mod("models")
    return S.choose("model", [m.LaplaceModel(), m.GaussModel(), m.LaplaceModel(eps=1e-3), S.model()])


def reg(name, fns, trials=40, weight=2):
    return contract("C09", "batch against single signals: " + name, ["torchiva." + f for f in fns], modes="con", trials=trials, weight=weight,
                    views=("C10",))


@reg("T-ISS", ["t_iss.T_ISS.forward"], trials=60, weight=5)
def b_tiss(S):
    b = bshape(S)
    C, F, N, X = spec(S, b)
    K = S.choose("n_src", [None, C, max(1, C - 1)])
    kw = dict(n_iter=S.choose("n_iter", [0, 1, 3]), n_taps=S.choose("taps", [0, 1, 2]), n_delay=S.choose("delay", [0, 1, 2]),
              n_src=K, model=models(S), proj_back_mic=S.choose("mic", [None, 0, C - 1]))
    kw["use_dmc"] = False
    indep(S, "T_ISS", lambda: S.mod("t_iss").T_ISS(**kw), [X], b, b + (K or C, F, N))


@reg("AuxIVA-IP", ["auxiva_ip.AuxIVA_IP.forward"], trials=60, weight=5)
def b_ip(S):
    b = bshape(S)
    C, F, N, X = spec(S, b)
    kw = dict(n_iter=S.choose("n_iter", [0, 1, 3]), n_src=S.choose("n_src", [None, C, max(1, C - 1)]), model=models(S),
              proj_back_mic=S.choose("mic", [None, 0, C - 1]))
    indep(S, "AuxIVA_IP", lambda: S.mod("auxiva_ip").AuxIVA_IP(**kw), [X], b, b + (kw["n_src"] or C, F, N))


@reg("AuxIVA-IP2", ["auxiva_ip2.AuxIVA_IP2.forward"], trials=60, weight=5)
def b_ip2(S):
    b = bshape(S)
    C, F, N, X = spec(S, b, C=2)
    kw = dict(n_iter=S.choose("n_iter", [0, 1, 3]), model=models(S), proj_back_mic=S.choose("mic", [None, 0, 1]))
    indep(S, "AuxIVA_IP2", lambda: S.mod("auxiva_ip2").AuxIVA_IP2(**kw), [X], b, b + (2, F, N))


@reg("FIVE", ["five.FIVE.forward"], trials=60, weight=5)
def b_five(S):
    b = bshape(S)
    C, F, N, X = spec(S, b, extra=20)
    kw = dict(n_iter=S.choose("n_iter", [0, 1, 3]), model=models(S), proj_back_mic=S.choose("mic", [None, 0, 1]),
              n_power_iter=S.choose("power iterations", [None, 1, 3]))
    indep(S, "FIVE", lambda: S.mod("five").FIVE(**kw), [X], b, b + (1, F, N))


@reg("WPE", ["wpe.WPE.forward"], trials=60, weight=4)
def b_wpe(S):
    b = bshape(S)
    C, F, N, X = spec(S, b, extra=20)
    kw = dict(n_iter=S.choose("n_iter", [0, 1, 3]), n_taps=S.choose("taps", [1, 2]), n_delay=S.choose("delay", [0, 1, 2]))
    indep(S, "WPE", lambda: S.mod("wpe").WPE(**kw), [X], b, b + (C, F, N))


@reg("beamformers", ["beamformer.MVDRBeamformer.forward", "beamformer.GEVBeamformer.forward", "beamformer.MWFBeamformer.forward"], trials=80, weight=4)
def b_bf(S):
    T, bf = S.T, S.mod("beamformer")
    b = bshape(S)
    C, F, N, X = spec(S, b, extra=20, floor=1.0)
    K = S.choose("n_src", [1, 2])
    kind = S.choose("beamformer", ["MVDR rtf eigh", "MVDR rtf power", "MVDR scm", "GEV", "MWF", "MWF tv"])
    nm = 3 if kind.startswith("MVDR") and S.choose("masks", [2, 3]) == 3 else 4 if kind == "MWF tv" else 2
    M = S.pos("mask", b + (K, nm, F, N))

    class Fixed:
        """mask model: a fixed function of the signal and the given masks"""

        def __init__(self, M):
            self.M = M

        def __call__(self, x):
            return self.M

    ref = S.choose("ref_mic", [0, 1])
    mk = {
        "MVDR rtf eigh": lambda m: bf.MVDRBeamformer(mask_model=m, ref_mic=ref, mvdr_type="rtf"),
        "MVDR rtf power": lambda m: bf.MVDRBeamformer(mask_model=m, ref_mic=ref, mvdr_type="rtf", n_power_iter=2),
        "MVDR scm": lambda m: bf.MVDRBeamformer(mask_model=m, ref_mic=ref, mvdr_type="scm"),
        "GEV": lambda m: bf.GEVBeamformer(mask_model=m, ref_mic=ref),
        "MWF": lambda m: bf.MWFBeamformer(mask_model=m, ref_mic=ref),
        "MWF tv": lambda m: bf.MWFBeamformer(mask_model=m, ref_mic=ref, time_invariant=False),
    }[kind]
    
    def make():
        m = Fixed(None)
        o = mk(m)

        def call(X, M):
            m.M = M
            return o(X)

        return call

    indep(S, kind, make, [X, M], b, b + (K, F, N))


@reg("source models and scaling", ["models.classic.LaplaceModel.forward", "models.classic.GaussModel.forward", "scaling.projection_back",
                                   "scaling.minimum_distortion", "scaling.minimum_distortion_l2", "scaling.minimum_distortion_l2_phase"], trials=150)
def b_scale(S):
    m, sc = S.mod("models"), S.mod("scaling")
    b = bshape(S)
    C, F, N, X = spec(S, b)
    ref = signal(S, "ref", b, (F, N))
    pq = S.choose("norm", [(1.0, None), (1.0, 2.0), (0.5, 1.5), (2.0, None)])
    f = {
        "Laplace": lambda X, r: m.LaplaceModel()(X),
        "Gauss": lambda X, r: m.GaussModel()(X),
        "projection_back": lambda X, r: sc.projection_back(X, r),
        "minimum_distortion_l2": lambda X, r: sc.minimum_distortion_l2(X, r),
        "minimum_distortion_l2_phase": lambda X, r: sc.minimum_distortion_l2_phase(X, r),
        "minimum_distortion": lambda X, r: sc.minimum_distortion(X, r, p=pq[0], q=pq[1]),
        "minimum_distortion with learned weights": lambda X, r: sc.minimum_distortion(X, r, model=lambda E: 1.0 / (0.1 + E.abs().sum(dim=-2, keepdim=True))),
    }
    k = S.choose("function", sorted(f) + ["minimum_distortion"])
    indep(S, k, lambda: f[k], [X, ref], b, b + (C, F, N))


@reg("linear algebra", ["linalg." + x for x in ("divide", "multiply", "mag", "bmm", "hermite", "solve_loaded", "inv_loaded", "solve_loaded_general",
                                                "hankel_view", "inv_2x2", "eigh", "eigh_2x2", "diagonal_loading")], trials=200)
def b_lin(S):
    T, la = S.T, S.mod("linalg")
    b = bshape(S)
    n = S.choose("n", [2, 2, 3])
    A = signal(S, "A", b, (n, n))
    B = signal(S, "B", b, (n, n), floor=1.0)
    P = lambda Z: T.einsum("...ab,...cb->...ac", Z, Z.conj())
    x = signal(S, "x", b, (n, 9))
    f = {
        "divide": lambda A, B, x: la.divide(A, B.abs() + 1),
        "multiply": lambda A, B, x: la.multiply(A, B.real),
        "mag": lambda A, B, x: la.mag(A),
        "mag_sq": lambda A, B, x: la.mag_sq(A),
        "bmm": lambda A, B, x: la.bmm(A, B),
        "hermite": lambda A, B, x: la.hermite(A),
        "solve_loaded": lambda A, B, x: la.solve_loaded(P(A), B, load=1e-3),
        "inv_loaded": lambda A, B, x: la.inv_loaded(P(A), load=1e-3),
        "solve_loaded_general": lambda A, B, x: la.solve_loaded_general(A, B, load=1e-3, eps=1e-3),
        "hankel_view": lambda A, B, x: la.hankel_view(x, 3),
        "eigenvalues": lambda A, B, x: la.eigh(P(A), P(B) + T.eye(n, dtype=A.dtype))[0],
        "eigenvalues, one matrix": lambda A, B, x: la.eigh(P(A))[0],
    }
    if n == 2:
        f["inv_2x2"] = lambda A, B, x: la.inv_2x2(A + 0.1 * T.eye(2, dtype=A.dtype))
        f["eigenvalues 2x2"] = lambda A, B, x: la.eigh_2x2(P(A), P(B) + T.eye(2, dtype=A.dtype))[0]
    k = S.choose("function", sorted(f))
    indep(S, k, lambda: f[k], [A, B, x], b)


@reg("STFT, convolution, selection, separator", ["stft.STFT.forward", "stft.STFT.inv", "fftconvolve.fftconvolve", "utils.select_most_energetic",
                                                 "nn.BSSSeparator.forward"], trials=120)
def b_time(S):
    T = S.T
    b = bshape(S)
    C, n = S.choose("channels", [2, 3]), 320 + S.choose("extra", [0, 5, 33])
    x = signal(S, "x", b, (C, n), cplx=False)
    h = signal(S, "h", b, (C, 7), cplx=False)
    k = S.choose("function", ["stft", "round trip", "fftconvolve", "select", "separator"])
    if k in ("stft", "round trip"):
        e = S.mod("stft").STFT(32, hop_length=S.choose("hop", [8, 16]), dtype=S.f64)
        f = (lambda x, h: e(x)) if k == "stft" else (lambda x, h: e.inv(e(x)))
    elif k == "fftconvolve":
        mode = S.choose("mode", ["full", "same", "valid"])
        f = lambda x, h: S.mod("fftconvolve").fftconvolve(x, h, mode=mode)
    elif k == "select":
        num = S.choose("num", [1, 2])
        f = lambda x, h: S.fn("utils", "select_most_energetic")(x, num)
    else:
        algo = S.choose("algo", ["tiss", "ip2", "five"])
        if algo == "ip2" and C != 2:
            raise Reject()
        w = T.hann_window(32, dtype=S.f64)
        sep = lambda: S.mod("nn").BSSSeparator(32, hop_length=16, window=w, algo=algo, n_iter=2, n_src=None if algo == "five" else C,
                                               proj_back_mic=0)
        if S.view == "C10":
            obj = sep()
            f = lambda x, h: obj(x)
        else:
            f = lambda x, h: sep()(x)
    indep(S, k, lambda: f, [x, h], b)
