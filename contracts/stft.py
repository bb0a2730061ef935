"""Contracts of the STFT and of the time domain separator (C16)."""
import inspect

from vt.harness import contract, Reject
from vt.poly import Unsupported
from vt.tensor import Tensor, fresh
from vt import tensor as tz, symtorch as st

ST = ["torchiva.stft.STFT." + x for x in ("__init__", "forward", "inv", "n_fft", "hop_length", "n_freq", "window")]
BS = ["torchiva.nn.BSSSeparator." + x for x in ("__init__", "forward", "algo")] + ST
ASSUME = ["torch.stft / torch.istft act row by row, with 1 + n // hop frames and hop * (frames - 1) samples; with the same window "
          "(satisfying the overlap-add condition) and hop, synthesis inverts analysis on complete hops (assumed contract of torch)",
          "scipy.signal.get_window returns the window of the given name and length"]


# ------------------------------------------------------------------ definitions
def analysis(S, x, n_fft, hop, w):
    """X[f, m] = sum_k w[k] x~[m hop + k - n_fft / 2] exp(-2 pi i f k / n_fft), x~ reflected at both ends"""
    if S.sym:
        return st.stft_rows(x, n_fft, hop, w)
    T = S.T
    h = n_fft // 2
    n = x.shape[-1]
    left = x[..., 1 : h + 1].flip(-1)
    right = x[..., n - h - 1 : n - 1].flip(-1)
    z = T.cat([left, x, right], dim=-1)
    frames = 1 + (n + 2 * h - n_fft) // hop
    seg = T.stack([z[..., m * hop : m * hop + n_fft] for m in range(frames)], dim=-1)
    return T.fft.fft(seg * w[:, None], dim=-2)[..., : n_fft // 2 + 1, :]


def synthesis(S, X, n_fft, hop, w):
    """weighted overlap-add of the inverse transforms"""
    if S.sym:
        return st.istft_rows(X, n_fft, hop, w)
    T = S.T
    seg = T.fft.irfft(X, n=n_fft, dim=-2) * w[:, None]
    frames = X.shape[-1]
    L = n_fft + hop * (frames - 1)
    y = seg.new_zeros(X.shape[:-2] + (L,))
    g = w.new_zeros(L)
    for m in range(frames):
        y[..., m * hop : m * hop + n_fft] += seg[..., m]
        g[m * hop : m * hop + n_fft] += w**2
    h = n_fft // 2
    k = hop * (frames - 1)
    g = g[h : h + k]
    if k and float(g.abs().min()) < 1e-6:
        raise Reject()
    return y[..., h : h + k] / g


def window(S, n_fft, kind):
    """(argument for the constructor, the window itself)"""
    T = S.T
    if kind == "tensor":
        w = S.pos("w", (n_fft,))
        return w, w
    if S.sym:
        # default is the periodic Hann window
        name = "hann" if kind == "default" else kind
        return (None if kind == "default" else name), st._window(name)(n_fft, dtype=tz.float64)
    import scipy.signal

    if kind == "array":
        a = scipy.signal.get_window("hamming", n_fft).astype("float64" if S.f64 is T.float64 else "float32")
        return a, T.from_numpy(a)
    name = "hann" if kind == "default" else kind
    return (None if kind == "default" else name), T.from_numpy(scipy.signal.get_window(name, n_fft))


class Setup:
    def __init__(self, S):
        self.S = S
        T = S.T
        self.batch = S.batch()
        kinds = ["default", "hann", "hamming", "tensor"] + ([] if S.sym else ["array"])
        self.kind = S.choose("window", kinds)
        if S.sym:
            self.hop = S.size("hop")
            self.n_fft = 2 * S.size("half")
            S.assume(self.n_fft >= self.hop)
            self.n = S.size("n_samples")
            S.assume(self.n >= self.n_fft)
        else:
            self.n_fft = S.choose("n_fft", [8, 16, 12, 32, 10])
            self.hop = S.choose("hop", [max(1, self.n_fft // d) for d in (2, 4, 4, 3, 8)])
            self.n = self.n_fft + S.choose("extra samples", [0, 1, 5, 16, 33, 64, 100])
            S.log["n_samples"] = self.n
        self.arg, self.w = window(S, self.n_fft, self.kind)

    def make(self, **kw):
        S = self.S
        hop = self.hop
        args = dict(hop_length=hop, window=self.arg)
        if self.kind in ("default", "hann", "hamming"):
            args["dtype"] = S.f64
        args.update(kw)
        return S.mod("stft").STFT(self.n_fft, **args)


@contract("C16", "STFT analysis, synthesis and round trip", ST, weight=3, trials=120, assumes=ASSUME)
def stft_contract(S):
    P = Setup(S)
    x = S.real("x", P.batch + (P.n,))
    eng = P.make()
    X = eng(x)
    F, M = P.n_fft // 2 + 1, 1 + P.n // P.hop
    S.shape("spectrogram shape", X, P.batch + (F, M))
    S.dtype("spectrogram dtype", X, S.c128)
    S.eq("every signal is analysed with the window and hop of the object", X, analysis(S, x, P.n_fft, P.hop, P.w))
    Z = S.cplx("Z", P.batch + (F, M))
    if not S.sym:
        Z = Z.clone()
        Z[..., 0, :] = Z[..., 0, :].real + 0j
        if P.n_fft % 2 == 0:
            Z[..., -1, :] = Z[..., -1, :].real + 0j
        if M == 1 or P.n_fft % 2:
            raise Reject()
    z = eng.inv(Z)
    S.shape("signal shape", z, P.batch + (P.hop * (M - 1),))
    S.dtype("signal dtype", z, S.f64)
    S.eq("every spectrogram is synthesised with the window and hop of the object", z, synthesis(S, Z, P.n_fft, P.hop, P.w))
    y = eng.inv(X)
    S.eq("synthesis of the analysis is the signal, on complete hops", y, x[..., : P.hop * (M - 1)])
    S.true("the object reports its transform length", eng.n_fft == P.n_fft)
    S.true("the object reports its hop", eng.hop_length == P.hop)
    S.true("the object reports its number of frequencies", eng.n_freq == F)
    S.eq("the object reports its window", eng.window, P.w)
    S.unchanged()


@contract("C16", "STFT default hop", ST, trials=30, assumes=ASSUME)
def stft_default_hop(S):
    b = S.batch()
    if S.sym:
        q = S.size("quarter")
        n_fft = 4 * q
        n = S.size("n_samples")
        S.assume(n >= n_fft)
        w = st._window("hann")(n_fft, dtype=tz.float64)
    else:
        n_fft = S.choose("n_fft", [8, 16, 32])
        n = n_fft + S.choose("extra samples", [0, 3, 40])
        w = window(S, n_fft, "hann")[1]
    x = S.real("x", b + (n,))
    eng = S.mod("stft").STFT(n_fft, dtype=S.f64)
    S.eq("hop is a quarter of the transform length", eng(x), analysis(S, x, n_fft, n_fft // 4, w))
    S.eq("round trip", eng.inv(eng(x)), x[..., : (n_fft // 4) * (n // (n_fft // 4))])


@contract("C16", "STFT of odd transform length", ST, modes="con", trials=40)
def stft_odd(S):
    b = S.batch()
    n_fft = S.choose("n_fft", [7, 9, 15, 25])
    hop = S.choose("hop", [1, 2, n_fft // 3, n_fft // 2])
    n = n_fft + S.choose("extra samples", [0, 1, 8, 40])
    arg, w = window(S, n_fft, S.choose("window", ["default", "hann", "hamming", "blackman", "tensor", "array"]))
    x = S.real("x", b + (n,))
    kw = {} if arg is not None and not isinstance(arg, str) else dict(dtype=S.f64)
    eng = S.mod("stft").STFT(n_fft, hop_length=hop, window=arg, **kw)
    X = eng(x)
    S.eq("every signal is analysed with the window and hop of the object", X, analysis(S, x, n_fft, hop, w))
    M = 1 + (n - 1) // hop
    if M == 1:
        raise Reject()
    y = eng.inv(X)
    m = min(hop * (M - 1), y.shape[-1])
    S.true("all complete hops are synthesised", y.shape[-1] >= hop * (M - 1) - 1, repr(tuple(y.shape)))
    S.eq("synthesis of the analysis is the signal, on complete hops", y[..., :m], x[..., :m])
    S.unchanged()


@contract("C16", "STFT in the requested precision", ST, modes="con", trials=30)
def stft_precision(S):
    T = S.T
    if S.f64 is not T.float64:
        raise Reject()
    b = S.batch()
    n_fft = S.choose("n_fft", [8, 16, 12])
    hop = S.choose("hop", [n_fft // 2, n_fft // 4])
    n = n_fft + S.choose("extra samples", [0, 3, 40])
    lo = S.choose("precision of the window", [T.float32, T.float64])
    dt = S.choose("precision", [T.float32, T.float64])
    w = T.hann_window(n_fft, dtype=lo) + 0.25
    eng = S.mod("stft").STFT(n_fft, hop_length=hop, window=S.choose("as", [w.clone(), w.numpy().copy()]), dtype=dt)
    S.dtype("window in the requested precision", eng.window, dt)
    x = S.real("x", b + (n,)).to(dt)
    X = eng(x)
    S.dtype("spectrogram in the requested precision", X, T.complex64 if dt is T.float32 else S.c128)
    S.eq("analysis", X, analysis(S, x, n_fft, hop, w.to(dt)), tol=1e-3 if T.float32 in (lo, dt) else 1e-9)
    y = eng.inv(X)
    S.dtype("signal in the requested precision", y, dt)
    S.eq("round trip", y, x[..., : y.shape[-1]], tol=1e-3 if dt is T.float32 else 1e-9)


@contract("C16", "STFT rejects a window of the wrong length", ST, trials=10)
def stft_bad(S):
    n_fft, m = (S.size("n_fft", 2), S.size("m", 1)) if S.sym else (16, S.choose("m", [8, 15, 17]))
    S.assume(n_fft != m) if not S.sym else S.assume(m >= n_fft + 1)
    w = S.pos("w", (m,))
    S.raises("wrong window length raises", Exception, lambda: S.mod("stft").STFT(n_fft, window=w))


# ------------------------------------------------------------------ separator
PARAMS = {
    "tiss": ("t_iss", "T_ISS", dict(n_iter="n_iter", n_taps="n_taps", n_delay="n_delay", n_src="n_src", model="source_model",
                                    proj_back_mic="proj_back_mic", use_dmc="use_dmc", eps="eps")),
    "ip2": ("auxiva_ip2", "AuxIVA_IP2", dict(n_iter="n_iter", model="source_model", proj_back_mic="proj_back_mic", eps="eps")),
    "five": ("five", "FIVE", dict(n_iter="n_iter", model="source_model", proj_back_mic="proj_back_mic", eps="eps", n_power_iter="n_power_iter")),
    "mvdr": ("beamformer", "MVDRBeamformer", dict(mask_model="source_model", ref_mic="proj_back_mic", eps="eps", n_power_iter="n_power_iter")),
    "mwf": ("beamformer", "MWFBeamformer", dict(mask_model="source_model", ref_mic="proj_back_mic", eps="eps")),
    "gev": ("beamformer", "GEVBeamformer", dict(mask_model="source_model", ref_mic="proj_back_mic", eps="eps")),
}
FIXED = {"mvdr": {"mvdr_type": "rtf"}, "mwf": {"time_invariant": True}}


DEFAULTS = dict(n_iter=20, n_taps=0, n_delay=0, n_src=None, proj_back_mic=0, n_power_iter=None, eps=1e-5)


class Recorder(st.Module):
    """stands for an algorithm: knows only its signature and the shape of its output"""

    real = None
    made = None

    def __init__(self, *a, **k):
        st.Module.__init__(self)
        b = inspect.signature(self.real.__init__).bind(None, *a, **k)
        b.apply_defaults()
        self.given = dict(b.arguments)
        self.made.append(self)
        self.calls = []

    def __call__(self, *a, **k):
        b = inspect.signature(self.real.forward).bind(None, *a, **k)
        b.apply_defaults()
        args = dict(b.arguments)
        self.calls.append(args)
        X = args["X"]
        K = self.n_out(X)
        return fresh("Y", tuple(X.shape[:-3]) + (K,) + tuple(X.shape[-2:]), X.dtype)

    def effective(self, name):
        v = self.calls[-1].get(name) if self.calls else None
        return self.given.get(name) if v is None else v


def same(a, b):
    if a is b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


@contract("C16", "separator: analysis, the selected algorithm with its parameters, synthesis", BS, modes="sym", weight=4,
          assumes=ASSUME + ["the algorithms are replaced by their signature and output shape; their own contracts are C01-C08"])
def separator_sym(S):
    algo = S.choose("algo", sorted(PARAMS))
    modname, cls, mp = PARAMS[algo]
    nn = S.mod("nn")
    batch = S.batch()
    C, K = S.size("n_chan"), S.size("n_out")
    hop = S.size("hop")
    n_fft = 2 * S.size("half")
    S.assume(n_fft >= hop)
    n = S.size("n_samples")
    S.assume(n >= n_fft)
    made = []
    recs = {}
    for al, (mo, cl, _) in PARAMS.items():
        real = getattr(S.mod(mo), cl)
        rec = type(cl, (Recorder,), {"real": real, "made": made, "n_out": lambda self, X: K})
        S.pkg.stub(mo, cl, rec)
        recs[al] = rec
    model = S.model("source model")
    as_enum = S.choose("algo given as", ["string", "enum"]) == "enum"
    dmc = S.choose("use_dmc", [False, True]) if algo == "tiss" else False
    w = S.pos("w", (n_fft,))
    args = dict(n_iter=S.size("n_iter", 0), n_taps=S.size("n_taps", 0), n_delay=S.size("n_delay", 0), n_src=S.size("n_src"),
                source_model=model, proj_back_mic=S.size("ref", 0), use_dmc=dmc, n_power_iter=S.size("n_power_iter"), eps=S.eps("eps"))
    given = args
    if S.choose("parameters", ["given", "defaults"]) == "defaults":
        args = dict(DEFAULTS, source_model=model, use_dmc=False)
        given = dict(source_model=model)
    sep = nn.BSSSeparator(n_fft, hop_length=hop, window=w, algo=nn.SepAlgo(algo) if as_enum else algo, **given)
    x = S.real("x", batch + (C, n))
    y = sep(x)
    used = [r for r in made if r.calls]
    S.true("exactly one algorithm is run, once", len(used) == 1 and len(used[0].calls) == 1)
    if len(used) != 1:
        return
    r = used[0]
    S.true("the selected algorithm is run", isinstance(r, recs[algo]))
    for k, v in mp.items():
        S.true("parameter %s is the one given to the separator" % v, same(r.effective(k), args[v]), "%r" % (r.effective(k),))
    for k, v in FIXED.get(algo, {}).items():
        S.true("the documented variant is used (%s)" % k, same(r.effective(k), v))
    X = r.calls[0]["X"]
    S.eq("the algorithm gets the analysis of the input", X, analysis(S, x, n_fft, hop, w))
    S.shape("output shape: one signal per output, the length of the input", y, batch + (K, n))
    S.dtype("output dtype", y, S.f64)
    Y = fresh("Y", batch + (K, n_fft // 2 + 1, 1 + n // hop), S.c128)
    z = synthesis(S, Y, n_fft, hop, w)
    m = z.shape[-1]
    S.eq("output is the synthesis of the separated spectrograms", y[..., :m], z)
    S.eq("incomplete hop at the end: zero", y[..., m:], 0 * x[..., :1, m:].expand(batch + (K, n - m)))
    S.true("the source model was reset", model.resets >= 1)
    S.unchanged()


@contract("C16", "separator rejects unknown algorithms", BS, trials=5)
def separator_bad(S):
    nn = S.mod("nn")
    S.raises("unknown algorithm raises", Exception, lambda: nn.BSSSeparator(64, algo="unknown"))


def mask_model(S, n_src, n_masks):
    import torch

    class M(torch.nn.Module):
        def forward(self, X):
            p = X.real**2 + X.imag**2
            ms = []
            for s in range(n_src):
                for k in range(n_masks):
                    ms.append(0.05 + torch.sigmoid((p - p.mean(dim=-1, keepdim=True)) * (1 + s) * (-1) ** k + 0.3 * k))
            r = torch.stack(ms, dim=-3)
            return r.reshape(r.shape[:-3] + (n_src, n_masks) + r.shape[-2:])

    return M()


@contract("C16", "separator equals the direct use of the algorithm", BS, modes="con", weight=4, trials=80)
def separator_concrete(S):
    T = S.T
    algo = S.choose("algo", sorted(PARAMS))
    nn = S.mod("nn")
    b = S.choose("batch", [(), (2,), (1, 2)])
    C = 2 if algo == "ip2" else S.choose("n_chan", [2, 3])
    n_fft = S.choose("n_fft", [16, 32])
    hop = S.choose("hop", [None, n_fft // 2, n_fft // 4])
    n = 10 * n_fft + S.choose("extra samples", [0, 1, 7, n_fft // 2, 33])
    ref = S.choose("reference", list(range(C)))
    n_iter = S.choose("n_iter", [0, 1, 2])
    npi = S.choose("power", [None, 2, 3])
    taps, delay = S.choose("taps", [0, 1, 2]), S.choose("delay", [0, 1])
    n_src = S.choose("n_src", [None, C, 2])
    eps = S.choose("epsilon", [1e-5, 1e-3, 0.1])
    x = S.real("x", b + (C, n))
    x = S.owned(S.choose("level", [1.0, 1.0, 0.05]) * (x + 0.4 * x.roll(1, -2)), "x")
    wk = S.choose("window", ["tensor", "tensor", "array", "name"])
    W = T.hann_window(n_fft, dtype=T.float64)
    if wk != "tensor":
        W = T.hamming_window(n_fft, dtype=T.float64)
    Warg = {"tensor": W, "array": W.numpy().copy(), "name": "hamming"}[wk]
    if wk == "name":  # by name: the default precision of torch
        if S.f64 is not T.float64:
            raise Reject()
        W = W.to(T.float32)
        x = S.owned(x.to(T.float32), "x")
    bf = algo in ("mvdr", "mwf", "gev")
    K = (n_src or C) if algo in ("tiss",) else {"ip2": 2, "five": 1}.get(algo, 2)
    model = mask_model(S, 2, 2) if bf else S.choose("model", [None, "gauss"])
    if model == "gauss":
        model = S.mod("models").GaussModel()
    args = dict(n_iter=n_iter, n_taps=taps, n_delay=delay, n_src=n_src, source_model=model, proj_back_mic=ref, n_power_iter=npi, eps=eps)
    asalgo = {"algo": S.choose("as", [algo, nn.SepAlgo(algo)])}
    given = dict(args)
    if S.choose("omit", [0, 0, 1]):  # parameters left to their documented defaults
        left = S.choose("omitted", sorted(DEFAULTS) + ["all"] * 7)
        for k in sorted(DEFAULTS) if left == "all" else [left]:
            args[k] = DEFAULTS[k]
            del given[k]
        n_src = args["n_src"]
        K = (n_src or C) if algo == "tiss" else K
        if algo == "tiss":
            asalgo = S.choose("algorithm", [asalgo, {}])
    if not bf and S.choose("model by name", [0, 0, 1]):
        M_ = S.choose("name", ["GaussModel", "LaplaceModel"])
        model = args["source_model"] = getattr(S.mod("models"), M_)()
        given["source_model"] = dict(name="torchiva.models." + M_, **S.choose("with", [{}, {"kwargs": {}}]))
    sep = nn.BSSSeparator(n_fft, hop_length=hop, window=Warg, **asalgo, **given)
    y = sep(x)
    hop_ = hop or n_fft // 4
    X = T.stft(x.reshape(-1, n), n_fft, hop_length=hop_, window=W, return_complex=True)
    X = X.reshape(b + (C,) + X.shape[-2:])
    mo, cl, mp = PARAMS[algo]
    kw = {k: args[v] for k, v in mp.items() if v in args}
    if algo == "tiss":
        kw["use_dmc"] = False
    if model is None:
        kw.pop("model", None)
    kw.update(FIXED.get(algo, {}))
    Y = getattr(S.mod(mo), cl)(**kw)(X)
    z = T.istft(Y.reshape((-1,) + Y.shape[-2:]), n_fft, hop_length=hop_, window=W)
    z = z.reshape(b + (K, -1))
    S.shape("output shape: the length of the input", y, b + (K, n))
    m = min(n, z.shape[-1])
    S.eq("output is the synthesis of the algorithm's output", y[..., :m], z[..., :m], tol=1e-7 if wk != "name" else 5e-2)
    S.eq("incomplete hop at the end: zero", y[..., m:], 0 * y[..., m:])
    S.unchanged()
    if algo in ("tiss", "five", "ip2") and args["n_iter"] and S.choose("again", [0, 1]):
        S.eq("a second call gives the same result", sep(x), y, tol=1e-9 if wk != "name" else 5e-2)
