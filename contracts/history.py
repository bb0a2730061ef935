"""Call-time parameters and call histories (C17)."""
from vt.harness import contract, Reject, ModuleLike
from vt.loader import Poison

from .common import *

FN = ["torchiva.base.DRBSSBase._set_params", "torchiva.base.DRBSSBase._reset", "torchiva.base.BFBase._set_params"]


# ------------------------------------------------------------------ proved
def resolve(S, cls, keys):
    """the parameters used by a call: the given value, whatever it is, unless it is None"""
    m = S.mod("base")
    names = keys + (("model",) if cls == "DRBSSBase" else ("mask_model",))
    own = {k: S.size("own " + k, 0) for k in keys}
    mod = S.model("own model")
    o = getattr(m, cls)(**{names[-1]: mod}, **own)
    given = {}
    for k in keys:
        given[k] = {"none": None, "int": S.size("given " + k, 0), "zero": 0, "false": False, "real zero": 0.0}[
            S.choose(k, ["none", "int"] + (["zero", "false", "real zero"] if k == keys[0] else []))]
    given[names[-1]] = None if S.choose("model", ["none", "given"]) == "none" else S.model("given model")
    if not hasattr(o, "_set_params"):
        return
    got = list(o._set_params(**given))
    own[names[-1]] = mod
    for (k, g), r in zip(given.items(), got):
        w = own[k] if g is None else g
        S.true("%s: %s" % (k, "the value of the constructor" if g is None else "the value of the call"), r is w)
    S.true("one value per parameter in the order given", len(got) == len(given))
    for k in keys:
        S.true("%s of the object unchanged" % k, getattr(o, k) is own[k])


contract("C17", "parameter resolution of the separators", FN, modes="sym", views=())(
    lambda S: resolve(S, "DRBSSBase", ("n_iter", "n_taps", "n_delay", "n_src")))
contract("C17", "parameter resolution of the beamformers", FN, modes="sym", views=())(
    lambda S: resolve(S, "BFBase", ("ref_mic", "eps")))

DR = ("n_iter", "n_taps", "n_delay", "n_src", "proj_back_mic", "use_dmc", "eps")
# documented values of the parameters that are not given (None: taken from the input)
CLASSES = {
    "t_iss.T_ISS": dict(n_iter=10, n_taps=0, n_delay=0, n_src=None, proj_back_mic=0, use_dmc=False, eps=...),
    "auxiva_ip.AuxIVA_IP": dict(n_iter=10, n_src=None, proj_back_mic=0, eps=...),
    "auxiva_ip2.AuxIVA_IP2": dict(n_iter=10, proj_back_mic=0, eps=...),
    "five.FIVE": dict(n_iter=10, proj_back_mic=0, eps=..., n_power_iter=None),
    "wpe.WPE": dict(n_iter=3, n_taps=5, n_delay=3, eps=1e-5),
    "base.DRBSSBase": dict(n_iter=10, n_taps=0, n_delay=0, n_src=None, proj_back_mic=0, use_dmc=False, eps=1e-5),
    "beamformer.MVDRBeamformer": dict(ref_mic=0, eps=1e-5, mvdr_type="rtf", n_power_iter=None),
    "beamformer.MWFBeamformer": dict(ref_mic=0, eps=1e-5, time_invariant=True),
    "beamformer.GEVBeamformer": dict(ref_mic=0, eps=1e-5),
    "base.BFBase": dict(ref_mic=0, eps=1e-5),
}


def constructed(S, name):
    """a parameter given to the constructor is the one of the object, whatever its value;
    one that is not given has the documented value"""
    mod, cls = name.split(".")
    C = getattr(S.mod(mod), cls)
    bf = "mask_model" if (mod == "beamformer" or cls == "BFBase") else "model"
    given = {}
    for k in CLASSES[name]:
        w = S.choose(k, ["absent", "given"])
        if w == "given":
            given[k] = (S.choose("value of " + k, [True, False]) if k in ("use_dmc", "time_invariant") else S.choose("value of " + k, ["rtf", "scm"])
                        if k == "mvdr_type" else S.eps("given " + k) if k == "eps" else S.size("given " + k, 0))
    mk = {}
    if bf == "mask_model" or S.choose("model", ["absent", "given"]) == "given":
        mk[bf] = S.model("own model") if S.sym else S.mod("models").GaussModel()
    o = C(**mk, **given)
    for k, d in CLASSES[name].items():
        v = getattr(o, k)
        if k in given:
            S.true("%s: the value given" % k, v is given[k] or (not S.sym and v == given[k]))
        elif d is ...:
            S.true("%s: a small positive number by default" % k, isinstance(v, float) and 0 < v <= 1e-3)
        else:
            S.true("%s: the documented default" % k, v is None if d is None else v == d and isinstance(v, type(d)))
    if mk:
        S.true("model: the one given", getattr(o, bf) is mk[bf])
    elif name != "wpe.WPE":
        S.true("model: the documented default", type(o.model).__name__ == "LaplaceModel")


for _n in CLASSES:
    contract("C17", "constructor of %s" % _n.split(".")[1], ["torchiva.%s.__init__" % _n] +
             ["torchiva.base.%s.%s" % (b, k) for b, ks in (("DRBSSBase", DR), ("BFBase", ("ref_mic", "eps"))) for k in ks
              if k in CLASSES[_n] and (b == "BFBase") == ("ref_mic" in CLASSES[_n])],
             views=(), trials=25)(lambda S, n=_n: constructed(S, n))


@contract("C17", "a reset NMF model forgets everything", ["torchiva.models.classic.NMFModel." + x for x in ("reset", "forward", "_init_state")],
          modes="sym", views=())
def nmf_reset(S):
    """after reset the result is a function of the construction, the signal and the random
    numbers only: all other attributes are unreadable"""
    b, F, N, K = S.batch(), S.size("F"), S.size("N"), S.size("K")
    X = S.cplx("X", b + (F, N))
    eps = S.eps("eps")
    cls = S.mod("models.classic").NMFModel
    m = cls(n_basis=K, eps=eps)
    for n in S.pkg.written(cls):
        if n not in ("n_basis", "_eps"):
            m.__dict__[n] = Poison("state of an earlier signal (%s)" % n)
    m.reset()
    Y = m(X)
    S.shape("output shape", Y, b + (F, N))
    S.true("parameters unchanged", m.n_basis is K)


# ------------------------------------------------------------------ histories on the real code
class Stateful(ModuleLike):
    """a source model that depends on everything since its last reset"""

    def __init__(self, T):
        self.T, self.n = T, 0

    def parameters(self):
        return iter(())

    def reset(self):
        self.n = 0

    def __call__(self, X):
        self.n += 1
        p = power(X)
        return (1.0 + 0.2 * self.n) / (p.mean(dim=-2, keepdim=True).expand(p.shape) + 1e-3)


class Masks(ModuleLike):
    def __init__(self, T, k, m, s):
        self.T, self.k, self.m, self.s = T, k, m, s

    def parameters(self):
        return iter(())

    def __call__(self, X):
        T = self.T
        p = power(X)[..., None, None, :, :]
        a = T.arange(1, self.k + 1, dtype=p.dtype)[:, None, None, None]
        b = T.arange(1, self.m + 1, dtype=p.dtype)[:, None, None]
        n = T.arange(X.shape[-1], dtype=p.dtype)
        return 0.1 + T.sin(self.s + a * 1.3 + b * 2.1 + p * 3 + n * a) ** 2


PROPS = ("n_iter", "n_taps", "n_delay", "n_src", "proj_back_mic", "use_dmc", "eps", "ref_mic", "n_power_iter", "mvdr_type", "time_invariant")


def source_model(S):
    m = S.mod("models")
    k = S.choose("model", ["Laplace", "Gauss", "NMF", "NMF", "stateful"])
    return {"Laplace": lambda: m.LaplaceModel(), "Gauss": lambda: m.GaussModel(eps=1e-3), "NMF": lambda: m.NMFModel(n_basis=3),
            "stateful": lambda: Stateful(S.T)}[k]()


def pick(S, dom, share):
    out = {}
    for k, vals in dom.items():
        if S.choose(k + " given", [0, 1, 1] if share else [0, 0, 1]):
            v = S.choose(k, vals) if not callable(vals) else vals()
            out[k] = v
    return out


def spectrum(S, C):
    T = S.T
    b = S.choose("batch", [(), (), (2,), (2, 1)])
    F, N = S.choose("n_freq", [2, 3, 5]), S.choose("n_frames", [18, 23, 31])
    dt = S.choose("precision", [T.complex128, T.complex128, T.complex64])
    return T.randn(b + (C, F, N), generator=S.g, dtype=T.complex128).to(dt)


def same(S, tag, a, b):
    T = S.T
    S.checked += 1
    if tuple(a.shape) != tuple(b.shape) or a.dtype != b.dtype:
        S.fail(tag, "shape %s %s instead of %s %s" % (tuple(a.shape), a.dtype, tuple(b.shape), b.dtype))
    if not bool(T.allclose(a, b, rtol=1e-6, atol=1e-6 * (float(b.abs().nan_to_num(0).max()) if b.numel() else 0.0) + 1e-30, equal_nan=True)):
        S.fail(tag, "differs by %.3g" % float((a - b).abs().max()))


def history(S, cls, dom, chans, calls=3, extra=None):
    """every call of a sequence gives what a fresh object constructed with the same
    parameters gives; the parameters of the object stay"""
    T = S.T
    ctor = pick(S, dom, True)
    if extra:
        ctor = dict(extra(), **ctor)
    o = cls(**ctor)
    par = {k: getattr(o, k) for k in PROPS if hasattr(o, k)}
    for step in range(calls):
        C = chans()
        over = pick(S, dom, False)
        if step < calls - 1 and S.choose("failing call", [0, 0, 0, 1]):
            # a call that fails half-way must not leave anything behind
            try:
                o(T.randn(C, 3, 17, dtype=T.complex128), **dict(over, **{("mask_model" if "ref_mic" in par else "model"): lambda X: 1 / 0}))
            except Exception:
                pass
            continue
        X = spectrum(S, C)
        seed = S.rng.randrange(1 << 30)
        T.manual_seed(seed)
        bad = None
        try:
            Y = o(X, **over)
        except Exception as e:  # noqa: the fresh object must fail as well
            bad = e
        p = dict(ctor)
        p.update({k: v for k, v in over.items() if v is not None})
        f = cls(**p)
        T.manual_seed(seed)
        try:
            Z = f(X)
        except Exception as e:
            if bad is None:
                S.fail("call %d" % step, "succeeds only with this history; a fresh object raises %r" % e)
            continue
        if bad is not None:
            S.fail("call %d" % step, "fails (%r) where a fresh object with the same parameters succeeds" % bad)
        same(S, "call %d against a fresh object with the same parameters" % step, Y, Z)
        for k, v in par.items():
            if getattr(o, k) is not v and getattr(o, k) != v:
                S.fail("parameters of the object", "%s is %r after a call, %r before" % (k, getattr(o, k), v))


def reg(name, fns, trials=60, weight=3):
    return contract("C17", "histories of calls: " + name, ["torchiva." + f for f in fns] + FN, modes="con", trials=trials, weight=weight, views=())


MICS = [None, 0, 0, 1]


@reg("T-ISS", ["t_iss.T_ISS.forward"], 80, 5)
def h_tiss(S):
    history(S, S.mod("t_iss").T_ISS,
            dict(n_iter=[0, 1, 2], n_taps=[0, 1, 2], n_delay=[0, 1, 2], n_src=[1, 2, None], model=lambda: source_model(S),
                 proj_back_mic=MICS, use_dmc=[False, True], eps=[1e-5, 1e-2, 0.0]), lambda: S.choose("channels", [2, 3]),
            extra=lambda: dict(n_iter=2))


@reg("AuxIVA-IP", ["auxiva_ip.AuxIVA_IP.forward"], 60, 5)
def h_ip(S):
    history(S, S.mod("auxiva_ip").AuxIVA_IP,
            dict(n_iter=[0, 1, 2], n_src=[1, 2, None], model=lambda: source_model(S), proj_back_mic=MICS, eps=[1e-5, 1e-2, 0.0]),
            lambda: S.choose("channels", [2, 3]), extra=lambda: dict(n_iter=2))


@reg("AuxIVA-IP2", ["auxiva_ip2.AuxIVA_IP2.forward"], 60, 4)
def h_ip2(S):
    history(S, S.mod("auxiva_ip2").AuxIVA_IP2,
            dict(n_iter=[0, 1, 2], model=lambda: source_model(S), proj_back_mic=MICS, eps=[1e-5, 1e-2, 0.0]),
            lambda: 2, extra=lambda: dict(n_iter=2))


@reg("FIVE", ["five.FIVE.forward"], 60, 4)
def h_five(S):
    history(S, S.mod("five").FIVE,
            dict(n_iter=[0, 1, 2], model=lambda: source_model(S), proj_back_mic=MICS, eps=[1e-5, 1e-2, 0.0], n_power_iter=[None, 0, 1, 3]),
            lambda: S.choose("channels", [2, 3]), extra=lambda: dict(n_iter=2))


@reg("WPE", ["wpe.WPE.forward"], 60, 4)
def h_wpe(S):
    class One(S.T.nn.Module):
        """weights without a channel dimension"""

        def __init__(self, m):
            super().__init__()
            self.m = m

        def reset(self):
            if hasattr(self.m, "reset"):
                self.m.reset()

        def forward(self, X):
            return self.m(X)[..., 0, :, :]

    history(S, S.mod("wpe").WPE,
            dict(n_iter=[0, 1, 2], n_taps=[1, 2], n_delay=[0, 1, 2], model=lambda: One(source_model(S)), eps=[1e-5, 1e-2, 0.0]),
            lambda: S.choose("channels", [1, 2]), extra=lambda: dict(n_iter=2))


@reg("beamformers", ["beamformer.MVDRBeamformer.forward", "beamformer.MWFBeamformer.forward", "beamformer.GEVBeamformer.forward"], 100, 3)
def h_bf(S):
    k = S.choose("class", ["MVDRBeamformer", "MWFBeamformer", "GEVBeamformer"])
    mk = lambda: Masks(S.T, S.choose("n_src", [1, 2]), S.choose("masks", [2, 3] if k == "MVDRBeamformer" else [4]), S.rng.random())
    d = dict(mask_model=mk, ref_mic=[0, 1], eps=[1e-5, 1e-2, 0.0])
    if k == "MVDRBeamformer":
        d.update(mvdr_type=["rtf", "scm"], n_power_iter=[None, 0, 1, 3])
    if k == "MWFBeamformer":
        d.update(time_invariant=[True, False])
    history(S, getattr(S.mod("beamformer"), k), d, lambda: S.choose("channels", [2, 3]), extra=lambda: dict(mask_model=mk()))


@reg("separator and STFT", ["nn.BSSSeparator.forward", "stft.STFT.forward", "stft.STFT.inv"], 60, 4)
def h_sep(S):
    T = S.T
    algo = S.choose("algo", ["tiss", "ip2", "five", "mvdr", "mwf", "gev"])
    bf = algo in ("mvdr", "mwf", "gev")
    kw = dict(n_fft=32, n_iter=S.choose("n_iter", [0, 2]), hop_length=S.choose("hop", [None, 8, 16]), n_taps=S.choose("taps", [0, 1]),
              n_delay=S.choose("delay", [0, 1]), n_src=S.choose("n_src", [1, 2]), algo=algo, proj_back_mic=S.choose("mic", [0, 1]),
              n_power_iter=S.choose("power", [None, 2]))
    model = (lambda: Masks(T, 2, 2, 0.3)) if bf else None
    name = None if bf else S.choose("model", ["LaplaceModel", "GaussModel", "NMFModel"])
    mk = lambda: S.mod("nn").BSSSeparator(source_model=model() if bf else getattr(S.mod("models"), name)(), **kw)
    o = mk()
    for step in range(3):
        b = S.choose("batch", [(), (2,)])
        n = S.choose("samples", [320, 321, 411])
        dt = S.choose("precision", [T.float32, T.float64])
        x = T.randn(b + (2, n), generator=S.g, dtype=T.float64).to(dt)
        seed = S.rng.randrange(1 << 30)
        res = []
        for p in (o, mk()):
            T.manual_seed(seed)
            try:
                res.append(p(x))
            except Exception as e:
                res.append(e)
        if isinstance(res[1], Exception):
            if not isinstance(res[0], Exception):
                S.fail("call %d" % step, "succeeds only with this history (%r)" % res[1])
            continue
        if isinstance(res[0], Exception):
            S.fail("call %d" % step, "fails (%r) where a fresh separator succeeds" % res[0])
        same(S, "call %d against a fresh separator" % step, *res)
        X = o.stft(x)
        same(S, "analysis against a fresh STFT", X, mk().stft(x))
        same(S, "synthesis against a fresh STFT", o.stft.inv(X), mk().stft.inv(X))
