"""Contracts of the command line separation (C21)."""
import inspect
import os

from vt.harness import contract, Reject
from vt.ctx import EndPath, Infeasible, I, sreal
from vt.poly import Unsupported
from vt.tensor import fresh
from vt import tensor as tz, world as W

from .loading import quiet, Value

FN = ["torchiva.separate." + x for x in ("main", "separate_one_file", "get_parser", "device_type")] + ["torchiva.utils.select_most_energetic"]
ENV = ["pathlib, torchaudio.load and torchaudio.save satisfy their contracts on an abstract file system without symbolic links",
       "argparse converts every option string to the value it denotes",
       "the separator maps (channels, samples) to (outputs, samples), as C16 states"]


class Rejected(Exception):
    pass


def accepted(f):
    def g(S, *a):
        try:
            f(S, *a)
        except Rejected:
            pass

    return g


class Sep:
    """stand-in of the separator: an opaque function of its input"""

    made = []
    M = None  # length of the output, that of the input unless given

    def __init__(self, *a, **kw):
        self.a, self.kw = a, kw
        self.calls = []
        Sep.made.append(self)

    def to(self, *a, **k):
        return self

    def eval(self):
        return self

    def __call__(self, x, *a, **k):
        y = fresh("separated(%d)" % len(self.calls), (Sep.K, x.shape[-1] if Sep.M is None else Sep.M), tz.float32)
        self.calls.append((x, y))
        return y

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("separator.%s" % n)


class Loaded(Sep):
    pass


class Setup:
    def __init__(self, S, initial, mono=False):
        self.S = S
        self.pk = pk = W.package()
        self.m = pk.load("separate")
        self.real = pk.load("nn").BSSSeparator
        self.sig = inspect.signature(self.real.__init__)
        pk.stub("nn", "BSSSeparator", Sep)
        pk.stub("loader", "load_separator", Loaded)
        S.pkg.hashes.update(pk.hashes)
        Sep.made = []
        self.w = w = W.World(initial)
        self.K = Sep.K = S.size("outputs of the separator")
        Sep.M = None
        self.loaded = []
        self.kept = {}

        def audio_load(p):
            p = str(p)
            if w.get(p) in (W.ABSENT, W.DIR):
                raise FileNotFoundError(p)
            n = len(self.loaded)
            C, N = 1 if mono else S.size("channels(%d)" % n), S.size("samples(%d)" % n)
            x = fresh("audio(%d)" % n, (C, N), tz.float32)
            fs = Value("rate of " + p)
            self.loaded.append((p, x, fs))
            return x, fs

        def audio_save(p, y, fs):
            w.write(p, ("audio", y, fs))

        w.audio_load, w.audio_save = audio_load, audio_save

        def inputs_kept(w):
            for p, c in self.kept.items():
                S.true("inputs are not touched", w.peek(p) == c, "%s holds %r after %r" % (p, w.peek(p), w.effects[-1]))

        w.hooks.append(inputs_kept)

    def keep(self, p, c):
        self.w.get(p)
        self.kept[p] = c

    def args(self, inp, out, opts=()):
        return parse(self.S, self.m.get_parser(), [inp, out] + list(opts))

    def run(self, args):
        return quiet(self.m.main, args)

    def check_output(self, k, path, src, mic):
        """the k-th file read: what was separated and what was written"""
        S = self.S
        p, x, fs = self.loaded[k]
        T = self.pk.facades["torch"]
        calls = Sep.made[0].calls
        S.true("the separator is called once per file", len(calls) == len(self.loaded))
        xin, y = calls[k]
        C, N = x.shape
        n = mic if bool(C > mic) else C
        S.shape("channels given to the separator", xin, (n, N))
        S.eq("the first channels of the file", xin, x[:n])
        got = self.w.peek(path)
        S.true("an output is written at its place", isinstance(got, tuple) and got[0] == "audio", "%s holds %r" % (path, got))
        if not (isinstance(got, tuple) and got[0] == "audio"):
            return
        S.true("with the sampling rate of its input", got[2] is fs)
        kk = src if bool(self.K > src) else self.K
        S.shape("sources and length written", got[1], (kk, N))
        if bool(self.K > src):
            want = self.pk.load("utils").select_most_energetic(y, src)
        else:
            want = y
        if Sep.M is None:
            S.eq("the separated signals", got[1], want)
            return
        n = Sep.M if bool(Sep.M < N) else N
        S.eq("the separated signals, cut to the length of the input", got[1][..., :n], want[..., :n])
        if bool(Sep.M < N):
            S.eq("and filled with silence", got[1][..., n:], 0 * x[:1, n:].expand(kk, N - n))


def parse(S, parser, argv):
    import contextlib, io

    try:
        with contextlib.redirect_stderr(io.StringIO()) as e:
            return parser.parse_args(argv)
    except SystemExit:
        S.true("the option is accepted", False, "%s: %s" % (" ".join(argv), e.getvalue().strip().splitlines()[-1:]))
        raise Rejected()


def dest(S, parser, opt, value):
    """the attribute an option is stored in"""
    ns = parse(S, parser, ["i", "o", opt, value])
    base = parse(S, parser, ["i", "o"])
    return [k for k, v in vars(ns).items() if vars(base)[k] != v][0]


OPTS = {"mic": "--mic", "src": "--src", "nfft": "--nfft", "hop": "--hop", "n_iter": "--n_iter", "taps": "--taps", "delay": "--delay", "ref": "--ref",
        "basis": "--n-basis"}


@accepted
def options(S, kind):
    T = Setup(S, lambda p: {"/in": [W.DIR], "/in/a.wav": [("audio", "input")], "/out": [W.DIR]}.get(p, [W.ABSENT]))
    T.keep("/in/a.wav", ("audio", "input"))
    P = T.m.get_parser()
    given = S.choose("optional arguments", ["default", "given"]) == "given"
    algo = S.choose("algo", [None, "tiss", "ip2", "five"] + (["mvdr", "mwf", "gev"] if kind == "nn" else []))
    argv = ["--model-type", kind] if kind != "nn" or given else []
    if algo:
        argv += ["--algo" if given else "-a", algo]
    where = "~model" if kind == "nn" and given else None
    if where:
        argv += ["--model-path", where]
    args = T.args("/in/a.wav", "/out/b.wav", argv)
    v = {}
    for k, o in OPTS.items():
        if k == "hop" and not given:
            v[k] = None
            continue
        v[k] = S.size(k, 1 if k in ("mic", "src", "nfft", "hop", "basis") else 0)
        setattr(args, dest(S, P, o, "7919"), v[k])
    v["eps"], v["meps"], v["win"] = (sreal("eps"), sreal("model eps"), "~window") if given else (None, None, None)
    if given:
        setattr(args, dest(S, P, "--eps", "7.25"), v["eps"])
        setattr(args, dest(S, P, "--model-eps", "7.25"), v["meps"])
        setattr(args, dest(S, P, "--win", "~window"), v["win"])
    if bool(v["src"] > v["mic"]):
        return
    src = 1 if algo == "five" and bool(v["src"] > 1) else v["src"]
    try:
        T.run(args)
    except (Unsupported, EndPath, Infeasible):
        raise
    except ValueError as e:
        S.true("only IP2 with other than two channels is refused", algo == "ip2" and not (bool(v["mic"] == 2) and bool(v["src"] <= 2)), repr(e))
        S.true("nothing is written", not T.w.effects)
        return
    if algo == "ip2" and not (bool(v["mic"] == 2) and bool(v["src"] <= 2)):
        return
    S.true("one separator is built", len(Sep.made) == 1)
    sep = Sep.made[0]
    if kind == "nn":
        S.true("the pre-trained model is loaded", isinstance(sep, Loaded))
        kw = dict(sep.kw)
        path = sep.a[0] if sep.a else kw.pop("path", None)
        S.true("from the given place", str(path) == (where or T.m.DEFAULT_MODEL_URL), repr(path))
        want = {"n_iter": v["n_iter"], "n_src": src, "proj_back_mic": v["ref"]}
        if algo:
            want["algo"] = algo
        S.true("the algorithm of the model unless one is given", algo is not None or kw.get("algo") is None)
        extra = set(kw) - set(want) - {"algo"}
        S.true("nothing else is overridden", all(n == "use_dmc" and kw[n] is False for n in extra), repr(sorted(extra)))
    else:
        S.true("a separator with a classic model is built", not isinstance(sep, Loaded))
        b = T.sig.bind(None, *sep.a, **sep.kw)
        b.apply_defaults()
        kw = b.arguments
        want = {"n_fft": v["nfft"], "n_iter": v["n_iter"], "hop_length": v["hop"], "window": v["win"], "n_taps": v["taps"], "n_delay": v["delay"],
                "n_src": src, "algo": algo or "tiss", "proj_back_mic": v["ref"], "eps": v["eps"]}
        model = kw["source_model"]
        mods = T.pk.load("models")
        if isinstance(model, dict):
            model = T.pk.load("utils").instantiate(**model)
        cls = {"laplace": "LaplaceModel", "gauss": "GaussModel", "nmf": "NMFModel"}[kind]
        S.true("the source model asked for", type(model) is getattr(mods, cls), type(model).__name__)
        ref = getattr(mods, cls)(eps=v["meps"], **({"n_basis": v["basis"]} if kind == "nmf" else {}))
        S.true("with the regulariser given", same(model._eps, ref._eps))
        if kind == "nmf":
            S.true("with the number of basis functions given", same(model.n_basis, v["basis"]))
    for n, x in want.items():
        S.true("option for %s" % n, n in kw and same(getattr(kw[n], "value", kw[n]) if n == "algo" else kw[n], x), "%r instead of %r" % (kw.get(n), x))
    T.check_output(0, "/out/b.wav", src, v["mic"])
    S.true("nothing else is written", {e[1] for e in T.w.effects if e[0] != "mkdir"} == {"/out/b.wav"}, repr(T.w.effects))


def same(a, b):
    if a is b:
        return True
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a == b
    return bool(a == b)


for _k in ("nn", "laplace", "gauss", "nmf"):
    contract("C21", "options and signals (%s)" % _k, FN, modes="sym", views=(), weight=5, assumes=ENV)(lambda S, k=_k: options(S, k))

RELS = ["x.wav", "d/x.wav", "d/e/x.wav", "d/y.v1.wav"]


@accepted
def folders(S, out):
    r1 = S.choose("first", RELS)
    r2 = S.choose("second", [r for r in RELS if r != r1] + ["z.wav"])
    ins = {"/in/" + r1: ("audio", 1), "/in/" + r2: ("audio", 2)}
    dirs = {str(q) for p in ins for q in W.GPath(p).parents}
    outdir = str(W.GPath(out).resolve())
    fresh = out == "/deep/out" and S.choose("parent of the output folder", ["exists", "missing"]) == "missing"

    def initial(p):
        if fresh and (p == "/deep" or p.startswith("/deep/")):
            return [W.ABSENT]
        if p in ins:
            return [ins[p]]
        if p in dirs:
            return [W.DIR]
        if p == outdir or W.GPath(p) in W.GPath(outdir).parents:
            return [W.ABSENT, W.DIR] if p == outdir else [W.DIR]
        if W.GPath(outdir) in W.GPath(p).parents:
            # a folder or the result of an earlier run
            return [W.ABSENT, W.DIR if not p.endswith(".wav") else ("audio", "old")]
        return [W.ABSENT]

    T = Setup(S, initial, mono=True)
    for p, c in ins.items():
        T.keep(p, c)
    T.w.listing = [W.GPath(p) for p in ins]
    src, mic = S.size("src"), S.size("mic")
    args = T.args("/in", out, ["--model-type", "laplace"])
    P = T.m.get_parser()
    setattr(args, dest(S, P, "--src", "7919"), src)
    setattr(args, dest(S, P, "--mic", "7919"), mic)
    if bool(src > mic):
        return
    want = {p: str(W.GPath(out).resolve() / r) for p, r in zip(ins, (r1, r2))}
    clash = set(want.values()) & set(ins)
    try:
        T.run(args)
    except (Unsupported, EndPath, Infeasible):
        raise
    except Exception as e:
        S.true("only an output among the inputs is refused", bool(clash) or outdir == "/in", repr(e))
        S.true("nothing is written", not [x for x in T.w.effects if x[0] not in ("mkdir",)])
        return
    S.true("an output that is an input is refused", not clash)
    if clash:
        return
    S.true("every input is read once", sorted(p for p, _, _ in T.loaded) == sorted(ins), repr([p for p, _, _ in T.loaded]))
    for k, (p, _, _) in enumerate(T.loaded):
        T.check_output(k, want[p], src, mic)
    wr = [e[1] for e in T.w.effects if e[0] != "mkdir"]
    S.true("exactly one output per input", sorted(wr) == sorted(want.values()), repr(wr))


for _o in ("/out", "/deep/out", "/in", "/in/../in", "/in/d", "/in/o", "/"):
    contract("C21", "folders: every input has its own output (/in to %s)" % _o, FN, modes="sym", views=(), weight=5, assumes=ENV)(
        lambda S, o=_o: folders(S, o))


@contract("C21", "single files", FN, modes="sym", views=(), weight=3, assumes=ENV)
@accepted
def single(S):
    name = S.choose("input", ["/in/a.wav", "/in/a.flac", "/in/b.c.wav"])
    out = S.choose("output", ["/out/b.wav", "/out", "/in", "/in/a.wav", "/in/../in/a.wav", "/in/new.wav"])
    initial = lambda p: {"/in": [W.DIR], name: [("audio", "input")], "/out": [W.DIR], "/in/../in": [W.DIR], "/in/..": [W.DIR]}.get(
        p, [W.ABSENT, ("audio", "old")] if p in ("/out/b.wav", "/in/new.wav", "/out/a.wav") else [W.ABSENT])
    T = Setup(S, initial)
    T.keep(name, ("audio", "input"))
    src, mic = S.size("src"), S.size("mic")
    args = T.args(name, out, ["--model-type", "laplace"])
    P = T.m.get_parser()
    setattr(args, dest(S, P, "--src", "7919"), src)
    setattr(args, dest(S, P, "--mic", "7919"), mic)
    if bool(src > mic):
        return
    target = out if out.endswith(".wav") else out + "/" + W.GPath(name).name
    bad = not name.endswith(".wav") or str(W.GPath(target).resolve()) == name
    try:
        T.run(args)
    except (Unsupported, EndPath, Infeasible):
        raise
    except Exception as e:
        S.true("only other formats and an output on the input are refused", bad, repr(e))
        S.true("nothing is written", not [x for x in T.w.effects if x[0] != "mkdir"])
        return
    S.true("other formats and an output on the input are refused", not bad)
    if bad:
        return
    S.true("one file is read", [p for p, _, _ in T.loaded] == [name])
    T.check_output(0, str(W.GPath(target)), src, mic)
    S.true("one file is written", [e[1] for e in T.w.effects if e[0] != "mkdir"] == [target], repr(T.w.effects))


@contract("C21", "one file, separators of any output length", FN, modes="sym", views=(), weight=3, assumes=ENV[:1])
def one_file(S):
    T = Setup(S, lambda p: {"/in": [W.DIR], "/in/a.wav": [("audio", "input")], "/out": [W.DIR]}.get(p, [W.ABSENT]))
    T.keep("/in/a.wav", ("audio", "input"))
    src, mic = S.size("src"), S.size("mic")
    Sep.M = S.size("samples of the output")
    sep = Sep()
    T.m.separate_one_file(sep, W.GPath("/in/a.wav"), W.GPath("/out/b.wav"), src, mic, "cpu")
    T.check_output(0, "/out/b.wav", src, mic)


# ------------------------------------------------------------------ real files
def write_wav(T, p, x, fs):
    import torchaudio

    os.makedirs(os.path.dirname(p), exist_ok=True)
    torchaudio.save(p, x, fs)


def read_wav(p):
    import torchaudio

    return torchaudio.load(p)


def listing(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


@contract("C21", "the command on real files", FN, modes="con", trials=100, weight=3, views=())
def real_command(S):
    import shutil
    import tempfile

    from .loading import stored

    T = S.T
    m = S.mod("separate")
    d = tempfile.mkdtemp(prefix="vt_c21_")
    try:
        # ---------------------------------------------------------- inputs
        mode = S.choose("mode", ["folder", "folder", "folder", "file", "file to folder"])
        rels = ["a.wav"]
        if mode == "folder":
            rels = S.rng.sample(["a.wav", "b.wav", "s/a.wav", "s/t/a.wav", "s.wav", "u/a b.wav", "v/y.v1.wav"], S.choose("files", [0, 1, 2, 3]))
            S.log["rels"] = rels
        data = {}
        for r in rels:
            C, N, fs = S.choose("channels of " + r, [2, 3]), S.choose("samples of " + r, [400, 437, 512, 801]), S.choose("rate of " + r, [8000, 16000])
            x = 0.1 * T.randn(C, N, generator=S.g)
            x = x + 0.05 * x.roll(3, -1).flip(0)
            write_wav(T, os.path.join(d, "in", r), x, fs)
            data[r] = fs
        os.makedirs(d + "/in/empty", exist_ok=True)
        open(d + "/in/notes.txt", "w").write("x")
        before = listing(d + "/in")
        # ---------------------------------------------------------- options
        kind = S.choose("model", ["laplace", "gauss", "nmf", "nn"])
        algo = S.choose("algo", [None, "tiss", "ip2", "five"])
        mic, src = S.choose("mic", [2, 3]), S.choose("src", [1, 2])
        if algo == "ip2":
            mic = 2
        v = dict(n_iter=S.choose("n_iter", [0, 1, 3]), taps=S.choose("taps", [0, 1]), delay=S.choose("delay", [0, 1]), ref=S.choose("ref", [0, 1]),
                 nfft=S.choose("nfft", [32, 64]), hop=S.choose("hop", [None, 16]), win=S.choose("win", [None, "hann", "hamming"]),
                 eps=S.choose("eps", [None, 1e-3]), meps=S.choose("model eps", [None, 0.05]), basis=S.choose("basis", [2, 4]))
        argv = ["--model-type", kind, "--mic", str(mic), "--src", str(src), "--n_iter", str(v["n_iter"]), "--ref", str(v["ref"]), "--taps", str(v["taps"]),
                "--delay", str(v["delay"]), "--nfft", str(v["nfft"]), "--n-basis", str(v["basis"]), "--device", "cpu"]
        for k, o in (("hop", "--hop"), ("win", "--win"), ("eps", "--eps"), ("meps", "--model-eps")):
            if v[k] is not None:
                argv += [o, str(v[k])]
        if algo:
            argv += ["--algo", algo]
        nsrc = 1 if algo == "five" else src
        if kind == "nn":
            cfg, sd, y, w = stored(S, S.choose("k", [0, 1]))
            cfg = dict(cfg, n_iter=v["n_iter"], n_src=nsrc, proj_back_mic=v["ref"], **({"algo": algo} if algo else {}))
            if cfg["algo"] == "ip2" and mic != 2 or cfg["algo"] == "five":
                raise Reject()  # FIVE leaves out the first frequency; the network has a fixed number
            os.makedirs(d + "/model")
            open(d + "/model/model_config.yaml", "wb").write(y)
            open(d + "/model/model_weights.ckpt", "wb").write(w)
            argv += ["--model-path", d + "/model"]
            ref = S.mod("nn").BSSSeparator(**cfg)
            ref.load_state_dict(sd)
        else:
            mods = S.mod("models")
            model = {"laplace": lambda: mods.LaplaceModel(eps=v["meps"]), "gauss": lambda: mods.GaussModel(eps=v["meps"]),
                     "nmf": lambda: mods.NMFModel(n_basis=v["basis"], eps=v["meps"])}[kind]()
            ref = S.mod("nn").BSSSeparator(n_fft=v["nfft"], n_iter=v["n_iter"], hop_length=v["hop"], window=v["win"], n_taps=v["taps"], n_delay=v["delay"],
                                           n_src=nsrc, algo=algo or "tiss", source_model=model, proj_back_mic=v["ref"], eps=v["eps"])
        out = {"folder": "out", "file": "out/z.wav", "file to folder": "out"}[mode]
        if mode != "folder":
            os.makedirs(d + "/out")
        inp = "in" if mode == "folder" else "in/a.wav"
        want = {r: (r if mode == "folder" else "z.wav" if mode == "file" else "a.wav") for r in rels}
        odd = S.choose("place", ["apart", "apart", "apart", "on the input", "link to the input", "below the input"]) if mode == "folder" else \
            S.choose("place", ["apart", "apart", "on the input"])
        if odd == "on the input":
            out = inp
        elif odd == "link to the input":
            os.symlink(d + "/in", d + "/link")
            out = "link"
        elif odd == "below the input":
            out = "in/s"
        elif mode == "folder" and S.choose("new folders", [0, 1]):
            out = "p/q/out"
        args = parse(S, m.get_parser(), [os.path.join(d, inp), os.path.join(d, out)] + argv)
        seed = S.rng.randrange(1 << 30)
        T.manual_seed(seed)
        clash = odd in ("on the input", "link to the input") or odd == "below the input" and any("s/" + r in rels for r in rels)
        try:
            quiet(m.main, args)
        except Exception as e:
            now = listing(d + "/in")
            for r, c in before.items():
                S.checked += 1
                if now.get(r) != c:
                    S.fail("inputs", "%s was changed" % r)
            if clash:
                return
            raise
        after = listing(d + "/in")
        for r, c in before.items():
            S.checked += 1
            if after.get(r) != c:
                S.fail("inputs", "%s was %s" % (r, "changed" if r in after else "removed"))
        if clash:
            S.fail("output on an input", "not refused")
        base = os.path.join(d, out if mode != "file" else "out")
        got = {f for f in listing(base)} - ({os.path.relpath(x, "s") for x in before if x.startswith("s/")} if odd == "below the input" else set())
        if got != set(want.values()):
            S.fail("files written", "%r, expected %r" % (sorted(got), sorted(want.values())))
        T.manual_seed(seed)
        # files are independent except for the random numbers of NMF
        for k, r in enumerate(rels):
            x, fs = read_wav(os.path.join(d, "in", r))
            y, fs2 = read_wav(os.path.join(base, want[r]))
            C = min(mic, x.shape[0])
            S.checked += 1
            if fs2 != fs or y.shape[-1] != x.shape[-1]:
                S.fail("length and rate of " + r, "%d at %d, input %d at %d" % (y.shape[-1], fs2, x.shape[-1], fs))
            with T.no_grad():
                z = ref(x[:C])
            if z.shape[0] > nsrc:
                p = (z * z).mean(-1)
                z = z[T.argsort(p, descending=True)[:nsrc]]
            if y.shape[0] != z.shape[0] or y.shape[0] > src:
                S.fail("sources of " + r, "%d written, %d expected" % (y.shape[0], z.shape[0]))
            if kind == "nmf" and len(rels) > 1:
                continue
            if not bool(T.isfinite(z).all()) or float(z.abs().max()) > 0.9:
                continue
            err = float((y - z).abs().max())
            if err > 2e-3 * max(1.0, float(z.abs().max())) and err > 0.05 * float(z.abs().max()):
                S.fail("signals of " + r, "difference %.3g (max %.3g)" % (err, float(z.abs().max())))
    finally:
        shutil.rmtree(d, ignore_errors=True)
