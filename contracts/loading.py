"""Contracts of the model loader (C20)."""
import inspect
import os
import time

from vt.harness import contract, Reject
from vt.ctx import EndPath, Infeasible
from vt.poly import Unsupported
from vt import world as W

FN = ["torchiva.loader." + x for x in ("load_separator", "load_separator_model", "get_model_from_url", "get_model_filenames", "urljoin")]
ENV = ["pathlib, os, yaml.safe_load and torch.load satisfy their contracts on an abstract file system with opaque names and contents",
       "urlretrieve(url, f): f holds the content of url on return; on failure f is unchanged or holds any part of it"]


class Recorder:
    """stand-in of BSSSeparator: records its construction and the loaded weights"""

    made = []

    def __init__(self, *a, **kw):
        if a:
            kw = dict(zip(Recorder.params, a), **kw)
        self.kw, self.state = dict(kw), []
        Recorder.made.append(self)

    def load_state_dict(self, sd, strict=True):
        self.state.append((sd, strict))

    def eval(self):
        return self

    def to(self, *a, **k):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("BSSSeparator.%s" % n)


class Weights:
    def __init__(self, path, content):
        self.path, self.content = path, content


class Value:
    """an opaque value of a configuration"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def config_of(w, names, path, content):
    """the stored configuration: opaque values; which file it comes from is recorded"""
    w.read.append(("config", path, content))
    return {n: Value("%s of %s" % (n, content)) for n in names}


def weights_of(w, path, content):
    w.read.append(("weights", path, content))
    return Weights(path, content)


def start(S, initial, faults=False, names=("n_fft", "algo", "n_iter")):
    pk = W.package()
    ld = pk.load("loader")
    Recorder.params = [p for p in inspect.signature(pk.load("nn").BSSSeparator.__init__).parameters if p != "self"]
    pk.stub("nn", "BSSSeparator", Recorder)
    S.pkg.hashes.update(pk.hashes)
    Recorder.made = []
    w = W.World(initial, faults)
    w.read = []
    w.yaml = lambda p, c: config_of(w, names, p, c)
    w.weights = lambda p, c: weights_of(w, p, c)
    return ld, w


def quiet(f, *a, **k):
    import contextlib, io

    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def merged(S, sep, wcfg, over, w, names):
    """configuration with the overrides on top; exactly the stored weights"""
    S.true("one separator is built and returned", len(Recorder.made) == 1 and sep is Recorder.made[0])
    kw = sep.kw
    for n in names:
        if n in over:
            S.true("override of a stored parameter (%s)" % n, n in kw and kw[n] is over[n])
        else:
            v = kw.get(n)
            S.true("stored parameter (%s)" % n, isinstance(v, Value) and v.name.startswith(n + " of ") and v.name.endswith(str(wcfg[0])))
    for n in over:
        S.true("parameter only given by the caller (%s)" % n, n in kw and kw[n] is over[n])
    S.true("no other parameter", set(kw) == set(names) | set(over))
    S.true("the weights are loaded once, strictly", len(sep.state) == 1 and sep.state[0][1] is True)
    sd = sep.state[0][0]
    S.true("the state is exactly the stored one", isinstance(sd, Weights) and sd.content == wcfg[1])


@contract("C20", "configuration merge and weights", FN, modes="sym", views=(), assumes=ENV)
def merge(S):
    how = S.choose("form", ["folder", "folder/", "pair of str", "pair of Path"])
    fixed = {"/m/model_config.yaml": ("file", "cfg"), "/m/model_weights.ckpt": ("file", "wts")}
    if how.startswith("pair"):
        fixed = {"/m/c": ("file", "cfg"), "/m/w": ("file", "wts")}
    there = lambda p: [W.DIR] if p == "/m" else [fixed[p]] if p in fixed else [W.ABSENT, ("file", "other")]
    pk = W.package()
    allp = [p for p in inspect.signature(pk.load("nn").BSSSeparator.__init__).parameters if p != "self"]
    # every parameter in every role: only stored, overridden, only given, absent
    r = S.choose("roles", [0, 1, 2, 3])
    role = {p: (k + r) % 4 for k, p in enumerate(allp)}
    names = [p for p in allp if role[p] in (0, 1)]
    over = {}
    falsy = S.choose("values", ["opaque", "falsy"]) == "falsy"
    for k, p in enumerate([p for p in allp if role[p] in (1, 2)]):
        over[p] = [None, 0, False, Value("given " + p)][k % 4] if falsy else Value("given " + p)
    ld, w = start(S, there, names=names)
    if how == "folder":
        sep = quiet(ld.load_separator, "/m", **over)
    elif how == "folder/":
        sep = quiet(ld.load_separator, "/m/", **over)
    elif how == "pair of str":
        sep = quiet(ld.load_separator_model, "/m/w", "/m/c", **over)
    else:
        sep = quiet(ld.load_separator_model, W.GPath("/m/w"), config_path=W.GPath("/m/c"), **over)
    merged(S, sep, (("file", "cfg"), ("file", "wts")), over, w, names)
    S.true("nothing is written", all(e[0] == "mkdir" for e in w.effects), repr(w.effects))
    S.true("nothing is downloaded", not w.downloads)


@contract("C20", "missing files raise before anything is built", FN, modes="sym", views=(), assumes=ENV)
def missing(S):
    form = S.choose("form", ["folder", "pair"])
    cfg, wts = ("/m/model_config.yaml", "/m/model_weights.ckpt") if form == "folder" else ("/m/c", "/m/w")

    def initial(p):
        if p == "/m":
            return [W.DIR, W.ABSENT, ("file", "a file")] if form == "folder" else [W.DIR]
        return [("file", p), W.ABSENT] if p in (cfg, wts) else [W.ABSENT]

    ld, w = start(S, initial)
    ok = w.get(cfg) is not W.ABSENT and w.get(wts) is not W.ABSENT
    try:
        if form == "folder":
            quiet(ld.load_separator, "/m")
        else:
            quiet(ld.load_separator_model, wts, cfg)
    except (Unsupported, EndPath, Infeasible):
        raise
    except Exception as e:
        S.true("only missing files raise", not ok, repr(e))
        S.true("nothing is built", not Recorder.made)
    else:
        S.true("missing files raise", ok)
    S.true("nothing is downloaded or written", not w.downloads and not w.effects)


def cache_of(S, url):
    """the files a download of url ends in (a clean run from an empty cache)"""
    ld, w = start(S, lambda p: [W.DIR] if p in ("/~home",) else [W.ABSENT])
    quiet(ld.load_separator, url)
    S.true("every file is downloaded once", len(w.downloads) == 2 and len(set(w.downloads)) == 2, repr(w.downloads))
    base = url.strip("/")
    S.true("the files come from the given address",
           set(w.downloads) == {base + "/model_config.yaml", base + "/model_weights.ckpt"}, repr(w.downloads))
    out = {}
    for kind, path, content in w.read:
        out[path] = content
        S.true("the %s is the downloaded one" % kind,
               content == ("remote", base + {"config": "/model_config.yaml", "weights": "/model_weights.ckpt"}[kind]), repr(content))
    return out, {str(q) for p in out for q in W.GPath(p).parents}


@contract("C20", "the cache holds complete downloads only, at every point of every history", FN, modes="sym", views=(), weight=4, assumes=ENV)
def cache(S):
    """invariant: a cache file is absent or holds the complete content of its address.
    It is preserved by every effect of a call (faults included), from any state
    satisfying it; with it, a call returns the model of its address."""
    host = S.choose("scheme", ["https://", "http://"])
    url = host + "~host/~dir/~name" + S.choose("end", ["", "/"])
    others = [host + "~host/~other/~name", host + "~another/~dir/~name", host + "~host/~dir/~name2"]
    mine, dirs = cache_of(S, url)
    foreign = {}
    for o in others:
        f, d = cache_of(S, o)
        foreign.update(f)
        dirs |= d
    S.true("different addresses have different cache files", not (set(mine) & set(foreign)), repr(sorted(set(mine) & set(foreign))))
    inv = dict(foreign, **mine)

    def initial(p):
        if p in ("/", "/~home"):
            return [W.DIR]
        if p in dirs:
            return [W.ABSENT, W.DIR]
        if p in mine:
            return [W.ABSENT, mine[p]]
        if p in foreign:
            return [foreign[p]]
        return [W.ABSENT, ("partial", "anything")]

    ld, w = start(S, initial, faults=True)

    def check(w):
        for p, c in inv.items():
            v = w.peek(p)
            if v is not None:
                S.true("after every effect: cache file absent or complete", v is W.ABSENT or v == c, "%s holds %r" % (p, v))

    w.hooks.append(check)
    try:
        sep = quiet(ld.load_separator, url, n_iter=0)
    except (Unsupported, EndPath, Infeasible):
        raise
    except Exception as e:
        S.true("only a failed download raises", w.failed, repr(e))
        check(w)
        S.true("nothing is built from a failed download", not Recorder.made)
        return
    check(w)
    for kind, path, content in w.read:
        S.true("the %s used is the complete one of the address" % kind,
               content == ("remote", url.strip("/") + {"config": "/model_config.yaml", "weights": "/model_weights.ckpt"}[kind]), repr(content))
    S.true("configuration and weights are read", {r[0] for r in w.read} == {"config", "weights"})
    S.true("the override applies", len(Recorder.made) == 1 and sep is Recorder.made[0] and sep.kw["n_iter"] == 0)
    for p, c in mine.items():
        S.true("downloaded exactly when not in the cache", w.downloads.count(c[1]) == (1 if w.start[p] is W.ABSENT else 0), repr(w.downloads))
    S.true("no other download", len(w.downloads) == sum(w.start[p] is W.ABSENT for p in mine))


@contract("C20", "model instantiation", ["torchiva.utils.instantiate", "torchiva.utils.import_name"], modes="sym", views=())
def instance(S):
    u = W.package().load("utils")
    cls = W.package().load("models.classic")
    a = None if S.choose("args", ["none", "given"]) == "none" else [Value("a"), Value("b")]
    k = None if S.choose("kwargs", ["none", "given"]) == "none" else {"x": Value("x"), "y": None, "z": 0}
    log = []
    import sys, types

    m = types.ModuleType("vt_probe")
    m.sub = types.ModuleType("vt_probe.sub")
    m.Thing = m.sub.Thing = lambda *a, **k: log.append((a, k)) or log[-1]
    sys.modules["vt_probe"], sys.modules["vt_probe.sub"] = m, m.sub
    try:
        try:
            given = {n: v for n, v in (("args", a), ("kwargs", k)) if v is not None}
            r = u.instantiate(S.choose("name", ["vt_probe.Thing", "vt_probe.sub.Thing"]), **given)
        except (TypeError, AttributeError) as e:  # plain Python values only: nothing of the facade is involved
            S.true("instantiation does not raise", False, repr(e))
            return
        S.true("instantiation does not raise", True)
        S.raises("an unknown name raises", Exception, lambda: u.instantiate("vt_probe.Nothing"))
        try:
            top = u.import_name("vt_probe")
        except Exception as e:
            top = e
        S.true("a name without a dot is a module", top is m, repr(top))
    finally:
        del sys.modules["vt_probe"], sys.modules["vt_probe.sub"]
    S.true("built once and returned", len(log) == 1 and r is log[0])
    S.true("with the given arguments", len(log[0][0]) == len(a or []) and all(x is y for x, y in zip(log[0][0], a or [])))
    S.true("with the given keywords", set(log[0][1]) == set(k or {}) and all(log[0][1][n] is (k or {})[n] for n in log[0][1]))


# ------------------------------------------------------------------ real files, real weights
class Net:
    """urlretrieve and urlopen on stored contents, failing at a chosen stage"""

    def __init__(self, remote):
        self.remote, self.log = remote, []
        self.fault = None  # (index of the download, stage)

    def stage(self, k):
        return self.fault is not None and self.fault[0] == len(self.log) - 1 and self.fault[1] == k

    def retrieve(self, url, filename=None, *a, **k):
        import tempfile, urllib.error

        url = getattr(url, "full_url", url)
        self.log.append(url)
        if self.stage("before"):
            raise urllib.error.URLError("fault")
        if url not in self.remote:
            raise urllib.error.HTTPError(url, 404, "not found", None, None)
        data = self.remote[url]
        if filename is None:
            filename = tempfile.mkstemp()[1]
        with open(filename, "wb") as f:
            if self.stage("open"):
                raise KeyboardInterrupt()
            f.write(data[: len(data) // 2])
            f.flush()
            if self.stage("half"):
                raise OSError("fault")
            f.write(data[len(data) // 2 :])
        if self.stage("short"):
            raise urllib.error.ContentTooShortError("fault", None)
        return filename, {}

    def open(self, url, *a, **k):
        import io, urllib.error

        url = getattr(url, "full_url", url)
        self.log.append(url)
        if self.stage("before") or self.stage("open"):
            raise urllib.error.URLError("fault")
        if url not in self.remote:
            raise urllib.error.HTTPError(url, 404, "not found", None, None)
        data, net, here = self.remote[url], self, len(self.log) - 1

        class R(io.RawIOBase):
            pos = 0
            headers = {"Content-Length": str(len(data))}

            def readable(self):
                return True

            def readinto(self, b):
                if net.fault and net.fault[0] == here and net.fault[1] in ("half", "short") and self.pos >= len(data) // 2:
                    raise OSError("fault")
                n = min(len(b), max(1, len(data) // 2), len(data) - self.pos)
                b[:n] = data[self.pos : self.pos + n]
                self.pos += n
                return n

            def info(self):
                return self.headers

        return io.BufferedReader(R(), 16)


class Box:
    """scratch home folder, network stand-in"""

    def __init__(self, S, net):
        self.S, self.net = S, net

    def __enter__(self):
        import os, tempfile, urllib.request

        self.dir = tempfile.mkdtemp(prefix="vt_c20_")
        self.env = {k: os.environ.get(k) for k in ("HOME", "XDG_CACHE_HOME", "TORCH_HOME", "TMPDIR")}
        os.environ.update(HOME=self.dir + "/home", XDG_CACHE_HOME=self.dir + "/home/.cache", TORCH_HOME=self.dir + "/home/.torch", TMPDIR=self.dir + "/tmp")
        tempfile.tempdir = None
        self.ld = self.S.mod("loader")
        self.saved = []
        for o, n, f in ((urllib.request, "urlretrieve", self.net.retrieve), (urllib.request, "urlopen", self.net.open)):
            old = getattr(o, n)
            self.saved.append((o, n, old))
            setattr(o, n, f)
            for k, v in list(vars(self.ld).items()):
                if v is old:
                    self.saved.append((self.ld, k, old))
                    setattr(self.ld, k, f)
        self.restore({})
        return self

    def __exit__(self, *a):
        import os, shutil, tempfile

        for o, n, f in self.saved:
            setattr(o, n, f)
        for k, v in self.env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        tempfile.tempdir = None
        shutil.rmtree(self.dir, ignore_errors=True)

    def snapshot(self):
        import os

        out = {}
        for top in ("home", "tmp"):
            for d, _, fs in os.walk(os.path.join(self.dir, top)):
                for f in fs:
                    p = os.path.join(d, f)
                    out[os.path.relpath(p, self.dir)] = open(p, "rb").read()
        return out

    def restore(self, snap):
        import os, shutil

        for top in ("home", "tmp"):
            shutil.rmtree(os.path.join(self.dir, top), ignore_errors=True)
            os.makedirs(os.path.join(self.dir, top))
        for p, c in snap.items():
            p = os.path.join(self.dir, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(c)


def stored(S, k):
    """a configuration and the weights of a small network"""
    import io, yaml

    T = S.T
    n_fft = S.choose("n_fft %d" % k, [16, 32])
    cfg = dict(n_fft=n_fft, hop_length=n_fft // 2, n_iter=k + 3, algo=S.choose("algo %d" % k, ["tiss", "ip2", "five"]), n_taps=k, n_delay=1, n_src=2,
               proj_back_mic=k % 2,
               source_model=dict(name="torchiva.models.SimpleModel", args=[n_fft // 2 + 1] if k == 1 else [], kwargs=dict(dict(n_mels=5 + k, n_hidden=7 + k), **({} if k == 1 else {"n_freq": n_fft // 2 + 1}))))
    T.manual_seed(S.rng.randrange(1 << 30))
    sep = S.mod("nn").BSSSeparator(**cfg)
    with T.no_grad():
        for v in list(sep.parameters()) + list(sep.buffers()):
            v.copy_(T.randn(v.shape))
    sd = {n: v.clone() for n, v in sep.state_dict().items()}
    b = io.BytesIO()
    T.save(sd, b)
    return cfg, sd, yaml.safe_dump(cfg).encode(), b.getvalue()


def holds(S, tag, sep, cfg, sd):
    T = S.T
    got = sep.state_dict()
    if set(got) != set(sd):
        S.fail(tag, "names of the weights differ")
    for n in sd:
        S.checked += 1
        if not T.equal(got[n], sd[n]):
            S.fail(tag, "weights %s differ from the stored ones" % n)
    kw = cfg["source_model"]["kwargs"]
    if tuple(sep.source_model.output_mapping.weight.shape) != (cfg["n_fft"] // 2 + 1, kw["n_hidden"]) or sep.source_model.hidden.weight.shape[1] != kw["n_mels"]:
        S.fail(tag, "the source model does not have the configured sizes")
    q = sep.separator
    if q.model is not sep.source_model:
        S.fail(tag, "the algorithm does not use the loaded source model")
    for n, v in (("algo", sep.algo), ("n_iter", q.n_iter), ("proj_back_mic", q.proj_back_mic), ("n_fft", sep.stft.n_fft), ("hop_length", sep.stft.hop_length)):
        if v != cfg[n]:
            S.fail(tag, "%s is %r, configured %r" % (n, v, cfg[n]))
    if cfg["algo"] == "tiss":
        for n in ("n_taps", "n_delay", "n_src"):
            if getattr(q, n) != cfg[n]:
                S.fail(tag, "%s is %r, configured %r" % (n, getattr(q, n), cfg[n]))


def overrides(S):
    o = {}
    for k, v in (("n_iter", [0, 7]), ("proj_back_mic", [None, 0, 1]), ("n_src", [1, 2]), ("algo", ["tiss", "five"]), ("n_taps", [0, 2])):
        if S.choose("override " + k, [0, 1]):
            o[k] = S.choose(k, v)
    return o


@contract("C20", "folders and files with real weights", FN, modes="con", trials=40, weight=2, views=())
def real_folder(S):
    import os, pathlib

    with Box(S, Net({})) as box:
        cfg, sd, y, w = stored(S, S.choose("k", [0, 1, 2]))
        d = box.dir + "/model" + S.choose("name", ["", " x", ".v1"])
        os.makedirs(d)
        o = overrides(S)
        want = dict(cfg, **o)
        missing = S.choose("missing", [None, None, None, "config", "weights", "folder", "file", "one weight", "one weight too many"])
        if missing is not None and missing.startswith("one weight"):
            # weights that are not those of the configured separator are refused
            import io

            bad = dict(sd)
            if missing == "one weight":
                del bad[S.choose("which", sorted(bad))]
            else:
                bad["separator.other"] = S.T.zeros(1)
            b = io.BytesIO()
            S.T.save(bad, b)
            w = b.getvalue()
        if missing != "config":
            open(d + "/model_config.yaml", "wb").write(y)
        if missing != "weights":
            open(d + "/model_weights.ckpt", "wb").write(w)
        form = S.choose("form", ["folder", "folder/", "relative", "pair", "pair of paths"])
        if missing == "folder":
            import shutil

            shutil.rmtree(d)
        if missing == "file":
            d, form = d + "/model_config.yaml", "folder"
        before = box.snapshot()
        built = []
        nn = S.mod("nn").BSSSeparator
        init = nn.__init__

        def spy(self, *a, **k):
            built.append(1)
            return init(self, *a, **k)

        nn.__init__ = spy
        try:
            if form.startswith("pair"):
                f = pathlib.Path if form == "pair of paths" else str
                sep = quiet(box.ld.load_separator_model, f(d + "/model_weights.ckpt"), f(d + "/model_config.yaml"), **o)
            else:
                sep = quiet(box.ld.load_separator, {"folder": d, "folder/": d + "/", "relative": os.path.relpath(d)}[form], **o)
        except Exception as e:
            if missing is None:
                raise
            if built and not missing.startswith("one weight"):
                S.fail("missing " + missing, "a separator was built before the error")
            return
        finally:
            nn.__init__ = init
        if missing is not None:
            S.fail("missing " + missing, "no error")
        holds(S, form, sep, want, sd)
        if box.snapshot() != before or box.net.log:
            S.fail(form, "files written or downloaded")


class Stop(BaseException):
    pass


def interrupted(f, k, file):
    """run f, stopped before the k-th line executed in the given source file; True if it
    was reached"""
    import sys

    n = [0]

    def tr(fr, ev, arg):
        if fr.f_code.co_filename != file:
            return None
        if ev == "line":
            n[0] += 1
            if n[0] == k:
                raise Stop()
        return tr

    old = sys.gettrace()
    sys.settrace(tr)
    try:
        f()
    finally:
        sys.settrace(old)


@contract("C20", "all interruptions of all histories of downloads, real files", FN, modes="con", trials=1, weight=5, views=())
def real_cache(S):
    """reachable contents of the cache by calls that complete, fail or are interrupted
    anywhere; in each of them the next undisturbed call returns the model of its address"""
    host = "https://host.example"
    urls = [host + "/a/tiss", host + "/b/tiss" + S.choose("end", ["", "/"])]
    models = [stored(S, k) for k in range(2)]
    remote = {}
    for u, m in zip(urls, models):
        remote[u.strip("/") + "/model_config.yaml"] = m[2]
        remote[u.strip("/") + "/model_weights.ckpt"] = m[3]
    net = Net(remote)
    with Box(S, net) as box:
        file = box.ld.__file__

        def fresh(snap, fault=None):
            box.restore(snap)
            net.log, net.fault = [], fault

        def key(snap):
            return tuple(sorted((p, hash(c)) for p, c in snap.items()))

        def good(snap, how):
            for u, (cfg, sd, _, _) in zip(urls, models):
                fresh(snap)
                try:
                    sep = quiet(box.ld.load_separator, u, n_iter=0)
                except Exception as e:
                    S.fail("after " + how, "loading %s fails: %r" % (u, e))
                holds(S, "after %s: model of %s" % (how, u), sep, dict(cfg, n_iter=0), sd)
                if len(set(net.log)) != len(net.log) or any(not x.startswith(u.strip("/") + "/") for x in net.log):
                    S.fail("after " + how, "downloads %r for %s" % (net.log, u))
                done = box.snapshot()
                net.log = []
                quiet(box.ld.load_separator, u)
                if net.log:
                    S.fail("after " + how, "%s downloaded again" % net.log)
                yield done

        seen, todo = {}, [({}, "nothing")]
        queued = set()
        limit = 200
        t0 = time.time()

        def push(snap, how):
            if key(snap) not in queued:
                queued.add(key(snap))
                todo.append((snap, how))

        while todo and len(seen) < limit and time.time() - t0 < S.seconds:
            snap, how = todo.pop(0)
            if key(snap) in seen:
                continue
            seen[key(snap)] = how
            for done in good(snap, how):
                push(done, how + ", complete call")
            for u in urls[:1]:
                for fault in [(d, s) for d in (0, 1) for s in ("before", "open", "half", "short")]:
                    fresh(snap, fault)
                    n = len(net.log)
                    try:
                        quiet(box.ld.load_separator, u)
                    except BaseException:
                        pass
                    push(box.snapshot(), how + ", failed download %s of %s" % (fault, u))
                k = 0
                while k < 200:
                    k += 1
                    fresh(snap)
                    try:
                        interrupted(lambda: quiet(box.ld.load_separator, u), k, file)
                        break
                    except Stop:
                        push(box.snapshot(), how + ", interrupted before line event %d of %s" % (k, u))
        S.log["states"] = len(seen)
        if os.environ.get("VT_DEBUG"):
            print("states", len(seen), "left", len(todo))
