"""A ghost file system and network for the loader and the command line (C20, C21).

The modules under proof run unchanged; the names they import from pathlib, os, shutil,
urllib, yaml, torchaudio, and open() are bound to stand-ins that know only their
contracts.  File contents are opaque values, file names opaque strings; whether a file
exists at the start is an arbitrary choice (a path of the exploration) made when the code
first asks; a download may fail before, in the middle or at the end of writing.
After every effect the hooks of the world are called, so an invariant checked there holds
at every point where the process may be interrupted."""
import builtins
import pathlib

from .ctx import cur
from .poly import Unsupported
from .symtorch import Facade
from . import loader as L

ABSENT, DIR = "absent", "folder"
CUR = [None]


def world():
    return CUR[0]


class Interrupted(Exception):
    """a failed download"""


class World:
    def __init__(self, initial=None, faults=False):
        self.initial = initial or (lambda p: [ABSENT])
        self.files, self.dirs, self.start = {}, set(), {}
        self.hooks = []
        self.effects = []
        self.downloads = []
        self.faults = faults
        self.failed = False
        self.listing = []
        self.yaml = self.weights = self.audio_load = self.audio_save = None
        CUR[0] = self

    # -------------------------------------------------------------- state
    def get(self, p):
        p = str(p)
        if p in self.dirs:
            return DIR
        if p not in self.files:
            up = str(pathlib.PurePosixPath(p).parent)
            opts = [DIR] if up == p else self.initial(p) if self.get(up) is DIR else [ABSENT]
            k = cur().choose(len(opts), ("choice", "initially %s" % p)) if len(opts) > 1 else 0
            if opts[k] is DIR:
                self.dirs.add(p)
            else:
                self.files[p] = opts[k]
            self.start[p] = opts[k]
            return opts[k]
        return self.files[p]

    def peek(self, p):
        """content without deciding an open choice"""
        p = str(p)
        return DIR if p in self.dirs else self.files.get(p)

    def effect(self, kind, *a):
        self.effects.append((kind,) + tuple(str(x) for x in a))
        for h in self.hooks:
            h(self)

    def write(self, p, content, kind="write"):
        self.get(p)
        if self.get(pathlib.PurePosixPath(str(p)).parent) is not DIR and kind != "copy":
            raise FileNotFoundError("no folder for %s" % p)
        self.files[str(p)] = content
        self.effect(kind, p)

    def remove(self, p, missing_ok=False):
        if self.get(p) in (ABSENT, DIR):
            if missing_ok and self.get(p) is ABSENT:
                return
            raise FileNotFoundError(str(p))
        self.files[str(p)] = ABSENT
        self.effect("remove", p)

    def move(self, a, b):
        c = self.get(a)
        if c is ABSENT or c is DIR:
            raise FileNotFoundError(str(a))
        self.get(b)
        self.files[str(b)] = c
        self.files[str(a)] = ABSENT
        self.effect("move", a, b)

    def copy(self, a, b):
        c = self.get(a)
        if c is ABSENT or c is DIR:
            raise FileNotFoundError(str(a))
        if self.get(b) is DIR:
            b = GPath(b) / GPath(a).name
        self.write(b, ("partial", c))
        self.write(b, c)

    def mkdir(self, p, parents=False, exist_ok=False):
        p = pathlib.PurePosixPath(str(p))
        if self.get(p) is DIR:
            if exist_ok:
                return
            raise FileExistsError(str(p))
        if self.get(p) is not ABSENT:
            raise FileExistsError(str(p))
        if self.get(p.parent) is not DIR:
            if not parents:
                raise FileNotFoundError(str(p.parent))
            self.mkdir(p.parent, True, True)
        self.files.pop(str(p), None)
        self.dirs.add(str(p))
        self.effect("mkdir", p)

    def download(self, url, filename):
        """contract of urlretrieve: the file holds the remote content on return; on failure
        it is as before, or holds a part or all of the content"""
        self.downloads.append(url)
        full = ("remote", url)
        how = "complete"
        if self.faults:
            o = ["complete", "nothing", "part", "all but failing"]
            how = o[cur().choose(len(o), ("choice", "download of %s" % url.rsplit("/", 1)[-1]))]
        self.failed = self.failed or how != "complete"
        if how == "nothing":
            raise Interrupted(url)
        self.write(filename, ("partial", full))
        if how == "part":
            raise Interrupted(url)
        self.write(filename, full)
        if how != "complete":
            raise Interrupted(url)
        return filename, {}


class GPath(pathlib.PurePosixPath):
    """pathlib.Path on the ghost file system"""

    @classmethod
    def home(cls):
        return cls("/~home")

    @classmethod
    def cwd(cls):
        return cls("/~cwd")

    def expanduser(self):
        if self.parts[:1] == ("~",):
            return GPath.home().joinpath(*self.parts[1:])
        return self

    def absolute(self):
        return self if self.is_absolute() else GPath.cwd() / self

    def resolve(self, strict=False):
        out = []
        for x in self.absolute().parts:
            if x == "..":
                out.pop()
            elif x != ".":
                out.append(x)
        return GPath(*out)

    def exists(self):
        return world().get(self.absolute()) is not ABSENT

    def is_dir(self):
        return world().get(self.absolute()) is DIR

    def is_file(self):
        return world().get(self.absolute()) not in (DIR, ABSENT)

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        world().mkdir(self.absolute(), parents, exist_ok)

    def replace(self, t):
        world().move(self.absolute(), GPath(t).absolute())
        return GPath(t)

    rename = replace

    def unlink(self, missing_ok=False):
        world().remove(self.absolute(), missing_ok)

    def open(self, mode="r", *a, **k):
        return g_open(self, mode)

    def read_text(self, *a, **k):
        return g_open(self).read()

    read_bytes = read_text

    def touch(self, *a, **k):
        world().write(self.absolute(), ("partial", None))

    def samefile(self, o):
        return self.resolve() == GPath(o).resolve()

    def rglob(self, pat):
        if pat not in ("*.wav", "**/*.wav"):
            raise Unsupported("rglob(%r)" % pat)
        return iter([p for p in world().listing if self.absolute() in p.absolute().parents and p.suffix == ".wav"])

    def glob(self, pat):
        if pat == "**/*.wav":
            return self.rglob("*.wav")
        if pat == "*.wav":
            return iter([p for p in self.rglob(pat) if p.parent == self])
        raise Unsupported("glob(%r)" % pat)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n in dir(pathlib.Path):
            raise Unsupported("Path.%s" % n)
        raise AttributeError(n)


class Handle:
    def __init__(self, p):
        self.path, self.content = p, world().get(p)

    def read(self, *a):
        return Text(self.path, self.content)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Text(str):
    def __new__(cls, path, content):
        s = str.__new__(cls, "~text of %s~" % path)
        s.path, s.content = path, content
        return s


def g_open(p, mode="r", *a, **k):
    if "w" in mode or "a" in mode or "x" in mode or "+" in mode:
        raise Unsupported("open(%r) for writing" % mode)
    p = GPath(p).absolute()
    if world().get(p) in (ABSENT, DIR):
        raise FileNotFoundError(str(p))
    return Handle(p)


def source_of(x):
    """path and content of what was given to a reader"""
    if isinstance(x, (Handle, Text)):
        return str(x.path), x.content
    p = GPath(x).absolute()
    c = world().get(p)
    if c in (ABSENT, DIR):
        raise FileNotFoundError(str(p))
    return str(p), c


class Unknown:
    def __init__(self, what):
        self.what = what


def facades():
    """stand-ins by module name"""
    out = {}
    pl = Facade("pathlib")
    pl.Path = pl.PosixPath = GPath
    pl.PurePath = pl.PurePosixPath = pathlib.PurePosixPath
    out["pathlib"] = pl
    o, op = Facade("os"), Facade("os.path")
    op.exists = lambda p: GPath(p).exists()
    op.isfile = lambda p: GPath(p).is_file()
    op.isdir = lambda p: GPath(p).is_dir()
    op.join = lambda a, *b: str(GPath(a).joinpath(*b))
    op.basename = lambda p: str(p).rsplit("/", 1)[-1]
    op.dirname = lambda p: str(GPath(p).parent)
    op.splitext = lambda p: (str(GPath(p).with_suffix("")), GPath(p).suffix)
    op.abspath = op.realpath = lambda p: str(GPath(p).resolve())
    op.samefile = lambda a, b: GPath(a).samefile(b)
    op.expanduser = lambda p: str(GPath(p).expanduser())
    o.path = op
    o.replace = o.rename = lambda a, b: GPath(a).replace(b) and None
    o.remove = o.unlink = lambda p: GPath(p).unlink()
    o.makedirs = lambda p, mode=0, exist_ok=False: GPath(p).mkdir(parents=True, exist_ok=exist_ok)
    o.mkdir = lambda p: GPath(p).mkdir()
    o.fspath = lambda p: str(p)
    o.getpid = lambda: 4242
    o.sep = "/"
    o.PathLike = pathlib.os.PathLike
    out["os"], out["os.path"] = o, op
    sh = Facade("shutil")
    sh.move = lambda a, b: world().move(GPath(a).absolute(), GPath(b).absolute())
    sh.copy = sh.copyfile = sh.copy2 = lambda a, b: world().copy(GPath(a).absolute(), GPath(b).absolute())
    out["shutil"] = sh
    ul, ur = Facade("urllib"), Facade("urllib.request")
    ur.urlretrieve = lambda url, filename=None, *a, **k: world().download(url, GPath(filename).absolute())
    import urllib.parse

    ul.request, ul.parse = ur, urllib.parse
    out["urllib"], out["urllib.request"], out["urllib.parse"] = ul, ur, urllib.parse
    y = Facade("yaml")
    y.safe_load = lambda f: world().yaml(*source_of(f))
    y.load = lambda f, Loader=None: world().yaml(*source_of(f))
    y.SafeLoader = y.FullLoader = y.Loader = None
    out["yaml"] = y
    ta = Facade("torchaudio")
    ta.load = lambda p, *a, **k: world().audio_load(GPath(p).absolute())
    ta.save = lambda p, x, fs, *a, **k: world().audio_save(GPath(p).absolute(), x, fs)
    out["torchaudio"] = ta
    return out


_PK = []


def package():
    """the package whose stand-ins look up the current world"""
    if not _PK:
        p = L.Package(extra_modules=facades())
        p.extra_builtins = {"open": g_open}
        p.facades["torch"].load = lambda f, *a, **k: world().weights(*source_of(f))
        _PK.append(p)
    _PK[0].unstub()
    return _PK[0]
