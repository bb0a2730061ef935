"""Loads the torchiva sources of /repo for verification.

Every module is read from the working tree on each run, its AST is rewritten in one
respect only -- a `for` statement whose iterable turns out to be a symbolic range is
executed by the loop rule (invariant at entry, generic iteration, invariant preserved,
invariant after the loop), a counting `while` statement is treated as the for loop over
its counter and a comprehension over a symbolic range as a function of its index -- and it
is executed against the torch facade.  Nothing else of the source text is changed or
dropped.
"""
import ast
import builtins
import hashlib
import os
import sys
import types

from . import ints, poly, symtorch
from .ctx import cur, I, EndPath, Infeasible, mki, sint, _is_int
from .ints import ip, c_ge, c_eq
from .poly import Unsupported
from .tensor import Tensor, axis_of, formals

REPO = os.environ.get("VT_REPO", "/repo")


class Poison:
    """a variable the loop invariant says nothing about"""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported("loop-carried variable %s has no invariant" % self._n)

    def __getattr__(self, n):
        self._bad()

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __getitem__ = _bad
    __setitem__ = __matmul__ = __neg__ = __call__ = __iter__ = __len__ = __bool__ = __lt__ = __gt__ = _bad
    __eq__ = __ne__ = __rtruediv__ = __le__ = __ge__ = _bad
    __hash__ = None


class SymRange:
    def __init__(self, *a):
        if len(a) == 1:
            self.lo, self.hi, self.step = 0, a[0], 1
        elif len(a) == 2:
            self.lo, self.hi, self.step = a[0], a[1], 1
        else:
            self.lo, self.hi, self.step = a

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range outside a for statement")

    def __len__(self):
        raise Unsupported("length of a symbolic range")


def vt_range(*a):
    if any(isinstance(x, I) for x in a):
        return SymRange(*a)
    return builtins.range(*[x if isinstance(x, int) else x.__index__() for x in a])


def vt_after(a, n, step):
    """value of the counter after a counting while loop"""
    if bool(n > 0):
        return a + n if step == 1 else a - n
    return a


class SymList:
    """the sequence i -> f(i), lo <= i < hi"""

    def __init__(self, v, size, value):
        self.v, self.size, self.value = v, size, value

    def stacked(self, dim):
        x = self.value
        n = len(x.axes) + 1
        d = dim + n if dim < 0 else dim
        axes = list(x.axes[:d]) + [axis_of(self.size)] + list(x.axes[d:])
        f = formals(axes)
        i = f[d][0] if f[d] else ints.ZERO
        return Tensor(axes, poly.subst(x.el(f[:d] + f[d + 1:]), {next(iter(self.v.poly.vars)): i}), x.dtype)

    def _bad(self, *a, **k):
        raise Unsupported("this use of a list of symbolic length")

    __iter__ = __getitem__ = __len__ = __bool__ = __add__ = __radd__ = __mul__ = __setitem__ = _bad

    def __getattr__(self, n):
        raise Unsupported("list of symbolic length: %s" % n)


def vt_comp(it, f):
    if not isinstance(it, SymRange):
        return [f(x) for x in it]
    if it.step != 1:
        raise Unsupported("symbolic range with a step")
    c = cur()
    if not bool(it.hi > it.lo):
        return []
    size = it.hi - it.lo
    v = sint("c#%d" % c.count("compvar"), ints.ZERO, ip(size))
    k, w, t = len(c.facts), len(c.writes), len(c.labels)
    val = f(it.lo + v)
    var = next(iter(v.poly.vars))
    if len(c.writes) > w:
        raise Unsupported("a comprehension that writes to tensors")
    if any(str(l[0][0]).startswith("data") for l in c.labels[t:]):
        raise Unsupported("a decision on data inside a comprehension")
    for fact in c.facts[k:]:
        if var in _vars_of(fact):
            raise Unsupported("a decision on the index of a comprehension")
    if not isinstance(val, Tensor):
        raise Unsupported("comprehension of other values than tensors")
    return SymList(v, size, val)


def _vars_of(x):
    if hasattr(x, "vars"):
        return set(x.vars)
    if isinstance(x, (tuple, list)):
        out = set()
        for y in x:
            out |= _vars_of(y)
        return out
    return set()


def vt_sum(x, *a):
    if isinstance(x, SymList):
        r = x.stacked(0).sum(dim=0)
        return r + a[0] if a else r
    return builtins.sum(x, *a)


def vt_len(x):
    return builtins.len(x)


class Loop:
    """one execution of a symbolic for loop (the loop rule)"""

    def __init__(self, site, it, env, names, inplace, flags):
        c = cur()
        if it.step != 1:
            raise Unsupported("symbolic range with a step")
        self.site, self.names, self.inplace = site, names, inplace
        self.lo, self.hi = it.lo, it.hi
        self.entry = {n: env[n] for n in names if n in env}
        self.env = env
        self.c = c
        self.parent = c.loop_stack[-1] if c.loop_stack else None
        self.children = 0
        if self.parent:
            self.ordinal = self.parent.children
            self.parent.children += 1
        else:
            self.ordinal = c.count("toploop") - 1
        self.run = bool(self.hi > self.lo)
        self.plan = None
        h = c.loop_handler
        if self.run:
            if flags:
                raise Unsupported("loop body mutates %s" % (flags,))
            if h is None:
                raise Unsupported("no loop contract for %s" % site)
            self.plan = h(self)
            if self.plan is None:
                raise Unsupported("no loop contract for %s" % site)
            # the last iteration of an enclosing loop is an instance of its generic
            # iteration, whose obligations (inner loops included) are checked in mode 0
            self.inside = any(l.mode == 1 for l in c.loop_stack)
            if self.inside:
                self.mode = 1
            else:
                self.plan.entry(self)
                self.mode = c.choose(2, ("loop", "%s:%s" % (site.split(":")[-1], "body/after")))
            nm = "i@%s#%d" % (site.split(":")[-1], c.count("loopvar"))
            v = sint(nm, ip(self.lo), ip(self.hi))
            self.i = v
            if self.mode == 1:
                c.assume(c_eq(ip(self.hi) - 1 - v.poly))
            st = self.plan.state(self, v)
            self.values, self.kept = {}, {}
            for n in names:
                if n in st:
                    val = st[n]
                    if n in inplace and isinstance(self.entry.get(n), Tensor):
                        # havoc in place so that aliases see it
                        t = self.entry[n]
                        if len(t.axes) != len(val.axes):
                            raise Unsupported("in-place loop variable changes rank")
                        t._write(val.body)
                        val = t
                    self.values[n] = val
                elif n in self.entry:
                    # a constant is assumed to stay the same; exit() checks it
                    v0 = self.entry[n]
                    const = v0 is None or isinstance(v0, (bool, str))
                    if const:
                        self.kept[n] = v0
                    self.values[n] = v0 if const else Poison(n)
            c.loop_stack.append(self)
            self.w0 = len(c.writes)
            self.pre = set(id(x.root()) for x in env.values() if isinstance(x, Tensor))
        else:
            if h is not None:
                hook = getattr(h, "skipped", None)
                if hook:
                    hook(self)

    @property
    def index(self):
        return self.i

    def has(self, n):
        return n in self.values

    def get(self, n):
        return self.values[n]

    def leave(self):
        if self.c.loop_stack and self.c.loop_stack[-1] is self:
            self.c.loop_stack.pop()

    def exit(self, env):
        """end of the generic iteration"""
        c = self.c
        allowed = set(id(self.entry[n].root()) for n in self.inplace if isinstance(self.entry.get(n), Tensor))
        for w in c.writes[self.w0:]:
            if id(w) in self.pre and id(w) not in allowed:
                raise Unsupported("loop body writes to a tensor outside its frame")
        end = {n: env[n] for n in self.names if n in env}
        for n, v0 in self.kept.items():
            if not (end.get(n) is v0 or (isinstance(end.get(n), type(v0)) and end.get(n) == v0)):
                raise Unsupported("loop-carried variable %s has no invariant" % n)
        if self.mode == 0:
            if c.step_hook:
                c.step_hook(self, {n: v for n, v in end.items() if isinstance(v, Tensor) and isinstance(self.values.get(n), Tensor)})
            self.plan.step(self, self.i, end)
            raise EndPath()
        self.leave()
        fin = self.plan.final(self)
        self.fin = {}
        for n, val in (fin or {}).items():
            if n in self.inplace and isinstance(self.entry.get(n), Tensor) and isinstance(end.get(n), Tensor):
                end[n]._write(val.body)
                val = end[n]
            self.fin[n] = val

    def final_has(self, n):
        return n in self.fin

    def final_get(self, n):
        return self.fin[n]


class Plan:
    """a loop contract: invariant at entry / generic state / step / final state"""

    def entry(self, loop):
        pass

    def state(self, loop, i):
        return {}

    def step(self, loop, i, end):
        pass

    def final(self, loop):
        return {}


# ---------------------------------------------------------------- AST rewriting
MUTATORS = {"append", "extend", "insert", "update", "pop", "remove", "add", "clear", "setdefault"}


class _Names(ast.NodeVisitor):
    def __init__(self):
        self.names, self.inplace, self.flags = [], [], []

    def add(self, n, l):
        if n not in l:
            l.append(n)

    def target(self, t):
        if isinstance(t, ast.Name):
            self.add(t.id, self.names)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.target(e)
        elif isinstance(t, ast.Starred):
            self.target(t.value)
        elif isinstance(t, ast.Subscript):
            b = t.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                self.add(b.id, self.names)
                self.add(b.id, self.inplace)
        elif isinstance(t, ast.Attribute):
            self.add("attribute " + t.attr, self.flags)

    def visit_Assign(self, n):
        for t in n.targets:
            self.target(t)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.target(n.target)
        if isinstance(n.target, ast.Name):
            self.add(n.target.id, self.inplace)
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        self.target(n.target)
        self.generic_visit(n)

    def visit_NamedExpr(self, n):
        self.target(n.target)
        self.generic_visit(n)

    def visit_For(self, n):
        self.target(n.target)
        self.generic_visit(n)

    def visit_With(self, n):
        for i in n.items:
            if i.optional_vars is not None:
                self.target(i.optional_vars)
        self.generic_visit(n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute):
            if n.func.attr in MUTATORS:
                self.add("call " + n.func.attr, self.flags)
            elif n.func.attr.endswith("_") and not n.func.attr.endswith("__") and isinstance(n.func.value, ast.Name):
                self.add(n.func.value.id, self.names)
                self.add(n.func.value.id, self.inplace)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.add(n.name, self.names)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators:
            self.visit(g.iter)
        self.visit(n.elt)


def _bare(tree):
    """generated code takes the position of the loop it belongs to"""
    for n in ast.walk(tree):
        for a in ("lineno", "end_lineno", "col_offset", "end_col_offset"):
            if hasattr(n, a):
                delattr(n, a)
    return tree


def _gen(src, mode="exec"):
    return _bare(ast.parse(src, mode=mode))


def _counted(node):
    """(counter, bound, step, guard operator) of `while counter < bound:` whose body changes the counter
    once, unconditionally, by one, and does not change the names of the bound; else None"""
    t = node.test
    if node.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    l, r, op = t.left, t.comparators[0], type(t.ops[0])
    flipped = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}
    for i, bound, o in ((l, r, op), (r, l, flipped.get(op))):
        if not isinstance(i, ast.Name) or o not in (ast.Lt, ast.Gt, ast.LtE, ast.GtE):
            continue
        steps = []
        for st in node.body:
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == i.id:
                steps.append((st.op, st.value))
            elif (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)
                  and st.targets[0].id == i.id and isinstance(st.value, ast.BinOp)
                  and isinstance(st.value.left, ast.Name) and st.value.left.id == i.id):
                steps.append((st.value.op, st.value.right))
        if len(steps) != 1 or not (isinstance(steps[0][1], ast.Constant) and steps[0][1].value == 1):
            continue
        want = ast.Add if o in (ast.Lt, ast.LtE) else ast.Sub
        if not isinstance(steps[0][0], want):
            continue
        bad = False
        writes = 0
        stepped = False
        names = {n.id for n in ast.walk(bound) if isinstance(n, ast.Name)}
        if any(isinstance(n, (ast.Call, ast.Attribute, ast.Subscript)) for n in ast.walk(bound)):
            continue
        for st in node.body:
            for n in ast.walk(st):
                if isinstance(n, (ast.Return, ast.Yield)) or isinstance(n, ast.Continue) and not stepped:
                    bad = True
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    writes += n.id == i.id
                    bad = bad or n.id in names
            stepped = stepped or writes > 0
        if bad or writes != 1 or i.id in names:
            continue
        return i.id, bound, 1 if want is ast.Add else -1, 1 if o in (ast.LtE, ast.GtE) else 0
    return None


class LoopRewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.k = 0
        self.infunc = [modname]
        self.count = 0

    def visit_FunctionDef(self, n):
        self.infunc.append(n.name)
        self.generic_visit(n)
        self.infunc.pop()
        return n

    def visit_ClassDef(self, n):
        self.infunc.append(n.name)
        self.generic_visit(n)
        self.infunc.pop()
        return n

    def visit_While(self, node):
        """a counting while loop is the for loop over its counter"""
        m = _counted(node) if len(self.infunc) > 1 else None
        if m is None:
            self.generic_visit(node)
            return node
        i, bound, step, incl = m
        self.k += 1
        a, n, t = "vt_a%d_" % self.k, "vt_n%d_" % self.k, "vt_t%d_" % self.k
        pre = _gen("%s = %s\n%s = 0" % (a, i, n)).body
        up = "BOUND - %s + %d" if step == 1 else "%s - BOUND + %d"
        pre[1] = _gen("%s = (%s)" % (n, up % (a, incl))).body[0]

        class Sub(ast.NodeTransformer):
            def visit_Name(s, x):
                return bound if x.id == "BOUND" else x

        pre[1] = Sub().visit(pre[1])
        loop = ast.For(target=ast.Name(id=t, ctx=ast.Store()), iter=_gen("range(%s)" % n, mode="eval").body,
                       body=_gen("%s = %s + %s%s" % (i, a, "" if step == 1 else "-", t)).body + node.body, orelse=[])
        # the body steps the counter itself, so that a break leaves it as it is
        brk = any(isinstance(x, ast.Break) for st in node.body for x in ast.walk(st))
        post = [] if brk else _gen("%s = vt_after_(%s, %s, %d)" % (i, a, n, step)).body
        for x in pre + [loop] + post:
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        out = self.visit_For(loop)
        return pre + (out if isinstance(out, list) else [out]) + post

    def _comp(self, node):
        """[e for i in range(n)] with a symbolic range is the sequence i -> e"""
        self.generic_visit(node)
        g = node.generators
        if len(self.infunc) == 1 or len(g) != 1 or g[0].ifs or g[0].is_async or not isinstance(g[0].target, ast.Name):
            return node
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node.elt)):
            return node
        it = g[0].iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range"):
            return node
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g[0].target.id)], kwonlyargs=[], kw_defaults=[],
                                            defaults=[]), body=node.elt)
        out = ast.Call(func=ast.Name(id="vt_comp_", ctx=ast.Load()), args=[it, lam], keywords=[])
        ast.copy_location(out, node)
        ast.fix_missing_locations(out)
        return out

    visit_ListComp = visit_GeneratorExp = _comp

    def visit_For(self, node):
        v = _Names()
        v.target(node.target)
        tnames = list(v.names)
        for s in node.body:
            v.visit(s)
        names = [x for x in v.names]
        self.generic_visit(node)
        if len(self.infunc) == 1:
            return node
        self.k += 1
        self.count += 1
        it, lp = "vt_it%d_" % self.k, "vt_lp%d_" % self.k
        site = "%s:%d" % (".".join(self.infunc), node.lineno)
        src = []
        src.append("%s = None" % it)
        src.append("if vt_is_sym_(%s):\n    pass\nelse:\n    pass" % it)
        tree = _gen("\n".join(src)).body
        tree[0].value = node.iter
        iff = tree[1]
        # native branch
        import copy

        iff.orelse = [
            ast.For(target=node.target, iter=ast.Name(id=it, ctx=ast.Load()), body=node.body, orelse=node.orelse)
        ]
        body = []
        body += _gen(
            "%s = vt_Loop_(%r, %s, dict(locals()), %r, %r, %r)" % (lp, site, it, names, v.inplace, v.flags)
        ).body
        run = []
        for n in names:
            if n in tnames:
                continue
            run += _gen("if %s.has(%r): %s = %s.get(%r)" % (lp, n, n, lp, n)).body
        inner = ast.For(
            target=copy.deepcopy(node.target),
            iter=_gen("(%s.index,)" % lp, mode="eval").body,
            body=copy.deepcopy(node.body),
            orelse=[],
        )
        post = _gen("%s.exit(dict(locals()))" % lp).body
        for n in names:
            if n in tnames:
                continue
            post += _gen("if %s.final_has(%r): %s = %s.final_get(%r)" % (lp, n, n, lp, n)).body
        inner.orelse = post
        fin = _gen("try:\n    pass\nfinally:\n    %s.leave()" % lp).body[0]
        fin.body = [inner]
        run.append(fin)
        cond = _gen("if %s.run:\n    pass" % lp).body[0]
        cond.body = run
        body.append(cond)
        if node.orelse:
            body += copy.deepcopy(node.orelse)
        iff.body = body
        for t in tree:
            ast.copy_location(t, node)
            ast.fix_missing_locations(t)
        return tree


class Package:
    """the torchiva package loaded for symbolic execution"""

    def __init__(self, repo=None, extra_modules=None, overrides=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, "torchiva")
        self.mods = {}
        self.facades = symtorch.build()
        sp = symtorch.Facade("scipy")
        ss = symtorch.Facade("scipy.signal")
        ss.get_window = lambda name, n: symtorch._window(str(name))(n, dtype=symtorch.float64)
        ss.istft = ss.stft = None
        ss.fftconvolve = None
        sp.signal = ss
        self.facades["scipy"] = sp
        self.facades["scipy.signal"] = ss
        self.facades.update(extra_modules or {})
        self.overrides = overrides or {}
        self.hashes = {}
        self.stubs = []
        self.loops = 0
        self.extra_builtins = {}

    def load(self, name):
        """name relative to the package, '' for the package itself"""
        full = "torchiva" + ("." + name if name else "")
        if full in self.mods:
            return self.mods[full]
        if name and "." in name:
            self.load(name.rpartition(".")[0])
            if full in self.mods:
                return self.mods[full]
        path = os.path.join(self.root, *name.split(".")) if name else self.root
        if os.path.isdir(path):
            path = os.path.join(path, "__init__.py")
            is_pkg = True
        else:
            path += ".py"
            is_pkg = False
        if not os.path.exists(path):
            raise ImportError("no module %s" % full)
        src = open(path, encoding="utf-8").read()
        self.hashes[os.path.relpath(path, self.repo)] = hashlib.sha256(src.encode()).hexdigest()
        tree = ast.parse(src, path)
        rw = LoopRewriter(full)
        tree = rw.visit(tree)
        self.loops += rw.count
        ast.fix_missing_locations(tree)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if is_pkg else full.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[full] = m
        bi = dict(vars(builtins))
        bi["__import__"] = self._import
        bi["range"] = vt_range
        bi["sum"] = vt_sum
        bi["isinstance"] = vt_isinstance
        bi.update(self.extra_builtins)
        g = m.__dict__
        g["__builtins__"] = bi
        g["vt_is_sym_"] = lambda it: isinstance(it, SymRange)
        g["vt_Loop_"] = Loop
        g["vt_after_"] = vt_after
        g["vt_comp_"] = vt_comp
        try:
            exec(compile(tree, path, "exec"), g)
        except BaseException:
            self.mods.pop(full, None)
            raise
        if name:
            par = self.mods.get("torchiva" + ("." + name.rpartition(".")[0] if "." in name else ""))
            if par is not None:
                setattr(par, name.rpartition(".")[2], m)
        return m

    def stub(self, mod, name, repl):
        """replace a function by a stand-in that knows only its contract, in every module
        that refers to it"""
        f = getattr(self.load(mod), name, None)
        if f is None:
            raise Unsupported("function %s.%s does not exist" % (mod, name))
        for m in self.mods.values():
            for k, v in list(m.__dict__.items()):
                if v is f:
                    m.__dict__[k] = repl
                    self.stubs.append((m, k, f))
        return f

    def written(self, cls):
        """attributes of self assigned by methods other than the constructor"""
        out = set()
        for k in cls.__mro__:
            m = self.mods.get(getattr(k, "__module__", None) or "")
            if m is None or not str(getattr(m, "__file__", "")).startswith(self.root):
                continue
            for n in ast.walk(ast.parse(open(m.__file__, encoding="utf-8").read())):
                if isinstance(n, ast.ClassDef) and n.name == k.__name__:
                    for f in n.body:
                        if isinstance(f, ast.FunctionDef) and f.name != "__init__" and not f.decorator_list:
                            for a in ast.walk(f):
                                if isinstance(a, ast.Attribute) and isinstance(a.ctx, ast.Store) and isinstance(a.value, ast.Name) and a.value.id == "self":
                                    out.add(a.attr)
        return out

    def unstub(self):
        for m, k, f in reversed(self.stubs):
            m.__dict__[k] = f
        self.stubs = []

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            if level > 1:
                parts = parts[: -(level - 1)]
            full = ".".join(parts + ([name] if name else []))
        else:
            full = name
        if full == "torchiva" or full.startswith("torchiva."):
            if full == "torchiva" and full not in self.mods and not level:
                self.load("")
            rel = full[len("torchiva."):] if full != "torchiva" else ""
            if full == "torchiva" and full not in self.mods:
                # relative import of siblings without executing the package body
                m = types.ModuleType("torchiva")
                m.__path__ = [self.root]
                m.__package__ = "torchiva"
                for f in fromlist or ():
                    setattr(m, f, self.load(f))
                return m
            m = self.load(rel)
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f):
                    try:
                        setattr(m, f, self.load((rel + "." if rel else "") + f))
                    except ImportError:
                        pass
            if fromlist:
                return m
            return self.mods["torchiva"] if "torchiva" in self.mods else m
        if full in self.facades:
            if fromlist:
                return self.facades[full]
            return self.facades[full.split(".")[0]]
        top = full.split(".")[0]
        if top in self.facades:
            raise Unsupported("import of %s" % full)
        return builtins.__import__(name, globals, locals, fromlist, level)


def vt_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, I) and int in ts:
        return True
    if x.__class__.__name__ == "R" and float in ts:
        return True
    return builtins.isinstance(x, t)
