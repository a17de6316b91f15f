"""
Abstract interpreter for the Python subset the package is written in.

It walks the syntax tree of the modules under /repo/pyoptmat; no code of the
repository is imported or executed.  Scalars are terms (terms.py), tensors are
abstract (tensor.py).  Branches whose condition is data-dependent are both
walked and their effects joined with an if-then-else term; a branch that raises
is dropped from the join.
"""
import ast
import builtins as _bi
import math
import os
import functools as _ft
from .terms import *
from . import terms as tm
from .tensor import *
from . import tensor as tz
from . import torchlib as tl
from . import torchmore as tmo
from .torchlib import Builtin, DtypeVal, DeviceVal, Opaque, METHODS, FUNCS, LINALG, Pair

REPO = os.environ.get("SA_REPO", "/repo")


class PyRaise(Exception):
    """the analysed code raises"""

    def __init__(self, exc, loc):
        super().__init__(str(exc))
        self.exc = exc
        self.loc = loc
        self.standin = False


class AnalysisError(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class SymBranch(Exception):
    """a data-dependent truth value is needed"""

    def __init__(self, cond):
        self.cond = cond


class ExcVal:
    def __init__(self, cls, args, names=None):
        self.cls = cls
        self.args = args
        self.names = names      # the classes it derives from, when user-defined

    def __repr__(self):
        return f"{self.cls}({', '.join(map(str, self.args))})"

    def is_a(self, name):
        if name in ("Exception", "BaseException") or name == self.cls or name in (self.names or ()):
            return True
        for n in (self.cls,) + tuple(self.names or ()):
            c, d = getattr(_bi, str(n), None), getattr(_bi, str(name), None)
            if isinstance(c, type) and isinstance(d, type) and issubclass(c, d):
                return True
        return False


class Env:
    __slots__ = ("vars", "parent", "module", "globals_", "nonlocals", "comp")

    def __init__(self, module, parent=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.globals_ = set()
        self.nonlocals = set()
        self.comp = False

    def find(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.env = Env(self)
        self.tree = None
        self.loaded = False

    def __repr__(self):
        return f"<module {self.name}>"


class NS:
    """builtin namespace: torch, numpy, ..."""

    def __init__(self, name, table):
        self.name = name
        self.table = table

    def __repr__(self):
        return f"<namespace {self.name}>"


class ClassVal:
    def __init__(self, name, bases, ns, module, node):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.mro = self._mro()

    def _mro(self):
        out = [self]
        seqs = [list(b.mro) for b in self.bases if isinstance(b, ClassVal)]
        seqs.append([b for b in self.bases if isinstance(b, ClassVal)])
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in x[1:] for x in seqs):
                    break
            else:
                return out
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    s.pop(0)

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def native_bases(self):
        out = []
        for c in self.mro:
            out.extend(b for b in c.bases if not isinstance(b, ClassVal))
        return out

    def issub(self, other):
        if other in self.mro:
            return True
        return any(b is other or (isinstance(b, NativeClass) and isinstance(other, NativeClass) and b.name == other.name) for b in self.native_bases())

    def __repr__(self):
        return f"<class {self.module.name}.{self.name}>"


class NativeClass:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<native {self.name}>"


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return f"<{self.cls.name} object>"


class Func:
    def __init__(self, node, env, module, name, qual, defaults=(), kwdefaults=None, cls=None):
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.qual = qual
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.cls = cls
        self.attrs = {}
        self.cache = None       # functools.cache: results by arguments

    def __repr__(self):
        return f"<function {self.qual}>"


def cache_key(v):
    """what functools.cache distinguishes: numbers by value, the rest by identity"""
    if isinstance(v, DtypeVal):
        return ("dtype", v.name)
    if v is None or isinstance(v, (str, int, float, bool, Term)):
        return v if not isinstance(v, bool) else int(v)
    if isinstance(v, tuple):
        return tuple(map(cache_key, v))
    if isinstance(v, (list, dict, set)):
        raise PyRaise(ExcVal("TypeError", (f"unhashable type: '{type(v).__name__}'",)), None)
    if isinstance(v, Tensor) and v.kind == "number":
        return v.item_cell()
    return ("object", id(v))


def cached(f):
    if not isinstance(f, Func):
        raise Undecided("cache of a value that is no function")
    f.cache = {}
    return f


class Bound:
    def __init__(self, f, self_, cls=None):
        self.f = f
        self.self_ = self_
        self.cls = cls

    def __repr__(self):
        return f"<bound {self.f}>"


class PropertyVal:
    def __init__(self, f, setter=None):
        self.f = f
        self.setter = setter


class StaticVal:
    def __init__(self, f):
        self.f = f


class ClassMethodVal:
    def __init__(self, f):
        self.f = f


class SuperVal:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class ModList(list):
    pass


class ModDict(dict):
    pass


def bound_names(st):
    """the names a statement may bind in its own scope"""
    out = []
    todo = [st]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.append(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out.extend((a.asname or a.name).split(".")[0] for a in n.names if a.name != "*")
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        todo.extend(ast.iter_child_nodes(n))
    return out


class Abstract:
    """base for abstract objects supplied by a check (sub-models, ...)"""

    def sa_getattr(self, interp, name):
        raise Undecided(f"attribute {name} of {self}")

    def sa_call(self, interp, args, kwargs):
        raise Undecided(f"call of {self}")


class Partial:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


MISSING = object()


DUNDERS = {"__getitem__": ("own", None), "__setitem__": ("own", None), "__contains__": ("own", None), "__neg__": ("own", None), "__pos__": ("own", None),
           "__len__": ("fn", "len"), "__iter__": ("fn", "iter"), "__abs__": ("fn", "abs"), "__bool__": ("fn", "bool"), "__float__": ("fn", "float"), "__int__": ("fn", "int")}
for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("floordiv", "FloorDiv"), ("mod", "Mod"), ("pow", "Pow"), ("matmul", "MatMult"), ("and", "BitAnd"), ("or", "BitOr")):
    DUNDERS[f"__{_n}__"] = ("bin", _o)
    DUNDERS[f"__r{_n}__"] = ("rbin", _o)
for _n, _o in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE")):
    DUNDERS[f"__{_n}__"] = ("cmp", _o)


class Interp:
    def __init__(self, repo=None, max_steps=3_000_000):
        self.repo = repo or REPO
        self.modules = {}
        self.stack = []
        self.lineno = 0
        self.steps = 0
        self.max_steps = max_steps
        self.events = []
        self.intercepts = {}
        self.visited = set()
        self.grad_off = 0
        self.journal = None
        self.asserted = []
        self.trace_calls = None
        self.written = None
        self.handling = []
        H.loc = self.loc
        H.events = self.events
        H.journal = None
        H.grad = True
        self.builtins = self._builtins()
        self.namespaces = self._namespaces()

    # ------------------------------------------------------------ locations
    def loc(self):
        if not self.stack:
            return None
        f, line = self.stack[-1]
        return (f.module.path, self.lineno, f.qual)

    def where(self):
        l = self.loc()
        if not l:
            return "<top>"
        return f"{os.path.relpath(l[0], self.repo)}:{l[1]} ({l[2]})"

    def ev(self, kind, **kw):
        kw["loc"] = self.loc()
        self.events.append((kind, kw))

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(path):
            path = os.path.join(path, "__init__.py")
        else:
            path += ".py"
        if not os.path.exists(path):
            raise AnalysisError(f"module {name} not found")
        m = Module(name, path)
        self.modules[name] = m
        with open(path) as fh:
            src = fh.read()
        try:
            m.tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisError(f"{path}: {e}")
        m.src = src
        top = Func(ast.parse("def _top(): pass").body[0], None, m, "<module>", f"{name}")
        self.stack.append((top, self.lineno))
        old_j, self.journal = self.journal, None
        hj, H.journal = H.journal, None
        try:
            for st in m.tree.body:
                try:
                    self.exec(st, m.env)
                except Undecided as e:
                    # a module-level statement outside the subset: names it
                    # binds stay unknown
                    for n in bound_names(st):
                        m.env.vars[n] = Opaque(f"{name}.{n}: {e}")
        finally:
            self.stack.pop()
            self.journal = old_j
            H.journal = hj
        m.loaded = True
        return m

    def get(self, dotted):
        """'damage.HayhurstLeckie' -> value"""
        mod, _, rest = dotted.partition(".")
        m = self.module("pyoptmat." + mod)
        v = m.env.vars.get(rest.split(".")[0])
        if v is None:
            raise AnalysisError(f"anchor pyoptmat.{dotted} not found")
        for p in rest.split(".")[1:]:
            v = self.getattr(v, p)
        return v

    def classes(self, modname, base):
        """all classes of a module deriving from the class named base"""
        m = self.module("pyoptmat." + modname)
        b = m.env.vars.get(base)
        if not isinstance(b, ClassVal):
            raise AnalysisError(f"anchor class pyoptmat.{modname}.{base} not found")
        out = []
        for n, v in m.env.vars.items():
            if isinstance(v, ClassVal) and b in v.mro and not any(v is x for x in out):
                out.append(v)
        public = {id(v) for n, v in m.env.vars.items() if not n.startswith("_")}
        return [v for v in out if id(v) in public and not self.unfinished(v, out)]

    def unfinished(self, c, others):
        """a class that only serves as a base: its methods use what every
        class deriving from it, but not the class itself, provides"""
        subs = [x for x in others if x is not c and c in x.mro]
        if not subs:
            return False

        def provided(k):
            names = set()
            for x in k.mro:
                if not isinstance(x, ClassVal):
                    continue
                names |= set(x.ns)
                for n in ast.walk(x.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        names.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("setattr", "__setattr__", "register_parameter", "register_buffer", "add_module", "register_module"):
                        names |= {a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)}
            for n in list(names):
                f, _ = k.lookup(n)
                node = getattr(f.f if isinstance(f, (PropertyVal, StaticVal, ClassMethodVal)) else f, "node", None)
                if node is not None and self.bodiless(node):
                    names.discard(n)
            return names

        own = provided(c)
        used = set()
        for x in c.mro:
            if isinstance(x, ClassVal):
                for f in ast.walk(x.node):
                    if isinstance(f, ast.FunctionDef) and f.args.args:
                        me = f.args.args[0].arg
                        used |= {n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me}
        missing = (used | {n for x in c.mro if isinstance(x, ClassVal) for n in x.ns}) - own
        return bool(missing) and any(all(n in provided(x) for x in subs) for n in missing)

    @staticmethod
    def bodiless(node):
        """a function that only says it is to be written in a derived class"""
        body = [s for s in getattr(node, "body", []) or [] if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))] if isinstance(getattr(node, "body", None), list) else [node]
        if any(getattr(d_, "attr", getattr(d_, "id", "")) in ("abstractmethod", "abstractproperty") for d_ in getattr(node, "decorator_list", [])):
            return True
        if not body:
            return True
        if len(body) == 1 and isinstance(body[0], ast.Raise):
            return "NotImplementedError" in ast.dump(body[0])
        return len(body) == 1 and isinstance(body[0], ast.Pass) and node.name != "__init__"

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env, tail=None):
        i = 0
        n = len(body)
        while i < n:
            st = body[i]
            if isinstance(st, ast.If):
                self.tick(st)
                c = self.truth_of(self.eval(st.test, env))
                if isinstance(c, Term):
                    return self.fork(c, st.body + body[i + 1:], st.orelse + body[i + 1:], env)
                self.exec_block(st.body if c else st.orelse, env)
                i += 1
                continue
            self.exec(st, env)
            i += 1

    def fork(self, cond, body_a, body_b, env):
        """join of the two continuations of the enclosing block"""
        outs = []
        for assume, body in ((cond, body_a), (lnot(cond), body_b)):
            saved = self.journal
            saved_h = H.journal
            self.journal = j = []
            H.journal = j
            self.asserted.append(assume)
            res = ("fall", None)
            try:
                self.exec_block(body, env)
            except _Return as r:
                res = ("return", r.v)
            except PyRaise as r:
                res = ("raise", r)
            except _Break:
                res = ("break", None)
            except _Continue:
                res = ("continue", None)
            finally:
                self.asserted.pop()
                self.journal = saved
                H.journal = saved_h
            changed = self._changed(j)
            self._rollback(j)
            outs.append((res, changed))
        (ra, ca), (rb, cb) = outs
        if ra[0] == "raise" and rb[0] == "raise":
            raise ra[1]
        if ra[0] == "raise":
            self.ev("raise-branch", cond=cond, exc=ra[1])
            self._apply(cb)
            return self._finish(rb)
        if rb[0] == "raise":
            self.ev("raise-branch", cond=lnot(cond), exc=rb[1])
            self._apply(ca)
            return self._finish(ra)
        if ra[0] != rb[0]:
            if {ra[0], rb[0]} == {"fall", "return"} and self._at_function_tail(env):
                ra = ("return", ra[1])
                rb = ("return", rb[1])
            else:
                raise Undecided(f"{self.where()}: data-dependent branch leaves the block in two different ways")
        self._join(cond, ca, cb)
        if ra[0] == "return":
            raise _Return(self.merge(cond, ra[1], rb[1]))
        return self._finish(ra)

    def _at_function_tail(self, env):
        return False

    def _finish(self, r):
        if r[0] == "return":
            raise _Return(r[1])
        if r[0] == "break":
            raise _Break()
        if r[0] == "continue":
            raise _Continue()

    def _key(self, e):
        return (e[0], id(e[1]), e[2])

    def _read(self, e):
        k = e[0]
        if k == "cell":
            return e[1].cells[e[2]]
        if k == "var":
            return e[1].vars.get(e[2], MISSING)
        if k == "attr":
            return e[1].attrs.get(e[2], MISSING)
        if k == "list":
            return list(e[1])
        if k == "dict":
            return dict(e[1])

    def _write(self, e, v):
        k = e[0]
        if k == "cell":
            e[1].cells[e[2]] = v
        elif k == "var":
            if v is MISSING:
                e[1].vars.pop(e[2], None)
            else:
                e[1].vars[e[2]] = v
        elif k == "attr":
            if v is MISSING:
                e[1].attrs.pop(e[2], None)
            else:
                e[1].attrs[e[2]] = v
        elif k == "list":
            e[1][:] = v
        elif k == "dict":
            e[1].clear()
            e[1].update(v)

    def _changed(self, j):
        out = {}
        for e in j:
            out[self._key(e)] = (e, self._read(e))
        return out

    def _rollback(self, j):
        for e in reversed(j):
            self._write(e, e[3])

    def _log(self, kind, obj, key, old):
        if self.journal is not None:
            self.journal.append((kind, obj, key, old))

    def _apply(self, ch):
        for e, v in ch.values():
            self._log(e[0], e[1], e[2], self._read(e))
            self._write(e, v)

    def _join(self, cond, ca, cb):
        keys = list(ca) + [k for k in cb if k not in ca]
        for k in keys:
            e = (ca.get(k) or cb.get(k))[0]
            base = self._read(e)
            va = ca[k][1] if k in ca else base
            vb = cb[k][1] if k in cb else base
            self._log(e[0], e[1], e[2], base)
            if e[0] == "cell":
                self._write(e, ite(cond, va, vb))
            elif va is MISSING or vb is MISSING:
                # bound on one path only: keep the binding (use on the other
                # path would be an error of the program)
                self._write(e, va if vb is MISSING else vb)
            else:
                try:
                    self._write(e, self.merge(cond, va, vb))
                except Undecided as u:
                    self._write(e, Opaque(f"join: {u}"))

    def merge(self, cond, a, b):
        if a is b:
            return a
        if isinstance(a, (Tensor,)) or isinstance(b, (Tensor,)):
            if isinstance(a, (Tensor, int, float, bool)) and isinstance(b, (Tensor, int, float, bool)):
                ta, tb = as_tensor(a), as_tensor(b)
                if tuple(ta.shape) == tuple(tb.shape):
                    return elementwise(lambda x, y: ite(cond, x, y), [ta, tb])
            raise Undecided("join of tensors of different shapes")
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if type(a) is type(b) and a == b:
                return a
            return scalar(ite(cond, T(a), T(b)))
        if type(a) is type(b) and isinstance(a, (tuple, list)) and len(a) == len(b):
            return type(a)(self.merge(cond, x, y) for x, y in zip(a, b))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if a is None and b is None:
            return None
        raise Undecided(f"join of {type(a).__name__} and {type(b).__name__}")

    def tick(self, node):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("step budget exhausted")
        ln = getattr(node, "lineno", None)
        if ln is not None:
            self.lineno = ln

    def exec(self, st, env):
        self.tick(st)
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Undecided(f"{self.where()}: statement {type(st).__name__}")
        try:
            return m(st, env)
        except ShapeError as e:
            raise PyRaise(ExcVal("RuntimeError", (str(e),)), self.loc())

    def s_Pass(self, st, env):
        pass

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def s_Return(self, st, env):
        raise _Return(self.eval(st.value, env) if st.value is not None else None)

    def s_Break(self, st, env):
        raise _Break()

    def s_Continue(self, st, env):
        raise _Continue()

    def s_Global(self, st, env):
        env.globals_.update(st.names)

    def s_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self._log("var", env, t.id, env.vars.get(t.id, MISSING))
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                if isinstance(o, dict):
                    self._log("dict", o, None, dict(o))
                    k = self.eval(t.slice, env)
                    if k not in o:
                        raise PyRaise(ExcVal("KeyError", (k,)), self.loc())
                    del o[k]
                elif isinstance(o, list):
                    self._log("list", o, None, list(o))
                    k = self.eval(t.slice, env)
                    try:
                        if isinstance(k, slice):
                            del o[slice(*[None if x is None else self._need_int(x) for x in (k.start, k.stop, k.step)])]
                        else:
                            del o[self._need_int(k)]
                    except IndexError:
                        raise PyRaise(ExcVal("IndexError", ()), self.loc())
                else:
                    raise Undecided("del")
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, env), t.attr)
            else:
                raise Undecided("del")

    def delattr(self, o, name):
        if not isinstance(o, (Obj, Func)):
            raise Undecided("del of an attribute")
        if name not in o.attrs:
            self.attr_error(o, name)
        self._log("attr", o, name, o.attrs[name])
        self.ev("setattr", obj=o, name=name, value=None)
        del o.attrs[name]

    def s_Assert(self, st, env):
        c = self.truth_of(self.eval(st.test, env))
        if c is False:
            raise PyRaise(ExcVal("AssertionError", (self.tostr(self.eval(st.msg, env)),) if st.msg is not None else ()), self.loc())

    def s_Raise(self, st, env):
        if st.exc is None:
            if self.handling:
                raise self.handling[-1]
            raise PyRaise(ExcVal("RuntimeError", ("No active exception to reraise",)), self.loc())
        e = self.eval(st.exc, env)
        if isinstance(e, (NativeClass, ClassVal)):
            e = self.call(e, [], {})
        raise PyRaise(e, self.loc())

    def s_Import(self, st, env):
        for a in st.names:
            top = a.name.split(".")[0]
            if top == "pyoptmat":
                self.module(a.name)
                self.set_var(env, a.asname or top, self.namespaces.setdefault("pyoptmat", NS("pyoptmat", {})))
                if a.asname:
                    self.set_var(env, a.asname, self.module(a.name))
            elif a.asname:
                self.set_var(env, a.asname, self.ns(a.name))
            else:
                self.set_var(env, top, self.ns(top))

    def s_ImportFrom(self, st, env):
        mod = st.module or ""
        if st.level:
            mod = "pyoptmat" + ("." + mod if mod else "")
        for a in st.names:
            if a.name == "*":
                if mod.startswith("pyoptmat"):
                    for k, v in self.module(mod).env.vars.items():
                        self.set_var(env, k, v)
                    continue
                raise Undecided("import *")
            if mod == "pyoptmat":
                v = self.module("pyoptmat." + a.name)
            elif mod.startswith("pyoptmat."):
                m = self.module(mod)
                if a.name not in m.env.vars:
                    raise Undecided(f"import {a.name}")
                v = m.env.vars[a.name]
            else:
                v = self.getattr(self.ns(mod), a.name)
            self.set_var(env, a.asname or a.name, v)

    def ns(self, name):
        parts = name.split(".")
        if parts[0] == "pyro" and "pyro" not in self.namespaces:
            from .pyrolib import install
            self.world = install(self)
        v = self.namespaces.get(parts[0])
        if v is None:
            return Opaque(name)
        for p in parts[1:]:
            v = self.getattr(v, p)
        return v

    def s_FunctionDef(self, st, env):
        f = self.make_func(st, env)
        for d in reversed(st.decorator_list):
            f = self.decorate(d, f, env)
        self.set_var(env, st.name, f)

    def make_func(self, st, env, cls=None):
        a = st.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {k.arg: self.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(st, "name", "<lambda>")
        owner = getattr(env, "vars", {}).get("__qual__")
        q = self.stack[-1][0].qual if self.stack else env.module.name
        qual = f"{owner}.{name}" if owner else f"{q}.{name}"
        return Func(st, env, env.module, name, qual, defaults, kwd)

    def decorate(self, d, f, env):
        if isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod"):
            return {"property": PropertyVal, "staticmethod": StaticVal, "classmethod": ClassMethodVal}[d.id](f)
        if isinstance(d, ast.Attribute) and d.attr == "setter":
            p = self.eval(d.value, env)
            return PropertyVal(p.f, f)
        if isinstance(d, ast.Attribute) and d.attr in ("once_differentiable",):
            return f
        dec = self.eval(d, env)
        return self.call(dec, [f], {})

    def s_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        cenv = Env(env.module, env)
        cenv.vars["__qual__"] = f"{env.module.name}.{st.name}"
        for s in st.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.exec(s, cenv)
        ns = {k: v for k, v in cenv.vars.items() if k != "__qual__"}
        fields = None
        if any(isinstance(b, Opaque) and b.label == "typing.NamedTuple" for b in bases):
            fields = list(ns.get("__annotations__", {}))
            c = pm.make_namedtuple(self, st.name, fields, [ns[f] for f in fields if f in ns], {k: v for k, v in ns.items() if k not in fields})
        elif any(isinstance(b, pm.NTClass) for b in bases):
            b = [b for b in bases if isinstance(b, pm.NTClass)][0]
            c = pm.make_namedtuple(self, st.name, b.t._fields, list(b.t._field_defaults.values()), {**b.t.sa_ns, **ns})
        else:
            c = ClassVal(st.name, bases, ns, env.module, st)
            kind = pm.enum_kind(bases)
            if kind:
                pm.make_enum(self, c, kind)
        for v in ns.values():
            g = v
            if isinstance(g, (PropertyVal, StaticVal, ClassMethodVal)):
                if isinstance(g, PropertyVal) and isinstance(g.setter, Func):
                    g.setter.cls = c
                    if g.setter.env is cenv:
                        g.setter.env = env
                g = g.f
            if isinstance(g, Func):
                g.cls = c
                # methods do not see the class namespace
                if g.env is cenv:
                    g.env = env
        for d in reversed(st.decorator_list):
            c = self.call(self.eval(d, env), [c], {})
        self.set_var(env, st.name, c)

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if "__qual__" in env.vars and isinstance(st.target, ast.Name):
            if not (isinstance(st.annotation, ast.Subscript) and "ClassVar" in ast.dump(st.annotation.value)):
                env.vars.setdefault("__annotations__", {})[st.target.id] = None
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            new_ = self.aug(op, cur, self.eval(st.value, env))
            self.set_var(env, t.id, new_)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(op, cur, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.subscript(o, k)
            self.set_subscript(o, k, self.aug(op, cur, self.eval(st.value, env)))
        else:
            raise Undecided("augmented assignment target")

    def aug(self, op, cur, v):
        if isinstance(cur, Tensor):
            r = self.binop(op, cur, v)
            if isinstance(r, MaskSel):
                raise Undecided("in-place with mask-selected values")
            return tl.inplace(cur, r)
        if isinstance(cur, list) and op == "Add":
            self._log("list", cur, None, list(cur))
            cur.extend(self.iterate(v))
            return cur
        return self.binop(op, cur, v)

    def s_For(self, st, env):
        it = self.iterate(self.eval(st.iter, env))
        broke = False
        for v in it:
            self.assign(st.target, v, env)
            try:
                self.exec_block(st.body, env)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke and st.orelse:
            self.exec_block(st.orelse, env)

    def s_While(self, st, env):
        n = 0
        while True:
            self.tick(st)
            c = self.truth_of(self.eval(st.test, env))
            if isinstance(c, Term):
                raise Undecided(f"{self.where()}: loop with a data-dependent condition")
            if not c:
                break
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                pass
            n += 1
            if n > 10000:
                raise Undecided("loop bound")
        if st.orelse:
            self.exec_block(st.orelse, env)

    def s_If(self, st, env):
        self.exec_block([st], env)

    def s_With(self, st, env):
        self.with_items(st.items, st.body, env)

    def with_items(self, items, body, env):
        if not items:
            return self.exec_block(body, env)
        it = items[0]
        v, ex = self.enter(self.eval(it.context_expr, env))
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except PyRaise as r:
            if not ex(r):
                raise
        except BaseException:
            ex()
            raise
        else:
            ex()

    def enter(self, cm):
        if isinstance(cm, GradMode):
            old = self.grad_off
            self.grad_off = 0 if cm.on else 1
            H.grad = cm.on
            self.ev("grad-mode", on=cm.on)

            def ex(exc=None):
                self.grad_off = old
                H.grad = not old

            return cm, ex
        if isinstance(cm, Abstract) and hasattr(cm, "sa_enter"):
            v = cm.sa_enter(self)
            return v, lambda exc=None: cm.sa_exit(self) if exc is None or not isinstance(cm, pm.CM) else cm.sa_exit(self, exc)
        if isinstance(cm, Obj):
            v = self.call(self.getattr(cm, "__enter__"), [], {})

            def leave(exc=None):
                t = [None] * 3 if exc is None else [Opaque("exception type"), exc.exc, Opaque("traceback")]
                return self.truth_of(self.call(self.getattr(cm, "__exit__"), t, {})) is True

            return v, leave
        if isinstance(cm, Opaque):
            return cm, lambda exc=None: None
        raise Undecided(f"context manager {cm!r}")

    def handler(self, st, r, env):
        """the clause of the try statement that takes the exception"""
        for h in st.handlers:
            names = ["Exception"]
            if h.type is not None:
                tv = self.eval(h.type, env)
                names = [x.name for x in (tv if isinstance(tv, tuple) else (tv,)) if hasattr(x, "name")]
            if any(r.exc.is_a(n) if isinstance(r.exc, ExcVal) else n in ("Exception", "BaseException") for n in names):
                if h.name:
                    self.set_var(env, h.name, r.exc)
                return h
        return None

    def s_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyRaise as r:
                h = self.handler(st, r, env)
                if h is None:
                    raise
                self.handling.append(r)
                try:
                    self.exec_block(h.body, env)
                finally:
                    self.handling.pop()
            else:
                if st.orelse:
                    self.exec_block(st.orelse, env)
        except (PyRaise, _Return, _Break, _Continue):
            self.exec_block(st.finalbody, env)
            raise
        self.exec_block(st.finalbody, env)

    # ------------------------------------------------------------ assignment
    def set_var(self, env, name, v):
        if name in env.globals_:
            env = env.module.env
        elif name in env.nonlocals:
            e = env.parent.find(name)
            if e is None:
                raise Undecided("nonlocal")
            env = e
        self._log("var", env, name, env.vars.get(name, MISSING))
        env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set_var(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyRaise(ExcVal("ValueError", ("unpack",)), self.loc())
                for e, x in zip(t.elts[:k], vals[:k]):
                    self.assign(e, x, env)
                self.assign(t.elts[k].value, vals[k:len(vals) - after], env)
                for e, x in zip(t.elts[k + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env)
                return
            if len(vals) != len(t.elts):
                raise PyRaise(ExcVal("ValueError", (f"unpack {len(vals)} into {len(t.elts)}",)), self.loc())
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.set_subscript(o, self.eval_index(t.slice, env), v)
        else:
            raise Undecided(f"assignment target {type(t).__name__}")

    def set_subscript(self, o, k, v):
        if isinstance(o, Tensor):
            setitem(o, k, v)
        elif isinstance(o, list):
            self._log("list", o, None, list(o))
            if isinstance(k, slice):
                o[k] = list(self.iterate(v))
            else:
                i = to_int(k)
                if i is None:
                    raise Undecided("list index")
                if not -len(o) <= i < len(o):
                    raise PyRaise(ExcVal("IndexError", (i,)), self.loc())
                o[i] = v
        elif isinstance(o, dict):
            self._log("dict", o, None, dict(o))
            o[self.hashable(k)] = v
        elif isinstance(o, Abstract) and hasattr(o, "sa_setitem"):
            o.sa_setitem(self, k, v)
        elif isinstance(o, Obj) and o.cls.lookup("__setitem__")[1] is not None:
            self.call(Bound(o.cls.lookup("__setitem__")[0], o), [k, v], {})
        else:
            raise Undecided(f"{self.where()}: item assignment on {type(o).__name__}")

    def setattr(self, o, name, v, raw=False):
        if isinstance(o, Obj):
            p, _ = o.cls.lookup("__setattr__")
            if isinstance(p, Func) and not raw:
                return self.call(Bound(p, o), [name, v], {})
            p, _ = o.cls.lookup(name)
            if isinstance(p, PropertyVal) and not isinstance(p, pm.CachedProperty):
                if p.setter is None:
                    raise PyRaise(ExcVal("AttributeError", (name,)), self.loc())
                return self.call(p.setter, [o, v], {})
            self._log("attr", o, name, o.attrs.get(name, MISSING))
            o.attrs[name] = v
            self.ev("setattr", obj=o, name=name, value=v)
        elif isinstance(o, Func):
            self._log("attr", o, name, o.attrs.get(name, MISSING))
            self.ev("func-attr-write", func=o.qual, name=name)
            o.attrs[name] = v
        elif isinstance(o, Tensor):
            if name == "requires_grad":
                o.requires_grad = v
            elif name == "data":
                tl.inplace(o, v)
            else:
                raise Undecided(f"tensor attribute {name} assigned")
        elif isinstance(o, Abstract) and hasattr(o, "sa_setattr"):
            o.sa_setattr(self, name, v)
        elif isinstance(o, ClassVal):
            self.ev("class-attr-write", cls=o, name=name)
            self._log("dict", o.ns, None, dict(o.ns))
            o.ns[name] = v
        elif isinstance(o, Module):
            self.ev("module-attr-write", module=o.name, name=name)
            self._log("var", o.env, name, o.env.vars.get(name, MISSING))
            o.env.vars[name] = v
        else:
            raise Undecided(f"attribute assignment on {type(o).__name__}")

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided(f"{self.where()}: expression {type(e).__name__}")
        self.tick(e)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def lookup(self, name, env):
        if name in env.globals_:
            env = env.module.env
        f = env.find(name)
        if f is not None:
            return f.vars[name]
        if name in self.builtins:
            return self.builtins[name]
        if name in pm.PY_BUILTINS or name in ("__file__", "__doc__", "__spec__", "__package__", "__loader__"):
            raise Undecided(f"{self.where()}: builtin {name}")
        raise PyRaise(ExcVal("NameError", (name,)), self.loc())

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        self.lineno = e.lineno
        return self.getattr(o, e.attr)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return list(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return set(self.hashable(x) for x in self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env))
            else:
                d[self.hashable(self.eval(k, env))] = self.eval(v, env)
        return d

    def hashable(self, k):
        if isinstance(k, Tensor):
            # numbers by value, tensors by identity
            if k.shape:
                return k
            n = to_int(k)
            if n is not None:
                return n
            raise Undecided("tensor used as a key")
        try:
            hash(k)
        except TypeError:
            raise Undecided("unhashable key")
        return k

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        self.lineno = e.lineno
        return self.binop(type(e.op).__name__, a, b)

    def tensorish(self, x):
        return isinstance(x, (Tensor, MaskSel)) or (isinstance(x, Abstract) and hasattr(x, "as_tensor"))

    def binop(self, op, a, b):
        if isinstance(a, Abstract) and hasattr(a, "as_tensor"):
            a = a.as_tensor()
        if isinstance(b, Abstract) and hasattr(b, "as_tensor"):
            b = b.as_tensor()
        if isinstance(a, (Tensor, MaskSel)) or isinstance(b, (Tensor, MaskSel)):
            for x in (a, b):
                if not isinstance(x, (Tensor, MaskSel, int, float, Term)):
                    if isinstance(x, (list, tuple)) and op in ("Add", "Mult", "Sub", "Div"):
                        continue
                    raise Undecided(f"{self.where()}: {op} of tensor and {type(x).__name__}")
            if isinstance(a, (list, tuple)):
                a = tl.build_tensor(a)
            if isinstance(b, (list, tuple)):
                b = tl.build_tensor(b)
            return tl.binop(op, a, b)
        for x, y, n in ((a, b, "__%s__"), (b, a, "__r%s__")):
            if isinstance(x, Obj):
                nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul", "Pow": "pow", "FloorDiv": "floordiv",
                      "Mod": "mod", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}.get(op)
                f, c = x.cls.lookup(n % nm) if nm else (None, None)
                if f is not None:
                    return self.call(Bound(f, x), [y], {})
        if op == "BitOr" and any(isinstance(x, (Builtin, NativeClass, ClassVal, Opaque)) for x in (a, b)):
            # a union of types
            return (a if isinstance(a, tuple) else (a,)) + (b if isinstance(b, tuple) else (b,))
        if isinstance(a, SymSize) or isinstance(b, SymSize):
            if op == "Mult" and (a == 1 or b == 1):
                return b if a == 1 else a
            if op in ("Add", "Sub") and (b == 0):
                return a
            raise Undecided(f"{self.where()}: arithmetic on an arbitrary size")
        try:
            if op == "Add":
                if isinstance(a, tuple) and isinstance(b, list) or isinstance(a, list) and isinstance(b, tuple):
                    raise PyRaise(ExcVal("TypeError", ("concatenation",)), self.loc())
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mult":
                return a * b
            if op == "Div":
                return a / b
            if op == "FloorDiv":
                return a // b
            if op == "Mod":
                return a % b
            if op == "Pow":
                return a ** b
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "BitXor":
                return a ^ b
            if op == "LShift":
                return a << b
            if op == "RShift":
                return a >> b
        except (PyRaise, Undecided):
            raise
        except ZeroDivisionError:
            raise PyRaise(ExcVal("ZeroDivisionError", ()), self.loc())
        except TypeError as e:
            if all(isinstance(x, (int, float, str, list, tuple, dict, set, type(None))) for x in (a, b)):
                raise PyRaise(ExcVal("TypeError", (str(e),)), self.loc())
            raise Undecided(f"{self.where()}: {op} of {type(a).__name__} and {type(b).__name__}")
        except Exception:
            raise Undecided(f"{self.where()}: {op} of {type(a).__name__} and {type(b).__name__}")
        raise Undecided(f"operator {op}")

    def e_UnaryOp(self, e, env):
        return self.unary(type(e.op).__name__, self.eval(e.operand, env))

    def unary(self, op, v):
        if isinstance(v, Abstract) and hasattr(v, "as_tensor"):
            v = v.as_tensor()
        if op == "Not":
            c = self.truth_of(v)
            return scalar(lnot(c)) if isinstance(c, Term) else not c
        if isinstance(v, (Tensor, MaskSel)):
            if op == "USub":
                return METHODS["neg"](v)
            if op == "UAdd":
                return v
            if op == "Invert":
                return METHODS["logical_not"](v)
        if isinstance(v, Obj):
            return self.call(self.getattr(v, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]), [], {})
        if isinstance(v, (int, float)):
            if op == "USub":
                return -v
            if op == "UAdd":
                return v
            if op == "Invert":
                return ~v
        raise Undecided(f"{self.where()}: unary {op} on {type(v).__name__}")

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        acc = None  # accumulated symbolic condition
        for x in e.values:
            v = self.eval(x, env)
            c = self.truth_of(v)
            if isinstance(c, Term):
                acc = c if acc is None else (land(acc, c) if is_and else lor(acc, c))
                continue
            if is_and and not c:
                return v if acc is None else False
            if not is_and and c:
                return v if acc is None else True
            last = v
        if acc is not None:
            return scalar(acc)
        return last

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            v = self.compare(type(op).__name__, left, right)
            if res is None:
                res = v
            else:
                if isinstance(res, Tensor) or isinstance(v, Tensor):
                    a, b = self.truth_of(res), self.truth_of(v)
                    res = scalar(land(T(a), T(b)))
                else:
                    res = res and v
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, Abstract) and hasattr(a, "as_tensor") and op not in ("Is", "IsNot"):
            a = a.as_tensor()
        if isinstance(b, Abstract) and hasattr(b, "as_tensor") and op not in ("Is", "IsNot"):
            b = b.as_tensor()
        if op in ("Is", "IsNot"):
            r = a is b or (isinstance(a, (int, str, bool)) and type(a) is type(b) and a == b)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            if isinstance(b, (list, tuple, set, dict, str, range)) or isinstance(b, type({}.keys())) or isinstance(b, type({}.values())):
                if isinstance(a, Tensor) and isinstance(b, (set, dict, type({}.keys()))) and a.shape:
                    return (a in b) == (op == "In")
                if isinstance(a, Tensor):
                    n = to_int(a)
                    if n is None:
                        raise Undecided("membership of a data-dependent value")
                    a = n
                try:
                    r = any(self.pyeq(a, x) for x in b) if not isinstance(b, str) else (a in b)
                except TypeError:
                    raise Undecided("membership")
                return r if op == "In" else not r
            if isinstance(b, Abstract) and hasattr(b, "sa_contains"):
                r = b.sa_contains(self, a)
                return r if op == "In" else not r
            if isinstance(b, Obj):
                f, _ = b.cls.lookup("__contains__")
                r = self.must(self.call(Bound(f, b), [a], {})) if f is not None else any(self.pyeq(a, x) for x in self.iterate(b))
                return r if op == "In" else not r
            if isinstance(b, frozenset) or hasattr(b, "__next__") or isinstance(b, ClassVal) and "__members__" in b.ns:
                r = any(self.pyeq(a, x) for x in self.iterate(b))
                return r if op == "In" else not r
            raise Undecided(f"{self.where()}: membership in {type(b).__name__}")
        if isinstance(a, (Tensor, MaskSel)) or isinstance(b, (Tensor, MaskSel)):
            for x in (a, b):
                if not isinstance(x, (Tensor, MaskSel, int, float, Term)):
                    if op in ("Eq", "NotEq") and (x is None or isinstance(x, (str, tuple))):
                        return op == "NotEq"
                    raise Undecided(f"{self.where()}: comparison of tensor and {type(x).__name__}")
            return tl.compare(op, a, b)
        if op == "Eq":
            return self.pyeq(a, b)
        if op == "NotEq":
            return not self.pyeq(a, b)
        if isinstance(a, SymSize) or isinstance(b, SymSize):
            raise Undecided(f"{self.where()}: comparison of an arbitrary size")
        for x, y, n in ((a, b, {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}), (b, a, {"Lt": "__gt__", "LtE": "__ge__", "Gt": "__lt__", "GtE": "__le__"})):
            if isinstance(x, Obj):
                f, _ = x.cls.lookup(n[op])
                if f is not None:
                    return self.call(Bound(f, x), [y], {})
        try:
            return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
        except TypeError:
            raise Undecided(f"{self.where()}: comparison of {type(a).__name__} and {type(b).__name__}")

    def pyeq(self, a, b):
        if isinstance(a, SymSize) or isinstance(b, SymSize):
            if isinstance(a, SymSize) and isinstance(b, SymSize):
                if a == b:
                    return True
                raise Undecided("equality of two arbitrary sizes")
            o = b if isinstance(a, SymSize) else a
            if isinstance(o, int):
                raise Undecided(f"{self.where()}: test of an arbitrary size against {o}")
            return False
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return type(a) is type(b) and len(a) == len(b) and all(self.pyeq(x, y) for x, y in zip(a, b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                f, _ = x.cls.lookup("__eq__")
                if f is not None:
                    return self.must(self.call(Bound(f, x) if isinstance(f, Func) else f, [y] if isinstance(f, Func) else [x, y], {}))
        if isinstance(a, (Abstract, Obj)) or isinstance(b, (Abstract, Obj)):
            return a is b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Undecided("comparison of an unknown value")
        return a == b

    def e_IfExp(self, e, env):
        c = self.truth_of(self.eval(e.test, env))
        if isinstance(c, Term):
            return self.merge(c, self.eval(e.body, env), self.eval(e.orelse, env))
        return self.eval(e.body if c else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env)

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.eval(v.value, env)
                if v.conversion == 114 and isinstance(x, str):
                    x = repr(x)
                spec = self.eval(v.format_spec, env) if v.format_spec is not None else ""
                if spec and isinstance(x, (int, float, str)):
                    try:
                        out.append(format(x, spec))
                        continue
                    except ValueError:
                        raise PyRaise(ExcVal("ValueError", ("format",)), self.loc())
                out.append(self.tostr(x))
        return "".join(out)

    def tostr(self, v):
        if isinstance(v, Tensor):
            if self.written is not None:
                # the texts built while a check looks at them: which tensors they show
                self.written.append(v)
                return f"<tensor #{len(self.written) - 1}#>"
            return f"<tensor {id(v)}>"
        if isinstance(v, ExcVal):
            return ", ".join(map(str, v.args))
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__str__")
            if f is None:
                f, _ = v.cls.lookup("__repr__")
            if isinstance(f, Func):
                return self.call(Bound(f, v), [], {})
        return str(v)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        while env.comp:
            env = env.parent
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Undecided("starred")

    def e_Slice(self, e, env):
        return slice(*[None if x is None else self.eval(x, env) for x in (e.lower, e.upper, e.step)])

    def eval_index(self, e, env):
        return self.eval(e, env)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        k = self.eval_index(e.slice, env)
        self.lineno = e.lineno
        return self.subscript(o, k)

    def subscript(self, o, k):
        if isinstance(o, Tensor):
            if isinstance(k, Abstract) and hasattr(k, "as_tensor"):
                k = k.as_tensor()
            if isinstance(k, bool):
                raise Undecided("bool index")
            return getitem(o, k)
        if isinstance(o, MaskSel):
            raise Undecided("index into mask-selected values")
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, slice):
                r = o[tz._slice_bounds_py(k)] if hasattr(tz, "_slice_bounds_py") else o[slice(*[None if x is None else self._need_int(x) for x in (k.start, k.stop, k.step)])]
                return r
            i = to_int(k)
            if i is None:
                if isinstance(k, Tensor) and isinstance(o, (list, tuple)):
                    if k.dim() == 0 and o and all(isinstance(x, (Tensor, int, float)) for x in o):
                        acc = as_tensor(o[-1])
                        for j in range(len(o) - 2, -1, -1):
                            acc = self.merge(eq(k.item_cell(), num(j)), as_tensor(o[j]), acc)
                        return acc
                raise Undecided(f"{self.where()}: sequence index")
            try:
                return o[i]
            except IndexError:
                raise PyRaise(ExcVal("IndexError", (i,)), self.loc())
        if isinstance(o, dict):
            k = self.hashable(k)
            if k not in o and not isinstance(o, (pm.DefaultDict, pm._co.Counter)):
                raise PyRaise(ExcVal("KeyError", (k,)), self.loc())
            return o[k]
        if isinstance(o, Obj):
            f, _ = o.cls.lookup("__getitem__")
            if f is not None:
                return self.call(Bound(f, o), [k], {})
        if isinstance(o, ClassVal) and "__members__" in o.ns:
            m = o.ns["__members__"]
            if k not in m:
                raise PyRaise(ExcVal("KeyError", (k,)), self.loc())
            return m[k]
        if isinstance(o, (Opaque, NativeClass, ClassVal, Builtin)):
            return o        # a parametrised type
        if isinstance(o, Abstract) and hasattr(o, "sa_getitem"):
            return o.sa_getitem(self, k)
        if isinstance(o, Abstract) and hasattr(o, "as_tensor"):
            return getitem(o.as_tensor(), k)
        raise Undecided(f"{self.where()}: subscript of {type(o).__name__}")

    def _need_int(self, x):
        i = to_int(x)
        if i is None:
            raise Undecided(f"{self.where()}: slice bound is not a known integer")
        return i

    def comp(self, gens, env, leaf):
        def rec(k, env):
            if k == len(gens):
                leaf(env)
                return
            g = gens[k]
            for v in self.iterate(self.eval(g.iter, env)):
                self.assign(g.target, v, env)
                ok = True
                for c in g.ifs:
                    t = self.truth_of(self.eval(c, env))
                    if isinstance(t, Term):
                        raise Undecided("data-dependent comprehension filter")
                    if not t:
                        ok = False
                        break
                if ok:
                    rec(k + 1, env)

        en = Env(env.module, env)
        en.comp = True
        rec(0, en)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda en: out.append(self.eval(e.elt, en)))
        return out

    def e_GeneratorExp(self, e, env):
        return iter(self.e_ListComp(e, env))

    def e_SetComp(self, e, env):
        return set(self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        d = {}

        def leaf(en):
            d[self.hashable(self.eval(e.key, en))] = self.eval(e.value, en)

        self.comp(e.generators, env, leaf)
        return d

    def iterate(self, v):
        if isinstance(v, Abstract) and hasattr(v, "as_tensor"):
            v = v.as_tensor()
        if isinstance(v, Tensor):
            if v.dim() == 0:
                raise PyRaise(ExcVal("TypeError", ("iteration over a 0-d tensor",)), self.loc())
            return list(METHODS["unbind"](v, 0))
        if isinstance(v, (list, tuple, range, str, set)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()), zip, enumerate, map, reversed)):
            return list(v) if not hasattr(v, "__next__") else v
        if isinstance(v, Abstract) and hasattr(v, "sa_iter"):
            return v.sa_iter(self)
        if isinstance(v, Obj):
            nx, _ = v.cls.lookup("__next__")
            if nx is not None:
                return self.stepping(Bound(nx, v))
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                return self.iterate(self.call(Bound(f, v), [], {}))
            f, _ = v.cls.lookup("__getitem__")
            if f is not None:
                return self.stepping(Bound(f, v), True)
            if "forward" in v.cls.ns or v.cls.native_bases():
                raise Undecided(f"{self.where()}: iteration over {v!r}")
            raise PyRaise(ExcVal("TypeError", (f"{v!r} is not iterable",)), self.loc())
        if isinstance(v, frozenset):
            return list(v)
        if isinstance(v, ClassVal) and "__members__" in v.ns:
            return list(dict.fromkeys(v.ns["__members__"].values()))
        if hasattr(v, "__next__"):
            return v
        raise Undecided(f"{self.where()}: iteration over {type(v).__name__}")

    def stepping(self, f, index=False):
        k = 0
        while True:
            try:
                x = self.call(f, [k] if index else [], {})
            except PyRaise as r:
                if isinstance(r.exc, ExcVal) and r.exc.is_a("IndexError" if index else "StopIteration"):
                    return
                raise
            yield x
            k += 1

    def truth_of(self, v):
        """python bool, or a Term when data-dependent"""
        if isinstance(v, Abstract) and hasattr(v, "as_tensor"):
            v = v.as_tensor()
        if isinstance(v, Tensor):
            if v.ncells() != 1:
                raise PyRaise(ExcVal("RuntimeError", ("truth value of a tensor with several elements",)), self.loc())
            if any(isinstance(d, SymSize) for d in v.shape):
                raise Undecided(f"{self.where()}: truth value of a tensor of arbitrary size")
            t = truth(v.cells()[0])
            b = concrete_bool(t)
            if b is not None:
                return b
            for a in self.asserted:
                if a is t:
                    return True
                if a is lnot(t):
                    return False
            return t
        if isinstance(v, MaskSel):
            raise Undecided("truth value of mask-selected values")
        if isinstance(v, SymSize):
            raise Undecided("truth value of an arbitrary size")
        if isinstance(v, Opaque):
            raise Undecided(f"{self.where()}: truth value of {v.label}")
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth_of(self.call(Bound(f, v), [], {}))
            f, _ = v.cls.lookup("__len__")
            if f is not None:
                return self.truth_of(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, (Abstract, Func, ClassVal, Bound, Builtin, NS, Module)):
            return True
        return bool(v)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except PyRaise as r:
            if default is not MISSING and getattr(r.exc, "cls", "") == "AttributeError":
                return default
            raise

    def dunder(self, o, name):
        """a special method of a value, as the operation it stands for"""
        k, op = DUNDERS[name]
        if k == "bin":
            return Builtin(name, lambda x: self.binop(op, o, x))
        if k == "rbin":
            return Builtin(name, lambda x: self.binop(op, x, o))
        if k == "cmp":
            return Builtin(name, lambda x: self.compare(op, o, x))
        if k == "fn":
            return Builtin(name, lambda *a: self.call(self.builtins[op], [o, *a], {}))
        return Builtin(name, {"__getitem__": lambda x: self.subscript(o, x), "__setitem__": lambda x, v: self.set_subscript(o, x, v),
                              "__contains__": lambda x: self.compare("In", x, o), "__neg__": lambda: self.binop("Mult", o, -1), "__pos__": lambda: o}[name])

    def attr_error(self, o, name):
        r = PyRaise(ExcVal("AttributeError", (f"{o!r} has no attribute {name}",)), self.loc())
        # a stand-in lacks what the real object may have
        r.standin = isinstance(o, Abstract)
        raise r

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                return v.sa_get(self, o, name) if isinstance(v, Abstract) and hasattr(v, "sa_get") else v
            v, c = o.cls.lookup(name)
            if c is not None:
                return self.bind(v, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            f, _ = o.cls.lookup("__getattr__")
            if f is None:
                return self.native_method(o, name)
            try:
                return self.native_method(o, name)
            except PyRaise:
                return self.call(Bound(f, o), [name], {})
        if isinstance(o, Abstract):
            return o.sa_getattr(self, name)
        if isinstance(o, Tensor):
            return self.tensor_attr(o, name)
        if isinstance(o, MaskSel):
            if name in METHODS:
                f = METHODS[name]
                return Builtin(f"MaskSel.{name}", lambda *a, **k: f(o, *a, **k))
            raise Undecided(f"{name} of mask-selected values")
        if isinstance(o, Module):
            if name in o.env.vars:
                return o.env.vars[name]
            self.attr_error(o, name)
        if isinstance(o, NS):
            if o.name == "pyoptmat":
                return self.module("pyoptmat." + name)
            if name in o.table:
                return o.table[name]
            return Opaque(f"{o.name}.{name}")
        if isinstance(o, ClassVal):
            v, c = o.lookup(name)
            if name == "apply" and c is None and any(isinstance(b, NativeClass) and b.name == "autograd.Function" for b in o.native_bases()):
                return Builtin("Function.apply", lambda *a: self.function_apply(o, a))
            if c is not None:
                if isinstance(v, StaticVal):
                    return v.f
                if isinstance(v, ClassMethodVal):
                    return Bound(v.f, o)
                return v
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__dict__":
                return dict(o.ns)
            if name == "__doc__":
                return pm.docstring(o.node)
            if name == "mro":
                return Builtin("mro", lambda: list(o.mro))
            if name in ("__init__", "__new__", "__call__", "__module__", "__subclasses__", "__eq__", "__hash__", "__repr__") or (name in pm.MODULE_NAMES and o.native_bases()):
                raise Undecided(f"{self.where()}: {name} of {o!r}")
            self.attr_error(o, name)
        if isinstance(o, SuperVal):
            mro = o.obj.cls.mro if isinstance(o.obj, Obj) else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind(c.ns[name], o.obj, c)
            return self.native_method(o.obj, name)
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return pm.docstring(o.node)
            if name == "__defaults__":
                return tuple(o.defaults) or None
            if name == "__call__":
                return o
            if name == "__get__":
                return Builtin("__get__", lambda x, *t: Bound(o, x) if x is not None else o)
            if name.startswith("__") or o.cache is not None:
                raise Undecided(f"{self.where()}: {name} of {o!r}")
            self.attr_error(o, name)
        if isinstance(o, pm.Gen) and name in ("send", "throw", "close", "__next__"):
            return Builtin(name, lambda *a: self.next_of(o, how=getattr(o, name), args=a))
        if isinstance(o, Partial) and name in ("func", "args", "keywords"):
            return {"func": o.f, "args": tuple(o.args), "keywords": o.kwargs}[name]
        if isinstance(o, Pair):
            if name in ("values", "indices"):
                return getattr(o, name)
        if isinstance(o, Bound) and name in ("__func__", "__self__"):
            return o.f if name == "__func__" else o.self_
        if name in DUNDERS and isinstance(o, (dict, list, str, tuple, set, frozenset, range, int, float)) and hasattr(type(o), name):
            return self.dunder(o, name)
        if isinstance(o, dict):
            return self.dict_method(o, name)
        if isinstance(o, list):
            return self.list_method(o, name)
        if isinstance(o, str):
            if name == "format":
                return Builtin("str.format", lambda *a, **k: o.format(*[x if isinstance(x, (int, float, str)) else self.tostr(x) for x in a], **{q: x if isinstance(x, (int, float, str)) else self.tostr(x) for q, x in k.items()}))
            if name == "join":
                return Builtin("str.join", lambda x: o.join([self.hashable(v) for v in self.iterate(x)]))
            if hasattr(str, name) and not name.startswith("__"):
                def smeth(*a, **k):
                    try:
                        return getattr(o, name)(*a, **k)
                    except ValueError as e:
                        raise PyRaise(ExcVal("ValueError", (str(e),)), self.loc())
                return Builtin("str." + name, smeth)
            if not hasattr(str, name):
                self.attr_error(o, name)
        if isinstance(o, tuple):
            if name == "numel":
                return Builtin("Size.numel", lambda: _prod_py(o))
            if name in ("index", "count"):
                return Builtin("tuple." + name, getattr(o, name))
            v = pm.tuple_attr(self, o, name)
            if v is not MISSING:
                return v
        if isinstance(o, (set, frozenset)) and hasattr(o, name) and not name.startswith("__"):
            def setm(*a):
                return getattr(o, name)(*[x if name in ("add", "discard", "remove") else [self.hashable(v) for v in self.iterate(x)] for x in a])
            return Builtin("set." + name, setm)
        if isinstance(o, pm.IntMember) and name in ("name", "value"):
            return getattr(o, name)
        if isinstance(o, (int, float)):
            if name == "item":
                self.attr_error(o, name)
            if name == "bit_length":
                return Builtin("bit_length", lambda: o.bit_length())
            if name in ("real",):
                return o
            if name == "is_integer":
                return Builtin(name, lambda: float(o).is_integer())
        if isinstance(o, tl.SparseCOO):
            return self.sparse_attr(o, name)
        if isinstance(o, DtypeVal) and name == "is_floating_point":
            return o.kind == "float"
        if isinstance(o, Opaque):
            return Opaque(f"{o.label}.{name}")
        if isinstance(o, ExcVal) and name == "args":
            return tuple(o.args)
        if isinstance(o, NativeClass) and name == "__init__":
            return Builtin("native.__init__", lambda *a, **k: None)
        if isinstance(o, NativeClass) and name == "__name__":
            return o.name
        if isinstance(o, NativeClass) and name == "__setattr__":
            return Builtin("object.__setattr__", lambda x, n, v: self.setattr(x, n, v, raw=True))
        if isinstance(o, Builtin):
            if name == "__name__":
                return o.name.split(".")[-1]
            if o.name == "dict" and name == "fromkeys":
                return Builtin("dict.fromkeys", lambda x, v=None: {self.hashable(q): v for q in self.iterate(x)})
            if o.name == "str" and name in ("lower", "upper", "strip", "join", "format", "split"):
                return Builtin("str." + name, lambda x, *a: self.call(self.getattr(x, name), list(a), {}))
            if o.name in ("list", "dict", "tuple", "str", "int", "float") and name == "__class__":
                return self.builtins["type"]
        if isinstance(o, NativeClass) and (o.name, name) in self.native_static:
            return self.native_static[(o.name, name)]
        if o is None:
            self.attr_error(o, name)
        raise Undecided(f"{self.where()}: attribute {name} of {type(o).__name__}")

    def wrap(self, f, body, **names):
        """a function around f, which binds to objects as any other"""
        tree = ast.parse("def wrapper(*args, **kwargs):\n    " + body).body[0]
        for n in ast.walk(tree):
            if hasattr(n, "lineno"):
                n.lineno = getattr(getattr(f, "node", None), "lineno", 0)
        mod = f.module if isinstance(f, Func) else next(iter(self.modules.values()))
        env = Env(mod, mod.env)
        env.vars.update(names, wrapped=f)
        w = Func(tree, env, mod, getattr(f, "name", "wrapper"), getattr(f, "qual", "wrapper"))
        return w

    def bind(self, v, o, cls):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, PropertyVal):
            r = self.call(v.f, [o], {})
            if isinstance(v, pm.CachedProperty) and isinstance(o, Obj):
                self.setattr(o, v.f.name, r, raw=True)
            return r
        if isinstance(v, StaticVal):
            return v.f
        if isinstance(v, ClassMethodVal):
            return Bound(v.f, o.cls if isinstance(o, Obj) else o)
        if isinstance(v, Builtin) and isinstance(o, Obj):
            return v
        return v

    def native_method(self, o, name):
        if name == "__init__":
            def init(*a, **k):
                if (a or k) and isinstance(o, Obj) and any(isinstance(b, NativeClass) and b.name in ("Module", "object") for b in o.cls.native_bases()):
                    # torch.nn.Module takes no arguments
                    raise PyRaise(ExcVal("TypeError", (f"Module.__init__() got unexpected arguments {len(a)} {sorted(k)}",)), self.loc())
                if a or k:
                    self.ev("native-init-args", obj=o, args=a, kwargs=k)
                return None
            return Builtin("object.__init__", init)
        if name in ("parameters", "named_parameters"):
            def params(recurse=True):
                out = []
                for n, p in self.collect_params(o):
                    out.append(p if name == "parameters" else (n, p))
                return out
            return Builtin(name, params)
        if name == "register_buffer":
            def buf(n, v, **k):
                # a buffer is no parameter, whatever is put there
                o.__dict__.setdefault("buffers", set()).add(n)
                return self.setattr(o, n, v)
            return Builtin(name, buf)
        if name == "register_parameter":
            return Builtin(name, lambda n, v, **k: self.setattr(o, n, v))
        if name == "register_module" or name == "add_module":
            return Builtin(name, lambda n, v: self.setattr(o, n, v))
        if name in ("to", "train", "eval", "double", "float", "cuda", "cpu", "requires_grad_"):
            return Builtin(name, lambda *a, **k: o)
        if name == "__setattr__":
            return Builtin(name, lambda n, v: self.setattr(o, n, v, raw=True))
        if name in ("children", "modules") and isinstance(o, Obj):
            return Builtin(name, lambda: self.submodules(o, name))
        if name == "apply" and isinstance(o, Obj) and any(isinstance(b, NativeClass) and b.name == "autograd.Function" for b in o.cls.native_bases()):
            return Builtin("Function.apply", lambda *a: self.function_apply(o.cls, a))
        if name in pm.MODULE_NAMES and isinstance(o, Obj) and o.cls.native_bases():
            raise Undecided(f"{self.where()}: {name} of {o!r}")
        if name in ("__doc__", "__module__", "__init_subclass__", "__new__", "__repr__", "__str__", "__hash__", "__reduce__", "__sizeof__", "__dir__", "__format__"):
            raise Undecided(f"{self.where()}: {name} of {o!r}")
        self.attr_error(o, name)

    def submodules(self, o, how):
        out = []

        def kids(v):
            if isinstance(v, Obj) and any(isinstance(b, NativeClass) and b.name == "Module" for b in v.cls.native_bases()):
                return [v]
            if isinstance(v, Abstract) and hasattr(v, "sa_params"):
                return [v]
            if isinstance(v, (ModList, ModDict)):
                return [v] if how == "children" else [x for w in (v if isinstance(v, ModList) else v.values()) for x in kids(w)]
            return []

        for v in o.attrs.values():
            for x in kids(v):
                if not any(x is y for y in out):
                    out.append(x)
                    if how == "modules" and isinstance(x, Obj):
                        out.extend(y for y in self.submodules(x, how)[1:] if not any(y is z for z in out))
        return out if how == "children" else [o] + out

    def function_apply(self, cls, args):
        self.ev("function-apply", cls=cls, args=args)
        ctx = Ctx()
        f, _ = cls.lookup("forward")
        if isinstance(f, StaticVal):
            f = f.f
        r = self.call(f, [ctx] + list(args), {})
        self.ev("function-applied", cls=cls, ctx=ctx, args=args, result=r)
        return r

    def is_module(self, o):
        return not isinstance(o, Obj) or any(isinstance(b, NativeClass) and b.name in ("Module", "PyroModule") for b in o.cls.native_bases())

    def collect_params(self, o, prefix="", seen=None):
        seen = seen if seen is not None else set()
        out = []
        if id(o) in seen:
            return out
        seen.add(id(o))
        if not self.is_module(o):
            # torch does not look into objects that are no modules
            return out
        if isinstance(o, Obj):
            # torch lists a module's own parameters before its children's
            for n, v in o.attrs.items():
                if isinstance(v, Tensor) and v.kind == "parameter" and id(v) not in seen and n not in o.__dict__.get("buffers", ()):
                    seen.add(id(v))
                    out.append((prefix + n, v))
            for n, v in o.attrs.items():
                if isinstance(v, (Obj, ModList, ModDict, Abstract)):
                    out.extend(self.collect_params(v, prefix + n + ".", seen))
        elif isinstance(o, (ModList, ModDict)):
            for k, v in (enumerate(o) if isinstance(o, ModList) else o.items()):
                if isinstance(v, Tensor) and v.kind == "parameter" and id(v) not in seen:
                    seen.add(id(v))
                    out.append((prefix + str(k), v))
            for k, v in (enumerate(o) if isinstance(o, ModList) else o.items()):
                out.extend(self.collect_params(v, prefix + str(k) + ".", seen))
        elif isinstance(o, Abstract) and hasattr(o, "sa_params"):
            out.extend((prefix + n, p) for n, p in o.sa_params())
        return out

    def tensor_attr(self, o, name):
        if name == "shape":
            return tuple(o.shape)
        if name == "device":
            return DeviceVal(o.device if o.device is not None else "default")
        if name == "dtype":
            return DtypeVal({"float": "float64", "int": "int64", "bool": "bool"}.get(o.dtype, "float64"))
        if name == "requires_grad":
            return o.requires_grad
        if name == "ndim":
            return o.dim()
        if name in DUNDERS and name not in ("__neg__", "__setitem__"):
            return self.dunder(o, name)
        if name == "T":
            return permute(o, list(range(o.dim()))[::-1])
        if name == "mT":
            return transpose(o, -1, -2)
        if name == "data":
            self.ev("detach")
            return tl.tz.detached(o)
        if name == "values":
            return o
        if name == "grad":
            return None
        if name == "is_leaf":
            return True
        if name == "size" and False:
            pass
        if name == "unconstrained" and isinstance(o.extra, tuple) and o.extra[0] == "param":
            return Builtin(name, lambda: self.world.params[o.extra[1]].unconstrained)
        if name in METHODS:
            f = METHODS[name]
            self.lineno = self.lineno
            return Builtin(f"Tensor.{name}", lambda *a, **k: self.lib(name, f, (o,) + a, k))
        raise Undecided(f"{self.where()}: tensor method {name}")

    def lib(self, name, f, a, k):
        k.pop("out", None) if k.get("out", 1) is None else None
        if "out" in k:
            raise Undecided("out=")
        a = tuple(x.as_tensor() if isinstance(x, Abstract) and hasattr(x, "as_tensor") else x for x in a)
        k = {q: (x.as_tensor() if isinstance(x, Abstract) and hasattr(x, "as_tensor") else x) for q, x in k.items()}
        try:
            return f(*a, **k)
        except TypeError as e:
            raise Undecided(f"{self.where()}: {name}: {e}")

    def sparse_attr(self, o, name):
        if name == "coalesce":
            return Builtin(name, lambda: o)
        if name == "indices":
            return Builtin(name, lambda: o.inds)
        if name == "values":
            return Builtin(name, lambda: o.vals)
        if name == "to_sparse_csr":
            return Builtin(name, lambda: o)
        if name in ("to_dense",):
            raise Undecided("sparse to_dense")
        if name == "shape":
            return o.size
        raise Undecided(f"sparse attribute {name}")

    def list_method(self, o, name):
        def mut(f):
            def g(*a, **k):
                self._log("list", o, None, list(o))
                return f(*a, **k)
            return Builtin("list." + name, g)

        if isinstance(o, pm.Deque):
            if name == "appendleft":
                return mut(lambda v: o.insert(0, v))
            if name == "popleft":
                return mut(lambda: o.pop(0) if o else self.py_raise("IndexError"))
            if name == "extendleft":
                return mut(lambda x: [o.insert(0, v) for v in self.iterate(x)] and None)
            if name == "rotate":
                def rot(n=1):
                    if o:
                        n %= len(o)
                        o[:] = o[-n:] + o[:-n]
                return mut(rot)
        if name == "pop":
            return mut(lambda *a: o.pop(*[self._need_int(x) for x in a]) if o else self.py_raise("IndexError"))
        if name == "insert":
            return mut(lambda i, v: o.insert(self._need_int(i), v))
        if name in ("remove", "index"):
            def find(x, *a):
                for k, v in enumerate(o):
                    if self.must(self.compare("Eq", v, x)) and (not a or k >= a[0]):
                        if name == "index":
                            return k
                        del o[k]
                        return None
                self.py_raise("ValueError")
            return mut(find) if name == "remove" else Builtin("list.index", find)
        if name == "count":
            return Builtin("list.count", lambda x: sum(1 for v in o if self.must(self.compare("Eq", v, x))))
        if name in ("append", "clear", "reverse"):
            return mut(getattr(o, name))
        if name == "extend":
            return mut(lambda x: o.extend(self.iterate(x)))
        if name == "copy":
            return Builtin("list.copy", lambda: list(o))
        if name == "sort":
            def srt(key=None, reverse=False):
                r = self.b_sorted(o, key=key, reverse=reverse)
                o[:] = r
            return mut(srt)
        if isinstance(o, ModList):
            if name in ("parameters",):
                return Builtin(name, lambda: [p for _, p in self.collect_params(o)])
            if name == "children":
                return Builtin(name, lambda: list(o))
        elif not hasattr(o, name):
            self.attr_error(o, name)
        raise Undecided(f"{self.where()}: list method {name}")

    def py_raise(self, cls, *args):
        raise PyRaise(ExcVal(cls, args), self.loc())

    def next_of(self, it, *default, how=None, args=()):
        try:
            return how(*args) if how is not None else next(it)
        except StopIteration:
            if default:
                return default[0]
            raise PyRaise(ExcVal("StopIteration", ()), self.loc())

    def dict_method(self, o, name):
        if name in ("items", "keys", "values", "copy"):
            return Builtin("dict." + name, lambda: (list(getattr(o, name)()) if name != "copy" else dict(o)))
        if name == "get":
            return Builtin("dict.get", lambda k, d=None: o.get(self.hashable(k), d))
        if name in ("pop", "setdefault", "update", "clear", "popitem"):
            def g(*a, **k):
                self._log("dict", o, None, dict(o))
                if name == "pop" and len(a) == 1 and a[0] not in o or name == "popitem" and not o:
                    raise PyRaise(ExcVal("KeyError", a), self.loc())
                if name == "update" and a and not isinstance(a[0], dict):
                    a = ([tuple(self.iterate(p)) for p in self.iterate(a[0])],)
                return getattr(o, name)(*a, **k)
            return Builtin("dict." + name, g)
        if name == "move_to_end":
            def mte(k, last=True):
                self._log("dict", o, None, dict(o))
                v = o.pop(k)
                rest = dict(o)
                o.clear()
                o.update({**rest, k: v} if last else {k: v, **rest})
            return Builtin(name, mte)
        if name == "most_common" and isinstance(o, pm._co.Counter):
            return Builtin(name, o.most_common)
        if name == "parameters" and isinstance(o, ModDict):
            return Builtin(name, lambda: [p for _, p in self.collect_params(o)])
        if not hasattr(o, name) and not isinstance(o, ModDict):
            self.attr_error(o, name)
        raise Undecided(f"{self.where()}: dict method {name}")

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        # super() needs the frame
        if isinstance(f, Builtin) and f.name == "super":
            if e.args:
                a = [self.eval(x, env) for x in e.args]
                return SuperVal(a[0], a[1])
            fr = self.stack[-1][0]
            en = env
            while en is not None and "__self__" not in en.vars:
                en = en.parent
            if en is None:
                raise Undecided("super() outside a method")
            return SuperVal(en.vars["__class__"], en.vars["__self__"])
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, dict):
                    raise Undecided("** of a non-dict")
                for q, v in d.items():
                    if q in kw:
                        raise PyRaise(ExcVal("TypeError", (f"multiple values for {q}",)), self.loc())
                    kw[q] = v
            else:
                if k.arg in kw:
                    raise PyRaise(ExcVal("TypeError", (f"multiple values for {k.arg}",)), self.loc())
                kw[k.arg] = self.eval(k.value, env)
        self.lineno = e.lineno
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            g = f.f
            if isinstance(g, Func):
                return self.call_func(g, [f.self_] + list(args), kw)
            return self.call(g, [f.self_] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kw)
        if isinstance(f, Builtin):
            try:
                return f.f(*args, **kw)
            except TypeError as e:
                if isinstance(e, Undecided):
                    raise
                raise Undecided(f"{self.where()}: {f.name}: {e}")
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, GradMode) or isinstance(f, pm.CtxFn):
            # a context manager as a decorator
            g, = args
            if isinstance(g, StaticVal):
                return StaticVal(self.call(f, [g.f], {}))
            return self.wrap(g, "with manager:\n        return wrapped(*args, **kwargs)", manager=f)
        if isinstance(f, Obj):
            c, _ = f.cls.lookup("__call__")
            if c is None:
                c, _ = f.cls.lookup("forward")
            if c is None:
                raise PyRaise(ExcVal("TypeError", (f"{f!r} is not callable",)), self.loc())
            return self.call(self.bind(c, f, f.cls), args, kw)
        if isinstance(f, Abstract):
            return f.sa_call(self, list(args), kw)
        if isinstance(f, Partial):
            return self.call(f.f, list(f.args) + list(args), {**f.kwargs, **kw})
        if isinstance(f, NativeClass):
            if f.name in EXC_NAMES:
                return ExcVal(f.name, tuple(args))
            if f.name == "object":
                return Obj(ClassVal("object", [], {}, self.module("pyoptmat"), None))
            c = self.native_ctor.get(f.name)
            if c is not None:
                return c(*args, **kw)
        if isinstance(f, StaticVal):
            return self.call(f.f, args, kw)
        if isinstance(f, DtypeVal):
            return as_tensor(args[0])
        if isinstance(f, Opaque):
            raise Undecided(f"{self.where()}: call of {f.label}")
        raise Undecided(f"{self.where()}: call of {type(f).__name__}")

    def instantiate(self, c, args, kw):
        key = f"{c.module.name.replace('pyoptmat.', '')}.{c.name}"
        if key in self.intercepts:
            r = self.intercepts[key](self, args, kw)
            if r is not NotImplemented:
                return r
        if any(isinstance(b, NativeClass) and b.name in EXC_NAMES for b in c.native_bases()):
            return ExcVal(c.name, tuple(args), tuple(k.name for k in c.mro) + tuple(b.name for b in c.native_bases() if isinstance(b, NativeClass)))
        if "__members__" in c.ns:
            for m in c.ns["__members__"].values():
                if self.pyeq(m.attrs["value"] if isinstance(m, Obj) else m, args[0]):
                    return m
            raise PyRaise(ExcVal("ValueError", (args[0],)), self.loc())
        o = Obj(c)
        init, _ = c.lookup("__init__")
        if isinstance(init, Builtin):
            init.f(o, *args, **kw)
        elif init is not None:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            self.ev("native-init-args", obj=o, args=args, kwargs=kw)
        return o

    def bindargs(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                vals[names[i]] = v
            elif a.vararg:
                extra.append(v)
            else:
                raise PyRaise(ExcVal("TypeError", (f"{f.name}() takes {len(names)} positional arguments but {len(args)} were given",)), self.loc())
        if a.vararg:
            vals[a.vararg.arg] = tuple(extra)
        kwn = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in names or k in kwn:
                if k in vals:
                    raise PyRaise(ExcVal("TypeError", (f"{f.name}() got multiple values for {k}",)), self.loc())
                vals[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                raise PyRaise(ExcVal("TypeError", (f"{f.name}() got an unexpected keyword argument {k}",)), self.loc())
        if a.kwarg:
            vals[a.kwarg.arg] = rest
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise(ExcVal("TypeError", (f"{f.name}() missing argument {n}",)), self.loc())
                vals[n] = f.defaults[j]
        for k in kwn:
            if k not in vals:
                if k not in f.kwdefaults:
                    raise PyRaise(ExcVal("TypeError", (f"{f.name}() missing argument {k}",)), self.loc())
                vals[k] = f.kwdefaults[k]
        return vals

    def call_func(self, f, args, kw):
        key = f.qual.replace("pyoptmat.", "", 1)
        self.visited.add(f.qual)
        h = self.intercepts.get(key)
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        if len(self.stack) > 60:
            raise Undecided("call depth")
        if f.cache is not None:
            k = (tuple(map(cache_key, args)), tuple(sorted((n, cache_key(v)) for n, v in kw.items())))
            if k in f.cache:
                return f.cache[k][0]
            r = self.run_func(f, args, kw)
            self._log("dict", f.cache, None, dict(f.cache))
            self.ev("cached", func=f.qual)
            f.cache[k] = (r, args, kw)
            return r
        return self.run_func(f, args, kw)

    def run_func(self, f, args, kw):
        vals = self.bindargs(f, args, kw)
        env = Env(f.module, f.env if f.env is not None else f.module.env)
        env.vars.update(vals)
        if f.cls is not None and args:
            env.vars["__self__"] = args[0]
            env.vars["__class__"] = f.cls
        if pm.is_generator(f.node):
            return pm.Gen(self, f, env)
        self.stack.append((f, self.lineno))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            try:
                self.exec_block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            _, self.lineno = self.stack.pop()

    # ------------------------------------------------------------ builtins
    def b_sorted(self, x, key=None, reverse=False):
        xs = list(self.iterate(x))
        ks = [self.call(key, [v], {}) if key is not None else v for v in xs]
        ks = [to_int(k) if to_int(k) is not None else k for k in ks]
        if ks and all(isinstance(k, Obj) for k in ks):
            less = lambda i, j: self.must(self.compare("Lt", ks[i], ks[j]))
            order = sorted(range(len(xs)), key=_ft.cmp_to_key(lambda i, j: -1 if less(i, j) else 1 if less(j, i) else 0), reverse=reverse)
            return [xs[i] for i in order]
        if any(isinstance(k, (Tensor, Obj, Abstract)) for k in ks):
            raise Undecided("sorting of data-dependent values")
        order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=reverse)
        return [xs[i] for i in order]

    def _builtins(self):
        I = self

        def b_len(x):
            if isinstance(x, Tensor):
                if x.dim() == 0:
                    raise PyRaise(ExcVal("TypeError", ("len of 0-d tensor",)), I.loc())
                return x.shape[0]
            if isinstance(x, Obj):
                return I.call(I.getattr(x, "__len__"), [], {})
            if isinstance(x, Abstract):
                return x.sa_len(I)
            if isinstance(x, MaskSel):
                raise Undecided("number of mask-selected values")
            try:
                return len(x)
            except TypeError as e:
                if hasattr(x, "__next__") or isinstance(x, (int, float, type(None))):
                    raise PyRaise(ExcVal("TypeError", (str(e),)), I.loc())
                raise

        def b_range(*a):
            v = [to_int(x) for x in a]
            if any(x is None for x in v):
                raise Undecided(f"{I.where()}: range with a bound that is not a known integer")
            return range(*v)

        def b_sum(x, start=0):
            r = start
            for v in I.iterate(x):
                r = I.binop("Add", r, v)
            return r

        def b_minmax(name):
            def g(*a, key=None, default=MISSING):
                xs = list(I.iterate(a[0])) if len(a) == 1 else list(a)
                if not xs and default is not MISSING:
                    return default
                if any(isinstance(x, Tensor) for x in xs):
                    if key is not None:
                        raise Undecided("min/max key")
                    r = xs[0]
                    for v in xs[1:]:
                        r = tl.ew(tmax if name == "max" else tmin, r, v)
                    return r
                if any(isinstance(x, SymSize) for x in xs):
                    raise Undecided("min/max of an arbitrary size")
                ks = xs if key is None else [I.call(key, [x], {}) for x in xs]
                i = (max if name == "max" else min)(range(len(xs)), key=lambda q: ks[q])
                return xs[i]
            return g

        def b_isinstance(o, c):
            cs = c if isinstance(c, tuple) else (c,)
            for k in cs:
                if isinstance(k, ClassVal) and isinstance(o, Obj) and o.cls.issub(k):
                    return True
                if isinstance(k, NativeClass):
                    if k.name == "Tensor" and isinstance(o, Tensor):
                        return True
                    if isinstance(o, Obj) and any(isinstance(b, NativeClass) and b.name == k.name for b in o.cls.native_bases()):
                        return True
                if k is None:
                    if o is None:
                        return True
                    continue
                if isinstance(k, pm.NTClass):
                    if isinstance(o, k.t):
                        return True
                    continue
                if isinstance(k, ClassVal) and isinstance(o, pm.IntMember) and o.sa_cls is k:
                    return True
                if isinstance(k, Opaque):
                    r = {"numbers.Number": (int, float), "numbers.Real": (int, float), "numbers.Integral": int, "collections.abc.Sequence": (list, tuple, str, range),
                         "collections.abc.Mapping": dict, "typing.Sequence": (list, tuple, str, range), "typing.Mapping": dict,
                         "types.FunctionType": Func, "types.MethodType": Bound, "types.NoneType": type(None)}.get(k.label)
                    if r is None and k.label in ("collections.abc.Callable", "typing.Callable"):
                        if B["callable"](o):
                            return True
                        continue
                    if r is None and k.label in ("collections.abc.Iterable", "typing.Iterable"):
                        if isinstance(o, (list, tuple, dict, set, str, range)) or hasattr(o, "__next__") or isinstance(o, Tensor):
                            return True
                        continue
                    if r is None or isinstance(o, (Obj, Tensor, MaskSel)):
                        raise Undecided(f"{I.where()}: isinstance of {k.label}")
                    if isinstance(o, r):
                        return True
                    continue
                if isinstance(k, Builtin) and k.name == "ModuleList":
                    if isinstance(o, ModList):
                        return True
                    continue
                if isinstance(k, Builtin) and k.name in ("set", "frozenset", "range", "slice"):
                    if isinstance(o, {"set": set, "frozenset": frozenset, "range": range, "slice": slice}[k.name]):
                        return True
                    continue
                if isinstance(k, Builtin):
                    ty = {"int": int, "float": float, "str": str, "list": list, "tuple": tuple, "dict": dict, "bool": bool}.get(k.name)
                    if ty and isinstance(o, ty) and not (ty is int and isinstance(o, bool) and False):
                        return True
                if isinstance(o, Abstract):
                    raise Undecided("isinstance of an abstract object")
            return False

        def b_int(x=0):
            if isinstance(x, Tensor):
                i = to_int(x)
                if i is not None:
                    return i
                v = numval(x.item_cell())
                if v is not None:
                    return int(v)
                I.ev("item")
                return scalar(fn("trunc", tm.detach(x.item_cell())), "int")
            if isinstance(x, SymSize):
                return x
            return int(x)

        def b_float(x=0.0):
            if isinstance(x, Tensor):
                return tl.pyscalar(x)
            return float(x)

        def b_bool(x=False):
            c = I.truth_of(x)
            return scalar(c) if isinstance(c, Term) else c

        def b_abs(x):
            if isinstance(x, Abstract) and hasattr(x, "as_tensor"):
                x = x.as_tensor()
            return METHODS["abs"](x) if isinstance(x, (Tensor, MaskSel)) else abs(x)

        def b_getattr(o, n, *d):
            return I.getattr(o, n, *(d or (MISSING,)))

        def b_hasattr(o, n):
            if isinstance(o, Abstract) and hasattr(o, "sa_hasattr"):
                return o.sa_hasattr(n)
            r = I.getattr(o, n, None)
            return r is not None or (isinstance(o, Obj) and n in o.attrs)

        def b_round(x, n=None):
            if isinstance(x, Tensor):
                raise Undecided("round")
            return round(x, n) if n is not None else round(x)

        def b_zip(*a, strict=False):
            its = [I.iterate(x) for x in a]
            if strict and not pm.lazy(*its) and len({len(i) for i in its}) > 1:
                raise PyRaise(ExcVal("ValueError", ("zip() arguments of different lengths",)), I.loc())
            return zip(*its) if pm.lazy(*its) else iter(list(zip(*its)))

        def b_enumerate(x, start=0):
            it = I.iterate(x)
            return enumerate(it, start) if pm.lazy(it) else iter(list(enumerate(it, start)))

        def b_map(f, *xs):
            its = [I.iterate(x) for x in xs]
            g = (I.call(f, list(v), {}) for v in zip(*its))
            return g if pm.lazy(*its) else iter(list(g))

        def b_filter(f, xs):
            it = I.iterate(xs)
            g = (v for v in it if I.must(I.call(f, [v], {}) if f is not None else v))
            return g if pm.lazy(it) else iter(list(g))

        def b_iter(x, *sentinel):
            if sentinel:
                def g():
                    while True:
                        v = I.call(x, [], {})
                        if I.must(I.compare("Eq", v, sentinel[0])):
                            return
                        yield v
                return g()
            it = I.iterate(x)
            return it if pm.lazy(it) else iter(list(it))

        def b_next(it, *d):
            if isinstance(it, Obj):
                f, _ = it.cls.lookup("__next__")
                if f is not None:
                    try:
                        return I.call(Bound(f, it), [], {})
                    except PyRaise as r:
                        if d and isinstance(r.exc, ExcVal) and r.exc.is_a("StopIteration"):
                            return d[0]
                        raise
            if not hasattr(it, "__next__"):
                if isinstance(it, (list, tuple, range, dict, str, int, float)):
                    raise PyRaise(ExcVal("TypeError", (f"'{type(it).__name__}' object is not an iterator",)), I.loc())
                raise Undecided("next")
            return I.next_of(it, *d)

        def b_any(x):
            acc = FALSE
            for v in I.iterate(x):
                c = I.truth_of(v)
                if c is True:
                    return True
                if isinstance(c, Term):
                    acc = lor(acc, c)
            return False if acc is FALSE else scalar(acc)

        def b_all(x):
            acc = TRUE
            for v in I.iterate(x):
                c = I.truth_of(v)
                if c is False:
                    return False
                if isinstance(c, Term):
                    acc = land(acc, c)
            return True if acc is TRUE else scalar(acc)

        def b_type(o):
            if isinstance(o, Obj):
                return o.cls
            if isinstance(o, Tensor):
                return NativeClass("Tensor")
            if type(o).__name__ in B and not isinstance(o, Abstract):
                return I.builtins[type(o).__name__]
            if isinstance(o, pm.IntMember):
                return o.sa_cls
            if isinstance(o, tuple) and hasattr(type(o), "sa_cls"):
                return type(o).sa_cls
            if isinstance(o, ExcVal):
                return NativeClass(o.cls)
            return Opaque(f"type({type(o).__name__})")

        def b_num(ty):
            def g(x=0):
                if isinstance(x, str):
                    try:
                        return ty(x)
                    except ValueError as e:
                        raise PyRaise(ExcVal("ValueError", (str(e),)), I.loc())
                return (b_int if ty is int else b_float)(x)
            return g

        B = {
            "len": b_len, "range": b_range, "sum": b_sum, "max": b_minmax("max"), "min": b_minmax("min"),
            "isinstance": b_isinstance, "int": b_num(int), "float": b_num(float), "bool": b_bool, "abs": b_abs,
            "getattr": b_getattr, "hasattr": b_hasattr, "setattr": lambda o, n, v: I.setattr(o, n, v), "round": b_round,
            "zip": b_zip, "enumerate": b_enumerate, "delattr": I.delattr,
            "list": lambda x=(): list(I.iterate(x)), "tuple": lambda x=(): tuple(I.iterate(x)),
            "set": lambda x=(): set(I.hashable(v) for v in I.iterate(x)),
            "frozenset": lambda x=(): frozenset(I.hashable(v) for v in I.iterate(x)),
            "dict": lambda *a, **k: dict(*[x if isinstance(x, dict) else I.iterate(x) for x in a], **k),
            "str": lambda x="": I.tostr(x), "repr": lambda x="": repr(x) if isinstance(x, (str, int, float)) else I.tostr(x), "print": lambda *a, **k: None,
            "any": b_any, "all": b_all, "reversed": lambda x: iter(list(I.iterate(x))[::-1]),
            "sorted": I.b_sorted, "map": b_map, "filter": b_filter,
            "type": b_type, "callable": lambda o: isinstance(o, (Func, Bound, Builtin, ClassVal, Abstract, Partial, NativeClass)) or (isinstance(o, Obj) and o.cls.lookup("__call__")[1] is not None),
            "super": None, "id": id, "slice": lambda *a: slice(*a), "pow": lambda a, b: I.binop("Pow", a, b),
            "divmod": lambda a, b: (I.binop("FloorDiv", a, b), I.binop("Mod", a, b)),
            "iter": b_iter, "vars": lambda o: o.attrs, "next": b_next, "hash": lambda x: hash(I.hashable(x)),
            "format": lambda v, spec="": format(v, spec), "chr": chr, "ord": ord, "bin": bin, "hex": hex,
            "issubclass": lambda a, b: any(a.issub(k) for k in (b if isinstance(b, tuple) else (b,))),
        }
        out = {k: Builtin(k, v) for k, v in B.items()}
        for n in EXC_NAMES:
            out[n] = NativeClass(n)
        out["object"] = NativeClass("object")
        out["NotImplemented"] = Opaque("NotImplemented")
        out["Ellipsis"] = Ellipsis
        out["__name__"] = "__analysed__"
        out["property"] = Builtin("property", lambda f: PropertyVal(f))
        out["staticmethod"] = Builtin("staticmethod", lambda f: StaticVal(f))
        out["classmethod"] = Builtin("classmethod", lambda f: ClassMethodVal(f))
        return out

    def must(self, v):
        c = self.truth_of(v)
        if isinstance(c, Term):
            raise Undecided("data-dependent choice")
        return c

    def _namespaces(self):
        I = self

        def wrap(name, f):
            return Builtin(name, lambda *a, **k: I.lib(name, f, a, k))

        torch = {}
        for n, f in METHODS.items():
            torch[n] = wrap("torch." + n, f)
        for n, f in FUNCS.items():
            torch[n] = wrap("torch." + n, f)
        for n in tl.DT:
            torch[n] = DtypeVal(n)
        torch["device"] = Builtin("torch.device", lambda x="cpu", *a: x if isinstance(x, DeviceVal) else DeviceVal("default" if str(x).startswith("cpu") else str(x)))
        torch["Tensor"] = NativeClass("Tensor")
        torch["Size"] = Builtin("Size", lambda x: tuple(I.iterate(x)))
        torch["pi"] = math.pi
        torch["inf"] = math.inf
        torch["nan"] = math.nan
        torch["is_tensor"] = Builtin("is_tensor", lambda x: isinstance(x, Tensor))
        torch["is_grad_enabled"] = Builtin("is_grad_enabled", lambda: not I.grad_off)
        torch["numel"] = wrap("numel", METHODS["numel"])
        torch["set_grad_enabled"] = Builtin("set_grad_enabled", lambda v: GradMode(bool(v)))
        torch["no_grad"] = Builtin("no_grad", lambda *a: I.call(GradMode(False), list(a), {}) if a else GradMode(False))
        torch["inference_mode"] = Builtin("inference_mode", lambda *a: I.call(GradMode(False), list(a), {}) if a and isinstance(a[0], Func) else GradMode(bool(a) and not a[0]))
        torch["enable_grad"] = Builtin("enable_grad", lambda *a: I.call(GradMode(True), list(a), {}) if a else GradMode(True))
        torch["linalg"] = NS("torch.linalg", {n: wrap("torch.linalg." + n, f) for n, f in LINALG.items()})
        torch["set_default_dtype"] = Builtin("set_default_dtype", lambda *a: I.ev("global-state", what="torch.set_default_dtype"))
        torch["set_default_device"] = Builtin("set_default_device", lambda *a: I.ev("global-state", what="torch.set_default_device"))
        torch["set_default_tensor_type"] = Builtin("set_default_tensor_type", lambda *a: I.ev("global-state", what="torch.set_default_tensor_type"))

        def rnd(name):
            def g(*a, **k):
                I.ev("random", what=name)
                sh = tl._shape_args(tuple(x for x in a if not isinstance(x, (DtypeVal,))), k.get("size"))
                return new(sh, [fresh("random") for _ in range(tz._count(sh))], "float", tl.ddev(k.get("device")))
            return Builtin(name, g)

        for n in ("rand", "randn"):
            torch[n] = rnd("torch." + n)

        def rlike(name):
            def g(x, **k):
                I.ev("random", what=name)
                return new(x.shape, [fresh("random") for _ in range(x.ncells())], x.dtype, x.device)
            return Builtin(name, g)

        for n in ("rand_like", "randn_like"):
            torch[n] = rlike("torch." + n)
        torch["manual_seed"] = Builtin("manual_seed", lambda *a: I.ev("global-state", what="torch.manual_seed"))

        def sparse(inds, vals, size=None, dtype=None, device=None, **k):
            if device is None:
                join_device([inds, vals])
            else:
                inds, vals = (METHODS["to"](x, device=device) for x in (inds, vals))
            return tl.SparseCOO(inds, vals, size)

        torch["sparse_coo_tensor"] = Builtin("sparse_coo_tensor", sparse)
        nnf = {}
        for n in ("relu", "sigmoid", "tanh", "softmax", "softplus", "logsigmoid"):
            nnf[n] = wrap(n, METHODS[n])
        nnf["pad"] = wrap("pad", FUNCS["pad"])

        def param(x, requires_grad=True):
            t = Tensor(x.st, x.shape, x.strides, x.off, x.dtype)
            t.kind = "parameter"
            t.requires_grad = requires_grad
            return t

        nn = {
            "Module": NativeClass("Module"),
            "ModuleList": Builtin("ModuleList", lambda x=(): ModList(I.iterate(x))),
            "ParameterList": Builtin("ParameterList", lambda x=(): ModList(I.iterate(x))),
            "Parameter": Builtin("Parameter", param),
            "functional": NS("torch.nn.functional", nnf),
        }
        torch["nn"] = NS("torch.nn", nn)
        torch["autograd"] = NS("torch.autograd", {
            "Function": NativeClass("autograd.Function"),
            "grad": Builtin("autograd.grad", lambda *a, **k: I.autograd_grad(*a, **k)),
        })
        torch["nn"].table["parameter"] = NS("torch.nn.parameter", {"Parameter": nn["Parameter"]})

        np_ = {}
        for n, f in METHODS.items():
            if not n.endswith("_"):
                np_[n] = Builtin("np." + n, (lambda n, f: lambda *a, **k: I.np_call(n, f, a, k))(n, f))
        for n, f in FUNCS.items():
            np_[n] = wrap("np." + n, f)
        for n in tl.DT:
            np_[n] = DtypeVal(n)
        np_["pi"] = math.pi
        np_["nan"] = math.nan
        np_["inf"] = math.inf
        np_["newaxis"] = None
        np_["cumsum"] = Builtin("np.cumsum", lambda x, **k: METHODS["cumsum"](x, **k) if isinstance(x, Tensor) or not all(isinstance(v, (int, float)) for v in I.iterate(x)) else METHODS["cumsum"](list(I.iterate(x))))
        np_["argsort"] = Builtin("np.argsort", lambda x, **k: I.argsort(x))
        np_["ndindex"] = Builtin("np.ndindex", lambda *s: I.ndindex(s))
        np_["prod"] = Builtin("np.prod", lambda x, **k: _prod_py(list(I.iterate(x))) if not isinstance(x, Tensor) else METHODS["prod"](x))
        np_["piecewise"] = Builtin("np.piecewise", lambda x, conds, funcs: I.np_piecewise(x, conds, funcs))
        np_["ndarray"] = NativeClass("Tensor")
        np_["sort"] = wrap("np.sort", lambda x, axis=-1: METHODS["sort"](as_tensor(x), axis)[0])
        np_["var"] = wrap("np.var", lambda x, axis=None, ddof=0: METHODS["var"](x, axis, ddof=ddof))
        np_["std"] = wrap("np.std", lambda x, axis=None, ddof=0: METHODS["std"](x, axis, ddof=ddof))
        for n in ("median", "kthvalue", "topk"):
            np_.pop(n)
        np_["nonzero"] = wrap("np.nonzero", lambda x: METHODS["nonzero"](x, as_tuple=True))
        np_["linspace"] = Builtin("np.linspace", lambda a, b, num=50, **k: I.lib("np.linspace", FUNCS["linspace"], (a, b, num), k))
        np_["logspace"] = Builtin("np.logspace", lambda a, b, num=50, **k: I.lib("np.logspace", FUNCS["logspace"], (a, b, num), k))

        def ruse(name):
            def g(a=0.0, b=1.0, size=None):
                I.ev("random", what=name)
                return scalar(app(f"draw:{name}", [as_tensor(a).item_cell(), as_tensor(b).item_cell()]), "float", None)
            return Builtin(name, g)

        rand = {n: ruse(n) for n in ("uniform", "normal", "rand", "random", "randint")}
        rand["seed"] = Builtin("seed", lambda *a: I.ev("global-state", what="numpy.random.seed"))
        np_["random"] = NS("numpy.random", rand)
        m = {n: (lambda n: Builtin("math." + n, lambda *a: I.math_call(n, a)))(n) for n in
             ("floor", "ceil", "log2", "log", "log10", "exp", "sqrt", "pow", "prod", "isnan", "isinf", "gcd", "fabs", "tanh", "cosh", "isclose", "isqrt", "fsum", "copysign", "isfinite", "hypot", "sin", "cos", "tan", "sinh", "trunc", "comb", "perm", "factorial", "log1p", "expm1", "remainder", "fmod", "dist", "lcm", "cbrt", "exp2", "atan", "atan2", "asin", "acos", "degrees", "radians")}
        m["e"] = math.e
        m["tau"] = math.tau
        m["pi"] = math.pi
        m["inf"] = math.inf
        m["nan"] = math.nan
        warn = {
            "warn": Builtin("warnings.warn", lambda *a, **k: I.ev("warn", args=a)),
            "simplefilter": Builtin("simplefilter", lambda *a, **k: I.ev("global-state", what="warnings.simplefilter")),
            "filterwarnings": Builtin("filterwarnings", lambda *a, **k: I.ev("global-state", what="warnings.filterwarnings")),
            "catch_warnings": Builtin("catch_warnings", lambda *a, **k: Opaque("catch_warnings")),
        }
        ft = {
            "wraps": Builtin("wraps", lambda f: Builtin("wraps()", lambda g: g)),
            "reduce": Builtin("reduce", lambda f, xs, *init: I.reduce(f, xs, *init)),
            "partial": Builtin("partial", lambda f, *a, **k: Partial(f, a, k)),
            "lru_cache": Builtin("lru_cache", lambda *a, **k: cached(a[0]) if a and isinstance(a[0], Func) else Builtin("lru", cached)),
            "cache": Builtin("cache", cached),
        }
        it = {
            "product": Builtin("product", lambda *a: list(__import__("itertools").product(*[I.iterate(x) for x in a]))),
            "chain": Builtin("chain", lambda *a: [v for x in a for v in I.iterate(x)]),
            "accumulate": Builtin("accumulate", lambda x: METHODS["cumsum"](list(I.iterate(x)))),
            "pairwise": Builtin("pairwise", lambda x: list(zip(list(I.iterate(x))[:-1], list(I.iterate(x))[1:]))),
        }
        functorch = {
            "jacrev": Builtin("jacrev", lambda f, argnums=0, **k: JacFn(f, argnums)),
            "jacfwd": Builtin("jacfwd", lambda f, argnums=0, **k: JacFn(f, argnums)),
            "vmap": Builtin("vmap", lambda f, *a, **k: VmapFn(f) if not (a or k) else (_ for _ in ()).throw(Undecided("vmap options"))),
        }
        torch["func"] = NS("torch.func", functorch)
        torch["vmap"] = functorch["vmap"]
        self.native_ctor = {"Tensor": lambda x=(): tl.build_tensor(x)}
        self.native_static = {}
        nn["ModuleDict"] = Builtin("ModuleDict", lambda x=(): ModDict(x if isinstance(x, dict) else I.iterate(x)))
        nn["ParameterDict"] = Builtin("ParameterDict", lambda x=(): ModDict(x if isinstance(x, dict) else I.iterate(x)))
        more = pm.pylib(I)
        ft.update(more["functools"])
        it.update(more["itertools"])
        return {
            "collections": NS("collections", more["collections"]), "contextlib": NS("contextlib", more["contextlib"]),
            "dataclasses": NS("dataclasses", more["dataclasses"]), "enum": NS("enum", more["enum"]),
            "torch": NS("torch", torch), "numpy": NS("numpy", np_), "math": NS("math", m), "warnings": NS("warnings", warn),
            "functools": NS("functools", ft), "itertools": NS("itertools", it), "functorch": NS("functorch", functorch),
            "pyoptmat": NS("pyoptmat", {}),
            "typing": NS("typing", more["typing"]), "abc": NS("abc", {"ABC": NativeClass("ABC"), "abstractmethod": Builtin("abstractmethod", lambda f: f)}),
            "operator": NS("operator", more["operator"]),
            "copy": NS("copy", {"copy": Builtin("copy", lambda x: I.pycopy(x)), "deepcopy": Builtin("deepcopy", lambda x: I.pycopy(x))}),
        }

    def pycopy(self, x):
        if isinstance(x, Tensor):
            return clone(x)
        if isinstance(x, (list, dict, set)):
            return type(x)(x)
        if isinstance(x, (int, float, str, tuple, type(None))):
            return x
        raise Undecided("copy of an object")

    def autograd_grad(self, outputs, inputs, grad_outputs=None, **k):
        """exact derivative of the recorded terms (not through detached ones)"""
        outs = list(outputs) if isinstance(outputs, (list, tuple)) else [outputs]
        ins = list(inputs) if isinstance(inputs, (list, tuple)) else [inputs]
        gs = list(grad_outputs) if isinstance(grad_outputs, (list, tuple)) else [grad_outputs] * len(outs)
        pairs = []
        for o, g in zip(outs, gs):
            o = as_tensor(o)
            if g is None:
                if o.ncells() != 1:
                    raise PyRaise(ExcVal("RuntimeError", ("grad can be implicitly created only for scalar outputs",)), self.loc())
                g = scalar(ONE)
            if tuple(g.shape) != tuple(o.shape):
                raise PyRaise(ExcVal("RuntimeError", ("mismatch of the gradient's shape",)), self.loc())
            pairs += list(zip(o.cells(), g.cells()))
            if any(isinstance(d, SymSize) for d in o.shape):
                self.ev("batch-reduce", size="?", op="autograd.grad")
                raise Undecided("gradient summed over a dimension of arbitrary size")
        res = []
        known = set().union(*[tm.live(T(c), True) for c, _ in pairs]) if pairs else set()
        live = set().union(*[tm.live(T(c)) for c, _ in pairs]) if pairs else set()
        if any(as_tensor(x).requires_grad for x in ins) and live.isdisjoint(H.tracked):
            # no result is connected to anything that needs a gradient
            if known.isdisjoint(H.tracked):
                raise PyRaise(ExcVal("RuntimeError", ("the results to differentiate do not require a gradient",)), self.loc())
            raise Undecided("autograd.grad of results that depend on parameters in conditions only")
        for x in ins:
            x = as_tensor(x)
            if x._rg is False:
                raise PyRaise(ExcVal("RuntimeError", ("a tensor to differentiate for does not require a gradient",)), self.loc())
            cells = []
            names = {T(v).args[0] for v in x.cells() if T(v).op == "var"}
            if k.get("allow_unused") or k.get("materialize_grads"):
                if names.isdisjoint(live) and not names.isdisjoint(known):
                    raise Undecided("autograd.grad for a tensor that occurs in conditions only")
                if names and names.isdisjoint(live):
                    res.append(new(x.shape, [ZERO] * x.ncells(), "float", x.device) if k.get("materialize_grads") else None)
                    continue
            for v in x.cells():
                if v.op != "var":
                    raise Undecided("autograd.grad with respect to a computed value")
                ts = [tm.mul(g, tm.diff(c, v.args[0], through_detach=False)) for c, g in pairs if v.args[0] in tm.free(c)]
                cells.append(tm.add(*ts) if ts else ZERO)
            if all(c is ZERO for c in cells) and cells and not (k.get("allow_unused") or k.get("materialize_grads")):
                raise PyRaise(ExcVal("RuntimeError", ("a tensor to differentiate for was not used in the graph",)), self.loc())
            res.append(new(x.shape, cells, "float", x.device))
        return tuple(res)

    def np_call(self, n, f, a, k):
        a = [x.as_tensor() if isinstance(x, Abstract) and hasattr(x, "as_tensor") else x for x in a]
        if all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in a) and not k and hasattr(math, {"abs": "fabs"}.get(n, n)):
            try:
                return getattr(math, {"abs": "fabs"}.get(n, n))(*a)
            except Exception:
                pass
        if n == "max" and a and not isinstance(a[0], Tensor):
            a[0] = tl.build_tensor(a[0])
        r = self.lib("np." + n, f, tuple(tl.build_tensor(x) if isinstance(x, (list, tuple)) and i == 0 else x for i, x in enumerate(a)), k)
        if n in ("max", "min") and isinstance(r, Pair):
            return r[0]
        return r

    def argsort(self, x):
        xs = [to_int(v) if not isinstance(v, float) else v for v in self.iterate(x)]
        if any(v is None for v in xs):
            raise Undecided("argsort of data-dependent values")
        return sorted(range(len(xs)), key=lambda i: xs[i])

    def ndindex(self, s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        v = [to_int(x) for x in s]
        if any(x is None for x in v):
            raise Undecided("ndindex")
        out = [()]
        for n in v:
            out = [o + (k,) for o in out for k in range(n)]
        return out

    def np_piecewise(self, x, conds, funcs):
        funcs = list(self.iterate(funcs))
        conds = list(self.iterate(conds))
        x = as_tensor(x)
        if len(funcs) == len(conds) + 1:
            default = funcs[-1]
            acc = self.call(default, [x], {}) if not isinstance(default, (int, float)) else default
            acc = as_tensor(acc)
        else:
            acc = new(x.shape, [ZERO] * x.ncells(), x.dtype, x.device)
        for c, f in zip(conds, funcs):
            v = self.call(f, [x], {}) if not isinstance(f, (int, float, Tensor)) else f
            acc = tl.ew(lambda cc, a, b: ite(truth(cc), a, b), c, v, acc, dtype="float")
        return acc

    def math_call(self, n, a):
        a = [x.as_tensor() if isinstance(x, Abstract) and hasattr(x, "as_tensor") else x for x in a]
        if any(isinstance(x, Tensor) for x in a):
            vals = [numval(x.item_cell()) if isinstance(x, Tensor) else x for x in a]
            if any(v is None for v in vals):
                if n in METHODS:
                    return tl.pyscalar(METHODS[n](*a))
                raise Undecided(f"math.{n} of a data-dependent value")
            a = [float(v) for v in vals]
        if any(isinstance(x, SymSize) for x in a):
            raise Undecided(f"math.{n} of an arbitrary size")
        if n == "prod":
            return _prod_py(list(self.iterate(a[0])))
        if n in ("fsum", "dist"):
            a = [list(self.iterate(x)) for x in a]
            if any(isinstance(v, Tensor) for x in a for v in x):
                raise Undecided(f"math.{n} of tensors")
        try:
            return getattr(math, n)(*a)
        except (ValueError, ZeroDivisionError):
            raise PyRaise(ExcVal("ValueError", (n,)), self.loc())

    def reduce(self, f, xs, *init):
        xs = list(self.iterate(xs))
        acc = init[0] if init else xs.pop(0)
        for x in xs:
            acc = self.call(f, [acc, x], {})
        return acc


def _prod_py(xs):
    r = 1
    for x in xs:
        if isinstance(x, SymSize):
            if r == 1 and len(xs) == 1:
                return x
            raise Undecided("product with an arbitrary size")
        r = r * x
    return r


class GradMode:
    def __init__(self, on):
        self.on = on


class Ctx(Abstract):
    def __init__(self):
        self.attrs = {}
        self.saved = ()

    def sa_getattr(self, interp, name):
        if name == "save_for_backward":
            def s(*a):
                self.saved = tuple(a)
            return Builtin("save_for_backward", s)
        if name == "saved_tensors":
            return self.saved
        if name == "needs_input_grad":
            raise Undecided("needs_input_grad")
        if name in ("mark_non_differentiable", "set_materialize_grads", "mark_dirty"):
            return Builtin(name, lambda *a: None)
        if name in self.attrs:
            return self.attrs[name]
        interp.attr_error(self, name)

    def sa_setattr(self, interp, name, v):
        self.attrs[name] = v


class JacFn(Abstract):
    """functorch.jacrev(f): exact derivative of the abstract result"""

    def __init__(self, f, argnums):
        self.f = f
        self.argnums = argnums

    def sa_call(self, interp, args, kw):
        res, vs = self.run(interp, args, kw, 0)
        return res

    def run(self, interp, args, kw, nb):
        argn = self.argnums
        idx = argn if isinstance(argn, tuple) else (argn,)
        out_j = []
        new_args = list(args)
        names = {}
        for i in idx:
            a = as_tensor(args[i])
            vs = [fresh("jac-arg") for _ in a.cells()]
            names[i] = (a, vs)
            new_args[i] = new(a.shape, vs, a.dtype, a.device)
        y = as_tensor(interp.call(self.f, new_args, kw))
        back = {v.args[0]: c for i in idx for v, c in zip(names[i][1], names[i][0].cells())}
        for i in idx:
            a, vs = names[i]
            ys, xs = y.shape[nb:], a.shape[nb:]
            nbat = tz._count(y.shape[:nb])
            if tuple(y.shape[:nb]) != tuple(a.shape[:nb]):
                raise Undecided("vmap of tensors with different leading shapes")
            cells = []
            yc = y.cells()
            ny, nx = tz._count(ys), tz._count(xs)
            for b in range(nbat):
                for p in range(ny):
                    yy = yc[b * ny + p]
                    for bb in range(nbat):
                        if bb != b:
                            for q in range(nx):
                                if vs[bb * nx + q].args[0] in free(yy):
                                    interp.ev("batch-mix", what="mapped function mixes the mapped dimension")
                    for q in range(nx):
                        cells.append(subst(diff(yy, vs[b * nx + q].args[0]), back))
            out_j.append(new(tuple(y.shape[:nb]) + tuple(ys) + tuple(xs), cells, "float", y.device))
        return (tuple(out_j) if isinstance(argn, tuple) else out_j[0]), y


class VmapFn(Abstract):
    def __init__(self, f):
        self.f = f

    def sa_call(self, interp, args, kw):
        n = 1
        f = self.f
        while isinstance(f, VmapFn):
            n += 1
            f = f.f
        if isinstance(f, JacFn):
            return f.run(interp, args, kw, n)[0]
        raise Undecided("vmap of a general function")


EXC_NAMES = ("Exception", "ValueError", "RuntimeError", "TypeError", "KeyError", "IndexError", "NotImplementedError", "AttributeError",
             "AssertionError", "ZeroDivisionError", "StopIteration", "ArithmeticError", "FloatingPointError", "BaseException", "Warning", "UserWarning", "RuntimeWarning", "NameError", "OverflowError", "LookupError", "ImportError", "ModuleNotFoundError", "OSError", "FileNotFoundError", "DeprecationWarning", "FutureWarning", "StopAsyncIteration", "UnboundLocalError", "RecursionError", "MemoryError", "EOFError", "BufferError")

from . import pymore as pm  # noqa: E402

