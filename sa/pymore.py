"""
More of the Python language for the interpreter: generators, pattern matching,
named tuples, dataclasses, enumerations, context-manager functions, and the
standard library's iteration, collection and operator helpers.
"""
import ast
import builtins as _bi
import collections as _co
import enum as _en
import itertools as _it
import math
import operator as _op
from .terms import *
from .tensor import *
from . import torchlib as tl
from .torchlib import Builtin, DtypeVal, Opaque, METHODS
from . import interp as ip
from .interp import (Interp, Abstract, Obj, ClassVal, NativeClass, Func, Bound, NS, Env, Module, ExcVal, PyRaise, Partial, PropertyVal,
                     StaticVal, ClassMethodVal, MISSING, _Return, _Break, _Continue, GradMode)


# ------------------------------------------------------------------ generators
def has_yield(node):
    """does the statement yield, other than in a nested function"""
    todo = [node] if not isinstance(node, (ast.FunctionDef, ast.ClassDef)) else []
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                todo.append(c)
    return False


def is_generator(node):
    g = getattr(node, "_sa_gen", None)
    if g is None:
        g = isinstance(node, ast.FunctionDef) and any(has_yield(s) for s in node.body)
        node._sa_gen = g
    return g


class Gen:
    """a generator of the analysed code"""

    def __init__(self, interp, f, env):
        self.I, self.f, self.env = interp, f, env
        self.journal = interp.journal
        self.line = interp.lineno
        self.running = False
        self.g = self._body()

    def _body(self):
        try:
            yield from block(self.I, self.f.node.body, self.env)
        except _Return as r:
            return r.v

    def _resume(self, how):
        I = self.I
        if I.journal is not self.journal:
            raise Undecided(f"{I.where()}: generator resumed inside a data-dependent branch")
        if self.running:
            raise PyRaise(ExcVal("ValueError", ("generator already executing",)), I.loc())
        I.stack.append((self.f, I.lineno))
        I.lineno = self.line
        self.running = True
        try:
            return how()
        finally:
            self.running = False
            self.line = I.lineno
            _, I.lineno = I.stack.pop()

    def __iter__(self):
        return self

    def __next__(self):
        return self._resume(lambda: next(self.g))

    def send(self, v):
        return self._resume(lambda: self.g.send(v))

    def throw(self, e):
        return self._resume(lambda: self.g.throw(e))

    def close(self):
        return self._resume(self.g.close)


def block(I, body, env):
    for st in body:
        if not has_yield(st):
            I.exec_block([st], env)
            continue
        I.tick(st)
        m = GEN.get(type(st).__name__)
        if m is None:
            raise Undecided(f"{I.where()}: yield inside {type(st).__name__}")
        try:
            yield from m(I, st, env)
        except ShapeError as e:
            raise PyRaise(ExcVal("RuntimeError", (str(e),)), I.loc())


def g_value(I, e, env):
    """value of an expression that is itself a yield, or contains none"""
    if isinstance(e, ast.Yield):
        return (yield (I.eval(e.value, env) if e.value is not None else None))
    if isinstance(e, ast.YieldFrom):
        v = I.eval(e.value, env)
        if isinstance(v, Gen):
            return (yield from v)
        for x in I.iterate(v):
            yield x
        return None
    if has_yield(e):
        raise Undecided(f"{I.where()}: yield inside an expression")
    return I.eval(e, env)


def g_expr(I, st, env):
    yield from g_value(I, st.value, env)


def g_assign(I, st, env):
    v = yield from g_value(I, st.value, env)
    for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
        I.assign(t, v, env)


def g_return(I, st, env):
    raise _Return((yield from g_value(I, st.value, env)))


def g_if(I, st, env):
    c = I.truth_of(I.eval(st.test, env))
    if isinstance(c, Term):
        raise Undecided(f"{I.where()}: yield in a data-dependent branch")
    yield from block(I, st.body if c else st.orelse, env)


def g_for(I, st, env):
    for v in I.iterate(I.eval(st.iter, env)):
        I.assign(st.target, v, env)
        try:
            yield from block(I, st.body, env)
        except _Break:
            return
        except _Continue:
            continue
    yield from block(I, st.orelse, env)


def g_while(I, st, env):
    n = 0
    while True:
        I.tick(st)
        c = I.truth_of(I.eval(st.test, env))
        if isinstance(c, Term):
            raise Undecided(f"{I.where()}: loop with a data-dependent condition")
        if not c:
            break
        try:
            yield from block(I, st.body, env)
        except _Break:
            return
        except _Continue:
            pass
        n += 1
        if n > 10000:
            raise Undecided("loop bound")
    yield from block(I, st.orelse, env)


def g_with(I, st, env):
    exits = []
    for it in st.items:
        v, ex = I.enter(I.eval(it.context_expr, env))
        if it.optional_vars is not None:
            I.assign(it.optional_vars, v, env)
        exits.append(ex)
    try:
        yield from block(I, st.body, env)
    finally:
        for ex in reversed(exits):
            ex()


def g_try(I, st, env):
    try:
        try:
            yield from block(I, st.body, env)
        except PyRaise as r:
            h = I.handler(st, r, env)
            if h is None:
                raise
            yield from block(I, h.body, env)
        else:
            yield from block(I, st.orelse, env)
    finally:
        yield from block(I, st.finalbody, env)


GEN = {"Expr": g_expr, "Assign": g_assign, "AnnAssign": g_assign, "Return": g_return, "If": g_if, "For": g_for, "While": g_while,
       "With": g_with, "Try": g_try}


class CM(Abstract):
    """a context manager that may take an exception"""


class CtxFn(CM):
    """the context manager a @contextmanager function returns"""

    def __init__(self, interp, f, args, kw):
        self.make = lambda: interp.call(f, list(args), dict(kw))
        self.gen = None

    def __repr__(self):
        return "<context manager>"

    def sa_enter(self, interp):
        self.gen = self.make()
        return next(self.gen)

    def sa_exit(self, interp, exc=None):
        try:
            if exc is None:
                next(self.gen)
            else:
                self.gen.throw(exc)
                return True
        except StopIteration:
            return exc is not None
        return False


# ------------------------------------------------------------------ match
def s_Match(self, st, env):
    v = self.eval(st.subject, env)
    for c in st.cases:
        b = {}
        if not matches(self, c.pattern, v, b, env):
            continue
        for k, x in b.items():
            self.set_var(env, k, x)
        if c.guard is not None:
            t = self.truth_of(self.eval(c.guard, env))
            if isinstance(t, Term):
                raise Undecided("data-dependent guard")
            if not t:
                continue
        self.exec_block(c.body, env)
        return


def matches(I, p, v, b, env):
    n = type(p).__name__
    if n == "MatchValue":
        return I.must(I.compare("Eq", v, I.eval(p.value, env)))
    if n == "MatchSingleton":
        return v is p.value
    if n == "MatchAs":
        if p.pattern is not None and not matches(I, p.pattern, v, b, env):
            return False
        if p.name:
            b[p.name] = v
        return True
    if n == "MatchOr":
        return any(matches(I, q, v, b, env) for q in p.patterns)
    if n == "MatchSequence":
        if not isinstance(v, (list, tuple)):
            return False
        star = [k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
        if not star:
            return len(v) == len(p.patterns) and all(matches(I, q, x, b, env) for q, x in zip(p.patterns, v))
        k = star[0]
        after = len(p.patterns) - k - 1
        if len(v) < len(p.patterns) - 1:
            return False
        if p.patterns[k].name:
            b[p.patterns[k].name] = list(v[k:len(v) - after])
        return all(matches(I, q, x, b, env) for q, x in zip(p.patterns[:k] + p.patterns[k + 1:], list(v[:k]) + list(v[len(v) - after:])))
    if n == "MatchMapping":
        if not isinstance(v, dict):
            return False
        for k, q in zip(p.keys, p.patterns):
            k = I.eval(k, env)
            if k not in v or not matches(I, q, v[k], b, env):
                return False
        if p.rest:
            used = [I.eval(k, env) for k in p.keys]
            b[p.rest] = {k: x for k, x in v.items() if k not in used}
        return True
    if n == "MatchClass":
        c = I.eval(p.cls, env)
        if not I.must(I.call(I.builtins["isinstance"], [v, c], {})):
            return False
        if p.patterns:
            if isinstance(c, Builtin) and len(p.patterns) == 1:
                if not matches(I, p.patterns[0], v, b, env):
                    return False
            else:
                ma = I.getattr(c, "__match_args__")
                for q, a in zip(p.patterns, ma):
                    if not matches(I, q, I.getattr(v, a), b, env):
                        return False
        return all(matches(I, q, I.getattr(v, a), b, env) for a, q in zip(p.kwd_attrs, p.kwd_patterns))
    raise Undecided(f"pattern {n}")


Interp.s_Match = s_Match


# ------------------------------------------------------------------ classes
class FieldSpec:
    def __init__(self, default=MISSING, default_factory=MISSING, init=True, **k):
        self.default, self.factory, self.init = default, default_factory, init


def dataclass(I, c):
    """the methods @dataclass adds"""
    if not isinstance(c, ClassVal):
        raise Undecided("dataclass of a value that is no class")
    names = []
    for k in reversed(c.mro):
        for n in k.ns.get("__annotations__", {}):
            if n not in names:
                names.append(n)
    specs = {}
    for n in names:
        v, o = c.lookup(n)
        if not isinstance(v, FieldSpec):
            v = FieldSpec(v if o is not None else MISSING)
        specs[n] = v
    c.ns["__dataclass_fields__"] = specs
    c.ns["__match_args__"] = tuple(names)

    def init(o, *a, **k):
        free = [n for n in names if specs[n].init]
        if len(a) > len(free):
            raise PyRaise(ExcVal("TypeError", ("too many arguments",)), I.loc())
        vals = dict(zip(free, a))
        for n, v in k.items():
            if n in vals or n not in free:
                raise PyRaise(ExcVal("TypeError", (n,)), I.loc())
            vals[n] = v
        for n in names:
            if n not in vals:
                s = specs[n]
                if s.default is not MISSING:
                    vals[n] = s.default
                elif s.factory is not MISSING:
                    vals[n] = I.call(s.factory, [], {})
                elif s.init:
                    raise PyRaise(ExcVal("TypeError", (f"missing argument {n}",)), I.loc())
                else:
                    continue
            o.attrs[n] = vals[n]
        f, _ = c.lookup("__post_init__")
        if f is not None:
            I.call(Bound(f, o), [], {})

    def eq_(o, p):
        if not isinstance(p, Obj) or p.cls is not o.cls:
            return False
        return all(I.must(I.compare("Eq", o.attrs[n], p.attrs[n])) for n in names)

    if "__init__" not in c.ns:
        c.ns["__init__"] = Builtin("dataclass.__init__", init)
    if "__eq__" not in c.ns:
        c.ns["__eq__"] = Builtin("dataclass.__eq__", eq_)
    for n in names:
        v = c.ns.get(n)
        if isinstance(v, FieldSpec):
            del c.ns[n]
            if v.default is not MISSING:
                c.ns[n] = v.default
    return c


class EnumMember(Obj):
    def __repr__(self):
        return f"<{self.cls.name}.{self.attrs['name']}>"


class IntMember(int):
    """member of an integer enumeration"""


def enum_kind(bases):
    for b in bases:
        if isinstance(b, Opaque) and b.label.startswith("enum."):
            k = b.label.split(".")[1]
            if k in ("Enum", "IntEnum", "StrEnum"):
                return k
            raise Undecided(b.label)
        if isinstance(b, ClassVal) and "__enum__" in b.ns:
            return b.ns["__enum__"]
    return None


def make_enum(I, c, kind):
    members = {}
    last = 0
    for n, v in list(c.ns.items()):
        if n.startswith("_") or isinstance(v, (Func, PropertyVal, StaticVal, ClassMethodVal)):
            continue
        if v is AUTO:
            v = last + 1 if kind != "StrEnum" else n.lower()
        if isinstance(v, int):
            last = v
        if kind == "IntEnum":
            m = IntMember(v)
            m.name, m.value, m.sa_cls = n, int(v), c
        elif kind == "StrEnum":
            m = v
        else:
            same = [x for x in members.values() if I.pyeq(x.attrs["value"], v)]
            m = same[0] if same else EnumMember(c)
            if not same:
                m.attrs.update(name=n, value=v, _name_=n, _value_=v)
        members[n] = m
        c.ns[n] = m
    c.ns["__members__"] = members
    c.ns["__enum__"] = kind


AUTO = object()


def make_namedtuple(I, name, fields, defaults=(), ns=None):
    t = _co.namedtuple(name, fields, defaults=defaults, rename=False)
    t.sa_ns = ns or {}
    t.sa_name = name
    return NTClass(I, t)


class NTClass(Abstract):
    """a named tuple class; its instances are tuples"""

    def __init__(self, I, t):
        self.t = t
        self.name = t.sa_name
        t.sa_cls = self

    def __repr__(self):
        return f"<class {self.name}>"

    def sa_call(self, I, args, kw):
        try:
            return self.t(*args, **kw)
        except TypeError as e:
            raise PyRaise(ExcVal("TypeError", (str(e),)), I.loc())

    def sa_getattr(self, I, name):
        if name in ("_fields", "_field_defaults"):
            return getattr(self.t, name)
        if name == "_make":
            return Builtin("_make", lambda x: self.t(*I.iterate(x)))
        if name in ("__name__", "__qualname__"):
            return self.name
        v = self.t.sa_ns.get(name, MISSING)
        if v is MISSING:
            I.attr_error(self, name)
        if isinstance(v, StaticVal):
            return v.f
        if isinstance(v, ClassMethodVal):
            return Bound(v.f, self)
        return v


def tuple_attr(I, o, name):
    t = type(o)
    if hasattr(t, "sa_cls"):
        if name in t._fields:
            return getattr(o, name)
        if name == "_asdict":
            return Builtin(name, lambda: dict(zip(t._fields, o)))
        if name == "_replace":
            return Builtin(name, lambda **k: t(*[k.get(n, v) for n, v in zip(t._fields, o)]))
        if name == "_fields":
            return t._fields
        if name == "__class__":
            return t.sa_cls
        v = t.sa_ns.get(name, MISSING)
        if v is not MISSING:
            if isinstance(v, Func):
                return Bound(v, o)
            if isinstance(v, PropertyVal):
                return I.call(v.f, [o], {})
            if isinstance(v, StaticVal):
                return v.f
            if isinstance(v, ClassMethodVal):
                return Bound(v.f, t.sa_cls)
            return v
    return MISSING


class CachedProperty(PropertyVal):
    pass


# ------------------------------------------------------------------ library
def lazy(*xs):
    return any(hasattr(x, "__next__") for x in xs)


def seq(f):
    """eager on plain sequences, lazy on iterators"""

    def g(I, xs, make):
        its = [I.iterate(x) for x in xs]
        r = make(*its)
        return r if lazy(*its) else list(r)

    return g


def pylib(I):
    B = Builtin
    C = I.call

    def run(make, *xs):
        its = [I.iterate(x) for x in xs]
        r = make(*its)
        return r if lazy(*its) else list(r)

    def fn(f):
        return lambda *a: C(f, list(a), {})

    def truth(v):
        return I.must(v)

    def pred(f):
        return lambda *a: truth(C(f, list(a), {}) if f is not None else a[0])

    def cnt(start=0, step=1):
        def g():
            v = start
            while True:
                yield v
                v = I.binop("Add", v, step)
        return g()

    def groupby(xs, key=None):
        out = []
        for x in I.iterate(xs):
            k = C(key, [x], {}) if key is not None else x
            if out and I.must(I.compare("Eq", out[-1][0], k)):
                out[-1][1].append(x)
            else:
                out.append((k, [x]))
        return out

    def accumulate(x, func=None, *, initial=MISSING):
        def g(it):
            acc = initial
            if acc is not MISSING:
                yield acc
            for v in it:
                acc = v if acc is MISSING else (I.binop("Add", acc, v) if func is None else C(func, [acc, v], {}))
                yield acc
        return run(g, x)

    def islice(x, *a):
        return run(lambda it: _it.islice(it, *a), x) if lazy(I.iterate(x)) is False else _it.islice(I.iterate(x), *a)

    itn = {
        "product": lambda *a, repeat=1: list(_it.product(*[list(I.iterate(x)) for x in a], repeat=repeat)),
        "chain": lambda *a: run(lambda *i: _it.chain(*i), *a),
        "accumulate": accumulate,
        "pairwise": lambda x: run(_it.pairwise, x),
        "zip_longest": lambda *a, fillvalue=None: run(lambda *i: _it.zip_longest(*i, fillvalue=fillvalue), *a),
        "islice": islice,
        "count": cnt,
        "cycle": lambda x: _it.cycle(list(I.iterate(x))),
        "repeat": lambda x, *n: _it.repeat(x) if not n else [x] * n[0],
        "starmap": lambda f, x: run(lambda it: (C(f, list(I.iterate(v)), {}) for v in it), x),
        "combinations": lambda x, r: list(_it.combinations(list(I.iterate(x)), r)),
        "combinations_with_replacement": lambda x, r: list(_it.combinations_with_replacement(list(I.iterate(x)), r)),
        "permutations": lambda x, *r: list(_it.permutations(list(I.iterate(x)), *r)),
        "takewhile": lambda f, x: run(lambda it: _it.takewhile(pred(f), it), x),
        "dropwhile": lambda f, x: run(lambda it: _it.dropwhile(pred(f), it), x),
        "filterfalse": lambda f, x: run(lambda it: (v for v in it if not pred(f)(v)), x),
        "compress": lambda x, s: run(lambda a, b: (v for v, c in zip(a, b) if truth(c)), x, s),
        "tee": lambda x, n=2: tuple(iter(list(I.iterate(x))) for _ in range(n)),
        "groupby": groupby,
        "batched": lambda x, n: [tuple(v) for v in _batched(list(I.iterate(x)), n)],
    }
    itn = {k: B("itertools." + k, v) for k, v in itn.items()}
    itn["chain"] = WithAttrs("itertools.chain", itn["chain"].f, {"from_iterable": B("from_iterable", lambda x: run(lambda *i: _it.chain(*i), *list(I.iterate(x))))})

    def itemgetter(*k):
        return B("itemgetter()", lambda o: I.subscript(o, k[0]) if len(k) == 1 else tuple(I.subscript(o, q) for q in k))

    def attrgetter(*ks):
        def one(o, k):
            for p in k.split("."):
                o = I.getattr(o, p)
            return o
        return B("attrgetter()", lambda o: one(o, ks[0]) if len(ks) == 1 else tuple(one(o, k) for k in ks))

    ops = {"itemgetter": itemgetter, "attrgetter": attrgetter,
           "methodcaller": lambda n, *a, **k: B("methodcaller()", lambda o: C(I.getattr(o, n), list(a), k)),
           "getitem": lambda o, k: I.subscript(o, k), "setitem": lambda o, k, v: I.set_subscript(o, k, v),
           "contains": lambda o, v: I.compare("In", v, o), "not_": lambda v: not truth(v), "truth": lambda v: truth(v),
           "is_": lambda a, b: I.compare("Is", a, b), "is_not": lambda a, b: I.compare("IsNot", a, b),
           "neg": lambda v: I.unary("USub", v), "pos": lambda v: v, "invert": lambda v: I.unary("Invert", v), "inv": lambda v: I.unary("Invert", v),
           "abs": lambda v: C(I.builtins["abs"], [v], {}), "index": lambda v: to_int(v), "concat": lambda a, b: I.binop("Add", a, b)}
    for n, o in dict(add="Add", sub="Sub", mul="Mult", truediv="Div", floordiv="FloorDiv", mod="Mod", pow="Pow", matmul="MatMult", and_="BitAnd",
                     or_="BitOr", xor="BitXor", lshift="LShift", rshift="RShift").items():
        ops[n] = (lambda o: lambda a, b: I.binop(o, a, b))(o)
        ops["i" + n.rstrip("_")] = (lambda o: lambda a, b: I.aug(o, a, b))(o)
    for n, o in dict(lt="Lt", le="LtE", gt="Gt", ge="GtE", eq="Eq", ne="NotEq").items():
        ops[n] = (lambda o: lambda a, b: I.compare(o, a, b))(o)
    ops = {k: B("operator." + k, v) for k, v in ops.items()}

    def namedtuple(name, fields, *, defaults=(), rename=False, module=None):
        fs = fields.replace(",", " ").split() if isinstance(fields, str) else list(I.iterate(fields))
        return make_namedtuple(I, name, fs, tuple(I.iterate(defaults or ())))

    co = {"namedtuple": B("namedtuple", namedtuple),
          "defaultdict": B("defaultdict", lambda f=None, *a, **k: DefaultDict(I, f, dict(*[x if isinstance(x, dict) else I.iterate(x) for x in a], **k))),
          "OrderedDict": B("OrderedDict", lambda *a, **k: dict(*[x if isinstance(x, dict) else I.iterate(x) for x in a], **k)),
          "deque": B("deque", lambda x=(), maxlen=None: Deque(I.iterate(x)) if maxlen is None else _undecided("deque maxlen")),
          "Counter": B("Counter", lambda x=(): _co.Counter([I.hashable(v) for v in I.iterate(x)])),
          "ChainMap": B("ChainMap", lambda *m: {k: v for d in reversed(m) for k, v in d.items()}),
          "abc": NS("collections.abc", {})}

    def contextmanager(f):
        make = B("contextmanager()", lambda *a, **k: CtxFn(I, f, list(a), k))
        return I.wrap(f, "return make(*args, **kwargs)", make=make)

    class Null(CM):
        def __init__(self, v=None):
            self.v = v

        def sa_enter(self, interp):
            return self.v

        def sa_exit(self, interp, exc=None):
            return False

    class Suppress(CM):
        def __init__(self, *c):
            self.names = [x.name for x in c]

        def sa_enter(self, interp):
            return None

        def sa_exit(self, interp, exc=None):
            return exc is not None and (getattr(exc.exc, "cls", None) in self.names or "Exception" in self.names)

    cl = {"contextmanager": B("contextmanager", contextmanager), "nullcontext": B("nullcontext", lambda v=None: Null(v)),
          "suppress": B("suppress", lambda *c: Suppress(*c))}

    def dc(c=None, **k):
        return dataclass(I, c) if c is not None else B("dataclass()", lambda c: dataclass(I, c))

    def replace(o, **k):
        if isinstance(o, Obj):
            n = o.cls.lookup("__dataclass_fields__")[0]
            return I.instantiate(o.cls, [], {**{f: o.attrs[f] for f in n}, **k})
        raise Undecided("replace")

    dcs = {"dataclass": B("dataclass", dc), "field": B("field", lambda **k: FieldSpec(**k)), "replace": B("replace", replace),
           "asdict": B("asdict", lambda o: {n: o.attrs[n] for n in o.cls.lookup("__dataclass_fields__")[0]}),
           "astuple": B("astuple", lambda o: tuple(o.attrs[n] for n in o.cls.lookup("__dataclass_fields__")[0]))}

    def wraps(f, *a, **k):
        def deco(g):
            if isinstance(g, Func) and isinstance(f, Func):
                g.attrs.setdefault("__wrapped__", f)
                g.attrs["__name__"] = f.name
                g.attrs["__doc__"] = docstring(f.node)
            return g
        return B("wraps()", deco)

    class Dispatch(Abstract):
        def __init__(self, f):
            self.f, self.table = f, []

        def sa_getattr(self, interp, name):
            if name == "register":
                return B("register", self.register)
            return interp.getattr(self.f, name)

        def register(self, k, g=None):
            if g is not None:
                self.table.append((k, g))
                return g
            if isinstance(k, Func):
                a = k.node.args.args[0].annotation
                if a is None:
                    raise Undecided("singledispatch without annotation")
                self.table.append((I.eval(a, k.env or k.module.env), k))
                return k
            return B("register()", lambda f: self.register(k, f))

        def sa_call(self, interp, args, kw):
            hit = [(k, g) for k, g in self.table if interp.must(C(I.builtins["isinstance"], [args[0], k], {}))]
            if not hit:
                return C(self.f, args, kw)
            best = hit[0]
            for k, g in hit[1:]:
                if isinstance(k, ClassVal) and isinstance(best[0], ClassVal) and best[0] in k.mro:
                    best = (k, g)
            return C(best[1], args, kw)

    ft = {"wraps": B("wraps", wraps), "cached_property": B("cached_property", lambda f: CachedProperty(f)),
          "singledispatch": B("singledispatch", lambda f: Dispatch(f)),
          "update_wrapper": B("update_wrapper", lambda g, f, *a, **k: wraps(f).f(g)),
          "partialmethod": B("partialmethod", lambda *a, **k: _undecided("partialmethod")),
          "total_ordering": B("total_ordering", lambda c: c),
          "cmp_to_key": B("cmp_to_key", lambda f: _undecided("cmp_to_key"))}

    ty = {"NamedTuple": Opaque("typing.NamedTuple"), "TYPE_CHECKING": False, "cast": B("cast", lambda t, v: v),
          "overload": B("overload", lambda f: f), "final": B("final", lambda f: f), "no_type_check": B("no_type_check", lambda f: f),
          "Generic": NativeClass("Generic"), "Protocol": NativeClass("Protocol"), "NewType": B("NewType", lambda n, t: B(n, lambda v: v)),
          "TypeVar": B("TypeVar", lambda *a, **k: Opaque("TypeVar")), "runtime_checkable": B("runtime_checkable", lambda c: c)}
    en = {"auto": B("auto", lambda: AUTO), "unique": B("unique", lambda c: c)}
    return dict(itertools=itn, operator=ops, collections=co, contextlib=cl, dataclasses=dcs, functools=ft, typing=ty, enum=en)


def _undecided(m):
    raise Undecided(m)


def _batched(xs, n):
    for i in range(0, len(xs), n):
        yield xs[i:i + n]


class WithAttrs(Abstract):
    """a callable of the standard library that also has attributes"""

    def __init__(self, name, f, attrs):
        self.name, self.f, self.attrs = name, f, attrs

    def sa_call(self, I, args, kw):
        return self.f(*args, **kw)

    def sa_getattr(self, I, name):
        if name in self.attrs:
            return self.attrs[name]
        raise Undecided(f"{self.name}.{name}")


class DefaultDict(dict):
    def __init__(self, I, f, d):
        super().__init__(d)
        self.I, self.f = I, f

    def __missing__(self, k):
        if self.f is None:
            raise KeyError(k)
        self.I._log("dict", self, None, dict(self))
        v = self.I.call(self.f, [], {})
        self[k] = v
        return v


class Deque(list):
    pass


def docstring(node):
    try:
        return ast.get_docstring(node, clean=False)
    except TypeError:
        return None


PY_BUILTINS = set(dir(_bi))

# what torch.nn.Module offers beyond the methods modelled
MODULE_NAMES = set("""add_module apply bfloat16 buffers call_super_init children compile cpu cuda double dump_patches eval extra_repr float forward
get_buffer get_extra_state get_parameter get_submodule half ipu load_state_dict modules mtia named_buffers named_children named_modules
named_parameters parameters register_backward_hook register_buffer register_forward_hook register_forward_pre_hook register_full_backward_hook
register_full_backward_pre_hook register_load_state_dict_post_hook register_module register_parameter register_state_dict_pre_hook requires_grad_
set_extra_state set_submodule share_memory state_dict to to_empty train training type xpu zero_grad""".split())
