"""C37: the package, its examples and its tutorial use names and signatures that exist."""
import ast
import warnings
import builtins
import os
import re
import symtable
from sa.interp import REPO
from sa.report import *

# what torch and pyro modules and autograd functions bring along
TORCH = set("""parameters named_parameters buffers named_buffers modules named_modules children named_children to cpu cuda double float half
type train eval training state_dict load_state_dict zero_grad requires_grad_ register_parameter register_buffer register_module add_module
register_forward_hook register_full_backward_hook register_backward_hook register_forward_pre_hook apply extra_repr get_parameter get_submodule
get_buffer share_memory forward dump_patches _parameters _buffers _modules compile call_super_init named_pyro_params mode save_for_backward
saved_tensors saved_variables needs_input_grad mark_dirty mark_non_differentiable set_materialize_grads once_differentiable non_persistent_buffers_set _pyro_samples _pyro_params _pyro_name _pyro_context""".split())


warnings.simplefilter("ignore", SyntaxWarning)


class Pack:
    """the package: modules, their definitions and imports"""

    def __init__(self):
        self.trees, self.defs, self.imports, self.extra, self.text, self.dyn = {}, {}, {}, {}, {}, {}
        root = os.path.join(REPO, "pyoptmat")
        for f in sorted(os.listdir(root)):
            if f.endswith(".py"):
                m = f[:-3]
                self.text[m] = open(os.path.join(root, f)).read()
                self.trees[m] = ast.parse(self.text[m])
        for m, t in self.trees.items():
            self.defs[m] = {}
            for n in t.body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.defs[m][n.name] = n
            # other names a module has; "*" when they cannot be listed
            self.extra[m] = set()
            for n in ast.walk(t):
                if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                    self.extra[m].add("*")
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "exec"):
                    self.extra[m].add("*")
            if "__getattr__" in self.defs[m]:
                self.extra[m].add("*")
            st = symtable.symtable(self.text[m], m, "exec")
            self.extra[m] |= {s.get_name() for s in st.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
            self.extra[m] |= {s.get_name() for c in walk(st) for s in c.get_symbols() if s.is_declared_global() and s.is_assigned()}
            self.imports[m] = imports(t)
        self.options = {a.arg for t in self.trees.values() for n in ast.walk(t) if isinstance(n, (ast.FunctionDef, ast.Lambda))
                        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        self.options |= {n.value for t in self.trees.values() for n in ast.walk(t) if isinstance(n, ast.Constant) and isinstance(n.value, str)}

    def has(self, m, name):
        return name in self.defs[m] or name in self.extra[m] or "*" in self.extra[m]

    def lookup(self, m, name, seen=()):
        """definition of a name of a module: (module, node) or None"""
        if (m, name) in seen or m not in self.defs:
            return None
        if name in self.defs[m]:
            n = self.defs[m][name]
            # bound again elsewhere in the module: not certain
            if sum(1 for x in ast.walk(self.trees[m]) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)):
                return None
            return m, n
        i = self.imports[m].get(name)
        if i and i[0] == "name":
            return self.lookup(i[1], i[2], seen + ((m, name),))
        return None

    def bases(self, m, c):
        """(package bases, are there others)"""
        out, other = [], False
        for b in c.bases:
            r = self.resolve(m, b)
            if r and isinstance(r[1], ast.ClassDef):
                out.append(r)
            elif not (isinstance(b, ast.Name) and b.id == "object"):
                other = True
        return out, other

    def mro(self, m, c):
        out, other, todo = [], False, [(m, c)]
        while todo:
            x = todo.pop(0)
            if any(x[1] is y[1] for y in out):
                continue
            out.append(x)
            b, o = self.bases(*x)
            other |= o
            todo = b + todo
        return out, other

    def method(self, m, c, name):
        """(module, node) of a method; None if there is none in the package"""
        for mm, cc in self.mro(m, c)[0]:
            for n in cc.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return mm, n
        return None

    def resolve(self, m, e):
        """definition an expression of a module names"""
        if isinstance(e, ast.Name):
            return self.lookup(m, e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            i = self.imports[m].get(e.value.id)
            if i and i[0] == "module":
                return self.lookup(i[1], e.attr)
        return None


def walk(st):
    yield st
    for c in st.get_children():
        yield from walk(c)


def imports(t):
    """local name -> ("module", m) or ("name", m, name)"""
    out = {}
    for n in ast.walk(t):
        if isinstance(n, ast.ImportFrom):
            mod = n.module or ""
            if mod == "pyoptmat" or n.level and not mod:
                for a in n.names:
                    out[a.asname or a.name] = ("module", a.name)
            elif mod.startswith("pyoptmat.") or n.level:
                m = mod.split(".")[-1]
                for a in n.names:
                    out[a.asname or a.name] = ("name", m, a.name)
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.name.startswith("pyoptmat.") and a.asname:
                    out[a.asname] = ("module", a.name.split(".")[1])
    # names bound in another way as well are not certain
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.pop(n.id, None)
        elif isinstance(n, ast.arg):
            out.pop(n.arg, None)
    return out


class Unit:
    """one source text that uses the package"""

    def __init__(self, name, tree, text, module=None):
        self.name, self.tree, self.text, self.module = name, tree, text, module
        self.imports = imports(tree)


def signature_problem(call, fn, skip, options):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    kwo = [x.arg for x in a.kwonlyargs]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    given = [x for x in call.args if not isinstance(x, ast.Starred)]
    kws = [k.arg for k in call.keywords if k.arg is not None]
    if len(given) > len(pos) and not a.vararg:
        return f"{len(given)} arguments for {len(pos)} parameters"
    for k in kws:
        if k in pos[:len(given)] or kws.count(k) > 1:
            return f"the parameter {k} is given twice"
        if k not in pos + kwo or k in [x.arg for x in a.posonlyargs]:
            if not a.kwarg:
                return f"there is no parameter {k}"
            if k not in options:
                return f"the option {k} is known nowhere in the package"
    if not star and not dstar:
        need = pos[:max(0, len(pos) - len(a.defaults))]
        miss = [n for n in need[len(given):] if n not in kws] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in kws]
        if miss:
            return f"the parameter {miss[0]} is not given"
    return None


def plain(fn):
    """decorators that keep the signature"""
    return all(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") or isinstance(d, ast.Attribute) and d.attr in ("abstractmethod", "no_grad", "once_differentiable", "jit", "wraps")
               for d in fn.decorator_list)


def has_deco(fn, *names):
    return any((isinstance(d, ast.Name) and d.id in names) or (isinstance(d, ast.Attribute) and d.attr in names) for d in fn.decorator_list)


def scopes(tree):
    """(scope node, statements' own nodes) for the module and every function"""
    yield tree
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n


def own(scope):
    """nodes of a scope without those of inner functions and classes"""
    todo = list(ast.iter_child_nodes(scope))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            todo += list(ast.iter_child_nodes(n))


def run(rep):
    rep.minimum = 400
    rep.rule("names", "every name imported from, or looked up in, a module of the package is defined there; the same for the cross references of the documentation")
    rep.rule("calls", "every call of a function, class or method of the package can be bound to its signature, and an option handed on is known to the package")
    rep.rule("results", "the results of a call of the package are unpacked into as many names as it returns")
    rep.rule("attributes", "every attribute an object of the package reads from itself is a member of its class or set somewhere")
    rep.rule("defined", "every name read in a function of the package is bound in an enclosing scope, the module or the builtins")
    rep.assume("objects are used through the names they are bound to; attributes of torch and pyro base classes are taken from a list")
    P = Pack()
    root = os.path.join(REPO, "pyoptmat")
    units = [Unit(f"pyoptmat/{m}.py", t, P.text[m], m) for m, t in P.trees.items()]
    ex = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "examples"))):
        for f in sorted(fs):
            if f.endswith(".py"):
                ex.append(os.path.join(d, f))
    for p in ex:
        nm = os.path.relpath(p, REPO)
        text = open(p).read()
        try:
            units.append(Unit(nm, ast.parse(text), text))
        except SyntaxError as e:
            rep.bad("names", nm, "syntax", f"{nm}:{e.lineno}", "the example cannot be parsed")
    docs = os.path.join(REPO, "doc", "sphinx")
    for f in sorted(os.listdir(docs)) if os.path.isdir(docs) else ():
        if f.endswith(".rst"):
            text = open(os.path.join(docs, f)).read()
            references(rep, P, f"doc/sphinx/{f}", text)
            code, lines = blocks(text)
            if code.strip():
                try:
                    units.append(Unit(f"doc/sphinx/{f}", ast.parse(code), code))
                except SyntaxError as e:
                    rep.und("names", f"doc/sphinx/{f}", "code", f"the code blocks do not parse (line {e.lineno})")
    for u in units:
        usage(rep, P, u)
    for m in P.trees:
        attributes(rep, P, m)
        defined(rep, P, m)


def references(rep, P, nm, text):
    for k, line in enumerate(text.split("\n"), 1):
        for q in re.finditer(r"(?:auto(?:module|class|function|method)::\s*|:(?:func|class|mod|meth|py:class|py:mod|py:func|py:meth):`~?)(pyoptmat[\w.]*)", line):
            parts = q.group(1).split(".")[1:]
            good = not parts or parts[0] in P.trees and (len(parts) == 1 or P.has(parts[0], parts[1]))
            if good and len(parts) == 3:
                r = P.lookup(parts[0], parts[1])
                good = not r or not isinstance(r[1], ast.ClassDef) or P.method(*r, parts[2]) is not None or P.mro(*r)[1]
            rep.fact("names", nm, f"line {k}: {q.group(1)}", good, f"{nm}:{k}", f"{q.group(1)} does not exist")


def blocks(text):
    """the Python of the code blocks, each line at its own line number"""
    out, ls = [], text.split("\n")
    k = 0
    res = [""] * len(ls)
    while k < len(ls):
        if re.match(r"\.\. code-block:: python", ls[k]):
            k += 1
            a = k
            while k < len(ls) and (not ls[k].strip() or re.match(r"\s+", ls[k])):
                k += 1
            d = min([len(x) - len(x.lstrip()) for x in ls[a:k] if x.strip()] or [0])
            res[a:k] = [x[d:] for x in ls[a:k]]
        else:
            k += 1
    return "\n".join(res), None


def usage(rep, P, u):
    """imports, attributes of modules and calls in one source text"""
    where = lambda n: f"{u.name}:{n.lineno}"
    for n in ast.walk(u.tree):
        if isinstance(n, ast.ImportFrom) and ((n.module or "").split(".")[0] == "pyoptmat" or n.level):
            parts = (n.module or "").split(".") if not n.level else ["pyoptmat"] + ((n.module or "").split(".") if n.module else [])
            for a in n.names:
                if len(parts) == 1:
                    good = a.name in P.trees or a.name in P.extra.get("__init__", ())
                else:
                    good = parts[1] in P.trees and (a.name == "*" or P.has(parts[1], a.name))
                rep.fact("names", u.name, f"import of {'.'.join(parts[1:] + [a.name])}", good, where(n), f"{'.'.join(parts + [a.name])} does not exist")
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.name.startswith("pyoptmat."):
                    rep.fact("names", u.name, f"import of {a.name}", a.name.split(".")[1] in P.trees, where(n), f"{a.name} does not exist")
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and u.imports.get(n.value.id, ("",))[0] == "module":
            m = u.imports[n.value.id][1]
            if m in P.trees and isinstance(n.ctx, ast.Load):
                rep.fact("names", u.name, f"{m}.{n.attr}", P.has(m, n.attr), where(n), f"the module {m} has no {n.attr}")
    # calls
    classes = {}
    for c in ast.walk(u.tree):
        if isinstance(c, ast.ClassDef):
            for f in c.body:
                if isinstance(f, ast.FunctionDef):
                    for x in ast.walk(f):
                        classes.setdefault(x, (c, f))
    unpacked = {}
    for n in ast.walk(u.tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts):
                    unpacked[n.value] = len(t.elts)
    for s in scopes(u.tree):
        nodes = list(own(s))
        local = bound(s) if not isinstance(s, ast.Module) else set()
        inst = instances(P, u, s, nodes)
        for n in nodes:
            if not isinstance(n, ast.Call):
                continue
            target = called(rep, P, u, n, local, inst, classes)
            if target is not None and n in unpacked:
                results(rep, u, n, target, unpacked[n])


def results(rep, u, n, fn, k):
    """the number of values a call is unpacked into"""
    lens = set()
    for x in own(fn):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return
        if isinstance(x, ast.Return):
            lens.add(len(x.value.elts) if isinstance(x.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in x.value.elts) else None)
    if len(lens) == 1 and None not in lens and has_no_deco(fn):
        have = lens.pop()
        rep.fact("results", u.name, f"{fn.name} in line {n.lineno}", have == k, f"{u.name}:{n.lineno}", f"the {have} results of {fn.name} are unpacked into {k}")


def has_no_deco(fn):
    return all(has_deco(fn, "staticmethod", "classmethod", "no_grad") for _ in fn.decorator_list)


def bound(f):
    """names bound in a function and the functions around it are not looked up in the module"""
    out = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
            out.add(n.name)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
    return out


def resolve(P, u, e, local):
    b = e.id if isinstance(e, ast.Name) else e.value.id if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) else None
    if b is None or b in local:
        return None
    if u.module:
        return P.resolve(u.module, e)
    i = u.imports.get(b)
    if not i:
        return None
    if i[0] == "module" and isinstance(e, ast.Attribute):
        return P.lookup(i[1], e.attr)
    if i[0] == "name" and isinstance(e, ast.Name):
        return P.lookup(i[1], i[2])
    return None


def instances(P, u, s, nodes):
    """local name -> (module, class), for names only ever bound to a new object of one class"""
    stores, out = {}, {}
    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            stores[n.id] = stores.get(n.id, 0) + 1
    loc = set(stores) if not isinstance(s, ast.Module) else set()
    for n in nodes:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
            r = resolve(P, u, n.value.func, loc if not isinstance(s, ast.Module) else set())
            if r and isinstance(r[1], ast.ClassDef) and stores[n.targets[0].id] == 1 and not new_makes_other(P, *r):
                out[n.targets[0].id] = r
    if not isinstance(s, ast.Module):
        for a in [x.arg for x in s.args.args]:
            out.pop(a, None)
    return out


def new_makes_other(P, m, c):
    return P.method(m, c, "__new__") is not None or c.keywords != []


def called(rep, P, u, n, local, inst, classes):
    w = f"{u.name}:{n.lineno}"
    f = n.func
    r = resolve(P, u, f, local)
    target, skip, name = None, 0, ""
    if r:
        m, d = r
        name = f"{m}.{d.name}"
        if isinstance(d, ast.ClassDef):
            if d.decorator_list or new_makes_other(P, m, d):
                return
            i = P.method(m, d, "__init__")
            if not i:
                return
            # an external base in front could bring its own
            target, skip = i[1], 1
        else:
            target = d
    elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in inst and f.value.id:
        c = inst[f.value.id]
        target, skip, name = member(rep, P, u, n, c, f.attr, w)
    elif isinstance(f, ast.Name) and f.id in inst:
        c = inst[f.id]
        q = P.method(*c, "forward") if P.method(*c, "__call__") is None else P.method(*c, "__call__")
        if q:
            target, skip, name = q[1], 1, f"{c[0]}.{c[1].name}"
    elif isinstance(f, ast.Attribute) and n in classes and u.module:
        c, meth = classes[n]
        first = meth.args.args[0].arg if meth.args.args else None
        if isinstance(f.value, ast.Name) and f.value.id == first and not has_deco(meth, "staticmethod") and c in u.tree.body:
            if f.attr in set_members(P, u.module, c)[0]:
                return
            q = P.method(u.module, c, f.attr)
            if q and not has_deco(q[1], "property"):
                target, name = q[1], f"{u.module}.{c.name}.{f.attr}"
                skip = 0 if has_deco(q[1], "staticmethod") else 1
        elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and not f.value.args and c in u.tree.body:
            b, other = P.bases(u.module, c)
            if len(b) == 1 and not other:
                q = P.method(*b[0], f.attr)
                if q:
                    target, name = q[1], f"{b[0][0]}.{b[0][1].name}.{f.attr}"
                    skip = 0 if has_deco(q[1], "staticmethod") else 1
    if target is None or not plain(target):
        return
    p = signature_problem(n, target, skip, P.options)
    rep.fact("calls", u.name, f"{name} in line {n.lineno}", p is None, w, f"call of {name}: {p}")
    return None if r and isinstance(r[1], ast.ClassDef) else target


def member(rep, P, u, n, c, attr, w):
    q = P.method(*c, attr)
    if q:
        if has_deco(q[1], "property"):
            return None, 0, ""
        rep.ok("attributes", u.name, f"{c[1].name}.{attr} in line {n.lineno}")
        return q[1], 0 if has_deco(q[1], "staticmethod") else 1, f"{c[0]}.{c[1].name}.{attr}"
    names, dyn = set_members(P, *c)
    if attr not in names and not dyn:
        good = P.mro(*c)[1] and attr in TORCH
        rep.fact("attributes", u.name, f"{c[1].name}.{attr} in line {n.lineno}", good, w, f"objects of {c[0]}.{c[1].name} have no {attr}")
    return None, 0, ""


def related(P, m, c):
    """the class, its bases and everything derived from any of them"""
    fam = list(P.mro(m, c)[0])
    for mm, t in P.trees.items():
        for n in ast.walk(t):
            if isinstance(n, ast.ClassDef) and not any(n is x[1] for x in fam) and any(y[1] is c for y in P.mro(mm, n)[0]):
                for z in P.mro(mm, n)[0]:
                    if not any(z[1] is x[1] for x in fam):
                        fam.append(z)
    return fam


CACHE = {}


def set_members(P, m, c):
    """(names set on objects of a class or its relatives, names that cannot be listed)"""
    k = id(c)
    if k in CACHE:
        return CACHE[k]
    names, dyn = set(), False
    for mm, cc in related(P, m, c):
        if cc.decorator_list:
            dyn = True
        for n in cc.body:
            for x in ast.walk(n) if not isinstance(n, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
            if isinstance(n, ast.FunctionDef) and n.name in ("__getattr__", "__getattribute__"):
                dyn = True
        for x in ast.walk(cc):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.attr)
            elif isinstance(x, ast.Attribute) and x.attr == "__dict__":
                dyn = True
            elif isinstance(x, ast.Call):
                g = x.func
                nm = g.id if isinstance(g, ast.Name) else g.attr if isinstance(g, ast.Attribute) else ""
                if nm in ("setattr", "__setattr__", "register_buffer", "register_parameter", "add_module", "register_module"):
                    lits = [a.value for a in x.args[:2] if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                    names |= set(lits)
                    dyn |= not lits
                elif nm == "vars":
                    dyn = True
    CACHE[k] = names, dyn
    return CACHE[k]


def attributes(rep, P, m):
    for c in P.trees[m].body:
        if not isinstance(c, ast.ClassDef):
            continue
        names, dyn = set_members(P, m, c)
        fam = related(P, m, c)
        methods = {n.name for _, cc in fam for n in cc.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        other = any(P.mro(mm, cc)[1] for mm, cc in fam)
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or has_deco(f, "staticmethod") or not f.args.args:
                continue
            me = f.args.args[0].arg
            seen = set()
            if any(isinstance(n, ast.Name) and n.id == me and isinstance(n.ctx, ast.Store) for n in ast.walk(f)):
                continue
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load) and n.attr not in seen:
                    seen.add(n.attr)
                    a = n.attr
                    good = a in names or a in methods or a.startswith("__") or dyn or other and a in TORCH
                    rep.fact("attributes", f"{m}.{c.name}", f"{f.name}: {a}", good, f"pyoptmat/{m}.py:{n.lineno} (pyoptmat.{m}.{c.name}.{f.name})", f"{a} is read but never set on objects of {c.name}")


def defined(rep, P, m):
    if "*" in P.extra[m]:
        return
    st = symtable.symtable(P.text[m], f"{m}.py", "exec")
    known = P.extra[m] | set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__spec__", "__package__", "__class__", "__module__", "__qualname__"}
    lines = {}
    for n in ast.walk(P.trees[m]):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            lines.setdefault(n.id, n.lineno)
    for sc in walk(st):
        for s in sc.get_symbols():
            if not s.is_referenced():
                continue
            free = s.is_global() if sc.get_type() != "module" else not (s.is_assigned() or s.is_imported() or s.is_namespace())
            if free:
                nm = s.get_name()
                rep.fact("defined", f"{m}.{sc.get_name() if sc.get_type() != 'module' else '<module>'}", f"{nm} (line {sc.get_lineno()})", nm in known, f"pyoptmat/{m}.py:{lines.get(nm, sc.get_lineno())} (pyoptmat.{m}.{sc.get_name()})", f"{nm} is not defined")
