"""C27: no hidden state between calls."""
import ast
import os
from .effects import *

# functions documented to draw at random
RANDOM = ("experiments.generate_random_tension", "experiments.generate_random_cycle")
MUTATE = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "discard", "popitem", "sort", "reverse"}
DRAWS = {"rand", "randn", "randint", "random", "uniform", "normal", "randperm", "bernoulli", "multinomial", "poisson", "choice", "shuffle", "permutation", "standard_normal",
         "rand_like", "randn_like", "randint_like", "normal_", "uniform_", "bernoulli_", "exponential_", "log_normal_", "random_", "default_rng", "dropout", "rsample", "uniform_"}
GLOBAL = {"set_default_dtype", "set_default_device", "set_default_tensor_type", "set_grad_enabled", "manual_seed", "seed", "set_num_threads", "use_deterministic_algorithms",
          "seterr", "simplefilter", "filterwarnings", "set_rng_state", "clear_param_store", "set_rng_seed", "putenv", "set_printoptions"}


def run(rep):
    rep.minimum = 700
    rep.rule("state", "no function writes a variable of a module or class, an attribute of a function, or a setting of the process")
    rep.rule("defaults", "no function changes the objects its default arguments hold, and no call changes what modules, classes and defaults hold")
    rep.rule("random", "nothing is drawn at random outside the random test generators and the sampling sites of the statistical models")
    rep.rule("history", "a second call with other values in the same tensors and parameters gives what the first call gives for those values")
    rep.rule("kept", "a later call with other values leaves the results of an earlier one as they are")
    rep.rule("sizes", "after a call with one batch shape the same object gives for another batch shape what a new object gives")
    rep.assume("components and functions handed in keep no state themselves")
    rep.assume("an object's memory that was set up at construction changes with the values it was constructed from")
    source(rep)
    thorough = rep.tier == "thorough"
    for b in [(SymSize("B"),), (2,)] + ([(), (1,), (2, 2), (SymSize("N"), SymSize("B"))] if thorough else []):
        I = fresh_interp()
        for c in pointwise(I, b):
            if c.kind == "piecewise" and any(isinstance(d_, SymSize) for d_ in b):
                continue
            one(rep, I, c, bl(b) if any(isinstance(d_, SymSize) for d_ in b) else f"batch {fmtshape(b)}")
    I = fresh_interp()
    for c in others(I):
        one(rep, I, c, "")
    for b1, b2 in [((2,), (3,)), ((3,), (2,)), ((2,), (2, 2))] + ([((2, 2), (2,)), ((1,), (2,)), ((2,), (1,)), ((2, 3), (3, 2))] if thorough else []):
        resized(rep, b1, b2)
    integrated(rep)
    calibrated(rep)
    driven(rep)


def resized(rep, b1, b2, rule="sizes"):
    I = fresh_interp()
    k = Keep()
    with k:
        first = list(pointwise(I, b1))
    with k:
        second = list(pointwise(I, b2))
    for c1, c2, c3 in zip(first, second, pointwise(fresh_interp(), b2)):
        if (c1.construct, c1.key) != (c2.construct, c2.key) or (c2.construct, c2.key) != (c3.construct, c3.key):
            rep.und(rule, c2.construct, f"{c2.key}, batch {fmtshape(b2)} after {fmtshape(b1)}", "the enumerations differ")
            return
        if c1.kind in ("random", "print") or c1.construct == "models.BothBasedModel":
            continue
        same(rep, c2, f"{c2.key}, batch {fmtshape(b2)} after {fmtshape(b1)}", c3, c1, rule)


def integrated(rep):
    """integrations of several sizes one after another, against each on its own"""
    I = fresh_interp()
    for k, c in enumerate(integrations(I)):
        it = integrations(fresh_interp())
        for _ in range(k + 1):
            alone = next(it)
        same(rep, c, c.key + ", after others", alone)


def calibrated(rep, rule="sizes"):
    """the calibration wrappers and the model integrator on one set of tests after another"""
    from .proba import Data, Hier, Maker, prior
    from .c24 import make_single
    params = [("B", 1), ("A", 0)]

    def data(I, mix, nt):
        return Data(I, mix, "D", nt)

    def deterministic(I, D, noise):
        mk = Maker(D.nt, D.nb, "D")
        o = I.call(I.get("optimize.DeterministicModel"), [mk.value(), [n for n, _ in params], [prior(f"ic_{n}", d, "D") for n, d in params]], {})
        return o, mk, lambda D: [I.call(o, D.args(), {})]

    def single(I, D, noise):
        _, o, mk, _, _ = make_single(I, params, noise, D.types)

        def run(D):
            I.world.run(o, *(D.args() + [D.obs]))
            return sitevalues(I.world.sites)
        return o, mk, run

    def hierarchical(I, D, noise):
        H = Hier(I, params, D, noise, noise == "type", None, {t: 2.0 + k for k, t in enumerate(D.codes)} if noise == "type" else None)

        def run(D):
            H.data = D
            r, s, _ = H.run_model()
            return [r] + sitevalues(s)
        return H.o, H.maker, run

    for cn, mk, noises in (("optimize.DeterministicModel", deterministic, ("",)), ("optimize.StatisticalModel", single, ("scalar", "type")), ("optimize.HierarchicalStatisticalModel", hierarchical, ("scalar", "type"))):
        for noise in noises:
            for one_, two in (((("tensile", "creep"), 4), (("creep", "relaxation", "tensile"), 4)), ((("tensile", "creep"), 4), (("creep", "tensile"), 4)), ((("stress_cyclic", "creep", "tensile"), 4), (("creep",), 4)), ((("tensile", "creep"), 4), (("tensile", "creep"), 5))):
                I, I2 = fresh_interp(), fresh_interp()
                made_ = {}

                def again(I=I, made_=made_, two=two):
                    D = data(I, *two)
                    made_["mk"].nt, made_["mk"].nb = D.nt, D.nb
                    return made_["run"](D)

                def first(I=I, made_=made_, one_=one_):
                    D = data(I, *one_)
                    _, made_["mk"], made_["run"] = mk(I, D, noise)
                    made_["mk"].nt, made_["mk"].nb = D.nt, D.nb
                    return made_["run"](D)

                def only(I=I2, two=two):
                    D = data(I, *two)
                    _, m, run = mk(I, D, noise)
                    m.nt, m.nb = D.nt, D.nb
                    return run(D)
                w = mwhere(I.get(cn), "forward")
                key = f"{noise + ' noise, ' if noise else ''}{','.join(two[0])} at {two[1]} times after {','.join(one_[0])} at {one_[1]} times"
                same(rep, Case(cn, key, w, {}, again), key, Case(cn, key, w, {}, only), Case(cn, key, w, {}, first), rule)


def driven(rep):
    """one model integrator for experiments of several sizes"""
    I = fresh_interp()
    k = Keep()
    with k:
        first = list(drives(I))
    k.log = [k.log[j ^ 1] for j in range(len(k.log))]
    with k:
        second = list(drives(I))
    for j, (c, alone) in enumerate(zip(second, drives(fresh_interp()))):
        same(rep, c, c.key + ", after the other size", alone, first[j ^ 1])


def same(rep, c, key, alone, before=None, rule="sizes"):
    """the case gives what it gives alone"""
    with rep.guard(rule, c.construct, key):
        try:
            if before is not None:
                before.call()
            want = image(alone.call())
        except (PyRaise, ShapeError) as e:
            raise Undecided(f"a call on its own: {e}")
        got = image(c.call())
        if [s for s, _ in want] != [s for s, _ in got]:
            rep.bad(rule, c.construct, key, c.where, f"results of shape {', '.join(fmtshape(s) for s, _ in got)} instead of {', '.join(fmtshape(s) for s, _ in want)}")
            return
        n, und = 0, None
        for (_, a), (_, b) in zip(want, got):
            for x, y in zip(a, b):
                n += 1
                if T(x) is T(y):
                    continue
                v = tm.equal(T(x), T(y))
                if v.status == tm.DIFFERENT:
                    rep.bad(rule, c.construct, key, c.where, f"the result is {short(y)} instead of {short(x)}: it depends on the earlier call")
                    return
                if v.status != tm.PROVED:
                    und = und or v.how
        if und:
            rep.und(rule, c.construct, key, und)
        else:
            rep.ok(rule, c.construct, key, f"{n} values")


# ------------------------------------------------------------------- source
class Fn:
    def __init__(self, mod, path, qual, node, local, cls):
        self.mod, self.path, self.qual, self.node, self.local, self.cls = mod, path, qual, node, local, cls


def functions(repo):
    """every function of the package with its local names"""
    d = os.path.join(repo, "pyoptmat")
    mods = {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            with open(os.path.join(d, f)) as fh:
                mods[f[:-3]] = ast.parse(fh.read())
    out = []
    tops = {}
    for m, tree in mods.items():
        tops[m] = set()
        classes = set()
        for st in ast.walk(tree):
            if isinstance(st, ast.ClassDef):
                classes.add(st.name)
        for st in tree.body:
            for n in bound(st):
                tops[m].add(n)
        visit(tree, m, os.path.join("pyoptmat", m + ".py"), m, set(), None, out)
    return mods, tops, out


def bound(st):
    """names a statement of a block binds"""
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [st.name]
    if isinstance(st, (ast.Import, ast.ImportFrom)):
        return [(a.asname or a.name).split(".")[0] for a in st.names]
    return [n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]


def visit(node, mod, path, qual, outer, cls, out):
    for ch in ast.iter_child_nodes(node):
        if isinstance(ch, ast.ClassDef):
            visit(ch, mod, path, f"{qual}.{ch.name}", outer, ch.name, out)
        elif isinstance(ch, (ast.FunctionDef, ast.Lambda)):
            a = ch.args
            loc = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
            glob = set()
            body = ch.body if isinstance(ch.body, list) else [ch.body]
            for st in body:
                for n in walk_own(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        loc.add(n.id)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        loc.add(n.name)
                    elif isinstance(n, (ast.Import, ast.ImportFrom)):
                        loc.update((x.asname or x.name).split(".")[0] for x in n.names)
                    elif isinstance(n, ast.ExceptHandler) and n.name:
                        loc.add(n.name)
                    elif isinstance(n, ast.Global):
                        glob.update(n.names)
            q = f"{qual}.{getattr(ch, 'name', '<lambda>')}"
            f = Fn(mod, path, q, ch, (outer | loc) - glob, cls)
            f.glob = glob
            out.append(f)
            visit(ch, mod, path, q, outer | loc - glob, cls, out)
        else:
            visit(ch, mod, path, qual, outer, cls, out)


def walk_own(st):
    """nodes of a statement without the bodies of nested functions"""
    yield st
    if isinstance(st, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for ch in ast.iter_child_nodes(st):
        yield from walk_own(ch)


def own_nodes(f):
    body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
    for st in body:
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            continue
        for n in walk_own(st):
            yield n


def root(e):
    """the name an attribute or subscript chain starts at, and its first attributes"""
    path = []
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        path.append(e.attr if isinstance(e, ast.Attribute) else "[]")
        e = e.value
    return e, path[::-1]


def dotted(e):
    r, p = root(e)
    return ([r.id] + p) if isinstance(r, ast.Name) and "[]" not in p else None


def source(rep):
    repo = Interp().repo
    mods, tops, fns = functions(repo)
    callers = {}
    for f in fns:
        for n in own_nodes(f):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                callers.setdefault(n.id if isinstance(n, ast.Name) else n.attr, set()).add(f.qual)
    classnames = {c.name for t in mods.values() for c in ast.walk(t) if isinstance(c, ast.ClassDef)}
    aliases = {m: imports(t) for m, t in mods.items()}
    for f in fns:
        bad = []
        draws = []
        cached = [d for d in getattr(f.node, "decorator_list", []) if (dotted(d.func if isinstance(d, ast.Call) else d) or ["?"])[-1] in ("lru_cache", "cache", "cached_property")]
        for n in own_nodes(f):
            if isinstance(n, (ast.Name,)) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in f.glob:
                bad.append((n, f"writes the module variable {n.id}"))
            tg = []
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                tg = [(n, None)]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in MUTATE or (n.func.attr.endswith("_") and not n.func.attr.startswith("_")):
                    tg = [(n.func.value, n.func.attr)]
            for t, how in tg:
                r, p = root(t)
                what = f"calls {how} on" if how else "writes"
                if isinstance(r, ast.Name):
                    if r.id == "cls" and r.id in f.local and (how is None or p):
                        bad.append((n, f"{what} the class attribute {'.'.join(p)}"))
                    elif r.id not in f.local and r.id in tops[f.mod]:
                        if how and module_name(aliases[f.mod], r.id, p):
                            continue
                        bad.append((n, f"{what} the module-level {'.'.join([r.id] + p)}"))
                    elif "__class__" in p or (p and p[0] in classnames):
                        bad.append((n, f"{what} the class attribute {'.'.join([r.id] + p)}"))
                elif isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id in ("type", "globals"):
                    bad.append((n, f"{what} {r.func.id}(...){'.'.join([''] + p)}"))
            if isinstance(n, ast.Call):
                dn = dotted(n.func)
                full = resolve(aliases[f.mod], dn, f) if dn else None
                last = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if full and full[0] in ("torch", "numpy", "random", "warnings", "pyro", "os") and full[-1] in GLOBAL and not (full[-1] == "set_grad_enabled"):
                    if "catch_warnings" not in ast.dump(f.node) or full[0] != "warnings":
                        bad.append((n, f"changes the process with {'.'.join(full)}"))
                elif full and full[0] in ("torch", "numpy", "random", "secrets") and (full[-1] in DRAWS or full[0] == "random"):
                    draws.append((n, ".".join(full)))
                elif last in DRAWS and last.endswith("_") and not full:
                    draws.append((n, last))
                elif full and full[0] == "time" or (full and full[-1] in ("now", "getpid", "urandom")):
                    draws.append((n, ".".join(full)))
                if full and full[-1] == "setattr" and len(full) == 1 and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in classnames:
                    bad.append((n, f"writes the class attribute of {n.args[0].id}"))
        # defaults that are changed
        dflt = []
        a = f.node.args
        for x, dv in list(zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults)) + [(x, dv) for x, dv in zip(a.kwonlyargs, a.kw_defaults) if dv is not None]:
            if isinstance(dv, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
                m = mutated(f, x.arg)
                if m is not None:
                    dflt.append((m, x.arg))
        cn, key = f.qual, "source"
        at = lambda n: f"{f.path}:{n.lineno} ({f.qual})"
        if bad:
            rep.bad("state", cn, key, at(bad[0][0]), bad[0][1])
        elif cached:
            rep.und("state", cn, key, "the function keeps its results: decided by the rule history where it is called")
        else:
            rep.ok("state", cn, key)
        if dflt:
            rep.bad("defaults", cn, key, at(dflt[0][0]), f"changes its default argument {dflt[0][1]}, which all later calls share")
        elif a.defaults or a.kw_defaults:
            rep.ok("defaults", cn, key)
        if draws and not only_from(f, callers, fns):
            rep.bad("random", cn, key, at(draws[0][0]), f"draws {draws[0][1]}")
        else:
            rep.ok("random", cn, key)


def only_from(f, callers, fns, seen=frozenset()):
    """reached from the documented generators only"""
    if f.qual in RANDOM:
        return True
    if f.qual in seen:
        return True
    name = getattr(f.node, "name", None)
    cs = callers.get(name, set())
    by = [g for g in fns if g.qual in cs]
    return bool(by) and f.mod == "experiments" and all(only_from(g, callers, fns, seen | {f.qual}) for g in by)


def imports(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0]).split(".")
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                out[a.asname or a.name] = (n.module or "").split(".") + [a.name]
    return out


def resolve(al, dn, f):
    if dn[0] in al:
        return al[dn[0]] + dn[1:]
    return dn if dn[0] not in f.local and len(dn) == 1 else None


def module_name(al, name, p):
    """a function of an imported module, such as torch.add"""
    return name in al and al[name][0] != "pyoptmat" and len(p) == 0 or (name in al and al[name][0] in ("torch", "numpy", "pyro", "functorch"))


def mutated(f, name):
    """where the parameter is changed in place before it is rebound"""
    stores = [n for n in own_nodes(f) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)]
    for n in own_nodes(f):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            r, p = root(n)
            if isinstance(r, ast.Name) and r.id == name and not any(s.lineno < n.lineno for s in stores):
                return n
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATE and isinstance(n.func.value, ast.Name) and n.func.value.id == name and not any(s.lineno < n.lineno for s in stores):
            return n
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name and not any(s.lineno < n.lineno for s in stores):
            return n
    return None


# ------------------------------------------------------------------- calls
class Shared:
    """what modules, classes and defaults of the package hold"""

    def __init__(self, I):
        self.I = I
        self.roots = self.find()
        self.names = {k: dict(ns) for k, ns in self.spaces()}
        self.st = {k: (s, p, list(s.cells), len(s.writes)) for k, (s, p) in storages(self.roots).items()}
        self.con = containers(self.roots)[1:]
        self.attrs = {}
        for k, v in self.roots.items():
            objects(v, k, self.attrs)

    def spaces(self):
        for m in self.I.modules.values():
            if m.name.startswith("pyoptmat"):
                yield m.name, m.env.vars
                for v in m.env.vars.values():
                    if isinstance(v, ClassVal) and v.module is m:
                        yield f"{m.name}.{v.name}", v.ns

    def find(self):
        out = {}
        for sp, ns in self.spaces():
            for n, v in ns.items():
                if n in ("__builtins__", "__class__"):
                    continue
                g = v.f if hasattr(v, "f") and isinstance(getattr(v, "f"), Func) else v
                if isinstance(g, Func):
                    for k, dv in enumerate(list(g.defaults) + list(g.kwdefaults.values())):
                        if not isinstance(dv, (int, float, str, bool, type(None), Term)):
                            out[f"default of {sp}.{n} #{k}"] = dv
                elif isinstance(v, (Tensor, dict, list, Obj)):
                    out[f"{sp}.{n}"] = v
        return out

    def changes(self):
        now = {k: ns for k, ns in self.spaces()}
        for k, old in self.names.items():
            for n, v in now.get(k, {}).items():
                if n not in old:
                    return f"{k}.{n} is created", None
                if old[n] is not v and not (isinstance(v, (int, str, bool, float)) and old[n] == v):
                    return f"{k}.{n} is replaced", None
        for s, p, cells, nw in self.st.values():
            for i, (a, b) in enumerate(zip(cells, s.cells)):
                if a is not b and tm.equal(a, b).status != tm.PROVED:
                    return f"{p}: {short(a)} becomes {short(b)}", next((l for j, l in s.writes[nw:] if j == i), None)
        for c, old, p in self.con:
            same = (c.keys() == old.keys() and all(c[k] is old[k] for k in old)) if isinstance(c, dict) else (len(c) == len(old) and all(a is b for a, b in zip(c, old)))
            if not same:
                return f"{p}: the {type(c).__name__} is changed", None
        for o, attrs, p in self.attrs.values():
            for n, v in o.attrs.items():
                if n not in attrs or attrs[n] is not v:
                    return f"{p}.{n} is set", None
        return None


def objects(v, path, out):
    if isinstance(v, Obj) and id(v) not in out:
        out[id(v)] = (v, dict(v.attrs), path)
        for k, x in v.attrs.items():
            objects(x, f"{path}.{k}", out)
    elif isinstance(v, (list, tuple)):
        for k, x in enumerate(v):
            objects(x, f"{path}[{k}]", out)


def kinds_of(t, out, memo):
    for u in tm.postorder([t]):
        if u.op == "var":
            out[u.args[0]] = u
    return out


def one(rep, I, c, lab):
    if c.kind in ("random", "print"):
        return
    key = ", ".join(x for x in (c.key, lab) if x)
    n0 = len(I.events)
    with rep.guard("history", c.construct, key):
        sh = Shared(I)
        pre = list(storages(c.given).values())
        raw = c.call()
        r1 = image(raw)
        g = [(k, e) for k, e in I.events[n0:] if k in ("global-state", "class-attr-write", "module-attr-write", "func-attr-write")]
        g = [(k, e) for k, e in g if not (k == "func-attr-write" and "<locals>" in str(e.get("func")))]
        if g:
            k, e = g[0]
            rep.bad("state", c.construct, key, fmtloc(e["loc"]), f"the call changes {e.get('what') or e.get('name') or k}")
            return
        d = [(k, e) for k, e in I.events[n0:] if k == "random"]
        if d:
            rep.bad("random", c.construct, key, fmtloc(d[0][1]["loc"]), f"the call draws {d[0][1].get('what')}")
            return
        ch = sh.changes()
        if ch:
            rep.bad("defaults", c.construct, key, fmtloc(ch[1]) if ch[1] else c.where, f"the call changes state outside its arguments: {ch[0]}")
            return
        rep.ok("defaults", c.construct, key)
        # other values in the same places
        vs = {}
        for s, p in pre:
            for x in s.cells:
                kinds_of(T(x), vs, None)
        allm = {n: tm.var(n + "~", **tm.VARINFO[n]) for n, u in vs.items()}
        H.tracked |= {n + "~" for n in vs if n in H.tracked}
        # all of them, then those of one input at a time
        groups = [("", allm)]
        for s, p in pre:
            g = {}
            for x in s.cells:
                kinds_of(T(x), g, None)
            if g and len(g) < len(allm):
                groups.append((f" of {p}", {n: allm[n] for n in g}))
        und = None
        n = 0
        for what, m in groups:
            saved = [(s, list(s.cells)) for s, p in pre]
            try:
                for s, old in saved:
                    s.cells[:] = [tm.subst(T(x), m) for x in old]
                if c.fresh is not None:
                    c.fresh()
                r2 = image(c.call())
            except Undecided as e:
                if not what:
                    raise
                und = und or str(e)
                continue
            finally:
                for s, old in saved:
                    if len(s.cells) == len(old):
                        s.cells[:] = old
            for (s, a), (_, b) in zip(r1, image(raw)):
                if any(x is not y for x, y in zip(a, b)):
                    x, y = next((x, y) for x, y in zip(a, b) if x is not y)
                    rep.bad("kept", c.construct, key, c.where, f"a later call with other values{what} turns {short(x)} of an earlier result into {short(y)}")
                    return
            if [s for s, _ in r1] != [s for s, _ in r2]:
                rep.bad("history", c.construct, key, c.where, f"a second call with other values{what} returns other shapes")
                return
            for (s, a), (_, b) in zip(r1, r2):
                for x, y in zip(a, b):
                    n += 1
                    x = tm.subst(T(x), m)
                    if x is T(y):
                        continue
                    v = tm.equal(x, T(y))
                    if v.status == tm.DIFFERENT:
                        rep.bad("history", c.construct, key, c.where, f"after a call with other values{what} the result is {short(y)} instead of {short(x)}: it depends on the earlier call")
                        return
                    if v.status != tm.PROVED:
                        und = und or v.how
        if und:
            rep.und("history", c.construct, key, und)
        else:
            rep.ok("history", c.construct, key, f"{n} values")
        rep.ok("kept", c.construct, key)
