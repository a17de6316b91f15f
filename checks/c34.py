"""C34: every trainable parameter is found by parameters(), the optimiser and the adjoint pass."""
from .catalog import *
from .c05 import CurveC

PREPARED = []


def leaf(x):
    """the trainable tensor a stand-in holds"""
    if "_leaf" not in x.__dict__:
        t = new((), [var(f"leaf of {x.name}")], "float", getattr(x, "dev", "D") or "D")
        t.kind = "parameter"
        t.requires_grad = True
        x.__dict__["_leaf"] = t
    return x.__dict__["_leaf"]


def stand_ins(v, path, out):
    """the trainable tensors among what was handed to a constructor: (path, tensor, owner)"""
    if isinstance(v, Tensor):
        if v.kind == "parameter":
            out.append((path, v, None))
    elif isinstance(v, (TPArg, Component, Net)):
        out.append((path, leaf(v), v))
    elif isinstance(v, dict):
        for k, x in v.items():
            stand_ins(x, f"{path}.{k}" if path else str(k), out)
    elif isinstance(v, (list, tuple)):
        for k, x in enumerate(v):
            stand_ins(x, f"{path}[{k}]", out)
    return out


def run(rep):
    rep.minimum = 150
    rep.rule("registered", "parameters() of an object lists every trainable tensor its results depend on, each once")
    rep.rule("nested", "the same for whole models put together from the package's own classes")
    rep.rule("integrated", "the right-hand side handed to the time integrator, with or without adjoint, lists the parameters of the material model")
    rep.rule("deterministic", "the deterministic model has one trainable parameter per name, starting at its initial value, and hands those very parameters to the model maker in the order of the names")
    rep.assume("parameters are torch parameters held by the temperature parameters, networks and component models handed in")
    for k in (TPArg, Component, Net):
        k.sa_params = lambda self: [("p", leaf(self))]
    I = fresh_interp()
    for b in [(SymSize("B"),)] + ([(), (2,)] if rep.tier == "thorough" else []):
        for g in (rates, materials, temperatures, controls, neural):
            if g is controls:
                b = (2,)
            for c in section(g, I, b):
                one(rep, I, c, "registered")
        for c in section(assembled, I, b):
            one(rep, I, c, "nested")
    integrated(rep)
    deterministic(rep)


DONE = set()


def one(rep, I, c, rid):
    o = c.given.get("object")
    if c.kind == "broken":
        with rep.guard(rid, c.construct, c.key):
            c.call()
        return
    if not isinstance(o, Obj) or c.kind in ("print", "scaling"):
        return
    g = {k: v for k, v in c.given.items() if k != "object"}
    for k in ("model", "models"):
        if k in o.attrs and k not in g and isinstance(o.attrs[k], (Component, Net)):
            g[k] = o.attrs[k]
    with rep.guard(rid, c.construct, c.key):
        if c.kind != "piecewise":
            c.call()
        want = stand_ins(g, "", [])
        # a stand-in used as a plain number is no trainable parameter
        want = [(p, t) for p, t, w in want if not (isinstance(w, TPArg) and not w.called)]
        got = I.collect_params(o)
        key = (c.construct, c.key)
        if not want:
            return
        missing = [p for p, t in want if not any(t is x for _, x in got)]
        twice = [n for k, (n, x) in enumerate(got) if any(x is y for _, y in got[:k])]
        rep.fact(rid, c.construct, c.key, not missing and not twice, c.where,
                 f"parameters() misses the parameter of {', '.join(missing)}: neither the optimiser nor the adjoint pass would see it" if missing else f"parameters() lists {twice} twice")


def integrated(rep):
    for adj in (True, False, None):
        for name in ("solve_both", "solve_strain", "solve_stress"):
            I = fresh_interp()
            c = I.get("models.ModelIntegrator")
            key = f"{name}, use_adjoint={adj}"
            with rep.guard("integrated", short_name(c), key):
                seen = []
                for n in ("odeint", "odeint_adjoint"):
                    def h(i, a, k, n=n):
                        seen.append(i.bindargs(i.get("ode." + n), a, k))
                        return "result"
                    I.intercepts["ode." + n] = h
                model = InelasticC("model", 3)
                o = I.call(c, [model], {} if adj is None else {"use_adjoint": adj})
                t, x, T_ = (grid(n, (4, 2)) for n in ("t", "d", "T"))
                a = {"solve_both": [t, T_, x, new((2,), [ZERO, ONE])], "solve_strain": [t, x, T_], "solve_stress": [t, x, T_]}[name]
                I.call(method(I, o, name), a, {})
                f = seen[0]["func"]
                want = leaf(model)
                for who, obj in (("the right-hand side", f), ("the integrator object", o)):
                    got = [p for _, p in I.collect_params(obj)] if isinstance(obj, (Obj, Abstract)) else []
                    n = sum(p is want for p in got)
                    rep.fact("integrated", short_name(c), f"{key}, {who}", n == 1, mwhere(c, name), f"{who} lists the parameter of the material model {n} times")


def deterministic(rep):
    I = fresh_interp()
    c = I.get("optimize.DeterministicModel")
    cn = short_name(c)
    for n in (1, 2, 4, 7):
        for order in (range(n), range(n)[::-1]):
            names = [f"par{k}" for k in order]
            key = f"{n} parameters {names[0]} first"
            with rep.guard("deterministic", cn, key):
                ics = [new((), [var(f"ic{k}")], "float", "D") for k in order]
                made_ = []
                I2 = I

                class Model(Abstract):
                    def sa_getattr(self, interp, name):
                        if name == "solve_both":
                            return Builtin(name, lambda *a, **k: new((3, 2, 1), [var(f"pred{q}") for q in range(6)], "float", "D"))
                        interp.attr_error(self, name)
                maker = Builtin("maker", lambda *a, **k: (made_.append((a, k)), Model())[1])
                o = I.call(c, [maker, list(names), list(ics)], {})
                got = I.collect_params(o)
                same = [x for _, x in got]
                ok = sorted(x for x, _ in got) == sorted(names) and all(any(nm == x and t.cells() == ic.cells() and tuple(t.shape) == tuple(ic.shape) for x, t in got) for nm, ic in zip(names, ics))
                rep.fact("deterministic", cn, key, ok, mwhere(c, "__init__"), f"parameters() lists {[x for x, _ in got]} for the names {names}")
                e = grid("exp", (3, 3, 2))
                for call in range(2):
                    I.call(o, [e, new((3, 2), [ZERO] * 6, "int", "D"), new((2,), [ONE, ONE], "int", "D"), new((2,), [ZERO, ZERO], "int", "D")], {})
                by = dict(got)
                for a, k in made_:
                    ok = not k and len(a) == n and all(nm in by and isinstance(x, Tensor) and x.cells() == by[nm].cells() and x.shape == by[nm].shape for x, nm in zip(a, names))
                    rep.fact("deterministic", cn, key + " maker", ok, mwhere(c, "forward"), "the model maker is not given the trainable parameters in the order of the names")
