"""
Abstract stand-ins for the arguments of the analysed classes.

A component (a temperature dependent parameter, a hardening model, a flow rule,
a damage model, an inelastic model) is represented by its *contract*: its rate
functions are uninterpreted functions of their documented arguments, and its
derivative methods return the exact partial derivatives of those functions.
Every class of the package that consumes such a component is analysed against
the contract, and every class that provides one is analysed for meeting it.
"""
import ast
from .interp import *
from .interp import MISSING, ExcVal
from . import terms as tm

VERSION = [""]          # which values the parameters of the stand-ins have
VERSIONED = set()


def app(name, args, midx=()):
    """the value of a stand-in with the present values of its parameters"""
    VERSIONED.add(name)
    if VERSION[0] and name in tm.APPINFO:
        tm.APPINFO.setdefault(name + VERSION[0], tm.APPINFO[name])
    return tm.app(name + VERSION[0], args, midx)


def seed_shape(shape):
    return tuple(shape)


def app_tensor(batch, terms_of, trailing, device):
    """a tensor of shape batch+trailing; terms_of(i) -> list of prod(trailing)
    terms for the i-th batch element"""
    cells = []
    n = 1
    for d in batch:
        n *= ext(d)
    for i in range(n):
        cells.extend(terms_of(i))
    return new(tuple(batch) + tuple(trailing), cells, "float", device)


class TPArg(Abstract):
    """a parameter of a model: temperature dependent parameter or raw tensor,
    whichever way the code uses it"""

    def __init__(self, name, vec=None, kind="real", device="D", default=None, const=False, labels=False):
        self.name = name
        self.const = const
        self.labels = labels
        self.vec = vec
        self.kind = kind
        self.dev = device
        self.called = False
        self.raw = False
        self._t = None
        self._const = {}
        if const is True:
            self._fixed("")

    def _fixed(self, suffix):
        if suffix not in self._const:
            self._const[suffix] = new(self._shape(), [app(f"{self.name}{k if self.vec is not None else ''}{suffix}", [ONE]) for k in range(self.vec or 1)], "float", self.dev)
        return self._const[suffix]

    def _member(self, T_, suffix):
        """one value for every member of the batch (the last batch axis), the
        same at all times: the parameters of statistical models"""
        if not T_.shape:
            b, who = (), [""]
        else:
            b = (T_.shape[-1],)
            who = [""] * ext(b[0])
            if self.labels and not isinstance(b[0], SymSize):
                who = [f"@{k}" for k in range(ext(b[0]))]
        k = (suffix, b)
        if k not in self._const:
            cells = [app(f"{self.name}{k if self.vec is not None else ''}{suffix}", [var("member" + w, "pos")]) for w in who for k in range(self.vec or 1)]
            self._const[k] = new(b + self._shape(), cells, "float", self.dev)
        return self._const[k]

    def __repr__(self):
        return f"<parameter {self.name}>"

    def _shape(self):
        return () if self.vec is None else (self.vec,)

    def as_tensor(self):
        self.raw = True
        if self._t is None:
            self._t = inputs(self.name, self._shape(), self.kind, self.dev)
        return self._t

    def _apply(self, interp, T_, suffix=""):
        self.called = True
        t = as_tensor(T_)
        if self.const == "member":
            return self._member(t, suffix)
        if self.const:
            # a parameter that does not depend on temperature has no batch
            # axes; it hands out its stored tensor
            return self._fixed(suffix)
        base = t.cells()
        if self.vec is None:
            return new(t.shape, [app(self.name + suffix, [c]) for c in base], "float", t.device)
        cells = [app(f"{self.name}{k}{suffix}", [c]) for c in base for k in range(self.vec)]
        return new(tuple(t.shape) + (self.vec,), cells, "float", t.device)

    def sa_call(self, interp, args, kw):
        if len(args) != 1 or kw:
            raise PyRaise(ExcVal("TypeError", ("parameter called with wrong arguments",)), interp.loc())
        return self._apply(interp, args[0])

    def sa_getattr(self, interp, name):
        if name == "shape":
            return self._shape()
        if name == "device":
            return DeviceVal(self.dev)
        if name == "forward":
            return Builtin("forward", lambda T_: self._apply(interp, T_))
        if name == "value":
            return Builtin("value", lambda T_: self._apply(interp, T_, ".unscaled"))
        if name == "nhist":
            interp.attr_error(self, name)
        return interp.tensor_attr(self.as_tensor(), name)


class FnArg(Abstract):
    """a user supplied scaling function"""

    def __init__(self, name):
        self.name = name
        self.ncalls = 0

    def __repr__(self):
        return f"<function {self.name}>"

    def sa_call(self, interp, args, kw):
        self.ncalls += 1
        t = as_tensor(args[0])
        return new(t.shape, [tm.app(self.name, [c]) for c in t.cells()], "float", t.device)

    def sa_getattr(self, interp, name):
        interp.attr_error(self, name)


def _bcast(scalars, vec):
    shapes = [t.shape for t in scalars]
    if vec is not None:
        shapes.append(vec.shape[:-1])
    return broadcast_shapes(*shapes)


class Component(Abstract):
    kind = "?"

    def __init__(self, name, nhist):
        self.name = name
        self.nhist = nhist

    def __repr__(self):
        return f"<{self.kind} {self.name}>"

    def sa_params(self):
        return []

    def _terms(self, scalars, vecpos, h, names):
        """argument cell lists per batch element"""
        scalars = [as_tensor(s) for s in scalars]
        batch = _bcast(scalars, h)
        es = [expand(s, batch).cells() for s in scalars]
        n = len(es[0]) if es else 1
        for d in ():
            pass
        nb = 1
        for d in batch:
            nb *= ext(d)
        if h is not None:
            nh = h.shape[-1]
            hc = expand(h, tuple(batch) + (nh,)).cells()
        else:
            nh, hc = 0, []
        out = []
        for i in range(nb):
            a = [e[i] for e in es]
            out.append(a[:vecpos] + hc[i * nh:(i + 1) * nh] + a[vecpos:])
        dev = join_device(scalars + ([h] if h is not None else []))
        return batch, out, dev

    def _mk(self, scalars, vecpos, h, trailing, funcs):
        """funcs: list of (app name, multi-index)"""
        batch, args, dev = self._terms(scalars, vecpos, h, None)
        return app_tensor(batch, lambda i: [app(f, args[i], m) for f, m in funcs], trailing, dev)

    def checkh(self, interp, h):
        h = as_tensor(h)
        if h.dim() < 1 or h.shape[-1] != self.nhist:
            interp.ev("component-history-size", component=self.name, got=h.shape[-1:] , want=self.nhist)
            raise PyRaise(ExcVal("ShapeError", (f"{self} given {h.shape[-1:]} internal variables, needs {self.nhist}",)), interp.loc())
        return h

    def sa_getattr(self, interp, name):
        if name == "nhist":
            return self.nhist
        m = getattr(self, "m_" + name, None)
        if m is None:
            # something the package's base class provides
            try:
                v, c = interp.get(self.base).lookup(name)
            except Exception:
                v = c = None
            if c is not None:
                return interp.bind(v, self, interp.get(self.base))
            interp.attr_error(self, name)
        params = self.signature(name)

        def f(*a, **k):
            a = list(a)
            for p in params[len(a):]:
                if p not in k:
                    raise PyRaise(ExcVal("TypeError", (f"{name}() missing {p}",)), interp.loc())
                a.append(k.pop(p))
            if k or len(a) > len(params):
                raise PyRaise(ExcVal("TypeError", (f"{name}() got unexpected arguments",)), interp.loc())
            return m(interp, *a)

        return Builtin(f"{self.name}.{name}", f)


class HardeningC(Component):
    kind = "hardening model"
    base = "hardening.HardeningModel"

    def signature(self, name):
        return ["h"] if name in ("value", "dvalue") else ["s", "h", "t", "ep", "T", "e"]

    def _h(self, i, h, trailing, funcs):
        h = self.checkh(i, h)
        return self._mk([], 0, h, trailing, funcs)

    def m_value(self, i, h):
        return self._h(i, h, (), [(self.name + ".value", ())])

    def m_dvalue(self, i, h):
        return self._h(i, h, (self.nhist,), [(self.name + ".value", (k,)) for k in range(self.nhist)])

    def _r(self, i, s, h, t, ep, T_, e, trailing, funcs):
        h = self.checkh(i, h)
        return self._mk([s, t, ep, T_, e], 1, h, trailing, funcs)

    def _n(self, k):
        return f"{self.name}.rate{k}"

    def m_history_rate(self, i, *a):
        return self._r(i, *a, (self.nhist,), [(self._n(k), ()) for k in range(self.nhist)])

    def m_dhistory_rate_dstress(self, i, *a):
        return self._r(i, *a, (self.nhist,), [(self._n(k), (0,)) for k in range(self.nhist)])

    def m_dhistory_rate_dhistory(self, i, *a):
        n = self.nhist
        return self._r(i, *a, (n, n), [(self._n(k), (1 + j,)) for k in range(n) for j in range(n)])

    def m_dhistory_rate_derate(self, i, *a):
        n = self.nhist
        return self._r(i, *a, (n, 1), [(self._n(k), (n + 2,)) for k in range(n)])

    def m_dhistory_rate_dtotalrate(self, i, *a):
        n = self.nhist
        return self._r(i, *a, (n,), [(self._n(k), (n + 4,)) for k in range(n)])


class FlowRuleC(Component):
    kind = "flow rule"
    base = "flowrules.FlowRule"

    def signature(self, name):
        return ["s", "h", "t", "T", "e"]

    def _r(self, i, s, h, t, T_, e, trailing, funcs):
        h = self.checkh(i, h)
        return self._mk([s, t, T_, e], 1, h, trailing, funcs)

    def _n(self, k):
        return f"{self.name}.rate{k}"

    def m_flow_rate(self, i, *a):
        f = self.name + ".flow"
        return (self._r(i, *a, (), [(f, ())]), self._r(i, *a, (), [(f, (0,))]))

    def m_dflow_dhist(self, i, *a):
        return self._r(i, *a, (1, self.nhist), [(self.name + ".flow", (1 + j,)) for j in range(self.nhist)])

    def m_dflow_derate(self, i, *a):
        return self._r(i, *a, (), [(self.name + ".flow", (self.nhist + 3,))])

    def m_history_rate(self, i, *a):
        n = self.nhist
        return (self._r(i, *a, (n,), [(self._n(k), ()) for k in range(n)]),
                self._r(i, *a, (n, n), [(self._n(k), (1 + j,)) for k in range(n) for j in range(n)]))

    def m_dhist_dstress(self, i, *a):
        return self._r(i, *a, (self.nhist,), [(self._n(k), (0,)) for k in range(self.nhist)])

    def m_dhist_derate(self, i, *a):
        n = self.nhist
        return self._r(i, *a, (n,), [(self._n(k), (n + 3,)) for k in range(n)])


class DamageC(Component):
    kind = "damage model"
    base = "damage.DamageModel"

    def __init__(self, name):
        super().__init__(name, 0)

    def signature(self, name):
        return ["s", "d", "t", "T", "e"]

    def sa_getattr(self, interp, name):
        if name == "nhist":
            interp.attr_error(self, name)
        return super().sa_getattr(interp, name)

    def m_damage_rate(self, i, *a):
        f = self.name + ".rate"
        return (self._mk(list(a), 5, None, (), [(f, ())]), self._mk(list(a), 5, None, (), [(f, (1,))]))

    def m_d_damage_rate_d_s(self, i, *a):
        return self._mk(list(a), 5, None, (), [(self.name + ".rate", (0,))])

    def m_d_damage_rate_d_e(self, i, *a):
        return self._mk(list(a), 5, None, (), [(self.name + ".rate", (4,))])


class InelasticC(Component):
    """strain based constitutive model: forward(t, y, erate, T)"""
    kind = "constitutive model"
    base = "models.InelasticModel"

    def signature(self, name):
        return ["t", "y", "erate", "T"]

    def m_forward(self, i, t, y, erate, T_):
        y = self.checkh(i, y)
        n = self.nhist
        f = [f"{self.name}.ydot{k}" for k in range(n)]
        sc = [t, erate, T_]
        return (self._mk(sc, 1, y, (n,), [(g, ()) for g in f]),
                self._mk(sc, 1, y, (n, n), [(g, (1 + j,)) for g in f for j in range(n)]),
                self._mk(sc, 1, y, (n,), [(g, (1 + n,)) for g in f]),
                self._mk(sc, 1, y, (n,), [(g, (2 + n,)) for g in f]))

    def sa_call(self, interp, args, kw):
        return interp.call(self.sa_getattr(interp, "forward"), args, kw)


class RhsC(Abstract):
    """right-hand side of a system of ordinary differential equations: called
    with times (n, batch) and states (n, batch, size) it returns the rates and
    their exact Jacobian; the rates depend on the tracked parameters.
    linear=True: rates and Jacobian entries are atoms of their own, used where
    only the bookkeeping of the integrator matters"""

    def __init__(self, name, n, params=(), own=()):
        self.name = name
        self.n = n
        self.params = list(params)      # tensors the rate depends on
        self.own = list(own)            # those of them registered as parameters
        self.calls = []

    def __repr__(self):
        return f"<right-hand side {self.name}>"

    def sa_params(self):
        return [(f"p{k}", p) for k, p in enumerate(self.own)]

    def sa_getattr(self, interp, name):
        if name in ("parameters", "named_parameters"):
            return Builtin(name, lambda *a, **k: [p if name == "parameters" else (n, p) for n, p in self.sa_params()])
        if name == "forward":
            return Builtin(name, lambda t, y: self.sa_call(interp, [t, y], {}))
        interp.attr_error(self, name)

    def pcells(self):
        return [c for p in self.params for c in p.cells()]

    def sa_call(self, interp, args, kw):
        if len(args) != 2 or kw:
            raise PyRaise(ExcVal("TypeError", ("right-hand side called with wrong arguments",)), interp.loc())
        t, y = as_tensor(args[0]), as_tensor(args[1])
        if y.dim() < 1 or y.shape[-1] != self.n or tuple(t.shape) != tuple(y.shape[:-1]):
            raise ShapeError(f"right-hand side called with times {t.shape} and states {y.shape}")
        self.calls.append((t, y))
        n, tc, yc = self.n, t.cells(), y.cells()
        f, J = [], []
        for b in range(len(tc)):
            a = [tc[b], *yc[b * n:(b + 1) * n], *self.pcells()]
            f += [app(f"{self.name}{i}", a) for i in range(n)]
            J += [app(f"{self.name}{i}", a, (1 + j,)) for i in range(n) for j in range(n)]
        return (new(y.shape, f, "float", y.device), new(tuple(y.shape) + (n,), J, "float", y.device))


# ---------------------------------------------------------------- building
def signature_of(cls):
    init, owner = cls.lookup("__init__")
    if init is None:
        return [], {}, None
    a = init.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    nd = len(init.defaults)
    req = names[:len(names) - nd] if nd else names
    opt = dict(zip(names[len(names) - nd:], init.defaults)) if nd else {}
    for k in a.kwonlyargs:
        if k.arg in init.kwdefaults:
            opt[k.arg] = init.kwdefaults[k.arg]
        else:
            req.append(k.arg)
    return req, opt, init


def is_tiny(v):
    if isinstance(v, float):
        return 0 < abs(v) < 1e-8
    if isinstance(v, Tensor) and v.ncells() == 1:
        q = numval(v.cells()[0])
        return q is not None and 0 < abs(float(q)) < 1e-8
    return False


# numbers of internal variables of the component models: the general case, and
# the ends (none at all, a single one, many)
SIZES = {"": {"isotropic": 2, "kinematic": 3, "model1": 2, "model2": 2, "base": 2, "flowrule": 2, "models": (2, 1, 3), "vec": 3},
         "least": {"isotropic": 1, "kinematic": 0, "model1": 0, "model2": 0, "base": 0, "flowrule": 0, "models": (1,), "vec": 1},
         "most": {"isotropic": 0, "kinematic": 5, "model1": 3, "model2": 3, "base": 5, "flowrule": 5, "models": (1, 0, 2, 1, 2), "vec": 5}}


def component_for(argname, clsmod, sizes=SIZES[""]):
    n = sizes.get(argname)
    if argname == "isotropic":
        return HardeningC("iso", n)
    if argname == "kinematic":
        return HardeningC("kin", n)
    if argname in ("model1", "model2"):
        return FlowRuleC({"model1": "m1", "model2": "m2"}[argname], n)
    if argname in ("base", "flowrule"):
        return FlowRuleC(argname, n)
    if argname == "dmodel":
        return DamageC("dmodel")
    if argname == "models":
        K = HardeningC if clsmod.endswith("hardening") else FlowRuleC
        return [K(f"c{k}", m) for k, m in enumerate(n)]
    return None


def build(interp, cls, scale_functions=True, variants=("default", "given"), const=(False, True, "member"), tiny=False, labels=False, sizes=("", "least", "most")):
    """generic instances of a model class: list of (label, object, args); with
    parameters that vary with temperature and (label "const") that do not; tiny regularisation
    constants are zero, or kept when tiny is set; per-member parameters are
    distinguished by member when labels is set"""
    out = []
    for size in sizes:
        for c in const[:1] if size else const:
            new_ = _build(interp, cls, scale_functions, variants, c, tiny, labels, SIZES[size])
            if c and not any(isinstance(a, TPArg) for _, _, args in new_ for a in args.values()):
                continue
            if size and not any(component_for(n, cls.module.name) is not None and n != "dmodel" or isinstance(a, TPArg) and a.vec for _, _, args in new_ for n, a in args.items()):
                # nothing of the sort to vary
                continue
            out += [(f"{label} {size}".strip(), o, args) for label, o, args in new_]
    return out


def _build(interp, cls, scale_functions, variants, const, tiny=False, labels=False, sizes=SIZES[""]):
    req, opt, init = signature_of(cls)
    out = []
    has_none = any(v is None for v in opt.values())
    for variant in (variants if has_none else ("given",)):
        last = None
        for vec in (None, sizes["vec"]):
            args = {}
            for n in req:
                c = component_for(n, cls.module.name, sizes)
                args[n] = c if c is not None else TPArg(n, vec, const=const, labels=labels)
            for n, d in opt.items():
                c = component_for(n, cls.module.name, sizes)
                if c is not None:
                    args[n] = c
                elif d is None:
                    if variant == "given":
                        args[n] = TPArg(n, vec, const=const, labels=labels)
                elif isinstance(d, Func) and scale_functions:
                    args[n] = FnArg(n)
                elif is_tiny(d) and not tiny:
                    args[n] = 0.0
            try:
                o = interp.call(cls, [], dict(args))
            except PyRaise as r:
                last = r
                if getattr(r.exc, "cls", "") in ("IndexError",):
                    continue
                raise
            out.append(((variant if has_none else "") + {False: "", True: " const", "member": " member"}[const], o, args))
            break
        else:
            raise last
    return out
