"""Stand-ins for the probabilistic primitives: every sample and parameter
site becomes a record; values are variables."""
from .tensor import *
from . import torchlib as tl
from .torchlib import Builtin
from .terms import *


class Dist:
    def __init__(self, kind, params, event=0, loc=None):
        self.kind, self.params, self.event, self.loc = kind, params, event, loc

    def shape(self):
        s = ()
        for p in self.params.values():
            s = broadcast_shapes(s, p.shape)
        return tuple(s)

    def batch_shape(self):
        s = self.shape()
        return s[:len(s) - self.event]

    def event_shape(self):
        s = self.shape()
        return s[len(s) - self.event:]


class DistVal:
    pass


class Site:
    def __init__(self, name, dist, plates, scales, obs, loc, value, shape):
        self.name, self.dist, self.plates, self.scales, self.obs, self.loc, self.value, self.batch = name, dist, plates, scales, obs, loc, value, shape


class Param:
    def __init__(self, name, init, constraint, value, unconstrained, loc):
        self.name, self.init, self.constraint, self.value, self.unconstrained, self.loc = name, init, constraint, value, unconstrained, loc


ARGS = {"Normal": ("loc", "scale"), "HalfNormal": ("scale",), "Delta": ("v", "log_density", "event_dim"), "LogNormal": ("loc", "scale"),
        "Uniform": ("low", "high"), "Exponential": ("rate",), "HalfCauchy": ("scale",), "Gamma": ("concentration", "rate"), "Beta": ("concentration1", "concentration0")}


def install(I):
    """the pyro namespaces of an interpreter; returns the record keeper"""
    from .interp import NS, NativeClass, Abstract, PyRaise, ExcVal, GradMode

    class World:
        def __init__(self):
            self.sites = []
            self.params = {}
            self.uses = []
            self.stack = []
            self.scales = []
            self.cache = {}
            self.prefix = "z"

        def run(self, f, *a, prefix="z", **k):
            """one execution of a model or guide"""
            self.sites, self.uses, self.cache, self.prefix = [], [], {}, prefix
            return I.call(f, list(a), k)

    W = World()

    class Dv(Abstract):
        def __init__(self, d):
            self.d = d

        def sa_getattr(self, I, name):
            d = self.d
            if name == "to_event":
                def te(n=None):
                    if n is None:
                        n = len(d.batch_shape())
                    n = to_int(n)
                    if n > len(d.shape()) - d.event or n < 0:
                        raise PyRaise(ExcVal("ValueError", ("Expected reinterpreted_batch_ndims <= len(base_distribution.batch_shape)",)), I.loc())
                    return Dv(Dist(d.kind, d.params, d.event + n, I.loc()))
                return Builtin(name, te)
            if name == "sample":
                return Builtin(name, lambda *a: draw(W, None, d, ()))
            if name == "batch_shape":
                return d.batch_shape()
            if name == "event_shape":
                return d.event_shape()
            if name in ("expand", "expand_by"):
                def ex(s):
                    s = tuple(s)
                    if name == "expand_by":
                        s = s + d.batch_shape()
                    e = d.event_shape()
                    return Dv(Dist(d.kind, {k: expand(p, s + e) for k, p in d.params.items()}, d.event, d.loc))
                return Builtin(name, ex)
            if name in ("loc", "scale", "v", "mean", "variance", "stddev") and name in d.params:
                return d.params[name]
            raise Undecided(f"{I.where()}: {name} of a distribution")

    def mk(kind):
        names = ARGS[kind]

        def f(*a, **k):
            v = dict(zip(names, a))
            for q, x in k.items():
                if q == "validate_args":
                    continue
                if q not in names:
                    raise Undecided(f"{I.where()}: {kind}({q}=)")
                v[q] = x
            ev = to_int(v.pop("event_dim", 0))
            v.pop("log_density", None)
            return Dv(Dist(kind, {q: as_tensor(x) for q, x in v.items()}, ev, I.loc()))
        return Builtin("dist." + kind, f)

    class Sample(Abstract):
        """PyroSample: drawn when the attribute is read"""

        def __init__(self, prior):
            self.prior = prior

        def sa_get(self, I, o, name):
            if name in W.cache:
                return W.cache[name]
            p = self.prior
            if not isinstance(p, Dv):
                p = I.call(p, [o], {})
            v = p if isinstance(p, Tensor) else sample(name, p)
            W.cache[name] = v
            return v

    class Plate(Abstract):
        def __init__(self, name, size=None, subsample_size=None, subsample=None, dim=None, **k):
            if subsample_size is not None or subsample is not None or k:
                raise Undecided("subsampled plate")
            self.name, self.size, self.dim = name, size, dim

        def sa_enter(self, I):
            used = [p[2] for p in W.stack]
            if any(p[0] == self.name for p in W.stack):
                raise PyRaise(ExcVal("ValueError", ("collide at plate",)), I.loc())
            dim = self.dim
            if dim is None:
                dim = -1
                while dim in used:
                    dim -= 1
            elif dim in used:
                raise PyRaise(ExcVal("ValueError", ("collide at dim",)), I.loc())
            W.stack.append((self.name, self.size, dim))
            I.ev("plate", name=self.name, size=self.size, dim=dim)
            return self

        def sa_exit(self, I):
            W.stack.pop()

    class Scale(Abstract):
        def __init__(self, fn=None, scale=None):
            if fn is not None:
                raise Undecided("poutine.scale of a function")
            self.scale = as_tensor(scale)

        def sa_enter(self, I):
            W.scales.append(self.scale)
            return self

        def sa_exit(self, I):
            W.scales.pop()

    class Constraint(Abstract):
        def __init__(self, name):
            self.name = name

        def __repr__(self):
            return self.name

        def sa_getattr(self, I, name):
            raise Undecided(f"{name} of a constraint")

    class Store(Abstract):
        def sa_getattr(self, I, name):
            if name in ("keys", "values", "items", "__iter__"):
                return Builtin(name, lambda: {"keys": list(W.params), "values": [p.value for p in W.params.values()], "items": [(k, p.value) for k, p in W.params.items()]}[name])
            if name == "clear":
                return Builtin(name, lambda: (W.params.clear(), I.ev("global-state", what="param store"))[0])
            if name in ("get_param",):
                return Builtin(name, lambda n: use(n))
            raise Undecided(f"{I.where()}: {name} of the parameter store")

        def sa_contains(self, I, n):
            return n in W.params

        def sa_getitem(self, I, n):
            return use(n)

    def use(n):
        if n not in W.params:
            raise PyRaise(ExcVal("KeyError", (n,)), I.loc())
        return W.params[n].value

    def draw(W, name, d, plates):
        b = list(d.batch_shape())
        for pn, size, dim in plates:
            size = to_int(size) if not isinstance(size, SymSize) else size
            while len(b) < -dim:
                b.insert(0, 1)
            if b[dim] == 1:
                b[dim] = size
            elif b[dim] != size:
                raise PyRaise(ExcVal("ValueError", (f"Shape mismatch inside plate('{pn}') at site {name} dim {dim}, {size} vs {b[dim]}",)), I.loc())
        shape = tuple(b) + d.event_shape()
        if d.kind == "Delta":
            return expand(d.params["v"], shape) if tuple(d.params["v"].shape) != shape else d.params["v"]
        n = 1
        for k in shape:
            n *= ext(k)
        kind = "pos" if d.kind in ("HalfNormal", "LogNormal", "Exponential", "HalfCauchy", "Gamma") else "real"
        base = name if name is not None else "draw"
        dev = None
        for p in d.params.values():
            dev = dev or p.device
        t = new(shape, [var(f"{W.prefix}:{base}#{i}", kind) for i in range(n)], "float", dev)
        return t

    def sample(name, fn, *a, obs=None, infer=None, **k):
        if k or a:
            raise Undecided(f"{I.where()}: options of sample")
        if not isinstance(fn, Dv):
            raise Undecided(f"{I.where()}: sample from {type(fn).__name__}")
        d = fn.d
        plates = tuple(W.stack)
        v = draw(W, name, d, plates)
        batch = tuple(v.shape[:len(v.shape) - d.event])
        if obs is not None:
            obs = as_tensor(obs)
            v = obs
        W.sites.append(Site(name, d, plates, tuple(W.scales), obs, I.loc(), v, batch))
        I.ev("sample", name=name)
        return v

    def param(name, init=None, constraint=None, event_dim=None, **k):
        if k:
            raise Undecided(f"{I.where()}: options of param")
        W.uses.append(name)
        if name in W.params:
            return W.params[name].value
        if init is None:
            raise PyRaise(ExcVal("RuntimeError", (f"no value for parameter {name}",)), I.loc())
        if isinstance(init, Builtin) or not isinstance(init, Tensor):
            init = as_tensor(init) if isinstance(init, (int, float)) else I.call(init, [], {})
        cn = constraint.name if isinstance(constraint, Constraint) else ("real" if constraint is None else None)
        if cn is None:
            raise Undecided(f"{I.where()}: constraint {constraint!r}")
        if cn == "real":
            # the identity keeps a contiguous tensor's memory
            v = init if is_contiguous(init) else clone(init)
            v = Tensor(v.st, v.shape, v.strides, v.off, v.dtype)
            u = v
        else:
            v = clone(init)
            u = clone(init)
        for x in (u, v):
            # a leaf: gradients start here
            for i in x.indices():
                if x.st.cells[i].op == "detach":
                    x.st.cells[i] = x.st.cells[i].args[0]
        v.requires_grad = True
        v.extra = ("param", name)
        u.extra = ("param", name)
        W.params[name] = Param(name, init, cn, v, u, I.loc())
        I.ev("param", name=name)
        return v

    def deterministic(name, value, event_dim=None):
        return sample(name, Dv(Dist("Delta", {"v": as_tensor(value)}, len(as_tensor(value).shape) if event_dim is None else event_dim, I.loc())))

    cons = NS("pyro.distributions.constraints", {n: Constraint(n) for n in ("positive", "real", "unit_interval", "nonnegative", "softplus_positive")})
    dist = NS("pyro.distributions", {n: mk(n) for n in ARGS})
    dist.table["constraints"] = cons
    store = Store()
    I.namespaces["pyro"] = NS("pyro", {
        "nn": NS("pyro.nn", {"PyroModule": NativeClass("Module"), "PyroSample": Builtin("PyroSample", Sample), "module": NS("pyro.nn.module", {"PyroModule": NativeClass("Module"), "PyroSample": Builtin("PyroSample", Sample)})}),
        "distributions": dist,
        "sample": Builtin("pyro.sample", sample),
        "param": Builtin("pyro.param", param),
        "plate": Builtin("pyro.plate", Plate),
        "deterministic": Builtin("pyro.deterministic", deterministic),
        "get_param_store": Builtin("get_param_store", lambda: store),
        "clear_param_store": Builtin("clear_param_store", lambda: (W.params.clear(), I.ev("global-state", what="param store"))[0]),
        "poutine": NS("pyro.poutine", {"scale": Builtin("poutine.scale", Scale)}),
    })
    I.namespaces["torch"].table.setdefault("distributions", NS("torch.distributions", {"constraints": cons}))
    return W
