"""A model maker and data for the calibration wrappers."""
from .catalog import *

TYPES = ("tensile", "relaxation", "strain_cyclic", "creep", "stress_cyclic", "abstract_tensile", "direct_data")


class Made(Abstract):
    """the model a maker returned: its predictions depend on the parameters"""

    def __init__(self, maker, args, kw):
        self.maker, self.args, self.kw = maker, args, kw

    def sa_getattr(self, I, name):
        if name == "solve_both":
            return Builtin("solve_both", self.solve)
        I.attr_error(self, name)

    def solve(self, times, temperatures, idata, control):
        self.maker.solves.append((self, times, temperatures, idata, control))
        nt, nb = self.maker.nt, self.maker.nb
        return new((nt, nb, 3), [tm.NAN if (t, b) in self.maker.nan else var(f"pr{t}_{b}_{k}") for t in range(nt) for b in range(nb) for k in range(3)], "float", self.maker.dev)


class Maker:
    def __init__(self, nt, nb, dev):
        self.nt, self.nb, self.dev = nt, nb, dev
        self.made, self.solves = [], []
        self.nan = set()  # times and tests where the integration has no result

    def value(self):
        return Builtin("maker", self.call)

    def call(self, *a, **k):
        m = Made(self, list(a), dict(k))
        self.made.append(m)
        return m


class Data:
    """data of tests of the given types; four rows"""

    def __init__(self, I, types, dev="D", nt=4):
        from .c21 import SAME, layouts
        self.types = types
        codes = self.codes = {k: int(numval(T(v))) for k, v in I.get("experiments.exp_map").items()}
        nb = self.nb = len(types)
        self.nt = nt
        L = [layouts(SAME[tp], nt, False)[-1] for tp in types]
        self.data = new((3, nt, nb), [var(f"{n}{r}_{b}") for n in ("tm", "Te", "dr") for r in range(nt) for b in range(nb)], "float", dev)
        self.cycles = new((nt, nb), [num(L[b][r]) for r in range(nt) for b in range(nb)], "int", dev)
        self.tcodes = new((nb,), [num(codes[t]) for t in types], "int", dev)
        self.control = new((nb,), [num(k % 2) for k in range(nb)], "float", dev)
        self.obs = new((nt, nb), [var(f"ob{r}_{b}") for r in range(nt) for b in range(nb)], "float", dev)

    def args(self):
        return [self.data, self.cycles, self.tcodes, self.control]

    def formatted(self, I, nan=(), fill=None):
        """the documented result: the formatted first component"""
        p = new((self.nt, self.nb), [fill if (t, b) in nan else var(f"pr{t}_{b}_0") for t in range(self.nt) for b in range(self.nb)], "float", "D")
        return as_tensor(I.call(I.get("experiments.convert_results"), [p, self.cycles, self.tcodes], {}))


def prior(name, dim, dev, kind="real", sizes=(2, 3)):
    shape = tuple(sizes[:dim])
    n = 1
    for k in shape:
        n *= k
    return new(shape, [var(f"{name}{i}" if dim else name, kind) for i in range(n)], "float", dev)


class Hier:
    """a hierarchical statistical model over named parameters"""

    def __init__(self, I, params, data, noise="scalar", include=False, suffixes=None, weights=None, dev="D"):
        """params: list of (name, dimension)"""
        self.I, self.params, self.data = I, params, data
        self.maker = Maker(data.nt, data.nb, dev)
        self.names = [n for n, _ in params]
        self.ll = [prior(f"ll_{n}", d, dev) for n, d in params]
        self.ls = [prior(f"ls_{n}", d, dev, "pos") for n, d in params]
        self.ss = [prior(f"ss_{n}", d, dev, "pos") for n, d in params]
        n = len(data.codes)
        self.noise = new((n,) if noise == "type" else (), [var(f"noise{k}" if noise == "type" else "noise", "pos") for k in range(n if noise == "type" else 1)], "float", dev)
        self.include, self.ntype = include, noise
        kw = {}
        self.suffix = {"loc": "_loc", "scale": "_scale", "param": "_param"}
        if suffixes:
            self.suffix = dict(zip(("loc", "scale", "param"), suffixes))
            kw = {f"{k}_suffix": v for k, v in self.suffix.items()}
        if include:
            kw["include_noise"] = True
        if weights is not None:
            kw["weights"] = dict(weights)
        self.cls = I.get("optimize.HierarchicalStatisticalModel")
        self.o = I.call(self.cls, [self.maker.value(), list(self.names), list(self.ll), list(self.ls), list(self.ss), self.noise], kw)
        self.W = I.world

    def guide(self):
        return self.I.call(self.I.getattr(self.o, "make_guide"), [], {})

    def run_guide(self, g, obs=True, prefix="g"):
        a = self.data.args() + ([self.data.obs] if obs else [])
        self.W.run(g, *a, prefix=prefix)
        return list(self.W.sites), list(self.W.uses)

    def run_model(self, obs=True, prefix="m"):
        a = self.data.args() + ([self.data.obs] if obs else [])
        r = self.W.run(self.o, *a, prefix=prefix)
        return r, list(self.W.sites), list(self.W.uses)


def same(a, b):
    """equal tensors: shape and cells; returns (ok, message, undecided)"""
    a, b = as_tensor(a), as_tensor(b)
    if tuple(a.shape) != tuple(b.shape):
        return False, f"shape {fmtshape(a.shape)} instead of {fmtshape(b.shape)}", None
    und = None
    for i, (p, q) in enumerate(zip(a.cells(), b.cells())):
        p, q = T(p), T(q)
        if p is q:
            continue
        v = tm.equal(p, q)
        if v.status == tm.DIFFERENT:
            return False, f"entry {i} is {short(p)} instead of {short(q)}", None
        if v.status != tm.PROVED:
            und = und or v.how
    return und is None, "", und


def broad(t, shape):
    from sa.tensor import expand
    return expand(as_tensor(t), tuple(shape))
