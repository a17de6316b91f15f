"""Shared parts of the checks."""
from sa.interp import *
from sa.interp import MISSING
from sa.contracts import *
from sa.report import *
from sa import terms as tm


def varname(t):
    """name of the variable held by a one-cell tensor"""
    c = t.cells()[0]
    assert c.op == "var"
    return c.args[0]


RATE_MODULES = ("flowrules", "hardening", "damage", "models", "temperature", "utility", "scaling")


ALL_MODULES = RATE_MODULES + ("neuralode", "ode", "chunktime", "optimize")


def batches(rep, modules=RATE_MODULES):
    """batch shapes: arbitrary sizes of rank 1, 2 and 3 (and 4 when thorough); a single entry,
    on which decisions taken for the whole batch at once are followed both ways; sizes
    around the numbers of the code, if it has any"""
    from . import sizes
    B = [(SymSize("B"),), (SymSize("N"), SymSize("B")), (1,), (SymSize("M"), SymSize("N"), SymSize("B"))]
    if rep.tier == "thorough":
        B.append((SymSize("L"), SymSize("M"), SymSize("N"), SymSize("B")))
    return B + [(c,) for c in sizes.beyond(fresh_interp(), modules, 2, 130, 8)]


def count(batch):
    n = 1
    for d_ in batch:
        n *= ext(d_)
    return n


def bl(batch):
    return "batch" + ("".join(f"[{b}]" for b in batch) or "()")


def ins(name, batch, kind="real"):
    """one generic input: the variable carries the plain name whatever the batch"""
    t = new(batch, [var(name, kind)] * count(batch), "float", "D")
    t.st.tag = name
    return t


def point(batch, nh, names=("s", "t", "T", "e"), hname="h", kinds=None):
    """generic arguments: one variable each, arbitrary batch"""
    kinds = kinds or {}
    out = {n: ins(n, batch, kinds.get(n, "pos" if n in ("T", "t") else "real")) for n in names}
    hs = tuple(batch) + (nh,)
    cells = [var(f"{hname}{k}", kinds.get(hname, "real")) for k in range(nh)] * count(batch)
    h = new(hs, cells, "float", "D")
    h.st.tag = hname
    out[hname] = h
    return out


def d(t, v):
    return tm.diff(T(t), v)


def overrides(cls, name, base_module=None):
    f, owner = cls.lookup(name)
    return f, owner


def fresh_interp():
    return Interp()


def method(I, o, name):
    return I.getattr(o, name)


def mwhere(cls, name):
    f, owner = cls.lookup(name)
    return where_func(f) if f is not None else where_func(cls)


def short_name(cls):
    return f"{cls.module.name.split('.')[-1]}.{cls.name}"
