"""C29: the finite-difference helpers return forward difference quotients."""
from . import sizes as near
from .catalog import *
from itertools import product as prod
from sa import torchlib as tl

HELPERS = ("batch_differentiate", "new_differentiate", "differentiate")


def run(rep):
    rep.minimum = 40
    rep.rule("quotient", "every entry is the change of that value of its own test over its increment: the given fraction of the size of the component, at least that fraction, with everything else unperturbed")
    rep.rule("shape", "batch, then the shape of the values, then the shape of the arguments")
    rep.assume("the function treats tests one by one")
    rep.assume("values and arguments are scalars or vectors per test; differentiate also takes matrices")
    thorough = rep.tier == "thorough"
    for name in HELPERS:
        shapes = [(), (1,), (2,), (3,)]
        for s1, s2 in prod(shapes, shapes):
            for b in (1, 2, 3) if thorough else (1, 2):
                one(rep, name, s1, s2, (b,))
        more = near.beyond(fresh_interp(), ("utility",), 3, 20, 6)
        for k in sorted({4, 5, 7} | set(more)):
            for a in (((k,), (2,), (2,)), ((2,), (k,), (2,)), ((2,), (2,), (k,)), ((), (k,), (1,)), ((k,), (), (1,))):
                one(rep, name, *a)
        if name == "differentiate":
            for s1, s2 in (((2, 2), ()), ((2, 2), (2,)), ((), (2, 2)), ((2,), (2, 3)), ((2, 2), (2, 2))):
                one(rep, name, s1, s2, (2,))
        if name == "batch_differentiate":
            for s1, s2 in prod([(), (2,)], [(), (2,)]):
                for b in ((2, 1), (2, 2), (1, 2, 2)):
                    one(rep, name, s1, s2, b)


def size(s):
    n = 1
    for k in s:
        n *= k
    return n


def one(rep, name, s1, s2, b):
    for default in (True, False):
        run_one(rep, name, s1, s2, b, default)


def run_one(rep, name, s1, s2, b, default):
    I = fresh_interp()
    f = I.get("utility." + name)
    cn = "utility." + name
    key = f"values {fmtshape(s1)}, arguments {fmtshape(s2)}, batch {fmtshape(b)}, {'default' if default else 'given'} perturbation"
    w = where_func(f)
    n, m, nb = size(s2), size(s1), size(b)
    with rep.guard("quotient", cn, key):
        x = grid("x", tuple(b) + tuple(s2), "D")
        xc = x.cells()
        g = Smooth(len(b), s1)
        kw = {"nbatch_dim": len(b)} if len(b) > 1 else {}
        if default:
            eps = as_tensor(default_of(I, f, "eps")).item_cell()
        else:
            kw["eps"] = new((), [var("eps", "pos")], "float", None)
            eps = var("eps", "pos")
        r = as_tensor(I.call(f, [g.value(), x], kw))
        a1, a2 = tuple(s1), tuple(s2)
        if name == "new_differentiate":
            a1, a2 = a1 or (1,), a2 or (1,)
        if tuple(r.shape) != tuple(b) + a1 + a2:
            rep.bad("shape", cn, key, w, f"result of shape {fmtshape(r.shape)} instead of {fmtshape(tuple(b) + a1 + a2)}")
            return
        rep.ok("shape", cn, key)
        rc = r.cells()
        und = None
        for e in range(nb):
            mine = xc[e * n:(e + 1) * n]
            for i in range(m):
                for j in range(n):
                    got = T(rc[(e * m + i) * n + j])
                    # the larger of the two
                    inc = larger(tm.fn("abs", mine[j]) * eps, eps)
                    moved = list(mine)
                    moved[j] = moved[j] + inc
                    want = (app(f"fn{i}", moved) - app(f"fn{i}", mine)) / inc
                    v = tm.equal(got, want)
                    if v.status == tm.DIFFERENT:
                        rep.bad("quotient", cn, key, w, f"test {e}, value {i}, component {j}: {short(got)} instead of {short(want)}")
                        return
                    if v.status != tm.PROVED:
                        und = und or v.how
        if und:
            rep.und("quotient", cn, key, und)
        else:
            rep.ok("quotient", cn, key, f"{nb * m * n} entries")


def default_of(I, f, name):
    names = [a.arg for a in f.node.args.args]
    return f.defaults[names.index(name) - len(names)]


def larger(a, b):
    return as_tensor(tl.METHODS["maximum"](new((), [a], "float", None), new((), [b], "float", None))).item_cell()
