"""C31: neural differential equations return the Jacobian of their rate."""
from .common import *
from itertools import product


class Net(Abstract):
    """an arbitrary map of the last axis, applied entry by entry of the batch"""

    def __init__(self, name, nin, nout):
        self.name, self.nin, self.nout = name, nin, nout

    def __repr__(self):
        return f"<network {self.name}>"

    def sa_params(self):
        return []

    def sa_call(self, interp, args, kw):
        xs = [as_tensor(a) for a in args] + [as_tensor(kw[k]) for k in sorted(kw)]
        if len(xs) != len(self.nin) or any(x.dim() < 1 or x.shape[-1] != n for x, n in zip(xs, self.nin)):
            raise ShapeError(f"{self.name} takes the sizes {self.nin} and is given {[x.shape for x in xs]}")
        b = broadcast_shapes(*[x.shape[:-1] for x in xs])
        cs = [expand(x, b + (x.shape[-1],)).cells() for x in xs]
        nb = len(cs[0]) // self.nin[0]
        cells = []
        for q in range(nb):
            a = [c for x, n in zip(cs, self.nin) for c in x[q * n:(q + 1) * n]]
            cells += [app(f"{self.name}{i}", a) for i in range(self.nout)]
        return new(b + (self.nout,), cells, "float", join_device(xs))

    def sa_getattr(self, interp, name):
        if name == "forward":
            return Builtin(name, lambda *a, **k: self.sa_call(interp, list(a), k))
        interp.attr_error(self, name)


class Force(Abstract):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<forcing function>"

    def sa_params(self):
        return []

    def sa_call(self, interp, args, kw):
        t = as_tensor(args[0])
        return new(tuple(t.shape) + (self.n,), [app(f"force{k}", [c]) for c in t.cells() for k in range(self.n)], "float", t.device)

    def sa_getattr(self, interp, name):
        if name == "forward":
            return Builtin(name, lambda *a, **k: self.sa_call(interp, list(a), k))
        interp.attr_error(self, name)


def vecs(name, batch, n):
    nb = 1
    for b in batch:
        nb *= ext(b)
    return new(tuple(batch) + (n,), [var(f"{name}{i}" + ("" if nb == 1 else f"_{q}")) for q in range(nb) for i in range(n)], "float", "D")


def run(rep):
    I = fresh_interp()
    rep.minimum = 60
    rep.rule("rate", "the rate is the network applied to the state joined with the forcing at that time, state first")
    rep.rule("jacobian", "the matrix is the exact derivative of the rate with respect to the state, and only the state")
    rep.rule("batch", "the derivative of one batch entry is taken of that entry alone")
    rep.rule("wrapper-value", "the differentiation wrapper returns the value of the function it wraps")
    rep.rule("wrapper-jacobian", "it returns the exact derivatives for the requested arguments, in the order requested")
    rep.assume("the wrapped function maps the last axis and treats batch entries separately")
    B, N, M = SymSize("B"), SymSize("N"), SymSize("M")
    bts = [(), (B,), (N, B), (2,), (2, 3), (1, 1)] + ([(M, N, B), (2, 1, 2)] if rep.tier == "thorough" else [])
    c = I.get("neuralode.NeuralODE")
    cn = "neuralode.NeuralODE"
    w = mwhere(c, "forward")
    for b in bts:
        for n, s in product((1, 2, 3), (1, 2, 3, 0)):
            if rep.tier == "quick" and n == 3 and s == 3:
                continue
            key = f"batch {fmtshape(b)}, {n} states, {s} forces"
            with rep.guard("rate", cn, key):
                net = Net("m", [n + s], n)
                o = I.call(c, [net, Force(s)], {})
                y = vecs("y", b, n)
                t = new(b, [var(f"t_{q}") for q in range(max(1, y.ncells() // n))], "float", "D")
                I.events.clear()
                r = I.call(o, [t, y], {})
                val, jac = r
                yc, tc = y.cells(), t.cells()
                wv, wj = [], []
                for q in range(len(tc)):
                    a = yc[q * n:(q + 1) * n]
                    x = a + [app(f"force{k}", [tc[q]]) for k in range(s)]
                    for i in range(n):
                        e = app(f"m{i}", x)
                        wv.append(e)
                        wj += [d(e, v.args[0]) for v in a]
                rep.equal_tensors("rate", cn, key, val, (y.shape, wv), w, "rate")
                rep.equal_tensors("jacobian", cn, key, jac, (tuple(b) + (n, n), wj), w, "Jacobian")
                y2, t2 = vecs("z", b, n), new(b, [var(f"u_{q}") for q in range(len(tc))], "float", "D")
                ren = {v.args[0]: z for v, z in zip(yc + tc, y2.cells() + t2.cells())}
                r2 = I.call(o, [t2, y2], {})
                rep.equal_tensors("rate", cn, key + ", second call", r2[0], (y.shape, [tm.subst(x, ren) for x in wv]), w, "rate of a second call")
                rep.equal_tensors("jacobian", cn, key + ", second call", r2[1], (tuple(b) + (n, n), [tm.subst(x, ren) for x in wj]), w, "Jacobian of a second call")
                mix = [e for e in I.events if e["kind"] == "batch-mix"]
                rep.fact("batch", cn, key, not mix, w, "the derivative mixes batch entries")
    wrapper(rep, I, bts)


def wrapper(rep, I, bts):
    f = I.get("utility.jacobianize")
    cn = "utility.jacobianize"
    w = where_func(f)
    for b in bts:
        for sizes, nout in (((2,), 2), ((2,), 3), ((3,), 1), ((1, 2), 2), ((2, 2), 1), ((1, 2, 3), 2)):
            k = len(sizes)
            choices = [None, (0,), (k - 1,), tuple(range(k)), tuple(range(k))[::-1]] + ([(0, 2)] if k == 3 else [])
            for a in dict.fromkeys(choices):
                for how in ("decorator", "call"):
                    if how == "call" and a is None:
                        continue
                    key = f"batch {fmtshape(b)}, arguments of sizes {sizes}, {nout} results, derivative by {a} given to the {how}"
                    with rep.guard("wrapper-value", cn, key):
                        net = Net("g", list(sizes), nout)
                        dec = I.call(f, [], {"argnums": a} if how == "decorator" and a is not None else {})
                        g = I.call(dec, [net], {})
                        for bb, tag in ((b, ""), *((x, f", then batch {fmtshape(x)}") for x in bts if len(x) != len(b))):
                            wrapped(rep, I, cn, w, key + tag, g, bb, sizes, nout, a, how)
                        if how == "decorator":
                            for o in ((0,), (k - 1,)):
                                wrapped(rep, I, cn, w, f"{key}, then by {o}", g, b, sizes, nout, o, "call")
                            wrapped(rep, I, cn, w, f"{key}, then by default again", g, b, sizes, nout, a, "decorator")


def wrapped(rep, I, cn, w, key, g, b, sizes, nout, a, how):
    k = len(sizes)
    xs = [vecs(f"x{p}_", b, n) for p, n in enumerate(sizes)]
    r = I.call(g, list(xs), {"argnums": a} if how == "call" else {})
    res, jac = r
    cs = [x.cells() for x in xs]
    nb = len(cs[0]) // sizes[0]
    wv = []
    want = a if a is not None else tuple(range(k))
    wj = {p: [] for p in want}
    for q in range(nb):
        aa = [v for x, n in zip(cs, sizes) for v in x[q * n:(q + 1) * n]]
        for i in range(nout):
            e = app(f"g{i}", aa)
            wv.append(e)
            for p in want:
                wj[p] += [d(e, v.args[0]) for v in cs[p][q * sizes[p]:(q + 1) * sizes[p]]]
    rep.equal_tensors("wrapper-value", cn, key, res, (tuple(b) + (nout,), wv), w, "value")
    rep.fact("wrapper-jacobian", cn, key, isinstance(jac, (tuple, list)) and len(jac) == len(want), w, f"{len(want)} derivatives were requested")
    for p, j in zip(want, jac):
        rep.equal_tensors("wrapper-jacobian", cn, f"{key}, argument {p}", j, (tuple(b) + (nout, sizes[p]), wj[p]), w, f"derivative by argument {p}")
