"""Shared parts of the checks of the time integrator."""
from .common import *

SCHEMES = {"backward-euler": 1, "forward-euler": 0}


class Tap:
    """stands for the nonlinear solve: returns an arbitrary point, on the
    assumption (C16, C28) that the residual vanishes there"""

    def __init__(self, I, visit=None):
        self.I = I
        self.solves = []
        self.visit = visit
        self.f = I.get("chunktime.newton_raphson_chunk")
        I.intercepts["chunktime.newton_raphson_chunk"] = self

    def __call__(self, I, args, kw):
        v = I.bindargs(self.f, args, kw)
        names = [a.arg for a in self.f.node.args.args]
        fn_, x0, solver = (v[n] for n in names[:3])
        k = len(self.solves)
        x = new(x0.shape, [var(f"x{k}_{i}") for i in range(x0.ncells())], "float", x0.device)
        rec = dict(x0=x0, x=x, args=v, solver=solver, where=I.where())
        self.solves.append(rec)
        r = I.call(fn_, [x], {})
        rec["R"], rec["J"] = r[0], r[1]
        if self.visit:
            self.visit(rec)
        return clone(x)


def rhs(n, nparams=1, name="f"):
    ps = []
    for k in range(nparams):
        p = inputs(f"p{k}", () if k % 2 == 0 else (2,), "real", "D", namer=lambda i, k=k: f"p{k}" + "".join(f"_{j}" for j in i))
        p.kind = "parameter"
        p.requires_grad = True
        ps.append(p)
    return RhsC(name, n, ps, ps)


def warm(I, method, batch, n, steps, backward=False, **kw):
    """the scheme serves integrations of other sizes first"""
    nb = 1
    for b in batch:
        nb *= ext(b)
    for b2, n2, s2 in (((1 if nb > 1 else 2,), n, steps), ((nb,), n + 1 if n < 2 else n - 1, steps), ((nb,), n, steps + 1)):
        Tap(I)
        if not backward:
            cls = I.get("ode.FixedGridBlockSolver")
            solver = I.call(cls, [rhs(n2, name="other"), y0_of(b2, n2)], {"scheme": I.get("ode.int_methods")[method], "block_size": s2})
            I.call(I.getattr(solver, "integrate"), [times(s2 + 1, b2)], {})
            continue
        n0 = len(I.events)
        res = I.call(I.get("ode.odeint_adjoint"), [rhs(n2, name="other"), y0_of(b2, n2), times(s2 + 1, b2)], dict(kw, method=method, block_size=s2))
        e = [e for k, e in I.events[n0:] if k == "function-applied"][-1]
        bw, _ = e["cls"].lookup("backward")
        I.call(bw.f if isinstance(bw, StaticVal) else bw, [e["ctx"], new(res.shape, [var(f"g{k}") for k in range(res.ncells())], "float", "D")], {})


def times(nt, batch):
    nb = 1
    for b in batch:
        nb *= ext(b)
    return new((nt,) + tuple(batch), [var(f"t{k}" + (f"_{j}" if nb > 1 else "")) for k in range(nt) for j in range(nb)], "float", "D")


def y0_of(batch, n):
    nb = 1
    for b in batch:
        nb *= ext(b)
    return new(tuple(batch) + (n,), [var(f"y{i}" + (f"_{j}" if nb > 1 else "")) for j in range(nb) for i in range(n)], "float", "D")


def step_equations(f, res, t, method):
    """terms[k-1][b][i] of the one-step equation leading to state k"""
    nt, n = res.shape[0], res.shape[-1]
    y, tc = res.cells(), t.cells()
    nb = len(tc) // nt
    p = f.pcells()
    out = []
    for k in range(1, nt):
        row = []
        for b in range(nb):
            a, c = [y[((k - 1) * nb + b) * n + i] for i in range(n)], [y[(k * nb + b) * n + i] for i in range(n)]
            dt = tc[k * nb + b] - tc[(k - 1) * nb + b]
            at, ay = (tc[k * nb + b], c) if SCHEMES[method] else (tc[(k - 1) * nb + b], a)
            row.append([c[i] - a[i] - dt * app(f"{f.name}{i}", [at, *ay, *p]) for i in range(n)])
        out.append(row)
    return out


def same_or_opposite(a, b):
    v = tm.equal(T(a), T(b))
    if v.status == tm.PROVED:
        return True
    w = tm.equal(T(a), tm.neg(T(b)))
    if w.status == tm.PROVED:
        return True
    return False if v.status == tm.DIFFERENT and w.status == tm.DIFFERENT else None


def match_equations(eqs, cells, first=None):
    """pairs every equation with one residual entry; returns (unmatched
    equations, unmatched entries, undecided)"""
    left = list(range(len(cells)))
    miss, und = [], 0
    for q, e in enumerate(eqs):
        order = sorted(left, key=lambda c: c != (first[q] if first else q))
        hit = None
        unk = False
        # the atoms of an equation tell candidates apart cheaply
        fe = tm.free(T(e))
        for c in order:
            if tm.free(T(cells[c])) != fe:
                continue
            s = same_or_opposite(e, cells[c])
            if s:
                hit = c
                break
            if s is None:
                unk = True
        if hit is None:
            if unk:
                und += 1
            else:
                miss.append(q)
        else:
            left.remove(hit)
    return miss, left, und


def own_unknowns(cells, xc):
    """index of the single unknown each entry carries with unit weight"""
    pos = {v.args[0]: i for i, v in enumerate(xc)}
    got = {}
    for q, c in enumerate(cells):
        u = [v for v in tm.free(T(c)) if v in pos]
        got[q] = pos[u[0]] if len(u) == 1 and tm.equal(d(c, u[0]), ONE).status == tm.PROVED else None
    return got
