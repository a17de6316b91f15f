"""Walks of the nonlinear solvers over classes of residuals.

The residual handed to the solver at each evaluation is taken from a finite set
of representatives (below, at, between and above the two thresholds, infinite,
not a number), chosen separately for every evaluation and batch entry; the
Jacobians are opaque.  Every comparison the loops make is then decided, so each
walk follows one path of the solver, and all histories up to the iteration
bound are followed."""
from .common import *
from sa import torchlib as tl
from fractions import Fraction

INFN, NANN = "inf", "nan"


class NeedMore(Exception):
    pass


def cellof(v):
    return tm.INF if v == INFN else tm.NAN if v == NANN else num(v)


class Script:
    """residual function following a prepared history; its points, residuals
    and Jacobians are recorded"""

    def __init__(self, history, n, entries, opaque=False, scale=None):
        self.scale = scale        # Jacobians are this multiple of the identity
        self.history, self.n, self.entries, self.opaque = history, n, entries, opaque
        self.points, self.R, self.J = [], [], []

    def value(self):
        return Builtin("residual", self.call)

    def call(self, x, *extra):
        k = len(self.points)
        if k >= len(self.history):
            raise NeedMore()
        x = as_tensor(x)
        self.points.append(tuple(clone(x).st.cells))
        n, h = self.n, self.history[k]
        cells = []
        for v in h:
            # the norm of a residual of several components is that of a
            # Pythagorean tuple
            cells += {1: [v], 2: [v] if v in (INFN, NANN) else [v * Fraction(3, 5), v * Fraction(4, 5)],
                      3: [v] if v in (INFN, NANN) else [v * Fraction(2, 7), v * Fraction(-3, 7), v * Fraction(6, 7)]}[n]
            if v in (INFN, NANN):
                cells += [Fraction(1)] * (n - 1)
        R = new((len(h), n), [cellof(c) for c in cells], "float", "D")
        if self.opaque:
            J = Operator(k)
        elif self.scale is not None:
            J = new((len(h), n, n), [num(self.scale if i == j else 0) for e in range(len(h)) for i in range(n) for j in range(n)], "float", "D")
        else:
            J = new((len(h), n, n), [var(f"J{k}_{e}_{i}{j}") for e in range(len(h)) for i in range(n) for j in range(n)], "float", "D")
        self.R.append(tuple(R.cells()))
        self.J.append(J)
        return (R, J)

    def last_at(self, x):
        """last evaluation at the point x"""
        c = tuple(clone(as_tensor(x)).st.cells)
        hit = [k for k, p in enumerate(self.points) if p == c]
        return hit[-1] if hit else None


class Operator(Abstract):
    """an opaque Jacobian"""

    def __init__(self, k):
        self.k = k

    def sa_getattr(self, I, name):
        I.attr_error(self, name)


class LinSolver(Abstract):
    """the linear solver object of the chunked Newton solver"""

    def __init__(self, n, script):
        self.solves = []
        self.n = n
        self.script = script

    def sa_getattr(self, I, name):
        if name == "solve":
            return Builtin("solve", self.solve)
        I.attr_error(self, name)

    def solve(self, J, R):
        k = len(self.solves)
        self.solves.append((J, tuple(clone(R).st.cells)))
        if self.script.scale is not None:
            return new(R.shape, [c / num(self.script.scale) for c in clone(R).st.cells], "float", R.device)
        return new(R.shape, [var(f"dx{k}_{i}") for i in range(R.ncells())], "float", R.device)


class Walk:
    pass


def walk(solver, history, n=1, I=None, **kw):
    """one path of one solver: returns a Walk, or raises NeedMore"""
    I = I or fresh_interp()
    del I.events[:]
    W = Walk()
    W.I = I
    e = len(history[0])
    scale = kw.pop("_scale", None)
    s = W.script = Script(history, n, e, solver == "chunktime.newton_raphson_chunk", scale)
    x = new((e, n), [num(Fraction(3 + q + 2 * i, 4)) if scale is not None else var(f"x{q}_{i}") for q in range(e) for i in range(n)], "float", "D")
    W.x0 = tuple(x.cells())
    W.gmres = []
    W.linear = None
    if solver == "solvers.PreconditionerReuseNonlinearSolver":
        f = I.get("solvers.gmres")

        def hook(i, a, k):
            v = i.bindargs(f, a, k)
            q = len(W.gmres)
            W.gmres.append((v["A"], tuple(clone(v["b"]).st.cells)))
            dx = new(v["b"].shape, [var(f"dx{q}_{i_}") if scale is None else c / num(scale) for i_, c in enumerate(clone(v["b"]).st.cells)], "float", "D")
            return (dx, kw.get("_niter", 0)) if v.get("return_iters") else dx

        I.intercepts["solvers.gmres"] = hook
        o = I.call(I.get(solver), [], {})
        target = method(I, o, "solve")
        args = [s.value(), x]
        W.where = mwhere(I.get(solver), "solve")
    else:
        target = I.get(solver)
        args = [s.value(), x]
        W.where = where_func(target)
        if solver == "chunktime.newton_raphson_chunk":
            W.linear = LinSolver(n, s)
            args.append(W.linear)
    W.raised = None
    try:
        W.result = I.call(target, args, {k: v for k, v in kw.items() if not k.startswith("_")})
    except PyRaise as r:
        W.raised = r
        W.result = None
    W.warned = any(k == "warn" for k, _ in I.events)
    return W


def explore(solver, classes, kw, n=1, entries=2, limit=100000):
    """all paths whose residuals are taken from the classes, by lazy extension
    of the history"""
    import itertools
    step = list(itertools.product(classes, repeat=entries))
    stack = [[s] for s in reversed(step)]
    count = 0
    I = fresh_interp()
    while stack:
        h = stack.pop()
        try:
            w = walk(solver, h, n=n, I=I, **kw)
        except NeedMore:
            for s in reversed(step):
                # an entry that is not a number stays so: its iterate is not one either
                if all(b == NANN for a, b in zip(h[-1], s) if a == NANN):
                    stack.append(h + [s])
            continue
        count += 1
        if count > limit:
            raise AnalysisError(f"{solver}: more than {limit} paths")
        yield h, w


SOLVERS = ("solvers.newton_raphson", "solvers.newton_raphson_bt", "chunktime.newton_raphson_chunk", "solvers.PreconditionerReuseNonlinearSolver")
