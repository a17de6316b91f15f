"""C32: small numerical helpers equal their definitions."""
from . import sizes as near
from .common import *
from sa.terms import gt, ite, ZERO, ONE
from sa import torchlib as tl
from itertools import product


def cells_of(name, n, kind="real"):
    return [var(f"{name}{k}", kind) for k in range(n)]


def mat(name, batch, r, c):
    nb = 1
    for b in batch:
        nb *= ext(b)
    cs = [var(f"{name}{'' if nb == 1 else q}_{i}_{j}") for q in range(nb) for i in range(r) for j in range(c)]
    return new(tuple(batch) + (r, c), cs, "float", "D")


def vec(name, batch, n):
    nb = 1
    for b in batch:
        nb *= ext(b)
    return new(tuple(batch) + (n,), [var(f"{name}{'' if nb == 1 else q}_{i}") for q in range(nb) for i in range(n)], "float", "D")


def run(rep):
    I = fresh_interp()
    rep.minimum = 40
    rep.rule("product", "the batched product is the sum over the inner index, entry by entry of the (broadcast) batch")
    rep.rule("step", "heaviside is 0 below, 1/2 at and 1 above zero; macaulay is the argument above zero and 0 at and below it")
    rep.rule("identity", "add_id adds one to the diagonal entries and nothing else")
    rep.rule("solve", "the dense solve is the inverse of the matrix applied to the right-hand side, the diagonal one divides by the diagonal")
    rep.rule("preconditioner", "each preconditioner applies the inverse it is named after")
    rep.assume("matrices handed to a solve are non-singular; the inverse of a block of size three and more is an opaque function of the block's entries")
    B, N, M = SymSize("B"), SymSize("N"), SymSize("M")
    bts = [(), (B,), (N, B), (2,), (1,), (2, 3)] + ([(M, N, B), (3, 1, 2)] if rep.tier == "thorough" else [])
    f = I.get("utility.mbmm")
    w = where_func(f)
    more = near.beyond(I, ("utility", "solvers"), 3, 20, 6)
    bts += [(k,) for k in (3, 5, 17)] + [(1, 1), (2, 1)] + [(k,) for k in more if k > 3]
    sizes = [(1, 1, 1), (2, 2, 2), (1, 3, 2), (3, 1, 2), (2, 3, 1), (3, 3, 3), (4, 2, 5), (2, 6, 1)] + [x for k in more for x in ((k, 2, 1), (1, k, 2), (2, 1, k))]
    for b in bts:
        for r, k, c in sizes:
            key = f"batch {fmtshape(b)} ({r}x{k})({k}x{c})"
            with rep.guard("product", "utility.mbmm", key):
                A, X = mat("a", b, r, k), mat("x", b, k, c)
                got = I.call(f, [A, X], {})
                rep.equal_tensors("product", "utility.mbmm", key, got, (tuple(b) + (r, c), product_cells(A, X, r, k, c)), w, "product")
    for b1, b2 in (((2,), (1,)), ((1,), (3,)), ((), (2,)), ((2, 1), (1, 2)), ((2,), (3, 2))):
        key = f"batches {fmtshape(b1)} and {fmtshape(b2)} (2x2)(2x2)"
        with rep.guard("product", "utility.mbmm", key):
            A, X = mat("a", b1, 2, 2), mat("x", b2, 2, 2)
            got = I.call(f, [A, X], {})
            bb = broadcast_shapes(b1, b2)
            rep.equal_tensors("product", "utility.mbmm", key, got, (bb + (2, 2), product_cells(expand(A, bb + (2, 2)), expand(X, bb + (2, 2)), 2, 2, 2)), w, "product")
    # step functions
    h, m = I.get("utility.heaviside"), I.get("utility.macaulay")
    for b in bts:
        for kind, hv, mv in (("pos", lambda x: ONE, lambda x: x), ("neg", lambda x: ZERO, lambda x: ZERO), ("zero", lambda x: (ONE / 2), lambda x: ZERO), ("real", None, None)):
            key = f"shape {fmtshape(b)} {kind}"
            with rep.guard("step", "utility.heaviside", key):
                n = 1
                for q in b:
                    n *= ext(q)
                base = [var(f"x{k}", "pos" if kind in ("pos", "neg") else "real") for k in range(n)]
                xs = {"pos": base, "neg": [-x for x in base], "zero": [ZERO] * n, "real": base}[kind]
                X = new(b, list(xs), "float", "D")
                if hv is None:
                    hv = lambda x: ite(gt(x, ZERO), ONE, ite(gt(ZERO, x), ZERO, (ONE / 2)))
                    mv = lambda x: ite(gt(x, ZERO), x, ZERO)
                rep.equal_tensors("step", "utility.heaviside", key, I.call(h, [X], {}), (b, [hv(x) for x in xs]), where_func(h), "heaviside")
                rep.equal_tensors("step", "utility.macaulay", key, I.call(m, [X], {}), (b, [mv(x) for x in xs]), where_func(m), "macaulay")
    # identity shift
    a = I.get("utility.add_id")
    for b in ((B,), (1,), (2,), (3,)):
        for n in (1, 2, 3, 4):
            key = f"batch {fmtshape(b)} size {n}"
            with rep.guard("identity", "utility.add_id", key):
                J = mat("j", b, n, n)
                got = I.call(a, [J], {})
                c = J.cells()
                rep.equal_tensors("identity", "utility.add_id", key, got, (J.shape, [x + (1 if (q % (n * n)) // n == q % n else 0) for q, x in enumerate(c)]), where_func(a), "shifted matrix")
    solves(rep, I, bts)


def product_cells(A, X, r, k, c):
    a, x = A.cells(), X.cells()
    out = []
    for q in range(len(a) // (r * k)):
        for i in range(r):
            for j in range(c):
                out.append(tm.add(*[a[(q * r + i) * k + l] * x[(q * k + l) * c + j] for l in range(k)]))
    return out


def inverse_times(A, v):
    """oracle: A^-1 v for the entries of one block (opaque inverse, or the adjugate for size 2)"""
    n = len(v)
    inv = tl.inv_cells(A, n)
    return [tm.add(*[inv[i * n + j] * v[j] for j in range(n)]) for i in range(n)]


def solves(rep, I, bts):
    lu, ja = I.get("solvers.lu_linear_solve"), I.get("solvers.jacobi_iteration_linear_solve")
    P = {n: I.get("solvers." + n) for n in ("NoOp", "JacobiPreconitionerOperator", "LUPreconitionerOperator")}
    for b in bts:
        for n in (1, 2, 3, 4):
            key = f"batch {fmtshape(b)} size {n}"
            A, v = mat("a", b, n, n), vec("b", b, n)
            a0, v0 = A.cells(), v.cells()
            nb = len(v0) // n
            full, dia = [], []
            for q in range(nb):
                blk, x = a0[q * n * n:(q + 1) * n * n], v0[q * n:(q + 1) * n]
                full += inverse_times(blk, x)
                dia += [x[i] / blk[i * n + i] for i in range(n)]
            with rep.guard("solve", "solvers.lu_linear_solve", key):
                rep.equal_tensors("solve", "solvers.lu_linear_solve", key, I.call(lu, [A, v], {}), (v.shape, full), where_func(lu), "solution")
            with rep.guard("solve", "solvers.jacobi_iteration_linear_solve", key):
                rep.equal_tensors("solve", "solvers.jacobi_iteration_linear_solve", key, I.call(ja, [A, v], {}), (v.shape, dia), where_func(ja), "solution")
            for cn, want in (("NoOp", v0), ("JacobiPreconitionerOperator", dia), ("LUPreconitionerOperator", full)):
                with rep.guard("preconditioner", f"solvers.{cn}", key):
                    o = I.call(P[cn], [] if cn == "NoOp" else [A], {})
                    f = method(I, o, "dot")
                    for rnd in ("first", "second"):
                        got = I.call(f, [v], {})
                        rep.equal_tensors("preconditioner", f"solvers.{cn}", f"{key} {rnd} application", got, (v.shape, want), mwhere(P[cn], "dot"), "preconditioned vector")
