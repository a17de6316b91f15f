"""C10: residual and operator handed to the nonlinear solver."""
from .integ import *
from . import sizes


def run(rep):
    rep.minimum = 30
    rep.rule("residual", "the entries of the residual are the one-step equations of the block, one each")
    rep.rule("operator", "the operator's dense matrix is the derivative of the residual with respect to the unknowns")
    rep.rule("unknowns", "each returned state carries one unknown of the solve each")
    rep.assume("the right-hand side returns its exact Jacobian")
    rep.assume("entries may carry the opposite sign of the equation")
    big = rep.tier == "thorough"
    B = (SymSize("B"),)
    more = sizes.beyond(fresh_interp(), ("ode", "chunktime", "utility"), 4)
    cases = {(batch, n, steps) for batch in (B, (2,), (1,)) for n in (1, 2, 3, 4) for steps in ((1, 2, 3, 4, 5, 6, 9) if big else (1, 2, 3, 4, 5))}
    cases |= {(B, 1, k) for k in (8, 16, 17, 33)} | {(B, 2, k) for k in (8, 13)} | {((k,), 1, 2) for k in (3, 5, 8, 17, 33)} | {(B, k, 2) for k in (5, 6, 9)}
    cases |= {(B, 1, k) for k in more if k <= 70} | {((k,), 1, 2) for k in more} | {(B, k, 2) for k in more if k <= 20}
    for method in SCHEMES:
        for batch, n, steps in sorted(cases, key=repr):
            one(rep, method, batch, n, steps)
        for batch, n, steps in (((1,), 1, 1), ((2,), 1, 2), ((1,), 2, 2), ((3,), 2, 1), ((2,), 2, 3)):
            one(rep, method, batch, n, steps, True)


def one(rep, method, batch, n, steps, used=False):
    I = fresh_interp()
    cn = f"ode.{type_name(I, method)}"
    key = f"{bl(batch)} size {n} block of {steps}" + (", after other sizes" if used else "")
    where = ""
    f = rhs(n)
    with rep.guard("residual", cn, key):
        cls = I.get("ode.FixedGridBlockSolver")
        where = mwhere(cls, "block_update")
        if used:
            warm(I, method, batch, n, steps)
        tap = Tap(I)
        sch = I.get("ode.int_methods")[method]
        solver = I.call(cls, [f, y0_of(batch, n)], {"scheme": sch, "block_size": steps})
        t = times(steps + 1, batch)
        res = I.call(I.getattr(solver, "integrate"), [t], {})
        if len(tap.solves) != 1:
            rep.bad("residual", cn, key, where, f"{len(tap.solves)} nonlinear solves for one block")
            return
        rec = tap.solves[0]
        R, x = rec["R"], rec["x"]
        rc, xc = R.cells(), x.cells()
        where = mwhere(sch.cls, "form_operators")
        # every unknown is carried by one entry of the returned states
        nb = res.ncells() // (steps + 1) // n
        got = own_unknowns(res.cells()[nb * n:], xc)
        rep.fact("unknowns", cn, key, sorted(v for v in got.values() if v is not None) == list(range(len(xc))), mwhere(cls, "block_update"), "the returned states do not carry one unknown each")
        eqs = [e for row in step_equations(f, res, t, method) for b in row for e in b]
        first = [got.get(q) if got.get(q) is not None else q for q in range(len(eqs))]
        miss, left, und = match_equations(eqs, rc, first)
        if miss or (left and not und):
            k = miss[0] // (nb * n) + 1 if miss else 0
            rep.bad("residual", cn, key, where, f"no residual entry is the {method} equation of step {k}; the entries include {short(rc[left[0]])}")
        elif und:
            rep.und("residual", cn, key, f"{und} entries")
        else:
            rep.ok("residual", cn, key, f"{len(eqs)} equations")
        with rep.guard("operator", cn, key):
            D = I.call(I.getattr(I.call(I.getattr(rec["J"], "to_diag"), [], {}), "to_dense"), [], {})
            N = steps * n
            want = []
            for b in range(nb):
                for i in range(N):
                    for j in range(N):
                        want.append(d(rc[b * N + i], xc[b * N + j].args[0]))
            rep.equal_tensors("operator", cn, key, D, (tuple(batch) + (N, N), want), where, "operator")


def type_name(I, method):
    o = I.get("ode.int_methods")
    return o[method].cls.name if method in o else method
