"""C11: blocked integration solves every step exactly once."""
from .integ import *
from . import sizes


def run(rep):
    rep.minimum = 100
    rep.rule("start", "the first state is the initial condition")
    rep.rule("steps", "the residuals handed to the nonlinear solver are, over all blocks, the one-step equations of all steps, each exactly once, written in the returned states")
    rep.rule("guess", "the starting guess of every block has the size of its unknowns and is made of already known values")
    rep.assume("the nonlinear solver returns a point where the residual it was given vanishes (C16, C28)")
    big = rep.tier == "thorough"
    N = 8 if big else 6
    for method in SCHEMES:
        for guess in ("zero", "previous"):
            for nt in range(1, N + 1):
                for block in range(1, nt + 2):
                    for batch in ((SymSize("B"),), (2,)) if (big or nt <= 4) else ((SymSize("B"),),):
                        one(rep, method, guess, nt, block, batch, 2)
            B = (SymSize("B"),)
            one(rep, method, guess, 5, 2, B, 1)
            one(rep, method, guess, 5, 2, (3,), 3)
            more = sizes.beyond(fresh_interp(), ("ode", "chunktime", "utility"), N)
            for nt, block in sorted({(nt, b) for nt in (10, 16, 17, 18, 33, 34, 50) for b in (1, 2, 3, 4, 5, 7, 8, 15, 16, 17, nt - 2, nt - 1)}
                                    | {(nt, b) for c in more if c <= 80 for nt in (c, c + 1, 2 * c + 3) if nt <= 100 for b in (1, 2, c - 1, c, c + 1)} | {(c, b) for c in more if 80 < c for b in (3, c - 2)}):
                one(rep, method, guess, nt, block, B, 1)
            for q in sorted({1, 4, 5, 8, 9, 17, 33} | set(more)):
                one(rep, method, guess, 4, 2, (q,), 1)
            for q in sorted({4, 5, 6, 9} | {c for c in more if c <= 20}):
                one(rep, method, guess, 4, 2, B, q)


def one(rep, method, guess, nt, block, batch, n):
    I = fresh_interp()
    cls = I.get("ode.FixedGridBlockSolver")
    cn = f"ode.{I.get('ode.int_methods')[method].cls.name}"
    key = f"{guess} guess, {nt} times, blocks of {block}, {bl(batch)} size {n}"
    f = rhs(n)
    w = mwhere(cls, "integrate")
    with rep.guard("steps", cn, key):
        tap = Tap(I)
        t, y0 = times(nt, batch), y0_of(batch, n)
        res = I.call(I.get("ode.odeint"), [f, y0, t], {"method": method, "block_size": block, "guess_type": guess})
        if tuple(res.shape) != (nt,) + tuple(batch) + (n,):
            rep.bad("steps", cn, key, w, f"result of shape {fmtshape(res.shape)}")
            return
        un = [u for c in res.cells() for u in tm.uninit_vars(T(c))]
        if un:
            rep.bad("steps", cn, key, w, "some states are never computed")
            return
        nb = res.ncells() // nt // n
        rep.equal_tensors("start", cn, key, new(tuple(batch) + (n,), res.cells()[:nb * n]), (tuple(batch) + (n,), y0.cells()), w, "first state")
        xs = [c for r in tap.solves for c in r["x"].cells()]
        Rs = [c for r in tap.solves for c in r["R"].cells()]
        got = own_unknowns(res.cells()[nb * n:], xs) if nt > 1 else {}
        eqs = [e for row in step_equations(f, res, t, method) for b in row for e in b]
        miss, left, und = match_equations(eqs, Rs, [got.get(q) if got.get(q) is not None else q for q in range(len(eqs))])
        if miss:
            rep.bad("steps", cn, key, w, f"the {method} equation of step {miss[0] // (nb * n) + 1} is not among the solved equations ({len(miss)} of {len(eqs)} steps missing)")
        elif left and not und:
            rep.bad("steps", cn, key, w, f"{len(left)} solved equations belong to no step, the first is {short(Rs[left[0]])}")
        elif und:
            rep.und("steps", cn, key, f"{und} equations")
        else:
            rep.ok("steps", cn, key, f"{len(eqs)} equations in {len(tap.solves)} blocks")
        bad = None
        done = set()
        for r in tap.solves:
            if r["x0"].ncells() != r["R"].ncells():
                bad = (r, f"guess of {r['x0'].ncells()} values for {r['R'].ncells()} equations")
            for c in r["x0"].cells():
                if tm.uninit_vars(T(c)):
                    bad = (r, "guess reads uninitialised memory")
                if any(v.startswith("x") and v not in done for v in tm.free(T(c))):
                    bad = (r, "guess uses values that are not known yet")
            done |= {v for c in r["x"].cells() for v in tm.free(c)}
        rep.fact("guess", cn, key, bad is None, bad[0]["where"] if bad else "", bad[1] if bad else "")
