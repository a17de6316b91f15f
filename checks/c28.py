"""C28: Newton solvers take exact steps and return the Jacobian at the returned point."""
from .newton import *
from . import sizes

F = Fraction


def run(rep):
    rep.minimum = 40
    rep.rule("start", "the first evaluation is at the given starting point")
    rep.rule("step", "every further evaluation is at an earlier iterate minus the (line-search scaled) solution of its own linear system")
    rep.rule("full", "the first trial of every iteration is the full Newton step")
    rep.rule("return", "the returned point is the last one whose residual was evaluated and the returned Jacobian belongs to it")
    rep.rule("linear", "the linear solve solves the system with the whole matrix; the diagonal one divides by the diagonal")
    rep.rule("choice", "the requested linear solver is used, unknown ones are rejected")
    rep.assume("loops read the residual only through comparisons of its norm; one representative per class")
    rep.assume("the restarted Krylov solver returns the solution of the system it is given")
    one_ = lambda *v: [(F(a), F(b)) for a, b in v]
    plain = [one_((16, 20)), one_((16, 20), (8, 12)), one_((16, 20), (8, 12), (4, 5)), one_((16, 20), (40, 12), (4, 55), (2, 3)),
             one_((16, 20), (F(1, 512), 12), (F(1, 1024), F(1, 512))), one_((F(1, 256), F(1, 512))), one_((16, F(1, 512)), (8, F(1, 1024)), (F(1, 256), F(1, 700)))]
    more = sizes.beyond(fresh_interp(), ("solvers", "chunktime"), 12, 60)
    longer = [one_(*[(F(200 - 3 * k), F(190 - 2 * k)) for k in range(m)]) for m in sorted({14, 26} | {c + 3 for c in more if c not in (9, 10, 11, 12)})]
    # stalling, growing, and one entry converged long before the other
    longer += [one_(*[(F(20), F(20 + k)) for k in range(10)]), one_(*[(F(4) ** k, F(1, 9 + k)) for k in range(10)]), one_((16, 20), *[(F(1, 10 ** 6), F(20 - k)) for k in range(9)])]
    if rep.tier == "thorough":
        plain += [one_(*[(F(97 - 7 * k), F(89 - 5 * k)) for k in range(m)]) for m in (5, 7, 9)]
    search = [one_((16, 20), (8, 12), (4, 5)),
              one_((16, 20), (40, 12), (9, 11), (8, 7), (3, 4), (2, 1)),
              one_((16, 20), (40, 50), (30, 21), (12, 14), (11, 13), (5, 6), (2, 3)),
              one_((16, 20), (40, 50), (41, 51), (42, 52), (43, 53), (44, 54), (45, 55), (46, 56), (47, 57), (48, 58)),
              one_((16, 20), (15, 21), (14, 22), (13, 23), (12, 24), (11, 25), (10, 26), (9, 27), (8, 28), (7, 29))]
    # batches of one and of three
    other = [[(a,) for a, _ in h] for h in plain[:4]] + [[(a, b, (a + b) / 3) for a, b in h] for h in plain[:4]]
    others_ = [[(a,) for a, _ in h] for h in search[:3]] + [[(a, b, (a + b) / 3) for a, b in h] for h in search[:3]]
    for s in SOLVERS:
        for n in (1, 2, 3):
            hs = search + longer[:2] if s.endswith("_bt") else plain + (longer if n < 3 else longer[:1])
            opts = [{}]
            if s in ("solvers.newton_raphson", "solvers.newton_raphson_bt"):
                opts = [{"linsolver": "lu"}, {"linsolver": "diag"}] if n > 1 else [{}, {"linsolver": "diag"}]
            if s.endswith("_bt"):
                opts = [dict(o, **e) for o in opts for e in ({"max_bt": 0}, {"max_bt": 1}, {"max_bt": 3}, {})]
            if "Preconditioner" in s:
                opts = [{"_niter": 0}, {"_niter": 1}, {"_niter": 2}, {"_niter": 9}, {"_niter": 60}]
            for o in opts:
                for k, h in enumerate(hs):
                    one(rep, s, n, o, h, k)
                for k, h in enumerate(others_ if s.endswith("_bt") else other):
                    one(rep, s, n, o, h, f"{k} of {len(h[0])} {'entry' if len(h[0]) == 1 else 'entries'}")
                if n < 3:
                    for k, h in enumerate(steep(rep)):
                        one(rep, s, n, o, h, f"of rates {k}", tiny=True)
        choice(rep, s)
    linear(rep)


def steep(rep):
    """histories whose norms fall or grow by factors of very different sizes from one evaluation to the next"""
    fall = [F(1, 10 ** k) for k in (1, 2, 3, 4, 5, 7, 9, 12)]
    around = sorted({x * q for x in sizes.fractions(fresh_interp(), ("solvers", "chunktime")) for q in (F(9, 10), F(11, 10))})
    out = []
    for f in fall + around[:12] + [F(9, 10), F(99, 100)]:
        out.append([(F(3) * f ** k, F(5) * f ** k * (1 if k < 2 else F(1, 2))) for k in range(4)])
    # slow then fast, fast then slow, one entry fast and the other slow, growth between
    out.append([(F(3), F(5)), (F(2), F(4)), (F(2, 10 ** 6), F(4, 10 ** 6)), (F(1, 10 ** 6), F(3, 10 ** 6)), (F(1, 10 ** 13), F(1, 10 ** 12))])
    out.append([(F(3), F(5)), (F(3, 10 ** 5), F(5, 10 ** 4)), (F(2, 10 ** 5), F(4, 10 ** 4)), (F(1, 10 ** 5), F(3, 10 ** 4))])
    out.append([(F(3), F(5)), (F(3, 10 ** 5), F(4)), (F(3, 10 ** 9), F(3)), (F(3, 10 ** 12), F(2)), (F(1, 10 ** 13), F(1))])
    out.append([(F(3), F(5)), (F(3, 10 ** 5), F(5, 10 ** 4)), (F(3), F(50)), (F(3, 10 ** 6), F(5, 10 ** 7)), (F(300), F(5, 10 ** 9))])
    return out


def full_solve(J, R, n, e, diag):
    """the solution of the linear systems, entry by entry"""
    out = []
    jc = J.cells()
    for q in range(e):
        b = R[q * n:(q + 1) * n]
        A = jc[q * n * n:(q + 1) * n * n]
        if diag:
            out += [b[i] / A[i * n + i] for i in range(n)]
        else:
            inv = tl.inv_cells(A, n)
            out += [sum((inv[i * n + j] * b[j] for j in range(n)), ZERO) for i in range(n)]
    return out


def one(rep, s, n, o, h, idx, tiny=False):
    key = f"{n} unknowns, history {idx}" + "".join(f", {k}={v}" for k, v in o.items())
    with rep.guard("step", s, key):
        # the loop is stopped by the iteration limit or by convergence
        done = None
        for miter in range(len(h), -1, -1):
            try:
                done = walk(s, h, n=n, atol=1e-60 if tiny else 1.0 / 128, rtol=1e-60 if tiny else 1.0 / 1024, miter=miter, **o)
                break
            except NeedMore:
                continue
        if done is None:
            raise Undecided("the solver evaluates more often than expected")
        w = done
        if w.raised is not None:
            rep.bad("step", s, key, w.where, f"raises {w.raised.exc}")
            return
        e = len(h[0])
        sc = w.script
        if not sc.points:
            rep.bad("start", s, key, w.where, "the residual is never evaluated")
            return
        rep.fact("start", s, key, sc.points[0] == w.x0, w.where, f"first evaluated at {short(sc.points[0][0])}")
        diag = n == 1 or o.get("linsolver") == "diag"
        alphas = [F(1, 2 ** k) for k in range(0, 14)] if s.endswith("_bt") else [F(1)]
        base = 0
        dirs = {}

        def direction(m):
            if m not in dirs:
                R = sc.R[m]
                if w.linear is not None:
                    hit = [k for k, (J, b) in enumerate(w.linear.solves) if J is sc.J[m] and b == R]
                    dirs[m] = [var(f"dx{hit[-1]}_{i}") for i in range(e * n)] if hit else None
                elif "Preconditioner" in s:
                    hit = [k for k, (A, b) in enumerate(w.gmres) if b == R and clone(A).st.cells == sc.J[m].cells()]
                    dirs[m] = [var(f"dx{hit[-1]}_{i}") for i in range(e * n)] if hit else None
                else:
                    dirs[m] = full_solve(sc.J[m], R, n, e, diag)
            return dirs[m]

        ok = True
        for k in range(1, len(sc.points)):
            hit = None
            del OPEN[:]
            for m in ([base, k - 1] if base != k - 1 else [base]):
                D = direction(m)
                if D is None:
                    continue
                if all(any(equal_step(sc.points[k][q * n:(q + 1) * n], sc.points[m][q * n:(q + 1) * n], D[q * n:(q + 1) * n], a) for a in alphas) for q in range(e)):
                    hit = m
                    break
            if hit == k - 1:
                full = [all(equal_step(sc.points[k][q * n:(q + 1) * n], sc.points[hit][q * n:(q + 1) * n], D[q * n:(q + 1) * n], F(1)) for q in range(e))]
                rep.fact("full", s, f"{key}, evaluation {k}", full[0], w.where, f"the first trial from the iterate of evaluation {hit} is a shortened step")
            if hit is None and OPEN:
                raise Undecided("step " + OPEN[0])
            if hit is None:
                # which older iterate or other system explains the step?
                why = "not the exact step from any iterate"
                for m in range(k):
                    D = direction(m)
                    if D is not None and m not in (base, k - 1) and equal_step(sc.points[k], sc.points[m], D, F(1)):
                        why = f"a step from evaluation {m}, an outdated iterate"
                rep.bad("step", s, key, w.where, f"evaluation {k} is at {short(sc.points[k][0])}: {why}")
                ok = False
                break
            base = hit
        if ok:
            rep.ok("step", s, key, f"{len(sc.points) - 1} steps")
        r = w.result
        x, J = (r if isinstance(r, tuple) else (r, None))
        last = len(sc.points) - 1
        rep.fact("return", s, key, tuple(clone(as_tensor(x)).st.cells) == sc.points[last], w.where,
                 f"returns {short(clone(as_tensor(x)).st.cells[0])}, the residual was last evaluated at {short(sc.points[last][0])}")
        if isinstance(r, tuple):
            good = J is sc.J[last] or isinstance(J, Tensor) and isinstance(sc.J[last], Tensor) and J.cells() == sc.J[last].cells()
            rep.fact("return", s, key + " Jacobian", good, w.where, "the returned Jacobian is not the one at the returned point")


OPEN = []      # comparisons left open since the last step was explained


def equal_step(new_, old, D, a):
    for x, y, dx in zip(new_, old, D):
        v = tm.equal(T(x), T(y) - num(a) * dx)
        if v.status == tm.DIFFERENT:
            return False
        if v.status == tm.UNKNOWN:
            OPEN.append(v.how)
            return False
    return True


def choice(rep, s):
    if s not in ("solvers.newton_raphson", "solvers.newton_raphson_bt"):
        return
    key = "unknown linear solver"
    with rep.guard("choice", s, key):
        w = walk(s, [(F(4), F(5))], n=2, linsolver="qr", atol=1.0, rtol=0.5, miter=0)
        rep.fact("choice", s, key, w.raised is not None, w.where, "an unknown linear solver is accepted")


def linear(rep):
    I = fresh_interp()
    for n in (1, 2, 3, 4):
        for batch in [(2,), (1,), (3, 2), ()] + batches(rep):
            nb = 1
            A = inputs("A", tuple(batch) + (n, n))
            b = inputs("b", tuple(batch) + (n,))
            ac, bc = A.cells(), b.cells()
            nb = len(bc) // n
            for name, diag in (("lu_linear_solve", False), ("jacobi_iteration_linear_solve", True)):
                cn = "solvers." + name
                key = f"size {n} {bl(batch)}"
                if name == "lu_linear_solve" and batch == () and n:
                    pass
                with rep.guard("linear", cn, key):
                    f = I.get(cn)
                    got = I.call(f, [A, b], {})
                    want = []
                    for q in range(nb):
                        a_ = ac[q * n * n:(q + 1) * n * n]
                        b_ = bc[q * n:(q + 1) * n]
                        if diag:
                            want += [b_[i] / a_[i * n + i] for i in range(n)]
                        else:
                            inv = tl.inv_cells(list(a_), n)
                            want += [sum((inv[i * n + j] * b_[j] for j in range(n)), ZERO) for i in range(n)]
                    rep.equal_tensors("linear", cn, key, got, (tuple(batch) + (n,), want), where_func(f), "solution")
    # the preconditioners used by the reuse solver apply the inverse they stand for
    for n in (1, 2, 3):
        for batch in [(1,), (2,)]:
            A = inputs("A", tuple(batch) + (n, n))
            x = inputs("x", tuple(batch) + (n,))
            ac, xc = A.cells(), x.cells()
            for name, diag in (("LUPreconitionerOperator", False), ("JacobiPreconitionerOperator", True)):
                cn = "solvers." + name
                key = f"size {n} {bl(batch)}"
                with rep.guard("linear", cn, key):
                    o = I.call(I.get(cn), [A], {})
                    got = I.call(method(I, o, "dot"), [x], {})
                    want = []
                    for q in range(batch[0]):
                        a_, b_ = ac[q * n * n:(q + 1) * n * n], xc[q * n:(q + 1) * n]
                        if diag:
                            want += [b_[i] / a_[i * n + i] for i in range(n)]
                        else:
                            inv = tl.inv_cells(list(a_), n)
                            want += [sum((inv[i * n + j] * b_[j] for j in range(n)), ZERO) for i in range(n)]
                    rep.equal_tensors("linear", cn, key, got, (tuple(batch) + (n,), want), mwhere(I.get(cn), "dot"), "preconditioned vector")
