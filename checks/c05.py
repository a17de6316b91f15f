"""C05: strain, stress and mixed control follow the prescribed history."""
from . import sizes as near
from .common import *

NEWTON = ("newton_raphson", "newton_raphson_bt")
INTERP = ("TimeSeriesInterpolator", "BatchTimeSeriesInterpolator", "ArbitraryBatchTimeSeriesInterpolator")


class Root:
    """stands for the nonlinear solve: returns an arbitrary point (assumed a
    root of the function handed in: C16, C28)"""

    def __init__(self, I):
        self.solves = []
        for n in NEWTON:
            f = I.get("solvers." + n)
            I.intercepts["solvers." + n] = lambda i, a, k, f=f: self.hook(i, f, a, k)

    def hook(self, I, f, args, kw):
        v = I.bindargs(f, args, kw)
        fn_, x0 = v["fn"], v["x0"]
        k = len(self.solves)
        x = new(x0.shape, [var(f"x{k}_{i}") for i in range(x0.ncells())], "float", x0.device)
        R, J = I.call(fn_, [x], {})
        self.solves.append((x, R, J))
        return (clone(x), clone(J))

    def equation(self, u):
        """residual term and its stated derivative in which u is the unknown"""
        for x, R, J in self.solves:
            for q, c in enumerate(x.cells()):
                if c is u:
                    return R.cells()[q], J.cells()[q], R.shape == x.shape and J.ncells() == R.ncells()
        return None, None, False


class CurveC(Abstract):
    """a prescribed history: value at the time of each entry"""

    def __init__(self, name):
        self.name = name

    def sa_call(self, I, args, kw):
        t = as_tensor(args[0])
        return new(t.shape, [app(self.name, [c]) for c in t.cells()], "float", t.device)

    def sa_getattr(self, I, name):
        if name == "forward":
            return Builtin(name, lambda t: self.sa_call(I, [t], {}))
        I.attr_error(self, name)


def entries(batch):
    n = 1
    for b in batch:
        n *= ext(b)
    return n


def state(batch, n, name="y"):
    nb = entries(batch)
    return new(tuple(batch) + (n,), [var(f"{name}{i}" + (f"_{j}" if nb > 1 else "")) for j in range(nb) for i in range(n)], "float", "D")


def tvec(batch, name="t"):
    nb = entries(batch)
    return new(tuple(batch), [var(name + (f"_{j}" if nb > 1 else ""), "pos") for j in range(nb)], "float", "D")


def ydot(n, k, dv, t, s, h, e, T_):
    return app(f"model.ydot{k}", [t, s, *h, e, T_], dv)


def strain_ref(n, t, y, e, T_):
    return ([app(f"model.ydot{k}", [t, *y, e, T_]) for k in range(n)],
            [app(f"model.ydot{k}", [t, *y, e, T_], (1 + j,)) for k in range(n) for j in range(n)])


def stress_ref(n, t, y, s, u, T_):
    """rates and Jacobian when u is the strain rate at the prescribed stress"""
    a = [t, s, *y[1:], u, T_]
    f = lambda k: app(f"model.ydot{k}", a)
    g = lambda k, j: app(f"model.ydot{k}", a, (1 + j,))
    ge = lambda k: app(f"model.ydot{k}", a, (1 + n,))
    rates = [u] + [f(k) for k in range(1, n)]
    du = [ZERO] + [-g(0, j) / ge(0) for j in range(1, n)]
    J = []
    for k in range(n):
        for j in range(n):
            if j == 0:
                J.append(ZERO)
            elif k == 0:
                J.append(du[j])
            else:
                J.append(g(k, j) + ge(k) * du[j])
    return rates, J


def run(rep):
    rep.minimum = 40
    rep.rule("strain", "under strain control rate and Jacobian are the material's at the prescribed strain rate and temperature")
    rep.rule("equation", "the strain rate solves: material stress rate at the prescribed stress equals the prescribed stress rate")
    rep.rule("equation-jacobian", "the solver gets the exact derivative of that equation")
    rep.rule("stress", "under stress control the rates are the strain rate and the material's internal rates at it")
    rep.rule("stress-jacobian", "the Jacobian is the exact derivative through the implicit equation")
    rep.rule("mixed", "each entry of a mixed batch gets the result of its own control mode")
    rep.rule("prescribed", "the integrated right-hand side is driven by the backward difference quotient of the history, its value and the temperature")
    rep.rule("start", "integration starts from a zero state of the model's size at the given times")
    rep.assume("the constitutive model meets its contract (C04)")
    rep.assume("the nonlinear solve returns a root of the equation it is given (C16, C28)")
    rep.assume("interpolators return the interpolation of their own series (C23)")
    shapes = [(1,), (2,), (3,), (2, 2)]
    if rep.tier == "thorough":
        shapes += [(), (4,), (3, 2), (1, 3)]
    more = near.beyond(fresh_interp(), ("models", "utility"), 4, 40, 6)
    for n, batch in [(n, batch) for n in (1, 2, 3, 4) for batch in shapes] + [(2, (5,)), (2, (9,)), (2, (2, 1)), (5, (2,)), (6, (1,)), (1, (17,))] + [(2, (k,)) for k in more] + [(k, (1,)) for k in more if k <= 9]:
        if True:
            strain(rep, n, batch)
            stress(rep, n, batch)
            if batch:
                mixed(rep, n, batch)
    drive(rep)


def call(I, o, t, y):
    r = I.call(o, [t, y], {})
    if not isinstance(r, tuple) or len(r) != 2:
        raise Undecided("the wrapped model does not return rate and Jacobian")
    return r


def strain(rep, n, batch):
    cn = "models.StrainBasedModel"
    key = f"size {n} {bl(batch)}"
    with rep.guard("strain", cn, key):
        I = fresh_interp()
        o = I.call(I.get(cn), [InelasticC("model", n), CurveC("erate"), CurveC("T")], {})
        t, y = tvec(batch), state(batch, n)
        r, J = call(I, o, t, y)
        wr, wj = [], []
        yc = y.cells()
        for b, tc in enumerate(t.cells()):
            a, c = strain_ref(n, tc, yc[b * n:(b + 1) * n], app("erate", [tc]), app("T", [tc]))
            wr += a
            wj += c
        w = mwhere(I.get(cn), "forward")
        rep.equal_tensors("strain", cn, key + " rate", r, (batch + (n,), wr), w, "state rate")
        rep.equal_tensors("strain", cn, key + " Jacobian", J, (batch + (n, n), wj), w, "Jacobian")


def check_unknown(rep, cn, key, root, u, t, y, s, sr, T_, n, w):
    """u is the strain rate of one entry: is its equation the stress equation?"""
    if u.op != "var" or not u.args[0].startswith("x"):
        rep.bad("equation", cn, key, w, f"the strain rate is {short(u)}, not the solution of the stress equation")
        return False
    R, J, shape = root.equation(u)
    a = [t, s, *y[1:], u, T_]
    want = app("model.ydot0", a) - sr
    if R is None:
        rep.bad("equation", cn, key, w, "the strain rate is not solved for")
        return False
    ok = True
    v, m = tm.equal(R, want), tm.equal(R, tm.neg(want))
    if v.status == tm.PROVED or m.status == tm.PROVED:
        rep.ok("equation", cn, key)
    elif v.status == tm.DIFFERENT and m.status == tm.DIFFERENT:
        rep.bad("equation", cn, key, w, f"the strain rate solves {short(R)} = 0 instead of {short(want)} = 0")
        ok = False
    else:
        rep.und("equation", cn, key, v.how)
        ok = None
    rep.equal_terms("equation-jacobian", cn, key, J, d(R, u.args[0]), w, "derivative of the equation")
    return ok


def stress(rep, n, batch):
    cn = "models.StressBasedModel"
    key = f"size {n} {bl(batch)}"
    with rep.guard("stress", cn, key):
        I = fresh_interp()
        root = Root(I)
        o = I.call(I.get(cn), [InelasticC("model", n), CurveC("srate"), CurveC("stress"), CurveC("T")], {})
        t, y = tvec(batch), state(batch, n)
        r, J = call(I, o, t, y)
        w = mwhere(I.get(cn), "forward")
        if tuple(r.shape) != batch + (n,):
            rep.bad("stress", cn, key, w, f"rate of shape {fmtshape(r.shape)}")
            return
        rc, yc = r.cells(), y.cells()
        wr, wj = [], []
        for b, tc in enumerate(t.cells()):
            yb = yc[b * n:(b + 1) * n]
            u = T(rc[b * n])
            s, T_ = app("stress", [tc]), app("T", [tc])
            check_unknown(rep, cn, f"{key} entry {b}", root, u, tc, yb, s, app("srate", [tc]), T_, n, w)
            a, c = stress_ref(n, tc, yb, s, u, T_)
            wr += a
            wj += c
        rep.equal_tensors("stress", cn, key, r, (batch + (n,), wr), w, "state rate")
        rep.equal_tensors("stress-jacobian", cn, key, J, (batch + (n, n), wj), w, "Jacobian")


def mixed(rep, n, batch):
    cn = "models.BothBasedModel"
    nb = batch[-1]
    picks = range(2 ** nb)
    if nb > 6:
        alt = sum(1 << k for k in range(0, nb, 2))
        picks = [0, 2 ** nb - 1, 1, 1 << (nb - 1), 2 ** nb - 2, 2 ** (nb - 1) - 1, alt, alt << 1 & (2 ** nb - 1), (1 << (nb // 2)) - 1]
    for m in picks:
        ctrl = [m >> k & 1 for k in range(nb)]
        key = f"size {n} {bl(batch)} control {ctrl}"
        with rep.guard("mixed", cn, key):
            I = fresh_interp()
            root = Root(I)
            control = new((nb,), [num(c) for c in ctrl], "float", "D")
            o = I.call(I.get(cn), [InelasticC("model", n), CurveC("rate"), CurveC("base"), CurveC("T"), control], {})
            t, y = tvec(batch), state(batch, n)
            r, J = call(I, o, t, y)
            w = mwhere(I.get(cn), "forward")
            if tuple(r.shape) != batch + (n,):
                rep.bad("mixed", cn, key, w, f"rate of shape {fmtshape(r.shape)}")
                continue
            rc, yc = r.cells(), y.cells()
            wr, wj = [], []
            good = True
            for b, tc in enumerate(t.cells()):
                yb = yc[b * n:(b + 1) * n]
                T_, rt, bs = app("T", [tc]), app("rate", [tc]), app("base", [tc])
                if ctrl[b % nb] == 0:
                    a, c = strain_ref(n, tc, yb, rt, T_)
                else:
                    u = T(rc[b * n])
                    if u.op != "var" or not u.args[0].startswith("x"):
                        rep.bad("mixed", cn, key, w, f"entry {b} is under stress control but its strain rate is {short(u)}")
                        good = False
                        break
                    check_unknown(rep, cn, f"{key} entry {b}", root, u, tc, yb, bs, rt, T_, n, w)
                    a, c = stress_ref(n, tc, yb, bs, u, T_)
                wr += a
                wj += c
            if good:
                rep.equal_tensors("mixed", cn, key + " rate", r, (batch + (n,), wr), w, "state rate")
                rep.equal_tensors("mixed", cn, key + " Jacobian", J, (batch + (n, n), wj), w, "Jacobian")


class SeriesC(Abstract):
    """an interpolator, known by the series it was given"""

    def __init__(self, times, values):
        self.times, self.values = times, values

    def sa_call(self, I, args, kw):
        t = as_tensor(args[0])
        nb = t.shape[-1]
        V = self.values
        if V.dim() < 2 or V.shape[-1] != nb or tuple(V.shape) != tuple(self.times.shape):
            raise ShapeError(f"interpolating values {V.shape} over times {self.times.shape} at {t.shape}")
        nt = V.shape[0]
        vc, tc = clone(V).st.cells, clone(self.times).st.cells
        cells = []
        for q, c in enumerate(t.cells()):
            b = q % nb
            cells.append(app("interpolate", [c] + [tc[k * nb + b] for k in range(nt)] + [vc[k * nb + b] for k in range(nt)]))
        return new(t.shape, cells, "float", t.device)

    def sa_getattr(self, I, name):
        if name == "forward":
            return Builtin(name, lambda t: self.sa_call(I, [t], {}))
        I.attr_error(self, name)


def drive(rep):
    cn = "models.ModelIntegrator"
    shapes = [(4, 2), (3, 1), (2, 3)] + ([(6, 2), (5, 3)] if rep.tier == "thorough" else [])
    for name in ("solve_strain", "solve_stress", "solve_both"):
        for nt, nb in shapes:
            for still in (None, 1, nt - 1):
                for n in (1, 3):
                    for ctrl in ([None] if name != "solve_both" else [[0] * nb, [1] * nb, [k % 2 for k in range(nb)]]):
                        key = f"{name}, {nt} times, batch {nb}, size {n}" + ("" if still is None else f", no advance to time {still}") + ("" if ctrl is None else f", control {ctrl}")
                        with rep.guard("prescribed", cn, key):
                            drive1(rep, cn, key, name, nt, nb, still, n, ctrl)


def drive1(rep, cn, key, name, nt, nb, still, n, ctrl):
    I = fresh_interp()
    root = Root(I)
    for c in INTERP:
        def h(i, args, kw, c=c):
            cls = i.get("utility." + c)
            f, _ = cls.lookup("__init__")
            names = [a.arg for a in f.node.args.args][1:]
            v = dict(zip(names, args))
            v.update(kw)
            return SeriesC(as_tensor(v[names[0]]), as_tensor(v[names[1]]))
        I.intercepts["utility." + c] = h
    seen = []
    for m in ("odeint", "odeint_adjoint"):
        I.intercepts["ode." + m] = lambda i, a, k, m=m: (seen.append(i.bindargs(i.get("ode." + m), a, k)), "result")[1]
    o = I.call(I.get(cn), [InelasticC("model", n)], {})

    def series(p):
        c = [var(f"{p}{k}_{b}") for k in range(nt) for b in range(nb)]
        if still is not None and p != "T":
            for b in range(nb):
                c[still * nb + b] = c[(still - 1) * nb + b]
        return new((nt, nb), c, "float", "D")

    t, x, T_ = series("t"), series("d"), series("T")
    xc, ttc, Tc = list(x.cells()), list(t.cells()), list(T_.cells())
    args = {"solve_both": [t, T_, x] + ([new((nb,), [num(c) for c in ctrl], "float", "D")] if ctrl else []), "solve_strain": [t, x, T_], "solve_stress": [t, x, T_]}[name]
    I.call(method(I, o, name), args, {})
    w = mwhere(I.get(cn), name)
    if len(seen) != 1:
        rep.bad("start", cn, key, w, f"{len(seen)} integrations")
        return
    v = seen[0]
    names = [a.arg for a in I.get("ode.odeint").node.args.args]
    f, y0, tt = (v[q] for q in names[:3])
    rep.fact("start", cn, key, tuple(y0.shape) == (nb, n) and all(c is ZERO for c in clone(y0).st.cells) and tuple(tt.shape) == (nt, nb) and all(a is b for a, b in zip(clone(tt).st.cells, ttc)), w,
             f"integration starts from a state of shape {fmtshape(y0.shape)} with {short(clone(y0).st.cells[0])} at other times than given")
    # the rate at sample k: backward difference quotient
    q = []
    for k in range(nt):
        for b in range(nb):
            if k == 0 or k == still:
                q.append(ZERO)
            else:
                r = (xc[k * nb + b] - xc[(k - 1) * nb + b]) / (ttc[k * nb + b] - ttc[(k - 1) * nb + b])
                q.append(r)
    st = tvec((2, nb), "s")
    y = state((2, nb), n)
    r, J = I.call(f, [st, y], {})
    rc, yc = r.cells(), y.cells()
    wr = []
    for e, sc in enumerate(st.cells()):
        b = e % nb
        col = lambda c: [c[k * nb + b] for k in range(nt)]
        ip = lambda c: app("interpolate", [sc] + col(ttc) + col(c))
        rate, base, temp = ip(q), ip(xc), ip(Tc)
        yb = yc[e * n:(e + 1) * n]
        stressed = name == "solve_stress" or (ctrl and ctrl[b])
        if not stressed:
            wr += strain_ref(n, sc, yb, rate, temp)[0]
        else:
            u = T(rc[e * n])
            if u.op != "var" or not u.args[0].startswith("x"):
                rep.bad("prescribed", cn, key, w, f"entry {e} is under stress control but its strain rate is {short(u)}")
                return
            R, _, _ = root.equation(u)
            want = app("model.ydot0", [sc, base, *yb[1:], u, temp]) - rate
            s = tm.equal(R, want), tm.equal(R, tm.neg(want))
            if any(z.status == tm.PROVED for z in s):
                pass
            elif all(z.status == tm.DIFFERENT for z in s):
                rep.bad("prescribed", cn, key, w, f"entry {e}: the strain rate solves {short(R)} = 0 instead of {short(want)} = 0")
                return
            else:
                raise Undecided("driving equation")
            wr += stress_ref(n, sc, yb, base, u, temp)[0]
    rep.equal_tensors("prescribed", cn, key, r, ((2, nb, n), wr), w, "driven state rate")
