"""C22: generated test inputs realise the requested conditions."""
from .common import *
from sa.terms import ZERO, ONE, fn
import math
from itertools import product


def vecp(name, n, kind="pos", neg=False):
    return new((n,), [(-var(f"{name}{k}", kind) if neg else var(f"{name}{k}", kind)) for k in range(n)], "float", "D")


class Sub:
    """parts of one generated history"""

    def __init__(self, rep, cn, w, key):
        self.rep, self.cn, self.w, self.key = rep, cn, w, key

    def eq(self, rule, what, got, want):
        return self.rep.equal_terms(rule, self.cn, f"{self.key}: {what}", got, want, self.w, what)

    def increasing(self, rule, what, seq, strict=True):
        for k in range(1, len(seq)):
            s = tm.decide_sign(T(seq[k]) - T(seq[k - 1]))
            if s is None:
                # geometric sequences: some power of the ratio is recognisable
                for m in range(1, len(seq) + 1):
                    s = tm.decide_sign(tm.power(T(seq[k]) / T(seq[k - 1]), T(m)) - 1)
                    if s is not None:
                        break
            if s is None:
                # points of the domain where the sequence clearly falls
                d, a = T(seq[k]) - T(seq[k - 1]), T(seq[k])
                low = []
                for salt in range(40):
                    vd, va = tm.evaluate([d, a], f"inc:{salt}")
                    if math.isfinite(vd) and math.isfinite(va) and vd < -1e-6 * abs(va):
                        low.append(salt)
                if len(low) >= 2:
                    self.rep.bad(rule, self.cn, f"{self.key}: {what}", self.w,
                                 f"{what} decreases at row {k}: {short(seq[k - 1])} then {short(seq[k])}, for example at {tm._point(a, f'inc:{low[0]}')}")
                    return
                self.rep.und(rule, self.cn, f"{self.key}: {what}", f"sign of the increment at row {k}: {short(T(seq[k]) - T(seq[k - 1]))}")
                return
            if s < 0 or (strict and s == 0):
                self.rep.bad(rule, self.cn, f"{self.key}: {what}", self.w, f"{what} does not increase at row {k}: {short(seq[k - 1])} then {short(seq[k])}")
                return
        self.rep.ok(rule, self.cn, f"{self.key}: {what}", f"{len(seq)} rows")


def column(t, i):
    n = t.shape[1]
    return t.cells()[i::n]


def run(rep):
    I = fresh_interp()
    rep.minimum = 100
    rep.rule("tension", "each generated tension history starts at zero, ends at the requested strain, moves at the requested rate throughout at the requested temperature, in increasing time")
    rep.rule("creep", "each generated creep history loads from zero to the requested stress at the requested rate, then holds it until the requested time, in increasing time with equal increments (equal ratios if logarithmic), with hold markers")
    rep.rule("sampled-tension", "a sampled tensile case runs from zero to the maximum strain at the strain rate")
    rep.rule("cycle", "sampled cycles ramp, hold, ramp, hold and ramp back between the extremes at the strain rate for the hold durations, numbered from zero")
    rep.rule("random", "random cases draw every quantity from the requested range")
    rep.assume("the hold time of a creep test is later than the end of its loading")
    rep.assume("at least two points per loading ramp and one per hold")
    tm.FOLD_SIGNS[0] = True
    tm._SIGNS.clear()
    try:
        tension(rep, I)
        creep(rep, I)
        sampled(rep, I)
        cycles(rep, I)
        randoms(rep, I)
    finally:
        tm.FOLD_SIGNS[0] = False


def whole(rep, rule, cn, key, t, w):
    rep.fact(rule, cn, f"{key}: kind of the cycle numbers", t.dtype == "int", w, f"the cycle numbers are of type {t.dtype}, which cannot be counted")


def ints(rep, rule, s, what, t, want):
    got = [numval(c) for c in t]
    rep.fact(rule, s.cn, f"{s.key}: {what}", got == want, s.w, f"{what} are {[short(c) for c in t][:12]}, required {want[:12]}")


def tension(rep, I):
    f = I.get("experiments.make_tension_tests")
    cn, w = "experiments.make_tension_tests", where_func(f)
    ns = (2, 3, 5, 10) if rep.tier == "quick" else tuple(range(2, 40))
    for nb, n, neg in product((1, 2, 3), ns, (False, True)):
        key = f"{nb} tests, {n} steps" + (", compression" if neg else "")
        with rep.guard("tension", cn, key):
            r, e, Tm = vecp("rate", nb, neg=neg), vecp("limit", nb, neg=neg), vecp("temp", nb)
            out = I.call(f, [r, Tm, e, n], {})
            ts, es, Ts, cyc = out
            whole(rep, "tension", cn, key, cyc, w)
            for t_, nm in ((ts, "times"), (es, "strains"), (Ts, "temperatures"), (cyc, "cycles")):
                rep.fact("tension", cn, f"{key}: shape of the {nm}", tuple(t_.shape) == (n, nb), w, f"{nm} have the shape {fmtshape(t_.shape)}")
            for i in range(nb):
                s = Sub(rep, cn, w, f"{key}, test {i}")
                t, x, q = column(ts, i), column(es, i), column(Ts, i)
                s.eq("tension", "first time", t[0], ZERO)
                s.eq("tension", "first strain", x[0], ZERO)
                s.eq("tension", "last strain", x[-1], e.cells()[i])
                for k in range(n):
                    s.eq("tension", f"strain of row {k} (rate times time)", x[k], r.cells()[i] * t[k])
                    s.eq("tension", f"temperature of row {k}", q[k], Tm.cells()[i])
                s.increasing("tension", "time", t)
                ints(rep, "tension", s, "cycle markers", column(cyc, i), [0] * n)


def creep(rep, I):
    f = I.get("experiments.make_creep_tests")
    cn, w = "experiments.make_creep_tests", where_func(f)
    sizes = ((2, 1), (2, 3), (4, 2), (5, 6)) if rep.tier == "quick" else tuple(product((2, 3, 4, 7), (1, 2, 3, 8)))
    for nb, (nl, nh), logs, neg in product((1, 2, 3), sizes, (False, True), (False, True)):
        key = f"{nb} tests, {nl}+{nh} steps" + (", logarithmic hold" if logs else "") + (", compression" if neg else "")
        with rep.guard("creep", cn, key):
            s_, T_, r = vecp("stress", nb, neg=neg), vecp("temp", nb), vecp("rate", nb, neg=neg)
            hold = [a / b + var(f"hold{k}", "pos") for k, (a, b) in enumerate(zip(s_.cells(), r.cells()))]
            h = new((nb,), hold, "float", "D")
            out = I.call(f, [s_, T_, r, h, nl, nh], {"logspace": logs} if logs else {})
            ts, ss, Ts, cyc = out
            whole(rep, "creep", cn, key, cyc, w)
            n = nl + nh
            for t_, nm in ((ts, "times"), (ss, "stresses"), (Ts, "temperatures"), (cyc, "cycles")):
                rep.fact("creep", cn, f"{key}: shape of the {nm}", tuple(t_.shape) == (n, nb), w, f"{nm} have the shape {fmtshape(t_.shape)}")
            for i in range(nb):
                s = Sub(rep, cn, w, f"{key}, test {i}")
                t, x, q = column(ts, i), column(ss, i), column(Ts, i)
                s.eq("creep", "first time", t[0], ZERO)
                s.eq("creep", "first stress", x[0], ZERO)
                for k in range(nl):
                    s.eq("creep", f"stress of loading row {k} (rate times time)", x[k], r.cells()[i] * t[k])
                for k in range(nl - 1, n):
                    s.eq("creep", f"held stress in row {k}", x[k], s_.cells()[i])
                for k in range(n):
                    s.eq("creep", f"temperature of row {k}", q[k], T_.cells()[i])
                s.eq("creep", "last time", t[-1], hold[i])
                s.increasing("creep", "loading time", t[:nl])
                s.increasing("creep", "hold time", t[nl - 1:])
                for k in range(nl, n - 1):
                    if logs:
                        s.eq("creep", f"equal ratios of the hold times in row {k}", t[k] * t[k], t[k - 1] * t[k + 1])
                    else:
                        s.eq("creep", f"equal increments of the hold times in row {k}", t[k] - t[k - 1], t[k + 1] - t[k])
                ints(rep, "creep", s, "hold markers", column(cyc, i), [0] * nl + [1] * nh)


def sampled(rep, I):
    f = I.get("experiments.sample_tension")
    cn, w = "experiments.sample_tension", where_func(f)
    for n in ((2, 3, 7) if rep.tier == "quick" else (2, 3, 4, 5, 10, 50)) + (None,):
        key = f"{n or 'default'} steps"
        with rep.guard("sampled-tension", cn, key):
            e, r = pyvar("max_strain"), pyvar("strain_rate")
            t, x = I.call(f, [{"max_strain": e, "strain_rate": r}], {"nsteps": n} if n else {})
            n = n or 50
            rep.fact("sampled-tension", cn, f"{key}: size", tuple(t.shape) == (n,) and tuple(x.shape) == (n,), w, f"sizes {fmtshape(t.shape)}, {fmtshape(x.shape)}")
            s = Sub(rep, cn, w, key)
            tc, xc = t.cells(), x.cells()
            s.eq("sampled-tension", "first strain", xc[0], ZERO)
            s.eq("sampled-tension", "last strain", xc[-1], e.cells()[0])
            for k in range(n):
                s.eq("sampled-tension", f"strain of row {k}", xc[k], r.cells()[0] * tc[k])
            s.increasing("sampled-tension", "time", tc)


def pyvar(name, kind="pos"):
    return new((), [var(name, kind)], "float", None)


def cycles(rep, I):
    f = I.get("experiments.sample_cycle_normalized_times")
    cn, w = "experiments.sample_cycle_normalized_times", where_func(f)
    emax0 = var("emax", "pos")
    low, gap = var("low", "pos"), var("gap", "pos")
    # ratio: (maximum, minimum) strain, sign of the maximum, of maximum - minimum and of the minimum
    Rn = var("Rn", "pos")
    ratios = {"negative": (emax0, -Rn * emax0, 1, 1, -1), "zero": (emax0, ZERO, 1, 1, 1), "between 0 and 1": (low + gap, low, 1, 1, 1), "-1": (emax0, -emax0, 1, 1, -1), "one": (emax0, emax0, 1, 1, 1),
              "above 1": (low, low + gap, 1, -1, 1), "between 0 and 1, compression first": (-low - gap, -low, -1, -1, -1), "negative, compression first": (-emax0, Rn * emax0, -1, -1, 1), "above 1, compression first": (-low, -low - gap, -1, 1, -1)}
    holds = {"both holds": (var("ht", "pos"), var("hc", "pos")), "no tension hold": (ZERO, var("hc", "pos")), "no compression hold": (var("ht", "pos"), ZERO), "no holds": (ZERO, ZERO)}
    sizes = ((1, 1, 1), (2, 2, 3), (1, 3, 1)) if rep.tier == "quick" else ((1, 1, 1), (2, 2, 3), (1, 3, 1), (3, 4, 2), (2, 10, 10))
    for (rn, (emax, emin, s1, s3, s5)), (hn, (ht, hc)), (N, nl, nh) in product(ratios.items(), holds.items(), sizes):
        key = f"ratio {rn}, {hn}, {N} cycles of {nl}/{nh} steps"
        with rep.guard("cycle", cn, key):
            R = emin / emax
            cyc = {"max_strain": new((), [emax], "float", None), "R": new((), [R], "float", None), "strain_rate": pyvar("srate"),
                   "tension_hold": new((), [ht], "float", None), "compression_hold": new((), [hc], "float", None)}
            t, x, c = I.call(f, [cyc, N], {"nload": nl, "nhold": nh})
            r = var("srate", "pos")
            n = 1 + N * (4 * nl + 2 * nh)
            rep.fact("cycle", cn, f"{key}: size", all(tuple(z.shape) == (n,) for z in (t, x, c)), w, f"sizes {[fmtshape(z.shape) for z in (t, x, c)]}, required ({n})")
            whole(rep, "cycle", cn, key, c, w)
            s = Sub(rep, cn, w, key)
            tc, xc = t.cells(), x.cells()
            # durations of the five segments; the signs are fixed per case
            d_ = [s1 * emax / r, ht, s3 * (emax - emin) / r, hc, s5 * emin / r]
            ns = [nl, nh, 2 * nl, nh, nl]
            ends = [ZERO]
            rows = [0]
            for _ in range(N):
                for a, b in zip(d_, ns):
                    ends.append(ends[-1] + a)
                    rows.append(rows[-1] + b)
            ext_ = [ZERO] + [emax, emax, emin, emin, ZERO] * N
            for k, row in enumerate(rows):
                s.eq("cycle", f"time at the end of segment {k}", tc[row], ends[k])
                s.eq("cycle", f"strain at the end of segment {k}", xc[row], ext_[k])
            # between the ends: constant rate (or constant strain), time not decreasing
            for k in range(len(rows) - 1):
                dt = d_[k % 5]
                for q in range(rows[k] + 1, rows[k + 1]):
                    if k % 5 in (1, 3):
                        want = ext_[k]
                    elif k % 5 == 0:
                        want = s1 * r * (tc[q] - ends[k])
                    elif k % 5 == 2:
                        want = emax - s3 * r * (tc[q] - ends[k])
                    else:
                        want = emin - s5 * r * (tc[q] - ends[k])
                    s.eq("cycle", f"strain inside segment {k}, row {q}", xc[q], want)
            s.increasing("cycle", "time", tc, strict=False)
            want = [0] + [k for k in range(N) for _ in range(4 * nl + 2 * nh)]
            ints(rep, "cycle", s, "cycle numbers", c.cells(), want)


def randoms(rep, I):
    """every drawn quantity is the documented draw over the requested range"""
    lo, hi = (lambda n: pyvar(n + "_lo")), (lambda n: pyvar(n + "_hi"))
    draw = lambda a, b: app("draw:uniform", [T(a), T(b)])
    for fnm, spec in (("generate_random_tension", {"strain_rate": "log"}),
                      ("generate_random_cycle", {"max_strain": "lin", "R": "lin", "strain_rate": "log", "tension_hold": "lin", "compression_hold": "lin"})):
        f = I.get("experiments." + fnm)
        cn, w = "experiments." + fnm, where_func(f)
        with rep.guard("random", cn, "ranges"):
            kw = {n: [lo(n), hi(n)] for n in spec}
            if fnm == "generate_random_tension":
                kw["max_strain"] = pyvar("max_strain")
            out = I.call(f, [], dict(kw))
            rep.fact("random", cn, "entries", isinstance(out, dict) and set(out) == set(kw), w, f"entries {sorted(out)}, required {sorted(kw)}")
            for n in kw:
                got = as_tensor(out[n]).cells()[0]
                if n not in spec:
                    rep.equal_terms("random", cn, n, got, var("max_strain", "pos"), w, n)
                    continue
                a, b = var(n + "_lo", "pos"), var(n + "_hi", "pos")
                if spec[n] == "lin":
                    rep.equal_terms("random", cn, n, got, draw(a, b), w, n)
                else:
                    rep.equal_terms("random", cn, n, tm.fn("log", got) / tm.fn("log", T(10)), draw(tm.fn("log", a) / tm.fn("log", T(10)), tm.fn("log", b) / tm.fn("log", T(10))), w, f"decimal logarithm of {n}")
