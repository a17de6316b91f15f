"""C36: the variance plot shows the mean and the central band of both sets of curves."""
from .catalog import *
from fractions import Fraction
from math import gcd
from sa.interp import NS

W = "utility.visualize_variance"


class Canvas(Abstract):
    """a plotting library that keeps what it is asked to draw"""

    def __init__(self, log):
        self.log = log

    def sa_getattr(self, interp, name):
        if name.startswith("__"):
            interp.attr_error(self, name)

        def f(*a, **k):
            self.log.append((name, a, k))
            return [Canvas(self.log), Canvas(self.log)] if name == "subplots" else Canvas(self.log)
        return Builtin(name, f)


def run(rep):
    rep.minimum = 100
    rep.rule("mean", "the mean over the tests is drawn against the strain for both sets of curves")
    rep.rule("band", "the band of each set lies between two of its own curves' order statistics, at the ranks nearest to alpha and 1 - alpha of the number of tests, whatever that number is")
    rep.rule("inputs", "the data handed in are not changed")
    rep.assume("at every point the values of the tests are distinct; the order in which the tests come is one generic order per point")
    thorough = rep.tier == "thorough"
    sizes_ = sorted(set(range(1, 24)) | {30, 39, 40, 41, 60, 99, 100, 101} | (set(range(24, 64)) if thorough else set()))
    for alpha in (None, Fraction(1, 20), Fraction(1, 10), Fraction(1, 4), Fraction(2, 5)):
        for n in sizes_:
            m = sizes_[(3 * sizes_.index(n) + 5) % len(sizes_)]
            one(rep, n, m, alpha)


def curves(name, npts, n):
    """npts x n tests, point i in an order of its own"""
    rows = []
    for i in range(npts):
        perm = [(k * step + i) % n for k in range(n) for step in [next(s for s in range(2 + i, 2 + i + n + 2) if gcd(s, n) == 1)]]
        rows.append([num(Fraction(7 * i + 1, 3) + p * (p + 3) * Fraction(1, 2 + i)) for p in perm])
    return new((npts, n), [c for r in rows for c in r], "float", "D"), [sorted(numval(c) for c in r) for r in rows]


def values(x):
    return [numval(c) for c in (x.cells() if isinstance(x, Tensor) else x)]


def one(rep, n, m, alpha):
    I = fresh_interp()
    log = []
    plt = Canvas(log)
    I.namespaces["matplotlib"] = NS("matplotlib", {"pyplot": plt})
    f = I.get(W)
    w = where_func(f)
    key = f"{n} and {m} tests, alpha {alpha or 'default'}"
    with rep.guard("band", W, key):
        npts = 3
        strain = new((npts,), [num(k) for k in range(npts)], "float", "D")
        (a, ra), (b, rb) = curves("true", npts, n), curves("calc", npts, m)
        keep = [(x, x.cells()) for x in (strain, a, b)]
        I.call(f, [strain, a, b] + ([] if alpha is None else [alpha]), {})
        rep.fact("inputs", W, key, all(x.cells() == c for x, c in keep), w, "the plotted data are changed in place")
        al = alpha or Fraction(1, 20)
        lines = [(nm, args) for nm, args, k in log if nm == "plot"]
        bands = [(nm, args) for nm, args, k in log if nm == "fill_between"]
        for which, rows, q in (("true", ra, n), ("predicted", rb, m)):
            mean = [sum(r) / q for r in rows]
            hit = [args for _, args in lines if len(args) >= 2 and values(args[0]) == [0, 1, 2] and values(args[1]) == mean]
            rep.fact("mean", W, f"{key} {which}", bool(hit), w, f"no line shows the mean of the {which} curves over the strain: drawn are {[values(a_[1]) for _, a_ in lines if len(a_) > 1][:2]} instead of {mean}")
            ok = False
            for _, args in bands:
                if len(args) < 3 or values(args[0]) != [0, 1, 2]:
                    continue
                lo, hi = values(args[1]), values(args[2])
                okay = True
                for r, x, y in zip(rows, lo, hi):
                    if x not in r or y not in r or x > y:
                        okay = False
                        break
                    i, j = r.index(x) + 1, r.index(y) + 1
                    if abs(i - max(q * al, 1)) > 1 or abs(j - max(q * (1 - al), 1)) > 1:
                        okay = False
                        break
                ok = ok or okay
            rep.fact("band", W, f"{key} {which}", ok, w, f"no band lies between the {which} curves of rank {float(q * al)} and {float(q * (1 - al))} of {q}")
