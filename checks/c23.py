"""C23: interpolators reproduce the piecewise linear function through their data."""
from . import sizes as near
from .common import *
from .c07 import positions
from itertools import product

CLASSES = ("ArbitraryBatchTimeSeriesInterpolator", "BatchTimeSeriesInterpolator", "CheaterBatchTimeSeriesInterpolator")


class Ranked:
    """orders the sample times and the query times"""

    def __enter__(self):
        self.saved = dict(tm.ORDER)
        return self

    def rank(self, name, x):
        tm.ORDER[name] = x
        return var(name)

    def __exit__(self, *a):
        tm.ORDER.clear()
        tm.ORDER.update(self.saved)
        return False


def lin(x, tq, t, v):
    """the piecewise linear function at the query of rank x"""
    if x == int(x):
        return v[int(x)]
    k = int(x)
    return v[k] + (v[k + 1] - v[k]) * (tq - t[k]) / (t[k + 1] - t[k])


def run(rep):
    I = fresh_interp()
    rep.minimum = 100
    rep.rule("class", "each interpolator object gives, for every batch member, the linear interpolation of the member's own series between the two samples around the query")
    rep.rule("function", "so do the interpolation functions")
    rep.rule("sample", "a query exactly on a sample gives the sample")
    rep.assume("sample times strictly increase and the query lies within them")
    rep.assume("the cheater interpolator is queried at the same place relative to the samples for all batch members, as documented")
    sizes = (2, 3, 4) if rep.tier == "quick" else (2, 3, 4, 5, 6)
    for c in CLASSES:
        for n in sizes:
            pos = positions(n)
            for nb in (1, 2, 3) if rep.tier == "thorough" or n < 4 else (1, 2):
                for q in queries(c, pos, nb, rep.tier):
                    klass(rep, I, c, n, nb, (nb,), q)
            if c.startswith("Arbitrary"):
                for nb in (1, 2, 3):
                    for lead in ((1,), (2,), (3,), (2, 2), (1, 3)) + (((2, 1, 2),) if rep.tier == "thorough" else ()):
                        m = nb
                        for d_ in lead:
                            m *= d_
                        for s in range(len(pos)) if m > 1 else (0,):
                            # every member at every position, in different order
                            klass(rep, I, c, n, nb, lead + (nb,), [pos[(s + 3 * k * k + k) % len(pos)] for k in range(m)])
    # longer series and more members
    more = near.beyond(fresh_interp(), ("utility",), 6, 70, 8)
    for n, nb in sorted({(7, 1), (8, 2), (9, 2), (12, 1), (17, 2), (33, 1), (2, 5), (3, 9), (2, 17), (4, 6)} | {(k, 1) for k in more} | {(2, k) for k in more}):
        pos = positions(n)
        take = sorted(set(range(0, len(pos), max(1, len(pos) // 6))) | {len(pos) - 1})
        for c in CLASSES:
            for s in take:
                klass(rep, I, c, n, nb, (nb,), [pos[s]] * nb if c.startswith("Cheater") else [pos[(s + 5 * k) % len(pos)] for k in range(nb)])
            if c.startswith("Arbitrary"):
                for lead in (4, 7) + tuple(k for k in more if k <= 20):
                    klass(rep, I, c, n, nb, (lead, nb), [pos[(3 * k * k + 7 * k + n) % len(pos)] for k in range(lead * nb)])
        for s in take:
            batch_times(rep, I, n, nb, [pos[(s + 5 * k) % len(pos)] for k in range(nb)])
            single(rep, I, n, nb, pos[s])
    for n in sizes:
        pos = positions(n)
        for nb in (1, 2, 3) if n < 4 else (1, 2):
            for q in queries("", pos, nb, rep.tier):
                batch_times(rep, I, n, nb, q)
            for x in pos:
                single(rep, I, n, nb, x)


def queries(c, pos, nb, tier):
    if c.startswith("Cheater"):
        return [[x] * nb for x in pos]
    if nb < 3 or tier == "thorough" and len(pos) < 8:
        return [list(q) for q in product(pos, repeat=nb)]
    return [[pos[(s + 2 * k) % len(pos)] for k in range(nb)] for s in range(len(pos))] + [[x] * nb for x in pos]


def series(R, n, nb):
    t = [[R.rank(f"t{k}_{b}", k) for b in range(nb)] for k in range(n)]
    v = [[var(f"v{k}_{b}") for b in range(nb)] for k in range(n)]
    mk = lambda a: new((n, nb), [x for r in a for x in r], "float", "D")
    return mk(t), mk(v), t, v


def check(rep, rid, cn, key, w, q, tq, got, shape, t, v, nb):
    """compares with the linear function; a query on a sample equals it"""
    want = []
    m = {}
    for i, x in enumerate(q):
        b = i % nb
        want.append(lin(x, tq[i], [r[b] for r in t], [r[b] for r in v]))
        if x == int(x):
            m[tq[i].args[0]] = t[int(x)][b]
    if not isinstance(got, Tensor):
        rep.bad(rid, cn, key, w, f"returns {type(got).__name__}")
        return
    got = new(got.shape, [tm.subst(z, m) for z in got.cells()], "float", "D")
    rep.equal_tensors(rid, cn, key, got, (shape, want), w, "interpolated value")
    if any(x == int(x) for x in q):
        rep.ok("sample", cn, key)


def klass(rep, I, name, n, nb, shape, q):
    c = I.get("utility." + name)
    cn = short_name(c)
    key = f"{n} samples, {nb} members, query {fmtshape(shape)} at {q}"
    with rep.guard("class", cn, key):
        with Ranked() as R:
            T_, V, t, v = series(R, n, nb)
            o = I.call(c, [T_, V], {})
            tq = [R.rank(f"q{i}@{x}", x) for i, x in enumerate(q)]
            got = I.call(o, [new(shape, tq, "float", "D")], {})
            check(rep, "class", cn, key, mwhere(c, "forward"), q, tq, got, shape, t, v, nb)


def batch_times(rep, I, n, nb, q):
    f = I.get("utility.timeseries_interpolate_batch_times")
    cn = "utility.timeseries_interpolate_batch_times"
    key = f"{n} samples, {nb} members, query at {q}"
    with rep.guard("function", cn, key):
        with Ranked() as R:
            T_, V, t, v = series(R, n, nb)
            tq = [R.rank(f"q{i}@{x}", x) for i, x in enumerate(q)]
            got = I.call(f, [T_, V, new((nb,), tq, "float", "D")], {})
            check(rep, "function", cn, key, where_func(f), q, tq, got, (nb,), t, v, nb)


def single(rep, I, n, nb, x):
    f = I.get("utility.timeseries_interpolate_single_times")
    cn = "utility.timeseries_interpolate_single_times"
    key = f"{n} samples, {nb} members, query at {x}"
    with rep.guard("function", cn, key):
        with Ranked() as R:
            t = [R.rank(f"t{k}", k) for k in range(n)]
            v = [[var(f"v{k}_{b}") for b in range(nb)] for k in range(n)]
            tq = R.rank(f"q@{x}", x)
            got = I.call(f, [new((n,), t, "float", "D"), new((n, nb), [z for r in v for z in r], "float", "D"), new((), [tq], "float", "D")], {})
            check(rep, "function", cn, key, where_func(f), [x] * nb, [tq] * nb, got, (nb,), [[z] * nb for z in t], v, nb)
