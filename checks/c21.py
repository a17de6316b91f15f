"""C21: simulated results are formatted per test type, per test, without cross-talk."""
from . import sizes as near
from .common import *
from sa.terms import ZERO, ONE, tmax
from itertools import product, combinations_with_replacement

TYPES = ("tensile", "relaxation", "strain_cyclic", "creep", "stress_cyclic", "abstract_tensile", "direct_data")
SAME = {"tensile": "same", "direct_data": "same", "relaxation": "hold", "creep": "hold", "strain_cyclic": "cyclic", "stress_cyclic": "cyclic", "abstract_tensile": "abstract"}


def layouts(kind, n, full):
    """cycle markers of one test of n rows"""
    if kind == "same":
        return [[0] * n]
    if kind == "hold":
        k = range(1, n) if full else (1, 2, n - 1)
        return [[0] * a + [1] * (n - a) for a in dict.fromkeys(k)]
    if kind == "abstract":
        out = []
        for a in range(1, n):
            for b in range(a, n):
                out.append([0] * a + [1] * (b - a) + [2] * (n - b))
        return [x for x in out if 1 in x] if full else [x for x in ([0] * 1 + [1] * 2 + [2] * (n - 3), [0] * 2 + [1] * (n - 3) + [2], [0] * 2 + [1] * 1 + [2] * (n - 3)) if len(x) == n]
    out = [[0] * n, [min(1, k // max(1, n // 2)) for k in range(n)], [0] + [k // 2 for k in range(n - 1)], list(range(n)), [0] * (n - 1) + [1]]
    if full:
        out = [list(x) for x in product(range(n), repeat=n) if x[0] == 0 and all(0 <= b - a <= 1 for a, b in zip(x, x[1:]))]
    return [list(x) for x in dict.fromkeys(map(tuple, out))]


def oracle(tp, cyc, x):
    """the documented abstraction of one history"""
    n = len(x)
    k = SAME[tp]
    if k == "same":
        return list(x)
    if k == "hold":
        s = cyc.index(1)
        return [x[r] - x[s] if cyc[r] == 1 else ZERO for r in range(n)]
    if k == "cyclic":
        out = []
        for r in range(n):
            m = None
            for q in range(n):
                if cyc[q] == cyc[r]:
                    m = x[q] if m is None else tmax(m, x[q])
            out.append(m)
        return out
    m = x[0]
    for v in x[1:]:
        m = tmax(m, v)
    return [ZERO if c == 0 else x[cyc.index(1)] if c == 1 else m for c in cyc]


def ints(shape, vals):
    return new(shape, [T(v) for v in vals], "int", "D")


def case(rep, I, f, fns, w, codes, tests, key, rule="mixture"):
    """tests: list of (type name, cycle markers)"""
    n = len(tests[0][1])
    nb = len(tests)
    cn = "experiments.convert_results"
    with rep.guard(rule, cn, key):
        x = new((n, nb), [var(f"x{r}_{b}") for r in range(n) for b in range(nb)], "float", "D")
        x0 = x.cells()
        c = ints((n, nb), [tests[b][1][r] for r in range(n) for b in range(nb)])
        t = ints((nb,), [codes[tp] for tp, _ in tests])
        got = I.call(f, [x, c, t], {})
        cols = [oracle(tp, cyc, x0[b::nb]) for b, (tp, cyc) in enumerate(tests)]
        rep.equal_tensors(rule, cn, key, got, ((n, nb), [cols[b][r] for r in range(n) for b in range(nb)]), w, "formatted result")


def run(rep):
    I = fresh_interp()
    rep.minimum = 80
    rep.rule("single", "a batch of one type gives each test the documented abstraction of its own history, whatever its cycle markers")
    rep.rule("mixture", "the same in batches of any mixture and order of types")
    rep.rule("function", "the formatting function of a type gives the documented abstraction of each column")
    rep.assume("cycle markers follow the documented layout: zero then one for holds, counted from zero without gaps for cyclic tests, zero, one, two for abstract tensile tests; a cyclic test starts with cycle zero")
    f = I.get("experiments.convert_results")
    w = where_func(f)
    codes = {k: int(numval(T(v))) for k, v in I.get("experiments.exp_map").items()}
    fns = I.get("experiments.exp_fns")
    for tp in TYPES:
        if tp not in codes:
            rep.bad("single", "experiments.exp_map", tp, w, f"no code for the type {tp}")
            return
    full = rep.tier == "thorough"
    # one type: all layouts alone, pairs of different layouts
    for tp in TYPES:
        L = layouts(SAME[tp], 5, full)
        for a in L:
            case(rep, I, f, fns, w, codes, [(tp, a)], f"{tp} {a}", "single")
        pairs = list(product(L, L)) if full or len(L) <= 3 else [(L[i], L[(i + 1) % len(L)]) for i in range(len(L))]
        for a, b in pairs:
            case(rep, I, f, fns, w, codes, [(tp, a), (tp, b)], f"{tp} {a} and {b}", "single")
        if tp in fns:
            a, b = L[0], L[-1]
            g = fns[tp]
            gw = where_func(g)
            with rep.guard("function", "experiments." + tp, "columns"):
                x = new((5, 2), [var(f"x{r}_{q}") for r in range(5) for q in range(2)], "float", "D")
                x0 = x.cells()
                got = I.call(g, [ints((5, 2), [v for r in range(5) for v in (a[r], b[r])]), x], {})
                cols = [oracle(tp, a, x0[0::2]), oracle(tp, b, x0[1::2])]
                rep.equal_tensors("function", "experiments." + tp, "columns", got, ((5, 2), [cols[q][r] for r in range(5) for q in range(2)]), gw, "formatted result")
    # mixtures: every ordered pair of types, and triples with one type twice
    base = {tp: layouts(SAME[tp], 4, False) for tp in TYPES}
    for a, b in product(TYPES, TYPES):
        if a != b:
            case(rep, I, f, fns, w, codes, [(a, base[a][0]), (b, base[b][-1])], f"{a}, {b}")
            case(rep, I, f, fns, w, codes, [(a, base[a][0]), (b, base[b][-1]), (a, base[a][-1])], f"{a}, {b}, {a}")
    order = list(TYPES)
    for sh in range(len(order) if full else 2):
        o = order[sh:] + order[:sh]
        case(rep, I, f, fns, w, codes, [(tp, base[tp][0]) for tp in o], "all types, " + o[0] + " first")
        case(rep, I, f, fns, w, codes, [(tp, base[tp][-1]) for tp in o[::-1]], "all types reversed, " + o[-1] + " first")
    # many tests: runs of one type, types taken in turn, one among others
    more = near.beyond(I, ("experiments",), 4, 70, 10)
    for k in sorted({9, 17, 33} | set(more)):
        for nm, pick in (("in turn", lambda q: order[q % len(order)]), ("in runs", lambda q: order[q * len(order) // k]), ("backwards", lambda q: order[::-1][(q * 3) % len(order)])):
            case(rep, I, f, fns, w, codes, [(pick(q), base[pick(q)][q % len(base[pick(q)])]) for q in range(k)], f"{k} tests, types {nm}")
        for a, b in zip(order, order[1:] + order[:1]):
            case(rep, I, f, fns, w, codes, [(b if q == k - 1 else a, base[b if q == k - 1 else a][q % len(base[b if q == k - 1 else a])]) for q in range(k)], f"{k - 1} tests of {a} and one of {b}")
    # many rows
    for n in sorted({8, 12, 20} | {c for c in more if c <= 40}):
        for tp in TYPES:
            for L in layouts(SAME[tp], n, False):
                case(rep, I, f, fns, w, codes, [(tp, L)], f"{tp} {n} rows {L}", "single")
    # number of rows
    for n in ((3, 6) if full else (3,)):
        for tp in TYPES:
            for L in layouts(SAME[tp], n, False)[:2]:
                if len(L) == n:
                    case(rep, I, f, fns, w, codes, [(tp, L)], f"{tp} {n} rows {L}", "single")
