"""C14: every block bidiagonal solver solves the system the operator represents."""
from .common import *
from sa import torchlib as tl, tensor as tz
from fractions import Fraction
from . import sizes

SOLVERS = ("BidiagonalThomasFactorization", "BidiagonalPCRFactorization", "BidiagonalHybridFactorization")


# ------------------------------------------- non-commutative polynomials
class Words:
    """polynomials over words: blocks of unspecified size, never commuted"""

    def __init__(self):
        self.memo = {}

    def of(self, t):
        t = T(t)
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._of(t)
        return r

    def _of(self, t):
        q = numval(t)
        if q is not None:
            return {(): Fraction(q)} if q else {}
        if t.op == "var":
            return {(t.args[0],): Fraction(1)}
        if t.op == "detach":
            return self.of(t.args[0])
        if t.op == "add":
            out = {}
            for a in t.args:
                for w, c in self.of(a).items():
                    out[w] = out.get(w, 0) + c
            return {w: c for w, c in out.items() if c}
        if t.op == "mul":
            k, rest = Fraction(1), None
            for a in t.args:
                q = numval(a)
                if q is not None:
                    k *= Fraction(q)
                elif rest is None:
                    rest = self.of(a)
                else:
                    raise Undecided("blocks multiplied entry by entry")
            return {w: c * k for w, c in (rest or {(): Fraction(1)}).items()}
        if t.op == "fn" and t.args[0] == "word":
            a, b = self.of(t.args[1]), self.of(t.args[2])
            out = {}
            for w, c in a.items():
                for v, d_ in b.items():
                    x = join(w, v)
                    out[x] = out.get(x, 0) + c * d_
            return {w: c for w, c in out.items() if c}
        if t.op == "fn" and t.args[0] == "blockinv":
            p = self.of(t.args[1])
            if len(p) == 1:
                (w, c), = p.items()
                if len(w) == 1:
                    return {(("inv", w[0]),): 1 / c}
            return {(("inv", tuple(sorted(p.items(), key=repr))),): Fraction(1)}
        raise Undecided(f"block expression {short(t)}")


def join(a, b):
    a, b = list(a), list(b)
    while a and b and (b[0] == ("inv", a[-1]) or a[-1] == ("inv", b[0])):
        a.pop()
        b.pop(0)
    return tuple(a + b)


def wshow(p):
    def w(x):
        return "·".join(y if isinstance(y, str) else f"{y[1] if isinstance(y[1], str) else '(..)'}⁻¹" for y in x) or "1"
    return " + ".join(f"{'' if c == 1 else '-' if c == -1 else str(c) + ' '}{w(x)}" for x, c in list(p.items())[:4]) + (" + ..." if len(p) > 4 else "") or "0"


class WordDomain:
    def __enter__(self):
        self.old = tl.WORDS[0], tz.PRODUCT[0]
        tl.WORDS[0], tz.PRODUCT[0] = True, tl.word
        return Words()

    def __exit__(self, *a):
        tl.WORDS[0], tz.PRODUCT[0] = self.old
        return False


# ---------------------------------------------------------------- systems
def system(nblk, sbat, sblk, names=("A", "B")):
    def blocks(n, k):
        return new((k, sbat, sblk, sblk), [var(f"{n}{i}" + (f"_b{b}" if sbat > 1 else "") + (f"_{r}{c}" if sblk > 1 else ""))
                                            for i in range(k) for b in range(sbat) for r in range(sblk) for c in range(sblk)], "float", "D")
    return blocks(names[0], nblk), blocks(names[1], nblk - 1)


def vector(nblk, sbat, sblk, name="v"):
    return new((sbat, nblk * sblk), [var(f"{name}{i}" + (f"_b{b}" if sbat > 1 else "")) for b in range(sbat) for i in range(nblk * sblk)], "float", "D")


def cellsof(t):
    return clone(t).st.cells


def word_solution(A, B, v, nblk, sbat):
    """the solution of the block system, by its definition"""
    W = Words()
    a, b, x = cellsof(A), cellsof(B), cellsof(v)
    out = [None] * (nblk * sbat)
    for q in range(sbat):
        prev = None
        for k in range(nblk):
            rhs = dict(W.of(x[q * nblk + k]))
            if prev is not None:
                for w, c in prev.items():
                    y = join(W.of(b[(k - 1) * sbat + q]).__iter__().__next__(), w)
                    rhs[y] = rhs.get(y, 0) - c
            inv = ("inv", next(iter(W.of(a[k * sbat + q])))[0])
            prev = {}
            for w, c in rhs.items():
                if c:
                    prev[join((inv,), w)] = c
            out[q * nblk + k] = prev
    return out


def build_solver(I, cls, A, B, ms):
    kw = {} if ms is None else {"min_size": ms}
    return I.call(I.get("chunktime." + cls), [A, B], kw)


def compare(rep, rid, cn, key, W, got, want, shape, w):
    if tuple(got.shape) != tuple(shape):
        rep.bad(rid, cn, key, w, f"solution of shape {fmtshape(got.shape)} instead of {fmtshape(shape)}")
        return False
    for i, (g, r) in enumerate(zip(cellsof(got), want)):
        un = tm.uninit_vars(T(g))
        if un:
            rep.bad(rid, cn, key, w, f"block {i} reads uninitialised memory")
            return False
        p = W.of(g)
        if p != r:
            rep.bad(rid, cn, key, w, f"block {i} of the solution is {wshow(p)}, the system requires {wshow(r)} ({len(p)} and {len(r)} products)")
            return False
    rep.ok(rid, cn, key, f"{len(want)} blocks")
    return True


def run(rep):
    saved = tl.INVERSE[0]
    tl.INVERSE[0] = "exact"
    try:
        properties(rep)
    finally:
        tl.INVERSE[0] = saved


def properties(rep):
    rep.minimum = 200
    thorough = rep.tier == "thorough"
    rep.rule("solve", "the factorization returns the block forward substitution of the system, blocks never commuted")
    rep.rule("again", "later uses of the factorization, and of other factorizations of the same blocks, give the same answers")
    rep.rule("layout", "entries inside the blocks and the batch are laid out as in the operator")
    rep.rule("forward", "the forward operator applies the block bidiagonal matrix")
    rep.rule("dense", "the dense form has every block in its place and zero elsewhere")
    rep.rule("sparse", "the sparse forms hold exactly the entries of the dense form")
    rep.rule("round-trip", "the forward operator applied to the solution returns the right-hand side")
    rep.rule("context", "the chunked solver context solves the operator it is given")
    rep.rule("report", "operators and factorizations report the size, type and device of the matrix they hold")
    rep.assume("diagonal blocks are invertible")
    rep.assume("lu_factor/lu_solve and solve of a block are the inverse of that block")
    more = sizes.beyond(fresh_interp(), ("chunktime", "ode", "utility"), 6)
    N = 70 if thorough else 36
    for cls in SOLVERS:
        hy = "Hybrid" in cls
        for nblk in sorted(set(range(1, N + 1)) | {47, 48, 63, 64, 65, 66, 100, 127, 128, 129} | set(more)):
            mss = [None] if not hy else ([None] + list(range(0, nblk + 3)) if nblk <= (20 if thorough else 10) else [0, 1, 2, 3, 5, 8, 17, 32, nblk // 2, nblk - 1, nblk, nblk + 5] if nblk <= N else [0, 4, nblk // 3])
            for ms in mss:
                one(rep, cls, nblk, ms, 1)
                if nblk <= 5 or nblk in (16, 33):
                    one(rep, cls, nblk, ms, 2)
        for sbat in sorted({3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65} | set(more)):
            for nblk in (1, 2, 3, 6):
                one(rep, cls, nblk, None, sbat)
    for cls in SOLVERS:
        for nblk in sorted(set(range(1, 16 if thorough else 11)) | {16, 17, 33} | set(more)):
            for ms in ((None,) if "Hybrid" not in cls else (0, 2, 3)):
                again(rep, cls, nblk, ms)
    for nblk, sbat, sblk in sorted({(k, q, b) for k in range(1, 9 if thorough else 7) for q in (1, 2) for b in (2, 3) if k * b <= 12 or thorough} | {(k, 1, b) for k in (1, 2, 3) for b in (4, 5, 6)}
                                   | {(1 if b > 6 else 2, 1, b) for b in more if b <= 9} | {(3, q, 2) for q in more} | {(k, 1, 2) for k in more if k <= 40}):
        for cls in SOLVERS:
            for ms in ((None,) if "Hybrid" not in cls else (0, 2)):
                layout(rep, nblk, sbat, sblk, cls, ms)
    for nblk, sbat, sblk in sorted({(k, q, b) for k in range(1, 9 if thorough else 7) for q in (1, 2, 3) for b in (1, 2, 3)} | {(33, 1, 2), (2, 33, 2), (2, 1, 9), (17, 3, 1)}
                                   | {x for c in more for x in ((c, 1, 1), (2, c, 1))} | {(2, 1, c) for c in more if c <= 34}):
        forward(rep, nblk, sbat, sblk)
    matrices(rep, thorough)
    context(rep, thorough)
    for nblk, sbat, sblk in [(k, q, b) for k in (1, 2, 3, 5) for q in (1, 2, 3) for b in (1, 2, 4)]:
        reports(rep, nblk, sbat, sblk)


def reports(rep, nblk, sbat, sblk):
    n = nblk * sblk
    for cls in list(SOLVERS) + ["BidiagonalForwardOperator", "SquareBatchedBlockDiagonalMatrix"]:
        cn = "chunktime." + cls
        key = f"{nblk} blocks of {sblk}, batch {sbat}"
        with rep.guard("report", cn, key):
            I = fresh_interp()
            A, B = system(nblk, sbat, sblk)
            square = cls.startswith("Square")
            for diags in ([0, -1], [-1, 0], [0]) if square and nblk > 1 else ([0],) if square else (None,):
                if square:
                    o = I.call(I.get(cn), [[B if x else A for x in diags], list(diags)], {})
                else:
                    o = build_solver(I, cls, A, B, None)
                want = {"n": n, "shape": (sbat, n, n), "nblk": nblk, "sbat": sbat, "sblk": sblk, "dtype": I.getattr(A, "dtype"), "device": I.getattr(A, "device")}
                if square:
                    want["nnz"] = sum((nblk - abs(x)) * sblk * sblk for x in diags)
                for k, w in want.items():
                    got = I.getattr(o, k)
                    got = tuple(int(x) for x in got) if k == "shape" else got
                    rep.fact("report", cn, f"{key}{'' if diags is None else ' ' + str(diags)} {k}", got == w, mwhere(I.get(cn), k), f"{k} is {got} instead of {w}")


def one(rep, cls, nblk, ms, sbat):
    cn = "chunktime." + cls
    key = f"{nblk} blocks" + ("" if ms is None else f", minimum size {ms}") + f", batch {sbat}"
    n0 = len(rep.obs)
    words(rep, cls, nblk, ms, sbat, cn, key)
    if any(o["status"] == "undecided" for o in rep.obs[n0:]):
        # blocks handled entry by entry: the same sizes with blocks of two by two entries
        del rep.obs[n0:]
        layout(rep, nblk, sbat, 2, cls, ms, "solve")


def words(rep, cls, nblk, ms, sbat, cn, key):
    with rep.guard("solve", cn, key), WordDomain() as W:
        I = fresh_interp()
        A, B = system(nblk, sbat, 1)
        v = vector(nblk, sbat, 1)
        want = word_solution(A, B, v, nblk, sbat)
        M = build_solver(I, cls, A, B, ms)
        x = I.call(M, [v], {})
        w = mwhere(I.get(cn), "matvec")
        if not compare(rep, "solve", cn, key, W, x, want, (sbat, nblk), w):
            return
        F = I.call(I.get("chunktime.BidiagonalForwardOperator"), list(system(nblk, sbat, 1)), {})
        b = I.call(F, [x], {})
        compare(rep, "round-trip", "chunktime.BidiagonalForwardOperator", f"{cls}, {key}", W, b, [W.of(c) for c in cellsof(vector(nblk, sbat, 1))], (sbat, nblk), mwhere(I.get("chunktime.BidiagonalForwardOperator"), "forward"))


def again(rep, cls, nblk, ms):
    n0 = len(rep.obs)
    again_words(rep, cls, nblk, ms)
    if any(o["status"] == "undecided" for o in rep.obs[n0:]):
        und = [o for o in rep.obs[n0:] if o["status"] == "undecided"]
        if nblk <= 12 and all("entry by entry" in o["detail"] for o in und):
            rep.obs[n0:] = [o for o in rep.obs[n0:] if o["status"] != "undecided"]
            again_entries(rep, cls, nblk, ms)


def again_entries(rep, cls, nblk, ms):
    cn = "chunktime." + cls
    for sbat in (1, 2):
        key = f"{nblk} blocks of 2" + ("" if ms is None else f", minimum size {ms}") + f", batch {sbat}"
        with rep.guard("again", cn, key):
            I = fresh_interp()
            A, B = system(nblk, sbat, 2)
            vs = [vector(nblk, sbat, 2, n) for n in ("v", "u")]
            want = [entry_solution(A, B, v, nblk, sbat, 2) for v in vs]
            w = mwhere(I.get(cn), "matvec")
            M = build_solver(I, cls, A, B, ms)
            uses = [("first use", M, 0), ("second right-hand side", M, 1), ("first right-hand side again", M, 0)]
            for other in SOLVERS:
                uses.append((f"{other} of the same blocks", build_solver(I, other, A, B, None), 0))
            for nm, o, q in uses:
                rep.equal_tensors("again", cn, f"{key}: {nm}", I.call(o, [vs[q]], {}), ((sbat, nblk * 2), want[q]), w, "solution")


def again_words(rep, cls, nblk, ms):
    cn = "chunktime." + cls
    for sbat in (1, 2):
        key = f"{nblk} blocks" + ("" if ms is None else f", minimum size {ms}") + f", batch {sbat}"
        with rep.guard("again", cn, key), WordDomain() as W:
            I = fresh_interp()
            A, B = system(nblk, sbat, 1)
            vs = [vector(nblk, sbat, 1, n) for n in ("v", "u")]
            want = [word_solution(A, B, v, nblk, sbat) for v in vs]
            w = mwhere(I.get(cn), "matvec")
            M = build_solver(I, cls, A, B, ms)
            steps = [("first use", lambda: I.call(M, [vs[0]], {}), 0), ("second right-hand side", lambda: I.call(M, [vs[1]], {}), 1), ("first right-hand side again", lambda: I.call(M, [vs[0]], {}), 0)]
            for other in SOLVERS:
                steps.append((f"{other} of the same blocks", lambda other=other: I.call(build_solver(I, other, A, B, None), [vs[0]], {}), 0))
            F = I.call(I.get("chunktime.BidiagonalForwardOperator"), [A, B], {"inverse_operator": I.get(cn)})
            steps.append(("inverse of the operator", lambda: I.call(I.call(method(I, F, "inverse"), [], {}), [vs[1]], {}), 1))
            steps.append(("inverse of the operator again", lambda: I.call(I.call(method(I, F, "inverse"), [], {}), [vs[0]], {}), 0))
            for nm, f, q in steps:
                if not compare(rep, "again", cn, f"{key}: {nm}", W, f(), want[q], (sbat, nblk), w):
                    break


def dense_ref(A, B, nblk, sbat, sblk):
    n = nblk * sblk
    a, b = cellsof(A), cellsof(B)
    M = [[[ZERO] * n for _ in range(n)] for _ in range(sbat)]
    for q in range(sbat):
        for k in range(nblk):
            for r in range(sblk):
                for c in range(sblk):
                    M[q][k * sblk + r][k * sblk + c] = a[((k * sbat + q) * sblk + r) * sblk + c]
                    if k:
                        M[q][k * sblk + r][(k - 1) * sblk + c] = b[(((k - 1) * sbat + q) * sblk + r) * sblk + c]
    return M


def entry_solution(A, B, v, nblk, sbat, sblk):
    """forward substitution, entry by entry"""
    a, b, x = cellsof(A), cellsof(B), cellsof(v)
    want = []
    for q in range(sbat):
        prev = None
        for k in range(nblk):
            rhs = x[q * nblk * sblk + k * sblk:q * nblk * sblk + (k + 1) * sblk]
            if prev is not None:
                o = ((k - 1) * sbat + q) * sblk * sblk
                rhs = [rhs[r] - tm.add(*[b[o + r * sblk + c] * prev[c] for c in range(sblk)]) for r in range(sblk)]
            o = (k * sbat + q) * sblk * sblk
            inv = tl.inv_cells(a[o:o + sblk * sblk], sblk)
            prev = [tm.add(*[inv[r * sblk + c] * rhs[c] for c in range(sblk)]) for r in range(sblk)]
            want += prev
    return want


def layout(rep, nblk, sbat, sblk, cls, ms, rid="layout"):
    cn = "chunktime." + cls
    key = f"{nblk} blocks of {sblk}" + ("" if ms is None else f", minimum size {ms}") + f", batch {sbat}"
    with rep.guard(rid, cn, key):
        I = fresh_interp()
        A, B = system(nblk, sbat, sblk)
        v = vector(nblk, sbat, sblk)
        want = entry_solution(A, B, v, nblk, sbat, sblk)
        M = build_solver(I, cls, A, B, ms)
        got = I.call(M, [v], {})
        rep.equal_tensors(rid, cn, key, got, ((sbat, nblk * sblk), want), mwhere(I.get(cn), "matvec"), "solution")


def forward(rep, nblk, sbat, sblk):
    cn = "chunktime.BidiagonalForwardOperator"
    key = f"{nblk} blocks of {sblk}, batch {sbat}"
    with rep.guard("forward", cn, key):
        I = fresh_interp()
        A, B = system(nblk, sbat, sblk)
        v = vector(nblk, sbat, sblk)
        x = cellsof(v)
        n = nblk * sblk
        M = dense_ref(A, B, nblk, sbat, sblk)
        F = I.call(I.get(cn), [A, B], {})
        want = [sum((M[q][r][c] * x[q * n + c] for c in range(n)), ZERO) for q in range(sbat) for r in range(n)]
        got = I.call(F, [v], {})
        rep.equal_tensors("forward", cn, key, got, ((sbat, n), want), mwhere(I.get(cn), "forward"), "product")
        rep.fact("forward", cn, key + " shape", tuple(I.getattr(F, "shape")) == (sbat, n, n), mwhere(I.get(cn), "forward"), "wrong shape")
        D = I.call(method(I, I.call(method(I, F, "to_diag"), [], {}), "to_dense"), [], {})
        rep.equal_tensors("dense", cn, key, D, ((sbat, n, n), [M[q][r][c] for q in range(sbat) for r in range(n) for c in range(n)]), mwhere(I.get(cn), "to_diag"), "dense form")
        # the same operator applied to a non-contiguous vector
        if sbat > 1:
            vt = I.lib("transpose", tl.METHODS["transpose"], (new((n, sbat), [x[q * n + c] for c in range(n) for q in range(sbat)], "float", "D"), 0, 1), {})
            try:
                got = I.call(F, [vt], {})
                rep.equal_tensors("forward", cn, key + " transposed input", got, ((sbat, n), want), mwhere(I.get(cn), "forward"), "product")
            except (PyRaise, ShapeError):
                pass     # an explicit error for such a layout is not a wrong product


def matrices(rep, thorough):
    cn = "chunktime.SquareBatchedBlockDiagonalMatrix"
    cases = []
    for nblk in range(1, 5 if thorough else 4):
        ds = list(range(-(nblk - 1), nblk))
        for m in range(1, 2 ** len(ds)):
            sel = [d_ for k, d_ in enumerate(ds) if m >> k & 1]
            if len(sel) <= 3 or nblk <= 2:
                cases.append((nblk, sel))
                if len(sel) > 1:
                    cases.append((nblk, sel[::-1]))
                if len(sel) > 2:
                    cases.append((nblk, sel[1:] + sel[:1]))
    for nblk, sel in cases:
        for sblk, sbat in ((1, 1), (2, 2), (3, 1)) if nblk <= 3 else ((2, 1),):
            key = f"{nblk} blocks of {sblk}, batch {sbat}, diagonals {sel}"
            with rep.guard("dense", cn, key):
                I = fresh_interp()
                n = nblk * sblk
                data = [new((nblk - abs(d_), sbat, sblk, sblk), [var(f"d{d_}_{k}") for k in range((nblk - abs(d_)) * sbat * sblk * sblk)], "float", "D") for d_ in sel]
                want = {}
                for d_, D in zip(sel, data):
                    c = cellsof(D)
                    for k in range(nblk - abs(d_)):
                        i, j = (k - d_, k) if d_ <= 0 else (k, k + d_)
                        for q in range(sbat):
                            for r in range(sblk):
                                for s in range(sblk):
                                    want[(q, i * sblk + r, j * sblk + s)] = c[((k * sbat + q) * sblk + r) * sblk + s]
                o = I.call(I.get(cn), [list(data), list(sel)], {})
                D = I.call(method(I, o, "to_dense"), [], {})
                flat = [want.get((q, r, c), ZERO) for q in range(sbat) for r in range(n) for c in range(n)]
                rep.equal_tensors("dense", cn, key, D, ((sbat, n, n), flat), mwhere(I.get(cn), "to_dense"), "dense form")
                w = mwhere(I.get(cn), "to_batched_coo")
                S = I.call(method(I, o, "to_batched_coo"), [], {})
                sparse_is(rep, cn, key, S, [{(r, c): t for (q2, r, c), t in want.items() if q2 == q} for q in range(sbat)], n, sbat, w, batched=True)
                w = mwhere(I.get(cn), "to_unrolled_csr")
                L = I.call(method(I, o, "to_unrolled_csr"), [], {})
                if len(L) != sbat:
                    rep.bad("sparse", cn, key + " csr", w, f"{len(L)} matrices for a batch of {sbat}")
                    continue
                for q in range(sbat):
                    sparse_is(rep, cn, f"{key} csr {q}", L[q], [{(r, c): t for (q2, r, c), t in want.items() if q2 == q}], n, 1, w, batched=False)


def sparse_is(rep, cn, key, S, want, n, sbat, w, batched):
    size = tuple(S.size)
    req = (n, n, sbat) if batched else (n, n)
    if tuple(int(s) for s in size) != req:
        rep.bad("sparse", cn, key, w, f"sparse form of size {size} instead of {req}")
        return
    idx = [int(numval(c)) for c in cellsof(S.inds)]
    nnz = len(idx) // 2
    vals = cellsof(S.vals)
    got = [dict() for _ in range(sbat)]
    for e in range(nnz):
        rc = (idx[e], idx[nnz + e])
        for q in range(sbat):
            got[q][rc] = got[q].get(rc, ZERO) + vals[e * sbat + q if batched else e]
    for q in range(sbat):
        for rc in sorted(set(got[q]) | set(want[q])):
            g, r = got[q].get(rc, ZERO), want[q].get(rc, ZERO)
            v = tm.equal(g, r)
            if v.status != tm.PROVED:
                if v.status == tm.UNKNOWN:
                    raise Undecided("sparse entry")
                rep.bad("sparse", cn, key, w, f"entry {rc} of batch {q} is {short(g)} instead of {short(r)}")
                return
    rep.ok("sparse", cn, key, f"{nnz} entries")


def context(rep, thorough):
    cn = "chunktime.ChunkTimeOperatorSolverContext"
    for nblk in range(1, 5):
        for sbat in (1, 2):
            for op in SOLVERS:
                key = f"direct {nblk} blocks, {op}, batch {sbat}"
                n0 = len(rep.obs)
                with rep.guard("context", cn, key), WordDomain() as W:
                    I = fresh_interp()
                    A, B = system(nblk, sbat, 1)
                    v = vector(nblk, sbat, 1)
                    want = word_solution(A, B, v, nblk, sbat)
                    F = I.call(I.get("chunktime.BidiagonalForwardOperator"), [A, B], {"inverse_operator": I.get("chunktime." + op)})
                    o = I.call(I.get(cn), ["direct"], {})
                    compare(rep, "context", cn, key, W, I.call(method(I, o, "solve"), [F, v], {}), want, (sbat, nblk), mwhere(I.get(cn), "solve_direct"))
                if any(o["status"] == "undecided" for o in rep.obs[n0:]):
                    del rep.obs[n0:]
                    with rep.guard("context", cn, key):
                        I = fresh_interp()
                        A, B = system(nblk, sbat, 2)
                        v = vector(nblk, sbat, 2)
                        want = entry_solution(A, B, v, nblk, sbat, 2)
                        F = I.call(I.get("chunktime.BidiagonalForwardOperator"), [A, B], {"inverse_operator": I.get("chunktime." + op)})
                        o = I.call(I.get(cn), ["direct"], {})
                        rep.equal_tensors("context", cn, key, I.call(method(I, o, "solve"), [F, v], {}), ((sbat, nblk * 2), want), mwhere(I.get(cn), "solve_direct"), "solution")
            for sblk in (1, 2):
                key = f"dense {nblk} blocks of {sblk}, batch {sbat}"
                with rep.guard("context", cn, key):
                    I = fresh_interp()
                    A, B = system(nblk, sbat, sblk)
                    v = vector(nblk, sbat, sblk)
                    n = nblk * sblk
                    F = I.call(I.get("chunktime.BidiagonalForwardOperator"), [A, B], {})
                    o = I.call(I.get(cn), ["dense"], {})
                    M = dense_ref(A, B, nblk, sbat, sblk)
                    x = cellsof(v)
                    want = []
                    for q in range(sbat):
                        inv = tl.inv_cells([M[q][r][c] for r in range(n) for c in range(n)], n)
                        want += [sum((inv[r * n + c] * x[q * n + c] for c in range(n)), ZERO) for r in range(n)]
                    rep.equal_tensors("context", cn, key, I.call(method(I, o, "solve"), [F, v], {}), ((sbat, n), want), mwhere(I.get(cn), "solve_dense"), "solution")
    for nblk, sbat, sblk in ((1, 1, 1), (2, 1, 2), (3, 2, 1), (3, 1, 2), (4, 2, 1)):
        for op in SOLVERS:
            for how in ("direct", "dense"):
                histories(rep, cn, nblk, sbat, sblk, op, how)
    I = fresh_interp()
    try:
        I.call(I.get(cn), ["gmres"], {})
        rep.bad("context", cn, "unknown method", mwhere(I.get(cn), "__init__"), "an unknown method is accepted")
    except PyRaise as r:
        rep.ok("context", cn, "unknown method", str(r.exc))


def histories(rep, cn, nblk, sbat, sblk, op, how):
    """one context over several operators: others of the same shape, the same blocks after they were overwritten, the first again"""
    key = f"{how} {nblk} blocks of {sblk}, {op}, batch {sbat}"
    if how == "dense" and nblk * sblk > 4:
        return
    with rep.guard("context", cn, key + " over several operators"):
        I = fresh_interp()
        o = I.call(I.get(cn), [how], {})
        w = mwhere(I.get(cn), "solve_" + how)
        S1, S2 = system(nblk, sbat, sblk), system(nblk, sbat, sblk, ("C", "D"))
        v = vector(nblk, sbat, sblk)
        v2 = vector(nblk, sbat, sblk, "u")
        mk = lambda A, B: I.call(I.get("chunktime.BidiagonalForwardOperator"), [A, B], {"inverse_operator": I.get("chunktime." + op)})
        F1, F2 = mk(*S1), mk(*S2)

        def solve(F, A, B, v, what):
            if how == "direct":
                want = entry_solution(A, B, v, nblk, sbat, sblk)
            else:
                M, x, n = dense_ref(A, B, nblk, sbat, sblk), cellsof(v), nblk * sblk
                want = []
                for q in range(sbat):
                    inv = tl.inv_cells([M[q][r][c] for r in range(n) for c in range(n)], n)
                    want += [sum((inv[r * n + c] * x[q * n + c] for c in range(n)), ZERO) for r in range(n)]
            rep.equal_tensors("context", cn, f"{key}, {what}", I.call(method(I, o, "solve"), [F, v], {}), ((sbat, nblk * sblk), want), w, "solution")
        solve(F1, *S1, v, "first operator")
        solve(F2, *S2, v, "another operator of the same shape")
        solve(F1, *S1, v2, "first operator again")
        # the blocks are overwritten, as a reused buffer is
        for a, b in zip(S1, system(nblk, sbat, sblk, ("P", "Q"))):
            a.st.cells[:] = b.cells()
        solve(mk(*S1), *S1, v, "a new operator in the same memory")
