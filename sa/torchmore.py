"""
The less common part of the torch / numpy vocabulary.
"""
import math
from fractions import Fraction
from .terms import *
from . import terms as tm
from .tensor import *
from . import tensor as tz
from .torchlib import (
    METHODS, FUNCS, LINALG, method, func, ew, cast, dkind, ddev, DeviceVal, Pair, inplace, _unbind, _sum, _where, _matmul, _seq, _mean,
    ShapeError, event, ext,
)


def _trunc(c):
    v = numval(c)
    if v is not None:
        return num(int(v))
    return ite(gt0(c), fn("floor", c), neg(fn("floor", neg(c))))


def _round(c):
    v = numval(c)
    if v is not None:
        return num(round(v))
    raise Undecided("round of an unknown value")


for _n, _f in {
    "ceil": lambda c: neg(fn("floor", neg(c))),
    "trunc": _trunc, "fix": _trunc,
    "frac": lambda c: sub(c, _trunc(c)),
    "round": _round,
    "tan": lambda c: div(fn("sin", c), fn("cos", c)),
    "rad2deg": lambda c: mul(c, num(180 / math.pi)),
    "softplus": lambda c: fn("log", add(ONE, fn("exp", c))),
    "logsigmoid": lambda c: neg(fn("log", add(ONE, fn("exp", neg(c))))),
    "signbit": lambda c: gt(ZERO, c),
}.items():
    METHODS[_n] = (lambda f, n: lambda x, **kw: ew(f, x, dtype="bool" if n == "signbit" else None))(_f, _n)

METHODS["hypot"] = lambda a, b: ew(lambda x, y: power(add(mul(x, x), mul(y, y)), num(Fraction(1, 2))), a, b)
METHODS["copysign"] = lambda a, b: ew(lambda x, y: ite(ge(y, ZERO), fn("abs", x), neg(fn("abs", x))), a, b)
METHODS["logaddexp"] = lambda a, b: ew(lambda x, y: fn("log", add(fn("exp", x), fn("exp", y))), a, b)
METHODS["addcdiv"] = lambda x, a, b, value=1: ew(lambda c, p, q: add(c, mul(T(value), div(p, q))), x, a, b)
METHODS["rsub"] = lambda a, b: ew(lambda x, y: sub(y, x), a, b)
METHODS["fmod"] = lambda a, b: ew(lambda x, y: sub(x, mul(y, _trunc(div(x, y)))), a, b)
METHODS["isposinf"] = lambda x: ew(lambda c: TRUE if c.op == "inf" else FALSE, x, dtype="bool")
METHODS["isneginf"] = lambda x: ew(lambda c: FALSE, x, dtype="bool")
METHODS["isreal"] = lambda x: ew(lambda c: TRUE, x, dtype="bool")


@method("isclose")
def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return ew(lambda x, y: le(fn("abs", sub(x, y)), add(T(atol), mul(T(rtol), fn("abs", y)))), a, b, dtype="bool")


# ------------------------------------------------------------ order
def _order(cells):
    """indices that sort the cells, None unless every comparison is decided"""
    idx = []
    for k, c in enumerate(cells):
        p = len(idx)
        while p > 0:
            b = gt(as_num(cells[idx[p - 1]]), as_num(c))
            if b.op != "bool":
                return None
            if not b.args[0]:
                break
            p -= 1
        idx.insert(p, k)
    return idx


def _network(cells):
    v = [(as_num(c), num(k)) for k, c in enumerate(cells)]
    n = len(v)
    if n > 4:
        raise Undecided("sorting of more than four unknown values")
    for i in range(n):
        for j in range(n - 1 - i):
            (a, p), (b, q) = v[j], v[j + 1]
            w = gt(a, b)
            v[j] = (ite(w, b, a), ite(w, q, p))
            v[j + 1] = (ite(w, a, b), ite(w, p, q))
    return v


def _sorted_cells(cells, descending=False):
    idx = _order(cells) if not descending else _order([neg(as_num(c)) for c in cells])
    if idx is not None:
        return [(cells[k], num(k)) for k in idx]
    r = _network(cells if not descending else [neg(as_num(c)) for c in cells])
    return [(neg(a), k) for a, k in r] if descending else r


def _lastdim(x, d, f, extra=None):
    """apply f(list of cells)->list of pairs along dimension d"""
    x = as_tensor(x)
    d = normdim(d, x.dim())
    if isinstance(x.shape[d], SymSize):
        raise Undecided("ordering along a dimension of arbitrary size")
    n = x.shape[d]
    y = clone(movedim(x, d, -1))
    rows = [f(y.st.cells[k * n:(k + 1) * n]) for k in range(len(y.st.cells) // n if n else 0)]
    m = len(rows[0]) if rows else 0
    sh = tuple(y.shape[:-1]) + (m,)
    a = movedim(new(sh, [p for r in rows for p, _ in r], x.dtype, x.device), -1, d)
    b = movedim(new(sh, [q for r in rows for _, q in r], "int", x.device), -1, d)
    return a, b


@method("sort")
def _sort(x, dim=-1, descending=False, stable=False, axis=None, **k):
    return Pair(_lastdim(x, dim if axis is None else axis, lambda c: _sorted_cells(c, descending)))


@method("argsort")
def _argsort(x, dim=-1, descending=False, stable=False, axis=None, **k):
    return _lastdim(x, dim if axis is None else axis, lambda c: _sorted_cells(c, descending))[1]


@method("topk")
def _topk(x, k, dim=-1, largest=True, sorted=True):
    k = to_int(k)
    return Pair(_lastdim(x, dim, lambda c: _sorted_cells(c, largest)[:k]))


@method("kthvalue")
def _kth(x, k, dim=-1, keepdim=False):
    k = to_int(k)
    if k is None:
        raise Undecided("kthvalue of an unknown rank")
    n = x.shape[normdim(dim, x.dim())]
    if not 1 <= k <= n:
        raise ShapeError(f"kthvalue: selected number k = {k} is out of range for dimension of size {n}")
    a, b = _lastdim(x, dim, lambda c: [_sorted_cells(c)[k - 1]])
    return Pair((a, b) if keepdim else (squeeze(a, dim), squeeze(b, dim)))


@method("median")
def _median(x, dim=None, keepdim=False):
    if dim is None:
        x = flatten(as_tensor(x))
        return _kth(x, (x.shape[0] + 1) // 2, 0)[0]
    return _kth(x, (x.shape[normdim(dim, x.dim())] + 1) // 2, dim, keepdim)


@method("unique", "unique_consecutive")
def _unique(x, sorted=True, return_inverse=False, return_counts=False, dim=None, **k):
    if dim is not None or k.get("return_index"):
        raise Undecided("unique options")
    x = as_tensor(x)
    c = [as_num(v) for v in x.cells()]
    v = [numval(t) for t in c]
    if any(t is None for t in v):
        raise Undecided("unique of unknown values")
    u = list(dict.fromkeys(v))
    u.sort()
    out = [new((len(u),), [num(t) for t in u], x.dtype, x.device)]
    if return_inverse:
        out.append(new(x.shape, [num(u.index(t)) for t in v], "int", x.device))
    if return_counts:
        out.append(new((len(u),), [num(v.count(t)) for t in u], "int", x.device))
    return out[0] if len(out) == 1 else tuple(out)


@method("isin")
def _isin(x, test, **k):
    t = as_tensor(test) if not isinstance(test, (list, tuple)) else FUNCS["tensor"](list(test))
    tc = [as_num(v) for v in t.cells()]

    def f(c):
        r = FALSE
        for v in tc:
            r = lor(r, eq(as_num(c), v))
        return r

    return ew(f, x, dtype="bool")


METHODS["in1d"] = _isin


def _positions(x):
    x = as_tensor(x)
    b = [truth(c) for c in x.cells()]
    if any(t.op != "bool" for t in b):
        raise Undecided("positions of entries whose value is unknown")
    pos = [()]
    for n in x.shape:
        pos = [p + (k,) for p in pos for k in range(ext(n))]
    return x, [p for p, t in zip(pos, b) if t.args[0]]


def _nonzero(x, as_tuple=False, **k):
    x, pos = _positions(x)
    if as_tuple:
        return tuple(new((len(pos),), [num(p[d]) for p in pos], "int", x.device) for d in range(x.dim()))
    return new((len(pos), x.dim()), [num(k) for p in pos for k in p], "int", x.device)


METHODS["nonzero"] = METHODS["argwhere"] = _nonzero
METHODS["flatnonzero"] = lambda x: flatten(_nonzero(flatten(as_tensor(x))))


@method("where")
def _where1(c, a=None, b=None):
    if a is None:
        return _nonzero(c, as_tuple=True)
    return _where(c, a, b)


@method("count_nonzero")
def _cnz(x, dim=None, axis=None):
    return _sum(cast(cast(as_tensor(x), "bool"), "int"), dim if dim is not None else axis)


# ------------------------------------------------------------ scans, statistics
def _scan(f):
    def g(x, dim=None, axis=None, **kw):
        d = dim if dim is not None else axis
        x = as_tensor(x)
        if d is None:
            x, d = flatten(x), 0
        out = []
        for p in _unbind(x, d):
            out.append(p if not out else ew(f, out[-1], p))
        return stack(out, d) if out else clone(x)

    return g


METHODS["cumprod"] = _scan(mul)
METHODS["cummax"] = METHODS["maximum_accumulate"] = lambda x, dim=0: Pair((_scan(tmax)(x, dim), None))
METHODS["cummin"] = lambda x, dim=0: Pair((_scan(tmin)(x, dim), None))


def _count(x, dim):
    x = as_tensor(x)
    if dim is None:
        return x.numel()
    ds = dim if isinstance(dim, (tuple, list)) else (dim,)
    n = 1
    for d in ds:
        n *= ext(x.shape[normdim(d, x.dim())])
    return n


@method("var")
def _var(x, dim=None, unbiased=True, correction=None, keepdim=False, axis=None, ddof=None, **k):
    d = dim if dim is not None else axis
    m = _mean(x, d, keepdim=True) if d is not None else _mean(x)
    e = ew(lambda a, b: mul(sub(a, b), sub(a, b)), x, m)
    c = ddof if ddof is not None else (correction if correction is not None else (1 if unbiased else 0))
    return ew(lambda s: div(s, num(_count(x, d) - c)), _sum(e, d, keepdim))


METHODS["std"] = lambda x, *a, **k: ew(lambda c: power(c, num(Fraction(1, 2))), _var(x, *a, **k))
METHODS["logsumexp"] = lambda x, dim, keepdim=False: ew(lambda c: fn("log", c), _sum(METHODS["exp"](x), dim, keepdim))
METHODS["softmax"] = lambda x, dim=-1, **k: ew(div, METHODS["exp"](x), _sum(METHODS["exp"](x), dim, True))
METHODS["ptp"] = lambda x, axis=None: ew(sub, METHODS["amax"](x, axis), METHODS["amin"](x, axis))
METHODS["aminmax"] = lambda x, dim=None, keepdim=False: (METHODS["amin"](x, dim, keepdim), METHODS["amax"](x, dim, keepdim))


# ------------------------------------------------------------ rearrangement
@method("roll")
def _roll(x, shifts, dims=None, axis=None):
    d = dims if dims is not None else axis
    if d is None:
        return reshape(_roll(flatten(x), shifts, 0), x.shape)
    sh = shifts if isinstance(shifts, (tuple, list)) else (shifts,)
    ds = d if isinstance(d, (tuple, list)) else (d,)
    for s, k in zip(sh, ds):
        k = normdim(k, x.dim())
        n = x.shape[k]
        if isinstance(n, SymSize):
            raise Undecided("roll along a dimension of arbitrary size")
        s = to_int(s)
        if n:
            x = getitem(x, tuple([slice(None)] * k + [[(j - s) % n for j in range(n)]]))
    return clone(x)


METHODS["fliplr"] = lambda x: flip(x, [1])
METHODS["flipud"] = lambda x: flip(x, [0])
METHODS["adjoint"] = lambda x: transpose(x, -2, -1)
METHODS["atleast_1d"] = lambda x: as_tensor(x) if as_tensor(x).dim() else unsqueeze(as_tensor(x), 0)
METHODS["atleast_2d"] = lambda x: METHODS["atleast_1d"](x) if as_tensor(x).dim() > 1 else unsqueeze(METHODS["atleast_1d"](x), 0)
METHODS["split_with_sizes"] = lambda x, s, dim=0: METHODS["split"](x, s, dim)


@method("tensor_split", "array_split")
def _tsplit(x, at, dim=0, axis=None):
    d = normdim(dim if axis is None else axis, x.dim())
    n = x.shape[d]
    if isinstance(n, SymSize):
        raise Undecided("split of a dimension of arbitrary size")
    if isinstance(at, (list, tuple)):
        cut = [0] + [min(max(to_int(a) if to_int(a) >= 0 else to_int(a) + n, 0), n) for a in at] + [n]
        return tuple(getitem(x, tuple([slice(None)] * d + [slice(a, b)])) for a, b in zip(cut, cut[1:]))
    k = to_int(at)
    return METHODS["split"](x, [n // k + (1 if j < n % k else 0) for j in range(k)], d)


@method("unfold")
def _unfold(x, dimension, size, step):
    d = normdim(dimension, x.dim())
    size, step = to_int(size), to_int(step)
    parts = [getitem(x, tuple([slice(None)] * d + [slice(k, k + size)])) for k in range(0, x.shape[d] - size + 1, step)]
    return movedim(stack(parts, d), d + 1, -1)


@method("scatter")
def _scatter(x, dim, index, src, reduce=None, **k):
    if reduce not in (None, "add"):
        raise Undecided("scatter reduction")
    d = normdim(dim, x.dim())
    r = clone(x)
    s = as_tensor(src)
    pos = [()]
    for n in index.shape:
        pos = [p + (j,) for p in pos for j in range(ext(n))]
    for p, c in zip(pos, index.cells()):
        v = numval(c)
        if v is None:
            raise Undecided("scatter to an unknown position")
        q = list(p)
        q[d] = int(v)
        if not 0 <= q[d] < ext(r.shape[d]):
            raise ShapeError("scatter index out of range")
        val = s.item_cell() if s.dim() == 0 else s.st.cells[s.off + sum(a * b for a, b in zip(p, s.strides))]
        at = r.off + sum(a * b for a, b in zip(q, r.strides))
        r.st.cells[at] = val if reduce is None else add(r.st.cells[at], val)
    return r


METHODS["scatter_add"] = lambda x, dim, index, src: _scatter(x, dim, index, src, reduce="add")


@method("index_add")
def _index_add(x, dim, index, src, alpha=1):
    d = normdim(dim, x.dim())
    r = clone(x)
    for j, c in enumerate(as_tensor(index).cells()):
        k = numval(c)
        if k is None:
            raise Undecided("index_add at an unknown position")
        key = tuple([slice(None)] * d + [int(k)])
        setitem(r, key, ew(lambda a, b: add(a, mul(T(alpha), b)), getitem(r, key), getitem(as_tensor(src), tuple([slice(None)] * d + [j]))))
    return r


@method("index_copy")
def _index_copy(x, dim, index, src):
    d = normdim(dim, x.dim())
    r = clone(x)
    setitem(r, tuple([slice(None)] * d + [index]), src)
    return r


@method("index_fill")
def _index_fill(x, dim, index, v):
    d = normdim(dim, x.dim())
    r = clone(x)
    setitem(r, tuple([slice(None)] * d + [index]), v)
    return r


@method("masked_scatter")
def _masked_scatter(x, mask, src):
    x = as_tensor(x)
    m, pos = _positions(expand(as_tensor(mask), x.shape))
    r = clone(x)
    s = as_tensor(src).cells()
    for k, p in enumerate(pos):
        r.st.cells[r.off + sum(a * b for a, b in zip(p, r.strides))] = s[k]
    return r


@method("take", "put_along")
def _take(x, index, axis=None, dim=None):
    d = axis if axis is not None else dim
    if d is None:
        return getitem(flatten(as_tensor(x)), index)
    return getitem(x, tuple([slice(None)] * normdim(d, x.dim()) + [index]))


# ------------------------------------------------------------ products
@method("tensordot")
def _tensordot(a, b, dims=2, axes=None):
    dims = dims if axes is None else axes
    a, b = as_tensor(a), as_tensor(b)
    if isinstance(dims, int):
        da, db = list(range(a.dim() - dims, a.dim())), list(range(dims))
    else:
        da, db = [list(v) if isinstance(v, (list, tuple)) else [v] for v in dims]
        da, db = [normdim(v, a.dim()) for v in da], [normdim(v, b.dim()) for v in db]
    L = "abcdefghijklmnop"
    U = "qrstuvwxyz"
    la = list(L[:a.dim()])
    lb = list(U[:b.dim()])
    for p, q in zip(da, db):
        lb[q] = la[p]
    out = [c for k, c in enumerate(la) if k not in da] + [c for k, c in enumerate(lb) if k not in db]
    return einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), a, b)


@method("kron")
def _kron(a, b):
    a, b = as_tensor(a), as_tensor(b)
    if a.dim() != 2 or b.dim() != 2:
        raise Undecided("kron of other than matrices")
    r = einsum("ij,kl->ikjl", a, b)
    return reshape(r, (ext(a.shape[0]) * ext(b.shape[0]), ext(a.shape[1]) * ext(b.shape[1])))


METHODS["trace"] = lambda x, **k: _sum(diagonal(x, 0, -2, -1), -1)
METHODS["vdot"] = _matmul
METHODS["ger"] = METHODS["outer"]
LINALG["vecdot"] = lambda a, b, dim=-1: _sum(ew(mul, a, b), dim)
METHODS["vecdot"] = LINALG["vecdot"]
LINALG["multi_dot"] = lambda ts: __import__("functools").reduce(_matmul, ts)
LINALG["inv_ex"] = lambda A, **k: (LINALG["inv"](A), new((), [ZERO], "int"))
METHODS["inverse"] = lambda A: LINALG["inv"](A)


@method("det")
def _det(A):
    n = A.shape[-1]
    if n not in (1, 2):
        raise Undecided("determinant")
    g = lambda i, j: getitem(A, (Ellipsis, i, j))
    if n == 1:
        return g(0, 0)
    return ew(sub, ew(mul, g(0, 0), g(1, 1)), ew(mul, g(0, 1), g(1, 0)))


LINALG["det"] = _det


@func("block_diag")
def _block_diag(*ts):
    ts = [METHODS["atleast_2d"](t) for t in ts]
    n, m = sum(ext(t.shape[0]) for t in ts), sum(ext(t.shape[1]) for t in ts)
    r = FUNCS["zeros"](n, m, device=DeviceVal(ts[0].device))
    i = j = 0
    for t in ts:
        setitem(r, (slice(i, i + ext(t.shape[0])), slice(j, j + ext(t.shape[1]))), t)
        i += ext(t.shape[0])
        j += ext(t.shape[1])
    return r


@func("column_stack")
def _colstack(ts):
    return cat([t if t.dim() > 1 else unsqueeze(t, -1) for t in map(as_tensor, ts)], 1)


FUNCS["row_stack"] = FUNCS["vstack"]
FUNCS["broadcast_tensors"] = lambda *ts: tuple(expand(as_tensor(t), _bshape(ts)) for t in ts)
FUNCS["meshgrid"] = lambda *ts, indexing="ij": _meshgrid(ts, indexing)
FUNCS["scalar_tensor"] = lambda v, **k: FUNCS["tensor"](v, **k)
FUNCS["diag"] = lambda x, diagonal=0: _diag(x, diagonal)
METHODS["diag"] = lambda x, diagonal=0: _diag(x, diagonal)


def _diag(x, k=0):
    x = as_tensor(x)
    if x.dim() == 2:
        return diagonal(x, k, 0, 1)
    if k:
        raise Undecided("offset diagonal")
    return diag_embed(x)


def _bshape(ts):
    s = ()
    for t in ts:
        s = broadcast_shapes(s, as_tensor(t).shape)
    return s


def _meshgrid(ts, indexing):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    ts = [as_tensor(t) for t in ts]
    if indexing != "ij":
        raise Undecided("meshgrid indexing")
    sh = tuple(t.shape[0] for t in ts)
    return tuple(expand(reshape(t, (1,) * k + (t.shape[0],) + (1,) * (len(ts) - 1 - k)), sh) for k, t in enumerate(ts))


@func("tril_indices", "triu_indices")
def _ti(n, m=None, offset=0, **k):
    raise Undecided("triangle indices")


for _n in ("scatter", "scatter_add", "index_add", "index_copy", "index_fill", "masked_scatter", "ceil", "round", "trunc", "remainder", "addcmul", "addcdiv",
           "lerp", "tril", "triu", "cumsum", "cumprod", "square", "sign", "tanh", "sigmoid", "relu", "floor", "reciprocal", "rsqrt", "clamp_min", "clamp_max",
           "minimum", "multiply", "subtract", "divide", "negative", "logical_not", "logical_xor", "floor_divide"):
    if _n in METHODS:
        METHODS[_n + "_"] = (lambda n: lambda x, *a, **k: inplace(x, METHODS[n](x, *a, **k)))(_n)
