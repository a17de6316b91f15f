"""
Transfer functions for the torch / numpy / math vocabulary the package uses.
"""
import math
from fractions import Fraction
from .terms import *
from . import terms as tm
from .tensor import *
from . import tensor as tz

METHODS = {}
FUNCS = {}


class Builtin:
    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __repr__(self):
        return f"<builtin {self.name}>"


class Opaque:
    """a value nothing is known about except its identity"""

    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return f"<{self.label}>"


class Dtype(Opaque):
    pass


DT = {
    "float64": "float", "float32": "float", "float": "float", "double": "float", "float16": "float", "half": "float",
    "int64": "int", "int32": "int", "int": "int", "long": "int", "uint8": "int", "int8": "int", "int16": "int", "short": "int",
    "bool": "bool",
}


class DtypeVal:
    def __init__(self, name):
        self.name = name
        self.kind = DT[name]

    def __repr__(self):
        return f"torch.{self.name}"

    def __eq__(self, o):
        return isinstance(o, DtypeVal) and o.kind == self.kind

    def __hash__(self):
        return hash(self.kind)


def dkind(d, default="float"):
    if d is None:
        return default
    if isinstance(d, DtypeVal):
        return d.kind
    if d is int:
        return "int"
    if d is float:
        return "float"
    if d is bool:
        return "bool"
    if isinstance(d, Builtin) and d.name in ("int", "float", "bool"):
        return d.name
    raise Undecided(f"dtype {d!r}")


def ddev(d):
    """device argument -> device token"""
    if d is None:
        return "default"
    if isinstance(d, DeviceVal):
        return d.tok
    if isinstance(d, str):
        return "default" if d == "cpu" else d
    raise Undecided(f"device {d!r}")


class DeviceVal:
    def __init__(self, tok):
        self.tok = tok

    def __repr__(self):
        return f"device({self.tok})"

    def __eq__(self, o):
        return isinstance(o, DeviceVal) and o.tok == self.tok

    def __hash__(self):
        return hash(self.tok)


def method(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f

    return deco


def func(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f

    return deco


def ew(f, *ts, dtype=None):
    """elementwise over tensors and mask selections"""
    sels = [t for t in ts if isinstance(t, MaskSel)]
    if not sels:
        return elementwise(f, ts, dtype)
    s0 = sels[0]
    for s in sels[1:]:
        a, b = s0.mask.cells(), s.mask.cells()
        if s.pre != s0.pre or s.base.shape != s0.base.shape or not (len(a) == len(b) and all(truth(x) is truth(y) for x, y in zip(a, b))):
            raise Undecided("arithmetic between values selected by different masks")
    for t in ts:
        if not isinstance(t, MaskSel) and as_tensor(t).ncells() != 1:
            raise Undecided("arithmetic between mask-selected and plain values")
    base = elementwise(f, [t.base if isinstance(t, MaskSel) else t for t in ts], dtype)
    return MaskSel(base, s0.pre, s0.mask, s0.post)


def grad_wrap(t):
    return t


# ------------------------------------------------------------ elementwise
UN = {
    "abs": lambda x: fn("abs", x),
    "absolute": lambda x: fn("abs", x),
    "fabs": lambda x: fn("abs", x),
    "sign": lambda x: fn("sign", x),
    "sgn": lambda x: fn("sign", x),
    "exp": lambda x: fn("exp", x),
    "log": lambda x: fn("log", x),
    "log10": lambda x: fn("log10", x),
    "log2": lambda x: fn("log2", x),
    "tanh": lambda x: fn("tanh", x),
    "cosh": lambda x: fn("cosh", x),
    "sinh": lambda x: fn("sinh", x),
    "sin": lambda x: fn("sin", x),
    "cos": lambda x: fn("cos", x),
    "sigmoid": lambda x: fn("sigmoid", x),
    "expit": lambda x: fn("sigmoid", x),
    "sqrt": lambda x: power(x, num(Fraction(1, 2))),
    "rsqrt": lambda x: power(x, num(Fraction(-1, 2))),
    "square": lambda x: power(x, num(2)),
    "reciprocal": lambda x: power(x, num(-1)),
    "neg": lambda x: neg(x),
    "negative": lambda x: neg(x),
    "log1p": lambda x: fn("log", add(ONE, x)),
    "expm1": lambda x: sub(fn("exp", x), ONE),
    "exp2": lambda x: power(num(2), x),
    "relu": lambda x: ite(gt0(x), x, ZERO),
    "floor": lambda x: fn("floor", x),
    "positive": lambda x: x,
    "deg2rad": lambda x: mul(x, num(math.pi / 180)),
}
for _n, _f in UN.items():
    METHODS[_n] = (lambda f, n: lambda x, **kw: ew(f, x, dtype=None if n in ("abs", "absolute", "sign", "neg", "negative", "square", "positive", "sgn") else "float"))(_f, _n)

METHODS["isnan"] = lambda x: ew(tm.isnan, x, dtype="bool")
METHODS["isfinite"] = lambda x: ew(lambda c: lnot(tm.isnan(c)) if c.op != "inf" else FALSE, x, dtype="bool")
METHODS["isinf"] = lambda x: ew(lambda c: TRUE if c.op == "inf" else FALSE, x, dtype="bool")
METHODS["logical_not"] = METHODS["bitwise_not"] = lambda x: ew(lambda c: lnot(c), x, dtype="bool")
METHODS["detach"] = lambda x: (event("detach"), tz.detached(as_tensor(x)))[1]
METHODS["clone"] = METHODS["copy"] = lambda x, **kw: x.map(clone) if isinstance(x, MaskSel) else clone(as_tensor(x))


def bin_(f, dtype=None):
    def g(a, b, **kw):
        if kw.get("alpha") is not None:
            raise Undecided("alpha=")
        return ew(f, a, b, dtype=dtype)

    return g


def _pow_cells(a, b):
    return power(a, b)


BIN = {
    "add": add, "sub": sub, "mul": mul, "div": div, "pow": power, "true_divide": div, "divide": div,
    "multiply": mul, "subtract": sub, "power": power, "float_power": power,
    "maximum": tmax, "minimum": tmin, "fmax": tm.tfmax, "fmin": tm.tfmin,
}
for _n, _f in BIN.items():
    METHODS[_n] = bin_(_f, "float" if _n in ("div", "true_divide", "divide") else None)
for _n, _f in {
    "gt": gt, "lt": lt, "ge": ge, "le": le, "eq": eq, "ne": lambda a, b: lnot(eq(a, b)),
    "greater": gt, "less": lt, "greater_equal": ge, "less_equal": le, "equal_elementwise": eq,
    "not_equal": lambda a, b: lnot(eq(a, b)),
    "logical_and": land, "logical_or": lor, "bitwise_and": land, "bitwise_or": lor,
    "logical_xor": lambda a, b: lor(land(a, lnot(b)), land(b, lnot(a))),
}.items():
    METHODS[_n] = bin_(_f, "bool")


def _fmod(a, b):
    va, vb = numval(as_num(a)), numval(as_num(b))
    if va is not None and vb not in (None, 0):
        return num(va - vb * math.floor(va / vb))
    if tm.FOLD_SIGNS[0] and tm.decide_sign(b) == 1:
        r = as_num(a)
        for _ in range(64):
            s = tm.decide_sign(r)
            if s is None or s < 0:
                break
            n = sub(r, b)
            if tm.decide_sign(n) == -1:
                return r
            r = n
    return tm._mk("fn", "mod", as_num(a), as_num(b))


METHODS["remainder"] = METHODS["mod"] = bin_(_fmod)
METHODS["floor_divide"] = bin_(lambda a, b: fn("floor", div(a, b)))


@method("clamp", "clip")
def _clamp(x, min=None, max=None, a_min=None, a_max=None, **kw):
    lo = a_min if min is None else min
    hi = a_max if max is None else max
    r = x
    if lo is not None:
        r = ew(lambda c, l: ite(gt(l, c), l, c), r, lo)
    if hi is not None:
        r = ew(lambda c, h: ite(gt(c, h), h, c), r, hi)
    return r


METHODS["clamp_min"] = lambda x, min: _clamp(x, min=min)
METHODS["clamp_max"] = lambda x, max: _clamp(x, max=max)


@method("where")
def _where(c, a=None, b=None):
    if a is None:
        raise Undecided("where with one argument")
    return ew(lambda cc, x, y: ite(truth(cc), x, y), c, a, b, dtype=result_dtype([as_tensor(a), as_tensor(b)]))


METHODS["masked_fill"] = lambda x, m, v: ew(lambda c, mm, vv: ite(truth(mm), vv, c), x, m, v, dtype=as_tensor(x).dtype)
def _nan_to_num(x, nan=0.0, posinf=None, neginf=None):
    def one(c):
        if c.op == "inf":
            raise Undecided("largest number of the type")
        return ite(tm.isnan(c), T(nan if nan is not None else 0.0), c)
    return ew(one, x)


METHODS["nan_to_num"] = _nan_to_num
METHODS["heaviside"] = lambda x, v: ew(lambda c, h: ite(gt0(c), ONE, ite(eq0(c), h, ZERO)), x, v)
METHODS["addcmul"] = lambda x, a, b, value=1: ew(lambda c, p, q: add(c, mul(T(value), p, q)), x, a, b)
METHODS["lerp"] = lambda a, b, w: ew(lambda x, y, ww: add(x, mul(ww, sub(y, x))), a, b, w)


# ------------------------------------------------------------ structure
METHODS["unsqueeze"] = lambda x, dim: unsqueeze(as_tensor(x), dim)
METHODS["expand_dims"] = lambda x, axis: unsqueeze(as_tensor(x), axis)
METHODS["squeeze"] = lambda x, dim=None, axis=None: squeeze(x, dim if dim is not None else axis)
METHODS["contiguous"] = lambda x, **k: contiguous(x)
METHODS["is_contiguous"] = lambda x: is_contiguous(x)
def _t(x):
    if x.dim() > 2:
        raise ShapeError(f"t() of a tensor with {x.dim()} dimensions")
    return x if x.dim() < 2 else transpose(x, 0, 1)


METHODS["t"] = _t
METHODS["transpose"] = METHODS["swapaxes"] = METHODS["swapdims"] = lambda x, dim0=0, dim1=1: transpose(x, dim0, dim1)
METHODS["movedim"] = METHODS["moveaxis"] = lambda x, source, destination: movedim(x, source, destination)
METHODS["flatten"] = lambda x, start_dim=0, end_dim=-1: flatten(x, start_dim, end_dim)
METHODS["ravel"] = lambda x: flatten(x)
METHODS["diag_embed"] = lambda x, **k: diag_embed(x) if not k else (_ for _ in ()).throw(Undecided("diag_embed options"))
METHODS["diagonal"] = lambda x, offset=0, dim1=0, dim2=1: diagonal(x, offset, dim1, dim2)
METHODS["flip"] = lambda x, *d, dims=None: flip(x, _seq(d) if dims is None else dims)
METHODS["dim"] = METHODS["ndimension"] = lambda x: x.dim()
METHODS["numel"] = METHODS["nelement"] = lambda x: x.numel()
METHODS["type"] = lambda x, dtype=None: cast(x, dkind(dtype))
METHODS["double"] = METHODS["float"] = METHODS["half"] = lambda x: cast(x, "float")
METHODS["int"] = METHODS["long"] = lambda x: cast(x, "int")
METHODS["bool"] = lambda x: cast(x, "bool")
METHODS["type_as"] = lambda x, y: cast(x, y.dtype)
def _requires_grad_(x, v=True):
    x.requires_grad = v
    return x


METHODS["requires_grad_"] = _requires_grad_
METHODS["retain_grad"] = lambda x: None


def cast(x, kind):
    if x.dtype == kind:
        return x
    if kind == "bool":
        return elementwise(truth, [x], "bool")
    if kind == "int" and x.dtype == "float":
        return elementwise(lambda c: fn("trunc", c) if numval(c) is None else num(int(numval(c))), [x], "int")
    return elementwise(as_num, [x], kind)


@method("to")
def _to(x, *a, dtype=None, device=None, **kw):
    for v in a:
        if isinstance(v, (DtypeVal,)) or v in (int, float, bool):
            dtype = v
        elif isinstance(v, Tensor):
            dtype, device = DtypeVal({"float": "float64", "int": "int64", "bool": "bool"}[v.dtype]), DeviceVal(v.device)
        else:
            device = v
    r = x
    if dtype is not None:
        r = cast(r, dkind(dtype))
    if device is not None:
        d = ddev(device)
        if d != r.device:
            r = new(r.shape, r.cells(), r.dtype, d)
    return r


METHODS["cpu"] = METHODS["cuda"] = lambda x, *a: x
METHODS["numpy"] = lambda x, **k: tz.detached(as_tensor(x))
METHODS["astype"] = lambda x, d: cast(x, dkind(d))


def _seq(args):
    if len(args) == 1 and isinstance(args[0], (tuple, list)):
        return list(args[0])
    return list(args)


METHODS["reshape"] = lambda x, *s, shape=None: reshape(x, _seq(s) if shape is None else list(shape))
METHODS["view"] = lambda x, *s, shape=None: view(x, _seq(s) if shape is None else list(shape))
METHODS["reshape_as"] = lambda x, o: reshape(x, o.shape)
METHODS["view_as"] = lambda x, o: view(x, o.shape)
METHODS["expand_as"] = lambda x, o: expand(x, o.shape)
METHODS["permute"] = lambda x, *s, dims=None: permute(x, _seq(s) if dims is None else dims)


@method("unflatten")
def _unflatten(x, dim, sizes):
    d = normdim(dim, x.dim())
    return reshape(x, x.shape[:d] + tuple(sizes) + x.shape[d + 1:])


@method("expand", "broadcast_to")
def _expand(x, *s):
    s = _seq(s)
    lead = len(s) - x.dim()
    out = []
    for k, d in enumerate(s):
        v = to_int(d)
        if v == -1:
            out.append(x.shape[k - lead])
        else:
            out.append(v if v is not None else d)
    return expand(x, tuple(out))


@method("tile")
def _tile(x, *s):
    s = list(_seq(s))
    return _repeat(x, [1] * (x.dim() - len(s)) + s)


@method("repeat")
def _repeat(x, *s):
    s = _seq(s)
    if len(s) < x.dim():
        raise ShapeError("repeat needs at least as many counts as dimensions")
    while x.dim() < len(s):
        x = unsqueeze(x, 0)
    for k, r in enumerate(s):
        if isinstance(r, SymSize):
            if x.shape[k] == 1 and not isinstance(x.shape[k], SymSize):
                sh = list(x.shape)
                sh[k] = r
                x = clone(expand(x, tuple(sh)))
                continue
            raise Undecided("repeat by an arbitrary size")
        n = to_int(r)
        if n is None:
            raise Undecided("repeat count")
        if n != 1:
            if n == 0:
                x = getitem(x, tuple([slice(None)] * k + [slice(0, 0)]))
            else:
                x = cat([x] * n, k)
    return clone(x)


@method("repeat_interleave")
def _ri(x, repeats, dim=None, **kw):
    n = to_int(repeats)
    if n is None:
        raise Undecided("repeat_interleave counts")
    if dim is None:
        x = flatten(x)
        dim = 0
    d = normdim(dim, x.dim())
    if isinstance(x.shape[d], SymSize):
        raise Undecided("repeat_interleave of a dimension of arbitrary size")
    idx = [k for k in range(x.shape[d]) for _ in range(n)]
    return getitem(x, tuple([slice(None)] * d + [idx]))


@method("size")
def _size(x, dim=None):
    return x.shape if dim is None else x.shape[dim]


@method("stride")
def _stride(x, dim=None):
    return tuple(x.strides) if dim is None else x.strides[dim]


METHODS["data_ptr"] = lambda x: id(x.st) + x.off * 8
METHODS["storage_offset"] = lambda x: x.off


@method("as_strided")
def _as_strided(x, size, stride, storage_offset=None):
    size = tuple(to_int(s) for s in size)
    stride = tuple(to_int(s) for s in stride)
    if any(s is None for s in size + stride):
        raise Undecided("as_strided with unknown extents")
    if any(isinstance(d, SymSize) for d in x.shape):
        raise Undecided("as_strided on a tensor of arbitrary size")
    off = x.off if storage_offset is None else to_int(storage_offset)
    r = Tensor(x.st, size, stride, off, x.dtype)
    if r.ncells():
        mx = off + sum((s - 1) * t for s, t in zip(size, stride))
        if mx >= len(x.st.cells):
            raise ShapeError("as_strided runs past the storage")
    return r


@method("narrow")
def _narrow(x, dim, start, length):
    d = normdim(dim, x.dim())
    s = to_int(start)
    return getitem(x, tuple([slice(None)] * d + [slice(s, s + to_int(length))]))


@method("select")
def _select(x, dim, index):
    d = normdim(dim, x.dim())
    return getitem(x, tuple([slice(None)] * d + [index]))


@method("index_select")
def _index_select(x, dim, index):
    d = normdim(dim, x.dim())
    return getitem(x, tuple([slice(None)] * d + [index]))


@method("masked_select")
def _masked_select(x, mask):
    x, mask = as_tensor(x), as_tensor(mask)
    shp = broadcast_shapes(x.shape, mask.shape)
    return getitem(expand(x, shp), expand(mask, shp))


@method("take_along_dim", "take_along_axis")
def _tad(x, index, dim=None, axis=None):
    return _gather(x, dim if dim is not None else axis, index)


@method("gather")
def _gather(x, dim, index, **kw):
    d = normdim(dim, x.dim())
    if isinstance(x.shape[d], SymSize):
        raise Undecided("gather along a dimension of arbitrary size")
    out = []
    pos = [()]
    for n in index.shape:
        pos = [p + (k,) for p in pos for k in range(ext(n))]
    for p, c in zip(pos, index.cells()):
        def at(k):
            q = list(p)
            q[d] = k
            return x.st.cells[x.off + sum(a * b for a, b in zip(q, x.strides))]
        v = numval(c)
        if v is not None:
            k = int(v)
            if k < 0 or k >= x.shape[d]:
                raise ShapeError("gather index out of range")
            out.append(at(k))
        else:
            acc = at(x.shape[d] - 1)
            for k in range(x.shape[d] - 2, -1, -1):
                acc = ite(eq(c, num(k)), at(k), acc)
            out.append(acc)
    return new(index.shape, out, x.dtype, x.device)


@method("split")
def _split_(x, sizes, dim=0):
    d = normdim(dim, x.dim())
    n = x.shape[d]
    if isinstance(n, SymSize):
        raise Undecided("split of a dimension of arbitrary size")
    k = to_int(sizes)
    if k is not None:
        sizes = [min(k, n - o) for o in range(0, n, k)]
    out, o = [], 0
    for s in sizes:
        s = to_int(s)
        out.append(getitem(x, tuple([slice(None)] * d + [slice(o, o + s)])))
        o += s
    if o != n:
        raise ShapeError("split sizes do not add up")
    return tuple(out)


@method("chunk")
def _chunk(x, chunks, dim=0):
    n = x.shape[normdim(dim, x.dim())]
    return _split_(x, -(-n // to_int(chunks)), dim)


@method("unbind")
def _unbind(x, dim=0):
    d = normdim(dim, x.dim())
    if isinstance(x.shape[d], SymSize):
        raise Undecided("iteration over a dimension of arbitrary size")
    return tuple(getitem(x, tuple([slice(None)] * d + [k])) for k in range(x.shape[d]))


METHODS["tolist"] = lambda x: _tolist(x)


def _tolist(x):
    if x.dim() == 0:
        return pyscalar(x)
    return [_tolist(getitem(x, k)) for k in range(x.shape[0])]


def pyscalar(x):
    c = x.item_cell()
    if c.op == "bool":
        return c.args[0]
    v = numval(c)
    if v is None:
        event("item")
        return scalar(tm.detach(c), x.dtype, None)
    if x.dtype == "int":
        return int(v)
    return float(v)


METHODS["item"] = pyscalar


@method("sum", "nansum")
def _sum(x, dim=None, keepdim=False, axis=None, dtype=None, keepdims=False):
    x = as_tensor(x)
    if x.dtype == "bool":
        x = cast(x, "int")
    return reduce_dims(x, dim if dim is not None else axis, keepdim or keepdims, lambda c: add(*c) if c else ZERO, "sum")


@method("prod")
def _prod(x, dim=None, keepdim=False, axis=None, **k):
    return reduce_dims(as_tensor(x), dim if dim is not None else axis, keepdim, lambda c: mul(*c) if c else ONE, "prod")


@method("mean")
def _mean(x, dim=None, keepdim=False, axis=None):
    return reduce_dims(as_tensor(x), dim if dim is not None else axis, keepdim, lambda c: div(add(*c), num(len(c))), "mean")


def _all_f(c):
    r = TRUE
    for x in c:
        r = land(r, truth(x))
    return r


def _any_f(c):
    r = FALSE
    for x in c:
        r = lor(r, truth(x))
    return r


def _bool_red(f, name):
    def g(x, dim=None, keepdim=False, axis=None):
        r = reduce_dims(as_tensor(x), dim if dim is not None else axis, keepdim, f, name)
        r.dtype = "bool"
        return r

    return g


METHODS["all"] = _bool_red(_all_f, "all")
METHODS["any"] = _bool_red(_any_f, "any")


def _maxf(c):
    r = c[0]
    for x in c[1:]:
        r = tmax(r, x)
    return r


def _minf(c):
    r = c[0]
    for x in c[1:]:
        r = tmin(r, x)
    return r


def _argf(better):
    def f(c):
        c = [as_num(x) for x in c]
        if any(x.op == "nan" for x in c):
            return num([x.op for x in c].index("nan"))
        best, bi = c[0], ZERO
        for k, x in enumerate(c[1:], 1):
            w = better(x, best)
            best, bi = ite(w, x, best), ite(w, num(k), bi)
        return bi

    return f


class Pair(tuple):
    """(values, indices) result"""

    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        return self[1]


@method("max", "amax")
def _max(x, dim=None, keepdim=False, axis=None):
    x = as_tensor(x)
    if isinstance(dim, Tensor):
        return ew(tmax, x, dim)
    d = dim if dim is not None else axis
    v = reduce_dims(x, d, keepdim, _maxf, "max")
    if d is None:
        return v
    i = reduce_dims(x, d, keepdim, _argf(gt), "argmax")
    i.dtype = "int"
    return Pair((v, i))


@method("min", "amin")
def _min(x, dim=None, keepdim=False, axis=None):
    x = as_tensor(x)
    if isinstance(dim, Tensor):
        return ew(tmin, x, dim)
    d = dim if dim is not None else axis
    v = reduce_dims(x, d, keepdim, _minf, "min")
    if d is None:
        return v
    i = reduce_dims(x, d, keepdim, _argf(lt), "argmin")
    i.dtype = "int"
    return Pair((v, i))


METHODS["amax"] = lambda x, dim=None, keepdim=False: reduce_dims(as_tensor(x), dim, keepdim, _maxf, "max")
METHODS["amin"] = lambda x, dim=None, keepdim=False: reduce_dims(as_tensor(x), dim, keepdim, _minf, "min")


@method("argmax")
def _argmax(x, dim=None, keepdim=False, axis=None):
    r = reduce_dims(as_tensor(x), dim if dim is not None else axis, keepdim, _argf(gt), "argmax")
    r.dtype = "int"
    return r


@method("argmin")
def _argmin(x, dim=None, keepdim=False, axis=None):
    r = reduce_dims(as_tensor(x), dim if dim is not None else axis, keepdim, _argf(lt), "argmin")
    r.dtype = "int"
    return r


@method("norm", "vector_norm")
def _norm(x, p=2, dim=None, keepdim=False, ord=None, axis=None):
    d = dim if dim is not None else axis
    return reduce_dims(as_tensor(x), d, keepdim, norm_of, "norm")


def norm_of(c):
    if len(c) == 1:
        return fn("abs", c[0])
    if any(t.op == "nan" for t in c):
        return tm.NAN
    if any(t.op == "inf" for t in c):
        return tm.INF
    if all(numval(t) is not None for t in c):
        return power(tm.add(*[mul(t, t) for t in c]), num(Fraction(1, 2)))
    return tm._mk("fn", "norm", *c)


@method("diff")
def _diff(x, n=1, dim=-1, axis=None, **kw):
    if axis is not None:
        dim = axis
    if n != 1 or kw:
        raise Undecided("diff options")
    d = normdim(dim, x.dim())
    if isinstance(x.shape[d], SymSize):
        raise Undecided("diff along a dimension of arbitrary size")
    pre = [slice(None)] * d
    return ew(sub, getitem(x, tuple(pre + [slice(1, None)])), getitem(x, tuple(pre + [slice(None, -1)])))


@method("cumsum")
def _cumsum(x, dim=None, axis=None, **kw):
    d = dim if dim is not None else axis
    if not isinstance(x, Tensor):
        xs = list(x)
        if all(isinstance(v, (int, float)) for v in xs):
            out, s = [], 0
            for v in xs:
                s = s + v
                out.append(s)
            return out
        x = stack([as_tensor(v) for v in xs], 0)
        d = 0
    if d is None:
        d = 0
    d = normdim(d, x.dim())
    parts = _unbind(x, d)
    out = []
    acc = None
    for p in parts:
        acc = p if acc is None else ew(add, acc, p)
        out.append(acc)
    return stack(out, d) if out else clone(x)


@method("outer")
def _outer(a, b):
    return ew(mul, unsqueeze(a, -1), unsqueeze(b, 0))


@method("bmm")
def _bmm(a, b):
    if a.dim() != 3 or b.dim() != 3:
        raise ShapeError("bmm needs rank 3")
    if not (a.shape[0] == b.shape[0] and a.shape[2] == b.shape[1]):
        raise ShapeError(f"bmm of {a.shape} and {b.shape}")
    return einsum("bik,bkj->bij", a, b)


@method("matmul", "mm", "mv", "dot", "inner")
def _matmul(a, b):
    a, b = as_tensor(a), as_tensor(b)
    if a.dim() == 1 and b.dim() == 1:
        return einsum("k,k->", a, b)
    if b.dim() == 1:
        return einsum("...ik,k->...i", a, b)
    if a.dim() == 1:
        return einsum("k,...kj->...j", a, b)
    return einsum("...ik,...kj->...ij", a, b)


FUNCS["einsum"] = lambda spec, *ops: einsum(spec, *(ops[0] if len(ops) == 1 and isinstance(ops[0], (list, tuple)) else ops))
FUNCS["cat"] = FUNCS["concat"] = FUNCS["concatenate"] = lambda ts, dim=0, axis=None: cat(list(ts), dim if axis is None else axis)
FUNCS["stack"] = lambda ts, dim=0, axis=None: stack(list(ts), dim if axis is None else axis)
FUNCS["vstack"] = lambda ts: cat([as_tensor(t) if as_tensor(t).dim() > 1 else reshape(as_tensor(t), (1,) + (as_tensor(t).shape or (1,))) for t in ts], 0)
FUNCS["hstack"] = lambda ts: cat(list(ts), 0 if as_tensor(ts[0]).dim() == 1 else 1)


# ------------------------------------------------------------ creation
def _shape_args(a, size=None):
    if size is not None:
        a = (size,)
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        a = tuple(a[0])
    out = []
    for d in a:
        v = to_int(d)
        if v is None and not isinstance(d, SymSize):
            raise Undecided(f"size {d!r}")
        out.append(d if isinstance(d, SymSize) else v)
        if v is not None and v < 0:
            raise ShapeError("negative size")
    return tuple(out)


def _filled(term):
    def g(*shape, size=None, device=None, dtype=None, requires_grad=False, **kw):
        sh = _shape_args(shape, size)
        k = dkind(dtype)
        return new(sh, [coerce(term, k)] * tz._count(sh), k, ddev(device))

    return g


FUNCS["zeros"] = _filled(ZERO)
FUNCS["ones"] = _filled(ONE)


@func("empty")
def _empty(*shape, size=None, device=None, dtype=None, **kw):
    sh = _shape_args(shape, size)
    return new(sh, [fresh("uninitialised", "uninit") for _ in range(tz._count(sh))], dkind(dtype), ddev(device))


@func("full")
def _full(shape, v, device=None, dtype=None, **kw):
    sh = _shape_args((shape,) if not isinstance(shape, (tuple, list)) else (tuple(shape),))
    c = as_tensor(v).item_cell()
    return new(sh, [c] * tz._count(sh), dkind(dtype, as_tensor(v).dtype), ddev(device))


def _like(f):
    def g(x, device=None, dtype=None, **kw):
        x = as_tensor(x)
        d = x.device if device is None else ddev(device)
        k = x.dtype if dtype is None else dkind(dtype)
        return new(x.shape, [coerce(f(), k) for _ in range(x.ncells())], k, d)

    return g


FUNCS["zeros_like"] = _like(lambda: ZERO)
FUNCS["ones_like"] = _like(lambda: ONE)
FUNCS["empty_like"] = _like(lambda: fresh("uninitialised", "uninit"))
FUNCS["full_like"] = lambda x, v, **k: _like(lambda: as_tensor(v).item_cell())(x, **k)
METHODS["new_zeros"] = lambda x, *s, **k: FUNCS["zeros"](*s, **{"device": DeviceVal(x.device), **k})
METHODS["new_ones"] = lambda x, *s, **k: FUNCS["ones"](*s, **{"device": DeviceVal(x.device), **k})
METHODS["new_empty"] = lambda x, *s, **k: FUNCS["empty"](*s, **{"device": DeviceVal(x.device), **k})
METHODS["new_full"] = lambda x, s, v, **k: FUNCS["full"](s, v, **{"device": DeviceVal(x.device), **k})


@func("eye")
def _eye(n, m=None, device=None, dtype=None, **kw):
    n = to_int(n)
    m = n if m is None else to_int(m)
    if n is None or m is None:
        raise Undecided("eye of arbitrary size")
    return new((n, m), [ONE if i == j else ZERO for i in range(n) for j in range(m)], dkind(dtype), ddev(device))


@func("arange")
def _arange(*a, device=None, dtype=None, **kw):
    v = [to_int(x) for x in a]
    if any(x is None for x in v):
        raise Undecided("arange bounds")
    r = list(range(*v))
    return new((len(r),), [num(x) for x in r], dkind(dtype, "int"), ddev(device))


@func("linspace")
def _linspace(a, b, steps=50, num_=None, device=None, dtype=None, **kw):
    n = to_int(kw.get("num", steps))
    if n is None:
        raise Undecided("linspace steps")
    a, b = as_tensor(a), as_tensor(b)
    a, b = a.item_cell(), b.item_cell()
    if kw.get("endpoint") is False:
        cells = [add(a, mul(num(Fraction(k, n)), sub(b, a))) for k in range(n)]
    elif n == 1:
        cells = [a]
    else:
        cells = [add(a, mul(num(Fraction(k, n - 1)), sub(b, a))) for k in range(n)]
        if cells:
            cells[-1] = b
    return new((n,), cells, "float", ddev(device))


@func("logspace")
def _logspace(a, b, steps=50, base=10.0, device=None, dtype=None, **kw):
    l = _linspace(a, b, kw.pop("num", steps), device=device)
    return ew(lambda c: power(T(base), c), l)


def build_tensor(x, kind=None):
    if isinstance(x, Tensor):
        return x
    if isinstance(x, (list, tuple)):
        parts = [build_tensor(v) for v in x]
        if not parts:
            return new((0,), [], "float", None)
        return stack(parts, 0)
    return as_tensor(x)


@func("tensor", "array")
def _fresh_tensor(x, device=None, dtype=None, **kw):
    """always a copy, outside the gradient"""
    t = _tensor(x, device, dtype)
    if t.dtype == "float":
        t = new(t.shape, [tm.detach(c) for c in t.cells()], t.dtype, t.device)
    t = t if t.st is not getattr(x, "st", None) else clone(t)
    # an array of numbers becomes a tensor on the processor
    return t if t.device is not None else new(t.shape, t.cells(), t.dtype, "default")


@func("as_tensor", "asarray", "from_numpy")
def _tensor(x, device=None, dtype=None, **kw):
    if isinstance(x, Tensor) and dkind(dtype, x.dtype) == x.dtype and (device is None or ddev(device) == x.device):
        return x
    t = build_tensor(x)
    k = dkind(dtype, t.dtype)
    t = cast(clone(t), k)
    return new(t.shape, t.cells(), k, ddev(device) if not (isinstance(x, Tensor) and device is None) else t.device)


# ------------------------------------------------------------ linear algebra
class LinSolve:
    """Row r of inverse(A) applied to v.  The entries of the inverse are
    opaque terms determined by the entries of A, so the result is an exact
    bilinear expression and products are never commuted."""


INVERSE = ["opaque"]     # "adjugate": inverses of 2x2 blocks are written out
WORDS = [False]          # products of 1x1 blocks are non-commutative words


def word(a, b):
    """product of two blocks in the order it is written"""
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    return tm._mk("fn", "word", a, b)


def exact_inverse(a_cells, n, memo={}):
    """the entries of the inverse as rational functions, by elimination"""
    key = tuple(a_cells)
    if key in memo:
        return memo[key]
    M = [list(a_cells[i * n:(i + 1) * n]) + [ONE if i == j else ZERO for j in range(n)] for i in range(n)]
    out = None
    for c in range(n):
        piv = None
        for r in range(c, n):
            if M[r][c] is ZERO:
                continue
            v = tm.field_values([M[r][c]], "pivot")
            if v is None or v[0] != 0:
                piv = r
                break
        if piv is None:
            break
        M[c], M[piv] = M[piv], M[c]
        iv = power(M[c][c], num(-1))
        M[c] = [ZERO if x is ZERO else mul(x, iv) for x in M[c]]
        M[c][c] = ONE
        for r in range(n):
            if r != c and M[r][c] is not ZERO:
                f = M[r][c]
                M[r] = [x if y is ZERO else sub(x, mul(f, y)) for x, y in zip(M[r], M[c])]
                M[r][c] = ZERO
    else:
        out = [M[r][n + c] for r in range(n) for c in range(n)]
    memo[key] = out
    return out


def inv_cells(a_cells, n):
    """a_cells: n*n terms -> n*n terms for the inverse"""
    if WORDS[0]:
        if n != 1:
            raise Undecided("block size in the word domain")
        return [ONE if a_cells[0] is ONE else tm._mk("fn", "blockinv", a_cells[0])]
    if n == 1:
        return [power(a_cells[0], num(-1))]
    if all(c is (ONE if k // n == k % n else ZERO) for k, c in enumerate(a_cells)):
        return list(a_cells)
    if INVERSE[0] == "exact" and n <= 8:
        r = exact_inverse(a_cells, n)
        if r is not None:
            return r
    if INVERSE[0] in ("adjugate", "exact") and n == 2:
        a, b, c, d = a_cells
        det = power(sub(mul(a, d), mul(b, c)), num(-1))
        return [mul(d, det), neg(mul(b, det)), neg(mul(c, det)), mul(a, det)]
    key = tuple(a_cells)
    return [tm._mk("fn", f"inv{n}_{r}_{c}", *key) for r in range(n) for c in range(n)]


def solve(A, b, vec=False):
    """A (...,n,n), b (...,n,k) or (...,n) when vec"""
    n = A.shape[-1]
    if isinstance(n, SymSize) or isinstance(A.shape[-2], SymSize):
        raise Undecided("solve of arbitrary size")
    if A.shape[-2] != n:
        raise ShapeError("solve with a non-square matrix")
    Ac = clone(A).st.cells
    inv = []
    for q in range(len(Ac) // (n * n) if n else 0):
        inv.extend(inv_cells(Ac[q * n * n:(q + 1) * n * n], n))
    Ai = new(A.shape, inv, "float", A.device)
    if vec:
        return squeeze(einsum("...ik,...kj->...ij", Ai, unsqueeze(b, -1)), -1)
    return einsum("...ik,...kj->...ij", Ai, b)


def _solve_dispatch(A, b, left=True, **kw):
    if not left:
        raise Undecided("right solve")
    # torch: b is a vector batch iff b.ndim==1 or b.shape == A.shape[:-1]
    vec = b.dim() == 1 or (b.dim() == A.dim() - 1 and tuple(b.shape) == tuple(A.shape[:-1]))
    event("linear-solve", A=A, b=b)
    return solve(A, b, vec)


class Result(tuple):
    def attr(self, name):
        return self.names.index(name)


LINALG = {}
LINALG["solve"] = lambda A, b, **k: _solve_dispatch(A, b, **k)
LINALG["solve_ex"] = lambda A, b, **k: (_solve_dispatch(A, b, **k), new((), [ZERO], "int"))
LINALG["inv"] = lambda A: solve(A, expand(_eye(A.shape[-1]), A.shape))
LINALG["norm"] = LINALG["vector_norm"] = lambda x, ord=2, dim=None, keepdim=False: _norm(x, ord, dim, keepdim)


def _lu_factor(A, **k):
    n = A.shape[-1]
    Ac = clone(A)
    lu = new(A.shape, [tm._mk("fn", "lu", c) for c in Ac.st.cells], "float", A.device)
    # the pivots of a block are tied to the whole block
    piv = []
    if n:
        for q in range(len(Ac.st.cells) // (n * n)):
            blk = tuple(Ac.st.cells[q * n * n:(q + 1) * n * n])
            piv.extend([tm._mk("fn", f"piv{r}", *blk) for r in range(n)])
    pv = new(A.shape[:-1], piv, "int", A.device)
    return lu, pv, new(A.shape[:-2], [ZERO] * tz._count(A.shape[:-2]), "int", A.device)


def _lstsq(A, B, rcond=None, driver=None):
    """a least-squares solution: unknown function of the system"""
    A, B = as_tensor(A), as_tensor(B)
    dev = join_device([A, B])
    vec = B.dim() == 1 or (B.dim() == A.dim() - 1 and tuple(B.shape) == tuple(A.shape[:-1]))
    if not vec:
        raise Undecided("least squares with several right-hand sides")
    m, n = ext(A.shape[-2]), ext(A.shape[-1])
    Ac, Bc = A.cells(), B.cells()
    cells = []
    for q in range(tz._count(A.shape[:-2])):
        a, b = Ac[q * m * n:(q + 1) * m * n], Bc[q * m:(q + 1) * m]
        cells += [tm.app(f"lstsq{m}x{n}_{j}", list(a) + list(b)) for j in range(n)]
    event("lstsq", A=A, b=B)
    x = new(tuple(A.shape[:-2]) + (n,), cells, "float", dev)
    return (x, Opaque("residuals"), Opaque("rank"), Opaque("singular values"))


LINALG["lstsq"] = _lstsq
LINALG["lu_factor"] = lambda A, **k: _lu_factor(A, **k)[:2]
LINALG["lu_factor_ex"] = _lu_factor


def _lu_solve(LU, piv, B, left=True, adjoint=False, **k):
    if adjoint or not left:
        raise Undecided("lu_solve options")
    n = LU.shape[-1]
    cells = []
    c = [x.args[0] if x.op == "detach" else x for x in clone(LU).st.cells]
    p = [x.args[0] if x.op == "detach" else x for x in clone(piv).st.cells]
    for q in range(len(c) // (n * n) if n else 0):
        blk = c[q * n * n:(q + 1) * n * n]
        if all(x.op == "fn" and x.args[0] == "lu" for x in blk):
            blk = [x.args[1] for x in blk]
            pp = p[q * n:(q + 1) * n]
            want = [tm._mk("fn", f"piv{r}", *blk) for r in range(n)]
            if pp != want:
                event("pivot-mismatch")
                blk = [tm._mk("fn", "wrong-pivots", x, *pp) for x in blk]
        else:
            blk = [tm._mk("fn", "not-a-factorization", x) for x in blk]
        cells.extend(blk)
    A = new(LU.shape, cells, "float", LU.device)
    return solve(A, B)


LINALG["lu_solve"] = _lu_solve
METHODS["lu_solve"] = lambda b, lu, piv: _lu_solve(lu, piv, b)
LINALG["diagonal"] = lambda A, dim1=-2, dim2=-1, **k: diagonal(A, 0, dim1, dim2)
LINALG["matmul"] = _matmul


@func("pad")
def _pad(x, pad, mode="constant", value=0):
    if mode != "constant":
        raise Undecided("pad mode")
    p = [to_int(v) for v in pad]
    v = ZERO if value is None else as_tensor(value).item_cell()
    for k in range(len(p) // 2):
        a, b = p[2 * k], p[2 * k + 1]
        d = x.dim() - 1 - k
        if a == 0 and b == 0:
            continue
        if a < 0 or b < 0:
            raise Undecided("negative padding")
        parts = []
        sh = list(x.shape)
        for n in (a, None, b):
            if n is None:
                parts.append(x)
            elif n:
                sh[d] = n
                parts.append(new(sh, [v] * tz._count(sh), x.dtype, x.device))
        x = cat(parts, d)
    return clone(x)


class SparseCOO:
    def __init__(self, inds, vals, size):
        self.inds, self.vals = inds, vals
        if size is None:
            # torch takes the largest index present
            q, n = inds.shape
            idx = [numval(c) for c in clone(inds).st.cells]
            if any(c is None for c in idx) or not n:
                raise Undecided("size of a sparse matrix")
            size = tuple(int(max(idx[r * n:(r + 1) * n])) + 1 for r in range(q)) + tuple(vals.shape[1:])
        self.size = size


def binop(op, a, b):
    table = {
        "Add": add, "Sub": sub, "Mult": mul, "Div": div, "Pow": power, "FloorDiv": lambda x, y: fn("floor", div(x, y)),
        "Mod": _fmod,
    }
    if op in table:
        dt = "float" if op == "Div" else None
        return ew(table[op], a, b, dtype=dt)
    if op == "MatMult":
        return _matmul(a, b)
    if op == "BitAnd":
        return ew(land, a, b, dtype="bool")
    if op == "BitOr":
        return ew(lor, a, b, dtype="bool")
    if op == "BitXor":
        return METHODS["logical_xor"](a, b)
    raise Undecided(f"operator {op}")


CMPS = {
    "Gt": gt, "Lt": lt, "GtE": ge, "LtE": le, "Eq": eq, "NotEq": lambda a, b: lnot(eq(a, b)),
}


def compare(op, a, b):
    return ew(CMPS[op], a, b, dtype="bool")


def inplace(t, value):
    """write value into t (same shape after broadcasting)"""
    if isinstance(value, MaskSel):
        raise Undecided("mask-selected values written in place")
    v = as_tensor(value)
    shp = broadcast_shapes(t.shape, v.shape)
    if tuple(shp) != tuple(t.shape):
        raise ShapeError(f"in-place result of shape {shp} does not fit {t.shape}")
    assign_into(t, v)
    return t


for _n in ("add", "sub", "mul", "div", "pow", "clamp", "abs", "neg", "exp", "log", "sqrt", "clip", "maximum", "masked_fill", "logical_or", "logical_and", "nan_to_num"):
    METHODS[_n + "_"] = (lambda n: lambda x, *a, **k: inplace(x, METHODS[n](x, *a, **k)))(_n)
METHODS["copy_"] = lambda x, y, **k: inplace(x, y)
METHODS["zero_"] = lambda x: inplace(x, ZERO)
METHODS["fill_"] = lambda x, v: inplace(x, v)
METHODS["detach_"] = lambda x: inplace(x, METHODS["detach"](x))
METHODS["unsqueeze_"] = lambda x, d: (_ for _ in ()).throw(Undecided("unsqueeze_"))
METHODS["allclose"] = lambda *a, **k: (_ for _ in ()).throw(Undecided("allclose"))


@method("index_put_")
def _index_put_(x, idx, v, accumulate=False):
    if accumulate:
        raise Undecided("index_put_ accumulate")
    setitem(x, tuple(idx), v)
    return x


@method("index_add_", "index_add")
def _ia(x, dim, index, v, alpha=1):
    raise Undecided("index_add")


@method("tril")
def _tril(x, diagonal=0):
    n, m = x.shape[-2], x.shape[-1]
    mask = new((n, m), [TRUE if j - i <= diagonal else FALSE for i in range(n) for j in range(m)], "bool")
    return _where(mask, x, 0.0)


@method("triu")
def _triu(x, diagonal=0):
    n, m = x.shape[-2], x.shape[-1]
    mask = new((n, m), [TRUE if j - i >= diagonal else FALSE for i in range(n) for j in range(m)], "bool")
    return _where(mask, x, 0.0)


@method("addmm", "baddbmm")
def _addmm(c, a, b, beta=1, alpha=1):
    return ew(add, ew(mul, c, beta), ew(mul, _matmul(a, b), alpha))


@method("searchsorted")
def _ss(*a, **k):
    # torch.searchsorted(sorted, values, right=False): number of knots < v (<= v when right)
    seq, v = a[0], a[1]
    right = k.get("right", False) or k.get("side") == "right"
    v = as_tensor(v)
    if seq.dim() == 1:
        s = reshape(seq, (1,) * v.dim() + seq.shape)
    else:
        s = unsqueeze(seq, -2)
    vv = unsqueeze(v, -1)
    c = ew((lambda x, y: ite(ge(y, x), ONE, ZERO)) if right else (lambda x, y: ite(gt(y, x), ONE, ZERO)), s, vv, dtype="int")
    return _sum(c, -1)


def bucketize(v, b, right=False):
    return _ss(b, v, right=right)


FUNCS["bucketize"] = bucketize
