"""
Abstract tensors: a shape (concrete extents and *symbolic* extents standing
for any size), strides over a shared storage (so views and in-place updates
alias as they do in the program) and one term per element.  A symbolic extent
holds one generic element, so an operation that treats the elements of that
extent differently, or combines them, is visible.
"""
from .terms import *
from . import terms as tm


class SymSize:
    """a dimension of arbitrary size, represented by its generic element"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, SymSize) and o.name == self.name

    def __hash__(self):
        return hash(("sym", self.name))


class ShapeError(Exception):
    """the analysed code would raise on these shapes"""


def ext(d):
    return 1 if isinstance(d, SymSize) else d


class Storage:
    __slots__ = ("cells", "tag", "device", "writes", "sid", "origin", "mirrors")
    _n = 0

    def __init__(self, cells, device=None, tag=None, origin=None):
        self.cells = cells
        self.device = device
        self.tag = tag
        self.writes = []
        Storage._n += 1
        self.sid = Storage._n
        self.origin = origin
        self.mirrors = None     # same memory outside the gradient: [(storage, {own index: its index}, detached)]


class Hooks:
    """set by the interpreter: journal + location"""

    journal = None
    loc = staticmethod(lambda: None)
    events = None
    grad = True
    tracked = set()  # variables of tensors declared to need a gradient


H = Hooks


def event(kind, **kw):
    if H.events is not None:
        kw["loc"] = H.loc()
        H.events.append((kind, kw))


def contiguous_strides(shape):
    st = []
    acc = 1
    for d in reversed(shape):
        st.append(acc)
        acc *= ext(d)
    return tuple(reversed(st))


class Tensor:
    __slots__ = ("st", "off", "shape", "strides", "dtype", "_rg", "kind", "extra")

    def __init__(self, st, shape, strides=None, off=0, dtype="float"):
        self.st = st
        self.shape = tuple(shape)
        self.strides = tuple(strides) if strides is not None else contiguous_strides(self.shape)
        self.off = off
        self.dtype = dtype
        self._rg = None
        self.kind = None
        self.extra = None

    @property
    def requires_grad(self):
        """whether a gradient flows to a tensor declared to need one"""
        if self._rg is not None:
            return self._rg
        return any(not H.tracked.isdisjoint(tm.live(tm.T(c))) for c in self.cells()) if H.tracked else False

    @requires_grad.setter
    def requires_grad(self, v):
        self._rg = v = bool(v)
        for c in self.cells():
            c = tm.T(c)
            if c.op == "var":
                (H.tracked.add if v else H.tracked.discard)(c.args[0])

    # -- basics
    @property
    def device(self):
        return self.st.device

    def dim(self):
        return len(self.shape)

    def indices(self):
        idx = [self.off]
        for d, s in zip(self.shape, self.strides):
            n = ext(d)
            idx = [i + k * s for i in idx for k in range(n)]
        return idx

    def cells(self):
        c = self.st.cells
        return [c[i] for i in self.indices()]

    def numel(self):
        n = 1
        for d in self.shape:
            if isinstance(d, SymSize):
                return SymNumel(self.shape)
            n *= d
        return n

    def ncells(self):
        n = 1
        for d in self.shape:
            n *= ext(d)
        return n

    def item_cell(self):
        i = self.indices()
        if len(i) != 1:
            raise ShapeError("a tensor with several elements used as a scalar")
        return self.st.cells[i[0]]

    def __repr__(self):
        return f"<tensor {self.shape} {self.dtype} {[show(c) for c in self.cells()[:4]]}>"

    def write(self, flat_index, term):
        st = self.st
        old = st.cells[flat_index]
        if H.journal is not None:
            H.journal.append(("cell", st, flat_index, old))
        st.cells[flat_index] = term
        st.writes.append((flat_index, H.loc()))
        if st.mirrors:
            spread(st, flat_index, term, {id(st)})


def spread(st, i, term, seen):
    """a write to memory that a detached tensor shares"""
    for other, m, det in st.mirrors or ():
        if id(other) in seen or i not in m:
            continue
        seen.add(id(other))
        j = m[i]
        t = tm.detach(term) if det else term
        if H.journal is not None:
            H.journal.append(("cell", other, j, other.cells[j]))
        other.cells[j] = t
        other.writes.append((j, H.loc()))
        spread(other, j, term, seen)


def detached(x):
    """the same memory outside the gradient"""
    idx = x.indices()
    r = new(x.shape, [tm.detach(x.st.cells[i]) for i in idx], x.dtype, x.device)
    if len(set(idx)) == len(idx):
        for a, b, m, d in ((x.st, r.st, {i: k for k, i in enumerate(idx)}, True), (r.st, x.st, {k: i for k, i in enumerate(idx)}, False)):
            a.mirrors = (a.mirrors or []) + [(b, m, d)]
    return r


class SymNumel:
    def __init__(self, shape):
        self.shape = shape


def new(shape, cells, dtype="float", device=None):
    shape = tuple(shape)
    n = 1
    for d in shape:
        n *= ext(d)
    assert n == len(cells), (shape, len(cells))
    if not H.grad:
        cells = [tm.detach(c) for c in cells]
    return Tensor(Storage(list(cells), device, origin=H.loc()), shape, dtype=dtype)


def scalar(t, dtype=None, device=None):
    t = T(t)
    if dtype is None:
        dtype = "bool" if is_bool(t) else "float"
    return new((), [t], dtype, device)


def inputs(name, shape, kind="real", device="D", dtype="float", info=None, namer=None):
    """a fresh input tensor, one variable per (generic) element"""
    cells = []
    idx = [()]
    for d in shape:
        idx = [i + (k,) for i in idx for k in range(ext(d))]
    symb = [isinstance(d, SymSize) for d in shape]
    for i in idx:
        lab = ",".join((shape[j].name if symb[j] else str(v)) for j, v in enumerate(i))
        nm = namer(i) if namer else (f"{name}[{lab}]" if i and not all(symb) else name)
        cells.append(var(nm, kind, **(info or {})))
    t = new(shape, cells, dtype, device)
    t.st.tag = name
    return t


def from_terms(shape, cells, dtype=None, device="D"):
    cells = [T(c) for c in cells]
    if dtype is None:
        dtype = "bool" if cells and all(is_bool(c) for c in cells) else "float"
    return new(shape, cells, dtype, device)


def join_device(ts):
    devs = {t.device for t in ts if isinstance(t, Tensor) and t.dim() > 0 and t.device is not None}
    if devs:
        # a single number on the processor combines with anything, one
        # elsewhere does not
        devs |= {t.device for t in ts if isinstance(t, Tensor) and t.dim() == 0 and t.device not in (None, "default")}
    if len(devs) > 1:
        event("device-mix", devices=sorted(devs))
    if devs:
        return sorted(devs, key=lambda d: d != "D")[0]
    for t in ts:
        if isinstance(t, Tensor) and t.device is not None:
            return t.device
    return None


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cur = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if isinstance(d, SymSize):
                if isinstance(cur, SymSize):
                    if cur != d:
                        raise ShapeError(f"sizes {cur} and {d} do not match")
                elif cur == 1:
                    cur = d
                else:
                    raise ShapeError(f"sizes {cur} and {d} do not match")
            elif d == 1:
                continue
            else:
                if isinstance(cur, SymSize):
                    raise ShapeError(f"sizes {cur} and {d} do not match")
                if cur == 1:
                    cur = d
                elif cur != d:
                    raise ShapeError(f"sizes {cur} and {d} do not match")
        out.append(cur)
    return tuple(out)


def expand(t, shape):
    """broadcast view"""
    n = len(shape)
    lead = n - t.dim()
    if lead < 0:
        raise ShapeError("expand to fewer dimensions")
    st = [0] * lead
    for d, s, w in zip(t.shape, t.strides, shape[lead:]):
        if isinstance(w, int) and w == -1:
            raise Undecided("expand -1")
        if d == w:
            st.append(s)
        elif not isinstance(d, SymSize) and d == 1:
            st.append(0)
        else:
            raise ShapeError(f"cannot expand {t.shape} to {shape}")
    r = Tensor(t.st, shape, st, t.off, t.dtype)
    return r


def as_tensor(x):
    if isinstance(x, Tensor):
        return x
    if isinstance(x, bool):
        return scalar(T(x), "bool")
    if isinstance(x, int):
        return scalar(num(x), "int")
    if isinstance(x, float):
        return scalar(T(x), "float")
    if isinstance(x, Term):
        return scalar(x)
    if type(x).__module__.startswith("sa.") and hasattr(x, "as_tensor"):
        return x.as_tensor()
    raise Undecided(f"cannot treat {type(x).__name__} as a tensor")


RANK = {"bool": 0, "int": 1, "float": 2}


def result_dtype(ts):
    return max((t.dtype for t in ts), key=lambda d: RANK.get(d, 2))


def elementwise(f, ts, dtype=None):
    ts = [as_tensor(t) for t in ts]
    shape = broadcast_shapes(*[t.shape for t in ts])
    es = [expand(t, shape).cells() for t in ts]
    dev = join_device(ts)
    cells = [f(*c) for c in zip(*es)]
    return new(shape, cells, dtype or result_dtype(ts), dev)


# ---------------------------------------------------------------- indexing
class MaskSel:
    """values selected by a symbolic mask; only useful through the same mask"""

    def __init__(self, base, pre, mask, post):
        self.base = base      # Tensor after basic indexing, mask dims in place
        self.pre = pre        # number of dims before the mask dims
        self.mask = mask      # Tensor (bool)
        self.post = post

    def map(self, f):
        return MaskSel(f(self.base), self.pre, self.mask, self.post)


def concrete_bool(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return None


def mask_values(m):
    out = []
    for c in m.cells():
        b = concrete_bool(truth(c))
        if b is None:
            return None
        out.append(b)
    return out


def to_int(x):
    """concrete int of a python/tensor value or None"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Tensor) and x.dim() == 0:
        v = numval(x.item_cell())
        if v is not None and v.denominator == 1:
            return int(v)
    if isinstance(x, float) and x == int(x):
        return int(x)
    return None


def norm_index(t, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = [list(i) if isinstance(i, tuple) else i for i in idx]
    consumed = 0
    for i in idx:
        if i is None or i is Ellipsis:
            continue
        if isinstance(i, Tensor) and i.dtype == "bool":
            consumed += i.dim()
        else:
            consumed += 1
    if any(i is Ellipsis for i in idx):
        k = [j for j, i in enumerate(idx) if i is Ellipsis][0]
        fill = t.dim() - consumed
        if fill < 0:
            raise ShapeError("too many indices")
        idx = idx[:k] + [slice(None)] * fill + idx[k + 1:]
    else:
        if consumed > t.dim():
            raise ShapeError("too many indices")
        idx = idx + [slice(None)] * (t.dim() - consumed)
    return idx


def _slice_bounds(s, d):
    def conv(x):
        if x is None:
            return None
        v = to_int(x)
        if v is None:
            raise Undecided("slice bound is not a known integer")
        return v

    a, b, c = conv(s.start), conv(s.stop), conv(s.step)
    return slice(a, b, c).indices(d)


def getitem(t, idx):
    """basic part -> view; advanced part -> copy or MaskSel"""
    idx = norm_index(t, idx)
    adv = []
    shape, strides, off = [], [], t.off
    k = 0
    plan = []
    for i in idx:
        if i is None:
            shape.append(1)
            strides.append(0)
            plan.append(None)
            continue
        if isinstance(i, Tensor) and i.dtype == "bool":
            nd = i.dim()
            for j in range(nd):
                if not (i.shape[j] == t.shape[k + j]):
                    raise ShapeError(f"mask of shape {i.shape} used on {t.shape}")
            adv.append((len(shape), "mask", i))
            for j in range(nd):
                shape.append(t.shape[k + j])
                strides.append(t.strides[k + j])
                plan.append(None)
            k += nd
            continue
        d, s = t.shape[k], t.strides[k]
        if isinstance(i, slice):
            if isinstance(d, SymSize):
                if i.start is None and i.stop is None and i.step in (None, 1):
                    shape.append(d)
                    strides.append(s)
                else:
                    if (i.step in (None, 1)):
                        event("batch-slice", size=d.name)
                    raise Undecided(f"slice of the dimension of arbitrary size {d}")
            else:
                a, b, c = _slice_bounds(i, d)
                if c <= 0:
                    raise ShapeError("slice step must be positive")
                n = max(0, (b - a + c - 1) // c)
                shape.append(n)
                strides.append(s * c)
                off += a * s if n else 0
        else:
            v = to_int(i)
            if v is not None:
                if isinstance(d, SymSize):
                    event("batch-index", size=d.name, index=v)
                    raise Undecided(f"element {v} of the dimension of arbitrary size {d}")
                if v < -d or v >= d:
                    raise ShapeError(f"index {v} out of range for size {d}")
                off += (v % d) * s
            elif isinstance(i, (Tensor, list, tuple, range)):
                adv.append((len(shape), "index", i))
                shape.append(d)
                strides.append(s)
            else:
                raise Undecided(f"index of type {type(i).__name__}")
        k += 1
    base = Tensor(t.st, shape, strides, off, t.dtype)
    if not adv:
        return base
    index_devices(base, adv)
    return advanced_get(base, adv)


def index_devices(base, adv):
    """an index lies on the device of the indexed tensor, or on the processor"""
    for _, _, i in adv:
        if isinstance(i, Tensor) and i.device not in (None, "default", base.device) and base.device is not None:
            event("device-mix", devices=[base.device, i.device])


def int_list(x):
    if isinstance(x, range):
        return list(x), (len(x),)
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            n = to_int(v)
            if isinstance(v, bool) or n is None:
                raise Undecided("index list")
            out.append(n)
        return out, (len(out),)
    vals = []
    for c in x.cells():
        v = numval(c)
        if v is None or v.denominator != 1:
            return None, x.shape
        vals.append(int(v))
    return vals, x.shape


def _as_mask(x):
    if isinstance(x, (list, tuple)) and x and all(isinstance(v, bool) for v in x):
        return new((len(x),), [T(v) for v in x], "bool")
    return None


def _resolve_adv(base, adv):
    """list of (pos, kind, payload) -> list of per-dimension integer lists"""
    res = []
    for pos, kind, x in adv:
        if kind == "index":
            m = _as_mask(x)
            if m is not None:
                kind, x = "mask", m
        if kind == "mask":
            vals = mask_values(x)
            if vals is None:
                return None
            if any(isinstance(d, SymSize) for d in x.shape):
                # constant mask over a dimension of any size
                if all(vals):
                    return "all"
                if not any(vals):
                    return "none"
                return None
            coords = [[] for _ in x.shape]
            idxs = [()]
            for d in x.shape:
                idxs = [i + (k,) for i in idxs for k in range(d)]
            n = 0
            for i, v in zip(idxs, vals):
                if v:
                    n += 1
                    for c, k in zip(coords, i):
                        c.append(k)
            for j, c in enumerate(coords):
                res.append((pos + j, c, (n,)))
        else:
            vals, shp = int_list(x)
            if vals is None:
                return None
            d = base.shape[pos]
            if isinstance(d, SymSize):
                raise Undecided(f"gather on the dimension of arbitrary size {d}")
            for v in vals:
                if v < -d or v >= d:
                    raise ShapeError(f"index {v} out of range for size {d}")
            res.append((pos, [v % d for v in vals], shp))
    return res


def _adv_layout(base, res):
    shp = broadcast_shapes(*[r[2] for r in res])
    lists = []
    for pos, vals, s in res:
        tt = new(s, [num(v) for v in vals], "int")
        lists.append((pos, [int(numval(c)) for c in expand(tt, shp).cells()]))
    poss = [p for p, _ in lists]
    contiguous = poss == list(range(poss[0], poss[0] + len(poss)))
    rest = [k for k in range(base.dim()) if k not in poss]
    ins = poss[0] if contiguous else 0
    pre = [k for k in rest if k < ins] if contiguous else []
    post = [k for k in rest if k not in pre]
    out_shape = [base.shape[k] for k in pre] + list(shp) + [base.shape[k] for k in post]

    def offs(dims):
        o = [0]
        for k in dims:
            o = [i + j * base.strides[k] for i in o for j in range(ext(base.shape[k]))]
        return o

    n = 1
    for d in shp:
        n *= d
    mids = []
    for q in range(n):
        mids.append(sum(vals[q] * base.strides[p] for p, vals in lists))
    flat = [base.off + a + m + c for a in offs(pre) for m in mids for c in offs(post)]
    return out_shape, flat


def advanced_get(base, adv):
    res = _resolve_adv(base, adv)
    if res is None or res in ("all", "none"):
        if len(adv) == 1 and (adv[0][1] == "mask"):
            pos, _, m = adv[0]
            return MaskSel(clone(base), pos, m, base.dim() - pos - m.dim())
        if len(adv) == 1 and adv[0][1] == "index" and isinstance(adv[0][2], Tensor):
            return symbolic_gather(base, adv[0][0], adv[0][2])
        raise Undecided("indexing with a data-dependent index")
    shape, flat = _adv_layout(base, res)
    return new(shape, [base.st.cells[i] for i in flat], base.dtype, base.device)


def symbolic_gather(base, pos, index):
    """base[..., index, ...] with a data-dependent integer index"""
    d = base.shape[pos]
    if isinstance(d, SymSize):
        raise Undecided("data-dependent index into a dimension of arbitrary size")
    cells = index.cells()
    alts = [getitem(base, tuple([slice(None)] * pos + [k])) for k in range(d)]
    outs = []
    for c in cells:
        acc = alts[-1]
        for k in range(d - 2, -1, -1):
            acc = elementwise(lambda x, y, k=k: ite(eq(c, num(k)), x, y), [alts[k], acc], base.dtype)
        outs.append(acc)
    if index.dim() == 0:
        return outs[0]
    # stack along pos
    st = stack(outs, pos)
    return reshape(st, st.shape[:pos] + index.shape + st.shape[pos + 1:])


def setitem(t, idx, value):
    idx2 = norm_index(t, idx)
    advs = [i for i in idx2 if (isinstance(i, Tensor) and not (i.dim() == 0 and i.dtype != "bool" and to_int(i) is not None)) or isinstance(i, (list, range))]
    if not advs:
        v = getitem(t, tuple(idx2))
        assign_into(v, value)
        return
    # build the base view and adv list
    base, adv = _split(t, idx2)
    index_devices(base, adv)
    if not isinstance(value, MaskSel):
        join_device([base, value])
    res = _resolve_adv(base, adv)
    if res is None or res in ("all", "none"):
        if len(adv) == 1 and adv[0][1] == "mask":
            return mask_assign(base, adv[0][0], adv[0][2], value)
        raise Undecided("assignment through a data-dependent index")
    shape, flat = _adv_layout(base, res)
    if isinstance(value, MaskSel):
        value = masksel_concrete(value, shape)
    v = expand(as_tensor(value), tuple(shape)).cells()
    for i, c in zip(flat, v):
        t.write(i, coerce(c, t.dtype))


def _split(t, idx):
    adv = []
    basic = []
    k = 0
    pos = 0
    for i in idx:
        if i is None:
            basic.append(None)
            pos += 1
        elif isinstance(i, Tensor) and i.dtype == "bool":
            for j in range(i.dim()):
                if not (i.shape[j] == t.shape[k + j]):
                    raise ShapeError(f"mask of shape {i.shape} used on {t.shape}")
            adv.append((pos, "mask", i))
            basic.extend([slice(None)] * i.dim())
            pos += i.dim()
            k += i.dim()
        elif isinstance(i, (Tensor, list, range)) and to_int(i) is None:
            adv.append((pos, "index", i))
            basic.append(slice(None))
            pos += 1
            k += 1
        elif isinstance(i, slice):
            basic.append(i)
            pos += 1
            k += 1
        else:
            basic.append(i)
            k += 1
    return getitem(t, tuple(basic)), adv


def coerce(c, dtype):
    if dtype == "bool":
        return truth(c)
    if dtype == "int" and is_bool(c):
        return as_num(c)
    if dtype == "float" and is_bool(c):
        return as_num(c)
    return c


def assign_into(view, value):
    if isinstance(value, MaskSel):
        raise Undecided("mask-selected values assigned to a slice")
    v = as_tensor(value)
    # torch allows leading 1-dims on the right-hand side
    while v.dim() > view.dim() and v.shape[0] == 1:
        v = Tensor(v.st, v.shape[1:], v.strides[1:], v.off, v.dtype)
    # a copy: torch moves the values to the device of the target
    cells = expand(v, view.shape).cells()
    for i, c in zip(view.indices(), cells):
        view.write(i, coerce(c, view.dtype))


_mis = {}


def misaligned(name):
    return fresh("mismatched-selection", "real")


def masksel_concrete(v, shape):
    raise Undecided("mask-selected values assigned through a different mask")


def mask_assign(base, pos, mask, value):
    m = mask
    # broadcast the mask over the whole base
    mshape = [1] * base.dim()
    for j in range(m.dim()):
        mshape[pos + j] = m.shape[j]
    mv = reshape(contiguous(m), tuple(mshape))
    mc = expand(mv, base.shape).cells()
    if isinstance(value, MaskSel):
        src = value.base
        if src.shape != base.shape or value.pre != pos:
            try:
                src = expand(src, base.shape)
            except ShapeError:
                raise Undecided("mask-selected values of another shape")
        sm = value.mask.cells()
        same = len(sm) == len(m.cells()) and all(truth(a) is truth(b) for a, b in zip(sm, m.cells()))
        if not same:
            same = len(sm) == len(m.cells()) and all(bool_equiv(a, b) for a, b in zip(sm, m.cells()))
        vals = src.cells()
        if not same:
            vals = [misaligned("m") for _ in vals]
    else:
        v = as_tensor(value)
        if v.ncells() != 1 or v.dim() > 0 and any(isinstance(d, SymSize) for d in v.shape):
            # value must broadcast against the selected shape: supported when
            # it does not run along the mask dimension(s)
            post = base.dim() - pos - m.dim()
            if v.dim() <= post:
                vals = expand(v, base.shape[base.dim() - post:] if post else ()).cells()
                n = len(mc) // max(1, len(vals))
                vals = vals * n
            else:
                raise Undecided("tensor assigned through a data-dependent mask")
        else:
            vals = [v.cells()[0]] * len(mc)
    for i, c, mm in zip(base.indices(), vals, mc):
        base.write(i, ite(truth(mm), coerce(c, base.dtype), base.st.cells[i]))


def bool_equiv(a, b):
    d = tm.land(truth(a), lnot(truth(b)))
    e = tm.land(truth(b), lnot(truth(a)))
    if d is FALSE and e is FALSE:
        return True
    try:
        z, _, _ = tm.prove_zero(sub(ite(truth(a), ONE, ZERO), ite(truth(b), ONE, ZERO)))
        return bool(z)
    except Exception:
        return False


# ---------------------------------------------------------------- structure
def clone(t):
    return new(t.shape, t.cells(), t.dtype, t.device)


def is_contiguous(t):
    acc = 1
    for d, s in zip(reversed(t.shape), reversed(t.strides)):
        n = ext(d)
        if n == 1:
            continue
        if s != acc:
            return False
        acc *= n
    return True


def contiguous(t):
    return t if is_contiguous(t) else clone(t)


def _infer(t, shape):
    shape = [int(to_int(s)) if to_int(s) is not None else s for s in shape]
    src_sym = [d for d in t.shape if isinstance(d, SymSize)]
    dst_sym = [d for d in shape if isinstance(d, SymSize)]
    n = t.ncells()
    known = 1
    neg = None
    for k, d in enumerate(shape):
        if isinstance(d, SymSize):
            continue
        if not isinstance(d, int):
            raise Undecided(f"reshape to size {d!r}")
        if d == -1:
            neg = k
        else:
            known *= d
    if neg is not None:
        left = list(src_sym)
        for d in dst_sym:
            if d in left:
                left.remove(d)
            else:
                raise ShapeError(f"cannot reshape {t.shape} to {tuple(shape)}")
        if known == 0 or n % known:
            if n == 0 and known:
                shape[neg] = 0
                return tuple(shape)
            raise ShapeError(f"cannot reshape {t.shape} to {tuple(shape)}")
        q = n // known
        if left:
            if len(left) == 1 and q == 1:
                shape[neg] = left[0]
            else:
                raise Undecided("reshape merges a dimension of arbitrary size")
        else:
            shape[neg] = q
    else:
        if n != known:
            raise ShapeError(f"cannot reshape {t.shape} to {tuple(shape)}")
        if sorted(d.name for d in src_sym) != sorted(d.name for d in dst_sym):
            if len(src_sym) != len(dst_sym):
                raise Undecided("reshape merges a dimension of arbitrary size")
            raise ShapeError(f"cannot reshape {t.shape} to {tuple(shape)}")
    # order of symbolic dims must be preserved, and each must keep its place
    # relative to the non-unit explicit ones
    a = [d for d in t.shape if isinstance(d, SymSize) or d != 1]
    b = [d for d in shape if isinstance(d, SymSize) or d != 1]
    if any(isinstance(d, SymSize) for d in a):
        if not _sym_compatible(a, b):
            raise Undecided(f"reshape {t.shape} -> {tuple(shape)} interleaves a dimension of arbitrary size")
    return tuple(shape)


def _sym_compatible(a, b):
    def segs(x):
        out = [1]
        for d in x:
            if isinstance(d, SymSize):
                out.append(d.name)
                out.append(1)
            else:
                out[-1] *= d
        return out

    return segs(a) == segs(b)


def reshape(t, shape):
    shape = _infer(t, list(shape))
    if is_contiguous(t):
        return Tensor(t.st, shape, None, t.off, t.dtype)
    v = try_view(t, shape)
    if v is not None:
        return v
    c = clone(t)
    return Tensor(c.st, shape, None, 0, t.dtype)


def try_view(t, shape):
    """view when the strides allow it (unit dims dropped/added, dims split)"""
    src = [(ext(d), s) for d, s in zip(t.shape, t.strides) if ext(d) != 1]
    # merge src dims that are mutually contiguous
    merged = []
    for n, s in src:
        if merged and merged[-1][1] == n * s:
            merged[-1] = (merged[-1][0] * n, s)
        else:
            merged.append((n, s))
    strides = []
    m = list(merged)
    cur_n, cur_s = (m.pop(0) if m else (1, 1))
    rem = cur_n
    for d in shape:
        n = ext(d)
        if n == 1:
            strides.append(0)
            continue
        if n == 0 or rem == 0:
            return Tensor(t.st, shape, contiguous_strides(shape), t.off, t.dtype) if not t.ncells() else None
        if rem == 1:
            if not m:
                return None
            cur_n, cur_s = m.pop(0)
            rem = cur_n
        if rem % n:
            return None
        rem //= n
        strides.append(cur_s * rem)
    if rem != 1 or m:
        return None
    return Tensor(t.st, shape, strides, t.off, t.dtype)


def view(t, shape):
    shape = _infer(t, list(shape))
    v = try_view(t, shape)
    if v is None:
        if is_contiguous(t):
            return Tensor(t.st, shape, None, t.off, t.dtype)
        raise ShapeError("view size is not compatible with the strides")
    return v


def normdim(d, n):
    d = to_int(d)
    if d is None:
        raise Undecided("dimension is not a known integer")
    if d < -n or d >= n:
        raise ShapeError(f"dimension {d} out of range for rank {n}")
    return d % n if n else 0


def unsqueeze(t, dim):
    d = normdim(dim, t.dim() + 1)
    shape = list(t.shape)
    st = list(t.strides)
    shape.insert(d, 1)
    st.insert(d, 0)
    return Tensor(t.st, shape, st, t.off, t.dtype)


def squeeze(t, dim=None):
    if dim is None:
        keep = [k for k, d in enumerate(t.shape) if isinstance(d, SymSize) or d != 1]
    else:
        dims = dim if isinstance(dim, tuple) else (dim,)
        ds = [normdim(d, t.dim()) for d in dims]
        keep = [k for k, d in enumerate(t.shape) if k not in ds or isinstance(d, SymSize) or d != 1]
    return Tensor(t.st, [t.shape[k] for k in keep], [t.strides[k] for k in keep], t.off, t.dtype)


def permute(t, order):
    order = [normdim(o, t.dim()) for o in order]
    return Tensor(t.st, [t.shape[k] for k in order], [t.strides[k] for k in order], t.off, t.dtype)


def transpose(t, a, b):
    a, b = normdim(a, t.dim()), normdim(b, t.dim())
    o = list(range(t.dim()))
    o[a], o[b] = o[b], o[a]
    return permute(t, o)


def movedim(t, a, b):
    aa = list(a) if isinstance(a, (tuple, list)) else [a]
    bb = list(b) if isinstance(b, (tuple, list)) else [b]
    aa = [normdim(x, t.dim()) for x in aa]
    bb = [normdim(x, t.dim()) for x in bb]
    order = [None] * t.dim()
    for x, y in zip(aa, bb):
        order[y] = x
    rest = iter([k for k in range(t.dim()) if k not in aa])
    order = [o if o is not None else next(rest) for o in order]
    return permute(t, order)


def flatten(t, start=0, end=-1):
    if t.dim() == 0:
        return reshape(t, (1,))
    a, b = normdim(start, t.dim()), normdim(end, t.dim())
    mid = t.shape[a:b + 1]
    syms = [d for d in mid if isinstance(d, SymSize)]
    if syms:
        if len(syms) == 1 and all(isinstance(d, SymSize) or d == 1 for d in mid):
            n = syms[0]
        else:
            raise Undecided("flatten merges a dimension of arbitrary size")
    else:
        n = 1
        for d in mid:
            n *= d
    return reshape(t, t.shape[:a] + (n,) + t.shape[b + 1:])


def cat(ts, dim=0):
    ts = [as_tensor(t) for t in ts]
    ts2 = [t for t in ts if not (t.dim() == 1 and t.shape[0] == 0)] or ts[:1]
    n = ts2[0].dim()
    if any(t.dim() != n for t in ts2):
        raise ShapeError("cat of tensors of different rank")
    d = normdim(dim, n)
    for t in ts2:
        for k in range(n):
            if k != d and not (t.shape[k] == ts2[0].shape[k]):
                raise ShapeError(f"cat of {[x.shape for x in ts2]} along {d}")
        if isinstance(t.shape[d], SymSize):
            if len(ts2) == 1:
                return clone(t)
            raise Undecided("cat along a dimension of arbitrary size")
    dev = join_device(ts)
    total = sum(t.shape[d] for t in ts2)
    shape = list(ts2[0].shape)
    shape[d] = total
    out = new(shape, [ZERO] * _count(shape), result_dtype(ts2), dev)
    o = 0
    for t in ts2:
        v = Tensor(out.st, t.shape, out.strides, out.off + o * out.strides[d], out.dtype)
        for i, c in zip(v.indices(), t.cells()):
            out.st.cells[i] = c
        o += t.shape[d]
    return out


def _count(shape):
    n = 1
    for d in shape:
        n *= ext(d)
    return n


def stack(ts, dim=0):
    ts = [as_tensor(t) for t in ts]
    d = normdim(dim, ts[0].dim() + 1)
    return cat([unsqueeze(t, d) for t in ts], d)


def reduce_dims(t, dim, keepdim, f, name):
    if dim is None:
        dims = list(range(t.dim()))
    else:
        dims = [normdim(d, t.dim()) for d in (dim if isinstance(dim, (tuple, list)) else (dim,))]
    keep = [k for k in range(t.dim()) if k not in dims]
    p = permute(t, keep + dims)
    symb = [t.shape[k] for k in dims if isinstance(t.shape[k], SymSize)]
    n = 1
    for k in dims:
        n *= ext(t.shape[k])
    if n == 0 and name in ("max", "min", "argmax", "argmin"):
        raise ShapeError(f"{name} of nothing")
    cells = p.cells()
    out = []
    kshape = [t.shape[k] for k in keep]
    for q in range(_count(kshape)):
        grp = cells[q * n:(q + 1) * n]
        if symb:
            event("batch-reduce", size=symb[0].name, op=name)
            grp = [tm._mk("fn", f"{name}-over-{'x'.join(s.name for s in symb)}", *grp)]
        out.append(f(grp))
    r = new(kshape, out, t.dtype, t.device)
    if keepdim:
        shape = [1 if k in dims else t.shape[k] for k in range(t.dim())]
        r = reshape(r, shape)
    return r


PRODUCT = [None]     # product used by contractions (None: commutative)


def einsum(spec, *ops):
    if "->" not in spec:
        raise Undecided("implicit einsum")
    lhs, rhs = spec.replace(" ", "").split("->")
    ins = lhs.split(",")
    ops = [as_tensor(o) for o in ops]
    if len(ins) != len(ops):
        raise ShapeError("einsum operand count")
    ell = max((o.dim() - len(i.replace("...", "")) if "..." in i else 0) for i, o in zip(ins, ops))
    labs = []
    for i, o in zip(ins, ops):
        if "..." in i:
            a, b = i.split("...")
            n = o.dim() - len(a) - len(b)
            if n < 0:
                raise ShapeError("einsum rank")
            labs.append(list(a) + [f"_{k}" for k in range(ell - n, ell)] + list(b))
        else:
            if len(i) != o.dim():
                raise ShapeError("einsum rank")
            labs.append(list(i))
    if "..." in rhs:
        a, b = rhs.split("...")
        out = list(a) + [f"_{k}" for k in range(ell)] + list(b)
    else:
        out = list(rhs)
    sizes = {}
    for lab, o in zip(labs, ops):
        for l, d in zip(lab, o.shape):
            if l in sizes:
                sizes[l] = broadcast_shapes((sizes[l],), (d,))[0]
            else:
                sizes[l] = d
    summed = [l for l in sizes if l not in out]
    order = out + summed
    full = tuple(sizes[l] for l in order)
    exps = []
    for lab, o in zip(labs, ops):
        st = []
        for l in order:
            if l in lab:
                # repeated labels take the diagonal
                s = 0
                for ll, d, w in zip(lab, o.shape, o.strides):
                    if ll == l and (isinstance(d, SymSize) or d != 1 or ext(sizes[l]) == 1):
                        s += w
                st.append(s)
            else:
                st.append(0)
        exps.append(Tensor(o.st, full, st, o.off, o.dtype).cells())
    dev = join_device(ops)
    if PRODUCT[0] is not None and summed and len(ops) == 2:
        prod = [PRODUCT[0](*c) for c in zip(*exps)]
    else:
        prod = [mul(*c) for c in zip(*exps)]
    oshape = [sizes[l] for l in out]
    n = _count([sizes[l] for l in summed])
    symb = [sizes[l] for l in summed if isinstance(sizes[l], SymSize)]
    cells = []
    for q in range(_count(oshape)):
        grp = prod[q * n:(q + 1) * n]
        if symb:
            event("batch-reduce", size=symb[0].name, op="einsum")
            grp = [tm._mk("fn", f"sum-over-{symb[0].name}", *grp)]
        cells.append(add(*grp) if grp else ZERO)
    return new(oshape, cells, result_dtype(ops), dev)


def diagonal(t, offset=0, dim1=0, dim2=1):
    a, b = normdim(dim1, t.dim()), normdim(dim2, t.dim())
    if offset != 0:
        raise Undecided("diagonal offset")
    da, db = t.shape[a], t.shape[b]
    if isinstance(da, SymSize) or isinstance(db, SymSize):
        if da == db:
            n = da
        else:
            raise Undecided("diagonal of a dimension of arbitrary size")
    else:
        n = min(da, db)
    keep = [k for k in range(t.dim()) if k not in (a, b)]
    return Tensor(t.st, [t.shape[k] for k in keep] + [n], [t.strides[k] for k in keep] + [t.strides[a] + t.strides[b]], t.off, t.dtype)


def diag_embed(t):
    n = t.shape[-1]
    if isinstance(n, SymSize):
        raise Undecided("diag_embed of a dimension of arbitrary size")
    out = new(t.shape + (n,), [ZERO] * (t.ncells() * n), t.dtype, t.device)
    d = diagonal(out, 0, -2, -1)
    for i, c in zip(d.indices(), t.cells()):
        out.st.cells[i] = c
    return out


def flip(t, dims):
    dims = [normdim(d, t.dim()) for d in (dims if isinstance(dims, (tuple, list)) else (dims,))]
    r = clone(t)
    for d in dims:
        if isinstance(r.shape[d], SymSize):
            event("batch-flip", size=r.shape[d].name)
            raise Undecided("flip of a dimension of arbitrary size")
    idx = [range(ext(d)) for d in r.shape]
    cells = []
    pos = [()]
    for k, d in enumerate(r.shape):
        n = ext(d)
        rng = range(n - 1, -1, -1) if k in dims else range(n)
        pos = [p + (q,) for p in pos for q in rng]
    st = r.strides
    cells = [r.st.cells[sum(a * b for a, b in zip(p, st))] for p in pos]
    return new(t.shape, cells, t.dtype, t.device)
