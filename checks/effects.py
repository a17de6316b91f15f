"""What a call may reach and what it changed."""
from .catalog import *
from sa.torchlib import SparseCOO
from sa.interp import Func, Bound, Obj, Partial, Env, Module, ClassVal, NS


def storages(v, path="", out=None, seen=None):
    """every tensor memory reachable from a value: id -> (storage, path)"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if isinstance(v, Tensor):
        out.setdefault(id(v.st), (v.st, path))
        return out
    if v is None or isinstance(v, (str, int, float, bool, Module, ClassVal, NS)) or id(v) in seen:
        return out
    seen.add(id(v))
    if isinstance(v, Obj):
        for k, x in v.attrs.items():
            storages(x, f"{path}.{k}", out, seen)
    elif isinstance(v, dict):
        for k, x in v.items():
            storages(x, f"{path}[{k}]" if path else str(k), out, seen)
    elif isinstance(v, (list, tuple, set)):
        for k, x in enumerate(v):
            storages(x, f"{path}[{k}]", out, seen)
    elif isinstance(v, Bound):
        storages(v.self_, path, out, seen)
        storages(v.f, path, out, seen)
    elif isinstance(v, Partial):
        storages([v.f, v.args, v.kwargs], path, out, seen)
    elif isinstance(v, Func):
        storages(list(v.defaults), path + " default", out, seen)
        e = v.env
        while isinstance(e, Env) and e.parent is not None:
            # variables of enclosing functions, not of the module
            for k, x in e.vars.items():
                storages(x, f"{path}<{k}>", out, seen)
            e = e.parent
    elif isinstance(v, Abstract):
        for k, x in vars(v).items():
            if not k.startswith("__"):
                storages(x, f"{path}.{k}", out, seen)
    return out


def containers(v, path="", out=None, seen=None):
    """lists and dicts handed in by the caller: (container, copy, path)"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if id(v) in seen:
        return out
    if isinstance(v, dict):
        seen.add(id(v))
        out.append((v, dict(v), path))
        for k, x in v.items():
            containers(x, f"{path}[{k}]" if path else str(k), out, seen)
    elif isinstance(v, list):
        seen.add(id(v))
        out.append((v, list(v), path))
        for k, x in enumerate(v):
            containers(x, f"{path}[{k}]", out, seen)
    return out


def held(v, path="", out=None, seen=None):
    """the tensors an object holds, by attribute path"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if isinstance(v, Obj):
        if id(v) in seen:
            return out
        seen.add(id(v))
        for k, x in v.attrs.items():
            if isinstance(x, Tensor):
                out[f"{path}.{k}"] = (v, k, x, x.shape, tuple(clone(x).st.cells))
            elif isinstance(x, Obj):
                held(x, f"{path}.{k}", out, seen)
            elif isinstance(x, (list, tuple)):
                for q, y in enumerate(x):
                    held(y, f"{path}.{k}[{q}]", out, seen)
            elif isinstance(x, dict):
                for q, y in x.items():
                    held(y, f"{path}.{k}[{q}]", out, seen)
    return out


class Snapshot:
    def __init__(self, given):
        self.given = given
        self.st = {k: (s, p, list(s.cells), len(s.writes)) for k, (s, p) in storages(given).items()}
        self.con = containers({k: v for k, v in given.items()})[1:]
        self.held = {}
        for k, v in given.items():
            held(v, str(k), self.held)

    def changes(self):
        """descriptions of what the calls since changed"""
        out = []
        for s, p, cells, nw in self.st.values():
            if len(s.cells) != len(cells):
                out.append((p, "resized", s))
                continue
            for i, (a, b) in enumerate(zip(cells, s.cells)):
                if a is not b and tm.equal(a, b).status != tm.PROVED:
                    loc = next((l for j, l in s.writes[nw:] if j == i), None)
                    out.append((p, f"{short(a)} becomes {short(b)}", loc))
                    break
        for c, old, p in self.con:
            if isinstance(c, dict):
                same = c.keys() == old.keys() and all(c[k] is old[k] for k in old)
            else:
                same = len(c) == len(old) and all(a is b for a, b in zip(c, old))
            if not same:
                out.append((p, f"the {type(c).__name__} is changed", None))
        for p, (o, k, x, shape, cells) in self.held.items():
            y = o.attrs.get(k)
            if y is x:
                continue
            if not isinstance(y, Tensor) or tuple(y.shape) != tuple(shape) or any(a is not b and tm.equal(a, b).status == tm.DIFFERENT for a, b in zip(clone(y).st.cells, cells)):
                out.append((p, "the attribute is replaced by another value", None))
        return out


def flatten(r, out=None):
    """the tensors (and scalar terms) of a result"""
    out = [] if out is None else out
    if isinstance(r, Tensor):
        out.append(r)
    elif isinstance(r, (list, tuple)):
        for x in r:
            flatten(x, out)
    elif isinstance(r, dict):
        for x in r.values():
            flatten(x, out)
    elif isinstance(r, Term):
        out.append(r)
    elif isinstance(r, SparseCOO):
        out += [r.inds, r.vals]
    return out


def image(r):
    """a result as shapes and terms"""
    return [((x.shape, tuple(clone(x).st.cells)) if isinstance(x, Tensor) else ((), (x,))) for x in flatten(r)]
