"""Obligations, verdicts, evidence and exit codes of a check."""
import json
import os
import sys
import time
import traceback
from .interp import *
from . import terms as tm

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))



def fmtnum(x):
    return x if isinstance(x, str) else f"{x:.6g}"

def tile(want, n):
    """the terms of one batch entry stand for all entries"""
    want = list(want)
    if len(want) != n:
        assert want and n % len(want) == 0, (len(want), n)
        want = want * (n // len(want))
    return want


class Report:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obs = []          # dict(key, status, where, rule, detail)
        self.rules = {}
        self.assumptions = []
        self.constructs = set()
        self.notes = []
        self.known = load_known(pid)
        self.minimum = 0

    # -------------------------------------------------------- recording
    def rule(self, rid, text):
        self.rules[rid] = text

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def add(self, rid, construct, key, status, where="", detail="", witness=None):
        self.constructs.add(construct)
        self.obs.append(dict(rule=rid, construct=construct, key=key, status=status, where=where, detail=detail, witness=witness))

    def ok(self, rid, construct, key, detail=""):
        self.add(rid, construct, key, "discharged", detail=detail)

    def bad(self, rid, construct, key, where="", detail="", witness=None):
        self.add(rid, construct, key, "violated", where, detail, witness)

    def und(self, rid, construct, key, detail=""):
        self.add(rid, construct, key, "undecided", detail=detail)

    def fact(self, rid, construct, key, holds, where="", detail=""):
        if holds:
            self.ok(rid, construct, key)
        else:
            self.bad(rid, construct, key, where, detail)

    def equal_terms(self, rid, construct, key, got, want, where="", what="value"):
        un = tm.uninit_vars(T(got))
        if un:
            self.bad(rid, construct, key, where, f"{what} reads uninitialised memory ({un[0]})")
            return False
        v = tm.equal(T(got), T(want), seed=self.seed)
        if v.status == tm.PROVED:
            self.ok(rid, construct, key, v.how)
            return True
        if v.status == tm.DIFFERENT:
            w = v.witness
            self.bad(rid, construct, key, where,
                     f"{what}: the code gives {short(got)}, the rule requires {short(want)}; at {fmt(w['point'])} these are {fmtnum(w['left'])} and {fmtnum(w['right'])}", w)
            return False
        self.und(rid, construct, key, v.how)
        return None

    def equal_tensors(self, rid, construct, key, got, want, where="", what="value"):
        """want: Tensor, or (shape, cells)"""
        if not isinstance(got, Tensor):
            self.bad(rid, construct, key, where, f"{what}: the code gives {type(got).__name__}, a tensor is required")
            return False
        ws, wc = (want.shape, want.cells()) if isinstance(want, Tensor) else want
        if tuple(got.shape) != tuple(ws):
            self.bad(rid, construct, key, where, f"{what}: shape {fmtshape(got.shape)} instead of {fmtshape(ws)}")
            return False
        gc = got.cells()
        res = True
        status = []
        wc = tile(wc, len(gc))
        seen = {}
        for i, (g, w) in enumerate(zip(gc, wc)):
            if (g, w) in seen:
                status.append(seen[g, w])
                continue
            un = tm.uninit_vars(T(g))
            if un:
                self.bad(rid, construct, key, where, f"{what}: entry {i} reads uninitialised memory")
                return False
            v = seen[g, w] = tm.equal(T(g), T(w), seed=self.seed)
            status.append(v)
            if v.status == tm.DIFFERENT:
                x = v.witness
                self.bad(rid, construct, key, where,
                         f"{what}, entry {unflat(i, got.shape)}: the code gives {short(g)}, the rule requires {short(w)}; at {fmt(x['point'])} these are {fmtnum(x['left'])} and {fmtnum(x['right'])}", x)
                return False
        und = [v for v in status if v.status == tm.UNKNOWN]
        if und:
            self.und(rid, construct, key, f"{len(und)} of {len(status)} entries: {und[0].how}")
            return None
        self.ok(rid, construct, key, f"{len(status)} entries")
        return res

    def at_zero(self, rid, construct, key, got, want, names, where="", what="value"):
        """the same equality where one of the inputs is exactly zero, which the
        comparison for general values leaves out"""
        for n in names:
            und = None
            z = {n: tm.ZERO}
            done = set()
            for i, (g, w) in enumerate(zip(got.cells(), tile(want, got.ncells()))):
                if (g, w) in done:
                    continue
                done.add((g, w))
                g0, w0 = tm.subst(T(g), z), tm.subst(T(w), z)
                if g0 is w0 or has_special(w0):
                    continue
                v = tm.equal(g0, w0, seed=self.seed)
                if v.status == tm.DIFFERENT:
                    x = v.witness
                    self.bad(rid, construct, f"{key}, {n} = 0", where, f"{what}, entry {i}, at {n} = 0: the code gives {short(g0)}, the rule requires {short(w0)}; at {fmt(x['point'])} these are {fmtnum(x['left'])} and {fmtnum(x['right'])}", x)
                    break
                if v.status == tm.UNKNOWN:
                    und = v.how
            else:
                if und:
                    self.und(rid, construct, f"{key}, {n} = 0", und)
                else:
                    self.ok(rid, construct, f"{key}, {n} = 0")

    def guard(self, rid, construct, key):
        return Guard(self, rid, construct, key)

    # -------------------------------------------------------- result
    def finish(self):
        viol, known = [], []
        for o in self.obs:
            if o["status"] == "violated":
                k = match_known(self.known, o)
                (known if k else viol).append((o, k))
        dis = [o for o in self.obs if o["status"] == "discharged"]
        und = [o for o in self.obs if o["status"] == "undecided"]
        n = len(self.obs)
        print(f"{self.pid}: {n} obligations on {len(self.constructs)} constructs: {len(dis)} discharged, {len(und)} undecided, {len(viol)} violated, {len(known)} known")
        for r, t in sorted(self.rules.items()):
            c = [o for o in self.obs if o["rule"] == r]
            print(f"  rule {r}: {t} [{sum(o['status'] == 'discharged' for o in c)}/{len(c)}]")
        for o in und[:12]:
            print(f"  UNDECIDED {o['rule']} {o['construct']} {o['key']}: {o['detail']}")
        seen = set()
        for o, k in known:
            if k["id"] in seen:
                continue
            seen.add(k["id"])
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rp = os.path.join(VERIF, "evidence", f"{self.pid}.replay.json")
        vio = []
        for o, _ in viol[:40]:
            print(f"  VIOLATED {o['rule']} {o['construct']} {o['key']} at {o['where']}: {o['detail']}")
        for o, _ in viol:
            vio.append(dict(rule=o["rule"], construct=o["construct"], key=o["key"], where=o["where"], detail=o["detail"][:1500]))
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "proof",
            "coverage": {
                "obligations": n - len(known),
                "discharged": len(dis),
                "checker_cmd": f"python3 /verif/check.py {self.pid} --tier {self.tier}",
                "trusted_base": "sa/terms.py normal forms, sa/tensor.py and sa/torchlib.py transfer functions, sa/interp.py Python subset, sa/contracts.py component contracts",
                "undecided": [f"{o['rule']} {o['construct']} {o['key']}: {o['detail']}"[:300] for o in und][:60],
                "constructs": sorted(self.constructs),
                "rules": self.rules,
                "per_rule": {r: dict(obligations=sum(o["rule"] == r for o in self.obs), discharged=sum(o["rule"] == r and o["status"] == "discharged" for o in self.obs)) for r in self.rules},
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": vio,
        }
        if und or known:
            ev["level"] = "other"
            ev["coverage"]["explanation"] = f"{len(dis)} of {n} obligations discharged statically; {len(und)} undecided and {len(known)} matching known findings are listed, not claimed"
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        done = len(dis) + len(known)
        if not viol and done < max(1, self.minimum):
            # fewer than on the reviewed tree: named undecided obligations
            # account for the gap, an analysis that silently shrank does not
            print(f"{self.pid}: only {len(dis)} obligations decided, {self.minimum} confirmed by hand" + ("" if und and done else ": the analysis is broken"), file=sys.stderr)
            if not und or not done:
                return 2
        if viol:
            with open(rp, "w") as fh:
                json.dump(vio, fh, indent=1)
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0


class Guard:
    """turns exceptions of the walk into verdicts of one obligation"""

    def __init__(self, rep, rid, construct, key):
        self.rep, self.rid, self.construct, self.key = rep, rid, construct, key

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        a = (self.rid, self.construct, self.key)
        if issubclass(et, PyRaise) and ev.standin:
            self.rep.und(*a, detail=f"the contract does not tell: {ev.exc}")
            return True
        if issubclass(et, PyRaise):
            self.rep.bad(*a, where=fmtloc(ev.loc), detail=f"raises {ev.exc} on a valid input")
            return True
        if issubclass(et, ShapeError):
            self.rep.bad(*a, detail=f"the shapes do not fit: {ev}")
            return True
        if issubclass(et, (Undecided, SymBranch)):
            self.rep.und(*a, detail=str(ev)[:300])
            return True
        if issubclass(et, AnalysisError):
            return False
        if issubclass(et, (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, ZeroDivisionError, OverflowError)):
            # a limitation of the analyser itself
            tbs = traceback.extract_tb(tb)
            if os.environ.get("SA_DEBUG"):
                traceback.print_exception(et, ev, tb)
            self.rep.und(*a, detail=f"analyser: {et.__name__}: {ev} ({os.path.basename(tbs[-1].filename)}:{tbs[-1].lineno})"[:300])
            return True
        return False


def has_special(t):
    return any(u.op in ("inf", "nan") for u in tm.postorder([t]))


def fmtloc(l):
    if not l:
        return ""
    if isinstance(l, str):
        return l
    p, line, q = l
    try:
        p = os.path.relpath(p, REPO)
    except ValueError:
        pass
    return f"{p}:{line} ({q})"


def where_func(f):
    """file:line of a function value"""
    if isinstance(f, Bound):
        f = f.f
    if isinstance(f, PropertyVal):
        f = f.f
    if isinstance(f, Func):
        return fmtloc((f.module.path, getattr(f.node, "lineno", 0), f.qual))
    if isinstance(f, ClassVal):
        return fmtloc((f.module.path, f.node.lineno, f"{f.module.name}.{f.name}"))
    return ""


def short(t, n=180):
    s = tm.show(T(t))
    return s if len(s) <= n else s[:n] + "..."


def fmt(p):
    return ", ".join(f"{k}={v}" for k, v in sorted(p.items()))


def fmtshape(s):
    return "(" + ",".join(map(str, s)) + ")"


def unflat(i, shape):
    out = []
    for d in reversed(shape):
        n = ext(d)
        out.append(i % n if not isinstance(d, SymSize) else ":")
        i //= n
    return fmtshape(tuple(reversed(out)))


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                out.append(d)
    return out


def match_known(known, o):
    for k in known:
        m = k["match"]
        if all(o.get(f) == v for f, v in m.items()):
            return k
    return None
