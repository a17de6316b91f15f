"""C20: experiment tables are complete and loading follows the control mode."""
from . import sizes as near
from .common import *
from itertools import product

DOCUMENTED = {"tensile": 0, "relaxation": 1, "strain_cyclic": 2, "creep": 3, "stress_cyclic": 4, "abstract_tensile": 5, "direct_data": 6}
CONTROLS = {"strain": 0, "stress": 1}


class Column(Abstract):
    def __init__(self, v):
        self.v = v

    def sa_getattr(self, interp, name):
        if name in ("values", "data"):
            return self.v
        if name == "to_numpy":
            return Builtin(name, lambda: self.v)
        if name == "shape":
            return self.v.shape if isinstance(self.v, Tensor) else (len(self.v),)
        interp.attr_error(self, name)


class XData(Abstract):
    """an xarray data set"""

    def __init__(self, cols):
        self.cols = {k: Column(v) for k, v in cols.items()}

    def sa_getitem(self, interp, k):
        if k not in self.cols:
            raise PyRaise(ExcVal("KeyError", (k,)), interp.loc())
        return self.cols[k]

    def sa_getattr(self, interp, name):
        if name in self.cols:
            return self.cols[name]
        interp.attr_error(self, name)


def run(rep):
    I = fresh_interp()
    rep.minimum = 40
    rep.rule("codes", "every documented type has its documented code, all codes are distinct integers, and there are no others")
    rep.rule("functions", "every type has one formatting function, reachable through its code")
    rep.rule("control", "strain control is 0 and stress control is 1")
    rep.rule("loading", "loading returns time, temperature and the controlled quantity as input, the other quantity as result, the cycles, the type codes and the control codes")
    rep.assume("control entries are 'strain' or 'stress' and type entries are names of the table")
    w = "pyoptmat/experiments.py"
    em, ef, en, cm = (I.get("experiments." + n) for n in ("exp_map", "exp_fns", "exp_fns_num", "control_map"))
    with rep.guard("codes", "experiments.exp_map", "table"):
        codes = {k: numval(T(v)) for k, v in em.items()}
        for k, v in DOCUMENTED.items():
            rep.fact("codes", "experiments.exp_map", k, codes.get(k) == v, w, f"the code of {k} is {codes.get(k)}, documented is {v}")
        rep.fact("codes", "experiments.exp_map", "distinct", len(set(codes.values())) == len(codes), w, f"codes {codes} are not distinct")
        rep.fact("codes", "experiments.exp_map", "integers", all(isinstance(v, int) and not isinstance(v, bool) for v in em.values()), w, f"codes {codes} are not all integers")
    with rep.guard("functions", "experiments.exp_fns", "table"):
        rep.fact("functions", "experiments.exp_fns", "names", set(ef) == set(em), w, f"types without a function or code: {sorted(set(ef) ^ set(em))}")
        nk = {int(numval(T(k))): v for k, v in en.items()}
        rep.fact("functions", "experiments.exp_fns_num", "codes", set(nk) == set(int(v) for v in codes.values()), w, f"codes without a function: {sorted(set(nk) ^ set(int(v) for v in codes.values()))}")
        for k, v in em.items():
            rep.fact("functions", "experiments.exp_fns_num", k, k in ef and nk.get(int(v)) is ef[k], w, f"the function reached through the code of {k} is not the function of {k}")
    with rep.guard("control", "experiments.control_map", "table"):
        for k, v in CONTROLS.items():
            rep.fact("control", "experiments.control_map", k, k in cm and numval(T(cm[k])) == v, w, f"the code of {k} control is {cm.get(k)}")
        rep.fact("control", "experiments.control_map", "names", set(cm) == set(CONTROLS), w, f"control modes {sorted(cm)}")
    f = I.get("experiments.load_results")
    cn, fw = "experiments.load_results", where_func(f)
    names = list(DOCUMENTED)
    sizes = (1, 2, 3) if rep.tier == "quick" else (1, 2, 3, 4)
    cases = [(nt, nb, ctl) for nt in (1, 3) for nb in sizes for ctl in product(CONTROLS, repeat=nb)]
    C = list(CONTROLS)
    large = sorted({9, 17, 33} | set(near.beyond(I, ("experiments",), 4, 70, 10)))
    for k in large:
        # runs, alternation, and one test against all others
        for ctl in ([C[(q // 3) % 2] for q in range(k)], [C[q % 2] for q in range(k)], [C[0]] * (k - 1) + [C[1]], [C[1]] + [C[0]] * (k - 1), [C[1]] * k):
            cases.append((2, k, tuple(ctl)))
        cases.append((k, 2, (C[1], C[0])))
    if True:
        for nt, nb, ctl in cases:
            if True:
                types = [names[(q * 3 + nb + nt) % len(names)] for q in range(nb)]
                key = f"{nt} times, control {','.join(ctl)}"
                with rep.guard("loading", cn, key):
                    cols = {c: new((nt, nb), [var(f"{c}{r}_{b}") for r in range(nt) for b in range(nb)], "float", None) for c in ("time", "temperature", "strain", "stress")}
                    cols["cycle"] = new((nt, nb), [var(f"cycle{r}_{b}") for r in range(nt) for b in range(nb)], "int", None)
                    cells = {k: v.cells() for k, v in cols.items()}
                    cols["type"], cols["control"] = list(types), list(ctl)
                    out = I.call(f, [XData(cols)], {"device": DeviceVal("D")})
                    data, res, cyc, tp, cc = out
                    want = cells["time"] + cells["temperature"] + [cells[ctl[q % nb]][q] for q in range(nt * nb)]
                    rep.equal_tensors("loading", cn, key + ": input", data, ((3, nt, nb), want), fw, "input data")
                    other = {"strain": "stress", "stress": "strain"}
                    rep.equal_tensors("loading", cn, key + ": results", res, ((nt, nb), [cells[other[ctl[q % nb]]][q] for q in range(nt * nb)]), fw, "results")
                    rep.equal_tensors("loading", cn, key + ": cycles", cyc, ((nt, nb), cells["cycle"]), fw, "cycles")
                    rep.equal_tensors("loading", cn, key + ": types", tp, ((nb,), [T(DOCUMENTED[t]) for t in types]), fw, "type codes")
                    rep.equal_tensors("loading", cn, key + ": control", cc, ((nb,), [T(CONTROLS[c]) for c in ctl]), fw, "control codes")
                    for nm, t in (("input", data), ("results", res), ("cycles", cyc), ("types", tp), ("control", cc)):
                        rep.fact("loading", cn, f"{key}: device of the {nm}", t.device == "D", fw, f"{nm} are not on the requested device")
