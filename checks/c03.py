"""C03: the derivatives a damage model returns are those of its rate."""
from .common import *


def run(rep):
    I = fresh_interp()
    classes = [c for c in I.classes("damage", "DamageModel") if c.lookup("damage_rate")[0] is not None]
    rep.minimum = 4 * 3 * 2
    rep.rule("rate/d", "second value of damage_rate is the damage derivative of the first")
    rep.rule("rate/s", "d_damage_rate_d_s is the stress derivative of damage_rate")
    rep.rule("rate/e", "d_damage_rate_d_e is the total-rate derivative of damage_rate")
    rep.assume("damage between 0 and 1; regularisation constants below 1e-8 are taken as zero")
    for c in classes:
        for batch in batches(rep):
            one(rep, I, c, batch)


def one(rep, I, c, batch):
    cn = short_name(c)
    with rep.guard("rate/d", cn, f"construct {bl(batch)}"):
        for label, o, args in build(I, c):
            p = {n: ins(n, batch, k) for n, k in (("s", "real"), ("d", "unit"), ("t", "pos"), ("T", "pos"), ("e", "real"))}
            a = [p[k] for k in ("s", "d", "t", "T", "e")]
            key = f"{label} {bl(batch)}".strip()

            def get(name):
                return I.call(method(I, o, name), list(a), {})

            with rep.guard("rate/d", cn, key):
                r, dr = get("damage_rate")
                x = r.cells()[0]
                rep.fact("rate/d", cn, key + " shape", tuple(r.shape) == batch, mwhere(c, "damage_rate"), f"rate has shape {fmtshape(r.shape)}")
                rep.equal_tensors("rate/d", cn, key, dr, (batch, [d(x, "d")]), mwhere(c, "damage_rate"), "d rate / d damage")
                for rid, m, v in (("rate/s", "d_damage_rate_d_s", "s"), ("rate/e", "d_damage_rate_d_e", "e")):
                    with rep.guard(rid, cn, key):
                        rep.equal_tensors(rid, cn, key, get(m), (batch, [d(x, v)]), mwhere(c, m), f"d rate / d {v}")
