"""Driver for the allocation properties A01-A06."""
import copy
import common, gen, proj
from common import call
from gen import ALLOC, amount, pick, price, tv, with_unc, wrap

RP, BP, TI = "reference product", "byproduct", "from technosphere"
TYPES = ["transforming activity", "market activity", "market group"]


def from_spec(d, rnd):
    """Specification dataset -> Ocelot dataset (+ formula table)."""
    asts, excs = {}, []
    el = {e["key"]: e for e in d["elems"]}

    def param(o, e):
        if e["var"]:
            o["variable"] = e["var"]
        if e["hasf"]:
            o["formula"] = gen.render(e["f"])
            asts[o["formula"]] = e["f"]
    for x in d["excs"]:
        e = {"id": x["id"], "name": "flow " + x["id"], "type": x["type"], "amount": gen.q(x["amt"]), "unit": "kg",
             "tag": "intermediateExchange"}
        if x["cls"] != "none":
            e["byproduct classification"] = x["cls"]
        pr = []
        if gen.q(x["price"]) is not None:
            pr.append(price(gen.q(x["price"])))
        if gen.q(x["tv"]) is not None:
            pr.append(tv(gen.q(x["tv"])))
        if pr:
            e["properties"] = pr
        if x["cond"]:
            e["conditional exchange"] = True
            e["activity link"] = "elsewhere"
        if x["type"] in (RP, BP):
            e["production volume"] = {"amount": 10}
        if x["id"] in el:
            param(e, el[x["id"]])
        excs.append(e)
    return wrap(excs, d["id"], d["name"], d["type"]), asts


# ------------------------------------------------------------------ random
def inputs(rnd, n, unc=0.5):
    out = []
    for i in range(n):
        t = pick(rnd, TI, TI, "to environment", "from environment")
        e = {"id": "x%d" % i, "name": "input %d" % i, "type": t, "amount": amount(rnd), "unit": pick(rnd, "kg", "MJ"),
             "tag": "intermediateExchange" if t == TI else "elementaryExchange"}
        if rnd.random() < 0.2:
            e["pedigree matrix"] = {"reliability": rnd.randrange(1, 6), "completeness": rnd.randrange(1, 6)}
        if rnd.random() < 0.2 and t == TI:
            e["activity link"] = "abc"
        if rnd.random() < 0.15:
            e["properties"] = [price(3)]
        if rnd.random() < 0.1:
            e["byproduct classification"] = pick(rnd, "waste", "recyclable")
        out.append(with_unc(rnd, e, unc))
    return out


def product(rnd, i, type_, cls, amt, name, pr=None, tvr=None, unc=0.3):
    e = {"id": i, "name": name, "type": type_, "amount": amt, "unit": "kg", "tag": "intermediateExchange",
         "production volume": {"amount": pick(rnd, 0, 4, 100.5, 1e6)}}
    if cls:
        e["byproduct classification"] = cls
    props = []
    if pr is not None:
        props.append(price(pr))
    if tvr is not None:
        props.append(tv(tvr))
    if rnd.random() < 0.3:
        props.append({"name": "dry mass", "amount": 1, "unit": "kg"})
    if props or rnd.random() < 0.5:
        rnd.shuffle(props)
        e["properties"] = props
    return with_unc(rnd, e, unc)


def pos(rnd, zero=0.0):
    return amount(rnd, zero=zero, neg=0)


def economic_ds(rnd, i="d1", invalid=True, n=None):
    n = n or pick(rnd, 1, 2, 2, 3, 4, 5)
    nm = gen.names(rnd, n)
    nrp = pick(rnd, 0, 1, 1, 1, n)
    tvmode = pick(rnd, 0, 0, 1, 2)
    allint = rnd.random() < 0.2
    excs = []
    for k in range(n):
        has = tvmode == 2 or (tvmode == 1 and rnd.random() < 0.5)
        a = rnd.randrange(1, 9) if allint else pos(rnd)
        p = rnd.randrange(0, 6) if allint else pick(rnd, pos(rnd), pos(rnd), pos(rnd), 0, 1)
        excs.append(product(rnd, "p%d" % k, RP if k < nrp else BP,
                            (pick(rnd, ALLOC, ALLOC, "waste", None) if k < nrp else ALLOC), a, nm[k], p,
                            (rnd.randrange(0, 4) if allint else pick(rnd, pos(rnd), 0, 2)) if has else None))
    if invalid and rnd.random() < 0.25:
        e = rnd.choice(excs)
        m = rnd.randrange(4)
        if m == 0:
            e["properties"] = [p for p in e.get("properties", []) if p["name"] != "price"]
        elif m == 1:
            e["properties"] = [price(-amount(rnd, zero=0, neg=0))]
        elif m == 2:
            e["amount"] = -abs(e["amount"])
            e.pop("uncertainty", None)
        else:
            e["amount"] = 0
            e.pop("uncertainty", None)
    excs += nonalloc(rnd, nm, pick(rnd, 0, 0, 1, 2)) + inputs(rnd, rnd.randrange(0, 5))
    same_names(rnd, excs)
    rnd.shuffle(excs)
    return wrap(excs, i, "make things", "transforming activity")


def nonalloc(rnd, used, n):
    out = []
    for k in range(n):
        out.append(with_unc(rnd, {"id": "w%d" % k, "name": "residue %d" % k, "type": BP, "amount": amount(rnd), "unit": "kg",
                                  "byproduct classification": pick(rnd, "waste", "recyclable"),
                                  "production volume": {"amount": 3}, "tag": "intermediateExchange"}))
    return out


def same_names(rnd, excs, p=0.3):
    """Several exchanges of one activity may carry the same flow name."""
    if len(excs) > 1 and rnd.random() < p:
        a, b = rnd.sample(range(len(excs)), 2)
        excs[a]["name"] = excs[b]["name"]
        if rnd.random() < 0.3:
            excs[a]["unit"] = excs[b].get("unit", "kg")


def treatment_ds(rnd, i="d1", cls=None, invalid=True):
    n = pick(rnd, 0, 1, 2, 3)
    nm = gen.names(rnd, n + 2)
    cls = cls or pick(rnd, "waste", "recyclable", ALLOC)
    excs = [product(rnd, "r", RP, cls, -pos(rnd), nm[0], pick(rnd, None, 1.5))]
    for k in range(n):
        excs.append(product(rnd, "b%d" % k, BP, ALLOC, pos(rnd), nm[k + 1], pos(rnd), pick(rnd, None, None, pos(rnd))))
    if invalid and rnd.random() < 0.25:
        m = rnd.randrange(5)
        if m == 0:
            excs[0]["amount"] = pick(rnd, 0, 1, 2.5); excs[0].pop("uncertainty", None)
        elif m == 1:
            excs.append(product(rnd, "r2", RP, cls, -1, nm[-1], 1))
        elif m == 2:
            excs.pop(0)
        elif m == 3 and n:
            excs[-1]["amount"] = pick(rnd, -1, 0); excs[-1].pop("uncertainty", None)
        elif n:
            excs[-1]["properties"] = pick(rnd, [], [price(-2)])
    excs += nonalloc(rnd, nm, pick(rnd, 0, 1, 2)) + inputs(rnd, rnd.randrange(0, 5))
    same_names(rnd, excs)
    rnd.shuffle(excs)
    return wrap(excs, i, "treatment of things", "transforming activity")


def combined_ds(rnd, i="d1", mode="plain"):
    """mode: plain, byp (allocatable by-products), np (no products)."""
    for _ in range(400):
        try:
            return combined_try(rnd, i, mode)
        except gen.Inexact:
            continue
    raise RuntimeError("generator exhausted")


def combined_try(rnd, i, mode):
    n = pick(rnd, 2, 2, 3, 4)
    nb = {"plain": 0, "byp": pick(rnd, 1, 1, 2), "np": pick(rnd, 0, 1, 1, 2)}[mode]
    nm = gen.names(rnd, n + nb)
    rps, elems, excs, params, asts = [], [], [], [], {}
    sign = -1 if mode == "np" else 1
    for k in range(n):
        a = sign * 2 ** rnd.randrange(-2, 5)
        if rnd.random() < 0.1 and k:
            a = 0
        if mode == "np":
            c = pick(rnd, "waste", "recyclable") if nb else "waste"
        else:
            c = ALLOC if k == 0 else pick(rnd, ALLOC, ALLOC, "waste", "recyclable")
        e = product(rnd, "p%d" % k, RP, c, a, nm[k], pick(rnd, 0.5, 1, 2, 3), None, 0.2)
        e["variable"] = "v%d" % k
        if rnd.random() < 0.15:
            f = ["*", ["n", gen.rat(1)], ["n", gen.rat(a)]]
            e["formula"] = gen.render(f)
            asts[e["formula"]] = f
        rps.append(e)
    nz = [e for e in rps if e["amount"]]
    if len(nz) < 2:
        raise gen.Inexact
    worlds = [None] + [e["id"] for e in nz]
    from fractions import Fraction
    env = {w: {e["variable"]: Fraction(e["amount"]) if w in (None, e["id"]) else Fraction(0) for e in rps} for w in worlds}
    vs = [e["variable"] for e in rps]
    dens = list(vs)

    def formula(o, positive=False):
        for _ in range(60):
            f = gen.ast(rnd, vs, pick(rnd, 1, 2, 3), True, dens)
            if positive:
                f = ["+", ["abs", f], ["n", gen.rat(pick(rnd, 0.5, 1, 3))]]
            vals = {w: gen.evalz(f, env[w]) for w in worlds}
            o["formula"] = gen.render(f)
            asts[o["formula"]] = f
            o["amount"] = gen.fnum(vals[None])
            return vals
    for k in range(pick(rnd, 0, 1, 2, 3)):
        o = {"id": "k%d" % k, "name": "param %d" % k, "variable": "par_%d" % k, "amount": pick(rnd, 2, 0.5, 3, 10), "unit": "kg"}
        if rnd.random() < 0.6:
            vals = formula(o)
        else:
            vals = {w: Fraction(o["amount"]) for w in worlds}
        for w in worlds:
            env[w][o["variable"]] = vals[w]
        vs.append(o["variable"])
        params.append(o)
    for k in range(nb):
        e = product(rnd, "b%d" % k, BP, ALLOC, pick(rnd, 1, 2, 0.5), nm[n + k], pick(rnd, 1, 2, 4), None, 0)
        m = rnd.random()
        if m < 0.6:
            formula(e, True)
        if rnd.random() < 0.3:
            p = [x for x in e["properties"] if x["name"] == "price"][0]
            formula(p, True)
        excs.append(e)
    for k in range(pick(rnd, 1, 2, 3, 4)):
        t = pick(rnd, TI, TI, "to environment", "from environment")
        e = {"id": "x%d" % k, "name": "input %d" % k, "type": t, "amount": pick(rnd, 1, 2.5, 7), "unit": "kg"}
        if rnd.random() < 0.7:
            vals = formula(e)
            if rnd.random() < 0.3:
                e["variable"] = "ex_%d" % k
                for w in worlds:
                    env[w][e["variable"]] = vals[w]
                vs.append(e["variable"])
        elif rnd.random() < 0.3:
            with_unc(rnd, e, 1)
        excs.append(e)
    for k in range(pick(rnd, 0, 0, 1)):
        e = {"id": "w%d" % k, "name": "residue %d" % k, "type": BP, "amount": pick(rnd, 1, -2), "unit": "kg",
             "byproduct classification": pick(rnd, "waste", "recyclable")}
        if rnd.random() < 0.5:
            formula(e)
        excs.append(e)
    excs += rps
    rnd.shuffle(excs)
    rnd.shuffle(params)
    d = wrap(excs, i, "combined production of things", "transforming activity", params)
    return d, asts


def simple_ds(rnd, i):
    nm = gen.names(rnd, 3)
    excs = [product(rnd, "p", RP, pick(rnd, ALLOC, "waste", None), amount(rnd, zero=0), nm[0])]
    if rnd.random() < 0.3:
        excs.append(product(rnd, "p0", RP, ALLOC, 0, nm[1]))
    if rnd.random() < 0.3:
        excs.append(product(rnd, "b0", BP, ALLOC, 0, nm[2]))
    excs += nonalloc(rnd, nm, pick(rnd, 0, 1)) + inputs(rnd, 3)
    rnd.shuffle(excs)
    return wrap(excs, i, pick(rnd, "simple", "market for simple"), pick(rnd, *TYPES))


def constrained_ds(rnd, i):
    nm = gen.names(rnd, 4)
    excs = [product(rnd, "p", RP, ALLOC, pos(rnd), nm[0])]
    for k in range(pick(rnd, 1, 1, 2)):
        e = product(rnd, "c%d" % k, BP, ALLOC, -pos(rnd), nm[k + 1])
        e["conditional exchange"] = True
        e["activity link"] = "other"
        excs.append(e)
    excs += inputs(rnd, 2)
    rnd.shuffle(excs)
    return wrap(excs, i, "market for " + nm[0], "market activity")


def any_ds(rnd, i):
    k = rnd.randrange(8)
    if k == 0:
        return economic_ds(rnd, i, invalid=False), {}
    if k == 1:
        return treatment_ds(rnd, i, invalid=False), {}
    if k in (2, 3, 4):
        return combined_ds(rnd, i, ("plain", "byp", "np")[k - 2])
    if k == 5:
        return simple_ds(rnd, i), {}
    if k == 6:
        return constrained_ds(rnd, i), {}
    return label_ds(rnd, i), {}


def label_ds(rnd, i):
    """Anything, for the method choice."""
    excs = []
    nm = gen.names(rnd, 8)
    for k in range(pick(rnd, 0, 1, 1, 1, 2, 3)):
        excs.append(product(rnd, "p%d" % k, RP, pick(rnd, ALLOC, ALLOC, "waste", "recyclable", None), amount(rnd, 0.25, 0.4), nm[k],
                            pick(rnd, None, 1)))
    for k in range(pick(rnd, 0, 0, 1, 2, 3)):
        e = product(rnd, "b%d" % k, BP, pick(rnd, ALLOC, "waste", "recyclable"), amount(rnd, 0.3, 0.3), nm[3 + k], 1)
        if rnd.random() < 0.3:
            e["conditional exchange"] = pick(rnd, True, True, False)
        excs.append(e)
    excs += inputs(rnd, rnd.randrange(0, 3))
    if rnd.random() < 0.1 and excs:
        rnd.choice(excs)["conditional exchange"] = True
    rnd.shuffle(excs)
    t = pick(rnd, "transforming activity", *TYPES)
    name = pick(rnd, "act", "market for x", "rare earth oxides production from bastnäsite concentrate", "treatment of waste, recycling")
    d = wrap(excs, i, name, t)
    if rnd.random() < 0.2:
        d["allocation method"] = "economic"
    return d


def norm_ds(rnd, i="d1"):
    n = pick(rnd, 1, 1, 1, 1, 1, 1, 0, 2)
    excs = []
    for k in range(n):
        a = amount(rnd, 0.1, 0.3, extreme=0.5)
        if rnd.random() < 0.05:
            a = pick(rnd, 1 + 1e-15, 1 - 1e-15, 1 + 1e-13, 1e-40, 1e30, -1e-25)
        excs.append(product(rnd, "p%d" % k, RP, pick(rnd, ALLOC, "waste"), a, "prod %d" % k, 1, None, 0.2))
    for e in nonalloc(rnd, [], pick(rnd, 0, 1)) + inputs(rnd, rnd.randrange(0, 6), 0.8):
        excs.append(e)
    if rnd.random() < 0.1:
        excs.append(product(rnd, "b", BP, ALLOC, amount(rnd), "other", 1))
    rnd.shuffle(excs)
    return wrap(excs, i, "n", pick(rnd, *TYPES))


def gen_cases(prop, tier, rnd, scen):
    deep = tier == "thorough"
    for d in scen:
        ds, asts = from_spec(d, rnd)
        if prop == "A02":
            yield {"kind": "spec", "data": [ds], "asts": asts}
        elif prop == "A03":
            yield {"kind": "spec", "fn": "economic", "data": [ds], "asts": asts}
        elif prop == "A04":
            for fn in ("waste", "recycling"):
                yield {"kind": "spec", "fn": fn, "data": [ds], "asts": asts}
        elif prop == "A05":
            yield {"kind": "spec", "fn": "combined", "data": [ds], "asts": asts}
            if any(e["type"] == BP for e in ds["exchanges"]):
                yield {"kind": "spec", "fn": "combinedb", "data": [ds], "asts": asts}
        elif prop == "A06":
            yield {"kind": "spec", "fn": "normalize", "data": [ds], "asts": asts}
        else:
            if deep or rnd.random() < 0.35:
                yield {"kind": "spec", "fn": "cutoff", "data": [ds], "asts": asts}
    n = {"A01": 700, "A02": 4000, "A03": 2500, "A04": 2500, "A05": 1500, "A06": 4000}[prop] * (8 if deep else 1)
    for k in range(n):
        if prop == "A01":
            data, asts = [], {}
            for j in range(pick(rnd, 1, 2, 3, 5)):
                d, a = any_ds(rnd, "d%d" % j)
                data.append(d); asts.update(a)
            yield {"kind": "list", "fn": "cutoff", "data": data, "asts": asts}
        elif prop == "A02":
            yield {"kind": "random", "data": [label_ds(rnd, "d%d" % j) for j in range(pick(rnd, 1, 1, 3))], "asts": {}}
        elif prop == "A03":
            yield {"kind": "random", "fn": "economic", "data": [economic_ds(rnd)], "asts": {}}
        elif prop == "A04":
            fn = pick(rnd, "waste", "recycling")
            cls = pick(rnd, None, "waste" if fn == "waste" else "recyclable")
            yield {"kind": fn, "fn": fn, "data": [treatment_ds(rnd, cls=cls)], "asts": {}}
        elif prop == "A05":
            mode = pick(rnd, "plain", "byp", "np")
            d, a = combined_ds(rnd, "d1", mode)
            yield {"kind": mode, "fn": {"plain": "combined", "byp": pick(rnd, "combined", "combinedb", "combinedb"),
                                        "np": "combinednp"}[mode], "data": [d], "asts": a}
        elif prop == "A06":
            yield {"kind": "random", "fn": "normalize", "data": [norm_ds(rnd)], "asts": {}}


def run(prop, case):
    from ocelot.transformations.cutoff import allocation, combined, economic, wastes
    from ocelot.transformations import utils
    data, asts = case["data"], case["asts"]
    src = [proj.ds(d, asts) for d in data]
    rec = {"fn": case.get("fn", "choose"), "src": src, "out": [], "after": []}
    if prop == "A02":
        rec["outcome"], label = call(allocation.choose_allocation_method, data[0])
        rec["label"] = common.s(label)
        rec["after"] = [proj.ds(d, asts) for d in data]
        o, lab = call(allocation.label_allocation_method, copy.deepcopy(data))
        rec["labels"] = [common.s(d.get("allocation method")) for d in lab] if o == "ok" else [o]
        return rec
    fn = {"economic": economic.economic_allocation, "waste": wastes.waste_treatment_allocation,
          "recycling": wastes.recycling_allocation, "combined": combined.combined_production,
          "combinedb": combined.combined_production_with_byproducts,
          "combinednp": combined.combined_production_without_products,
          "normalize": utils.normalize_reference_production_amount}.get(case.get("fn"))
    if case["fn"] == "cutoff":
        rec["outcome"], out = call(allocation.cutoff_allocation, data)
    else:
        rec["outcome"], out = call(fn, data[0])
    if prop == "A05":
        skip, eskip = ("parameters",), ("properties",)
        rec["src"] = [dict(p, attrs=proj.ds(d, asts, skip, eskip)["attrs"]) for p, d in zip(src, case0(case))]
        for p, d in zip(rec["src"], case0(case)):
            for x, e in zip(p["excs"], d["exchanges"]):
                x["attrs"] = proj.exc(e, eskip)["attrs"]
        rec["after"] = [proj.ds(d, asts, skip, eskip) for d in data]
        rec["out"] = [proj.ds(d, None, skip, eskip) for d in out] if rec["outcome"] == "ok" else []
    else:
        rec["out"] = [proj.ds(d, None) for d in out] if rec["outcome"] == "ok" else []
    return rec


def case0(case):
    return case["_orig"]


def run_(prop, case):
    case["_orig"] = copy.deepcopy(case["data"])
    return run(prop, case)


if __name__ == "__main__":
    common.main(gen_cases, run_, {
        "A01": "a record counts when at least one dataset of the list needs allocation",
        "A02": "every labelled activity counts", "A03": "every call counts", "A04": "every call counts",
        "A05": "every subdivision counts", "A06": "every call counts"},
        lambda prop, c, r: r.get("shape") == "ok")
