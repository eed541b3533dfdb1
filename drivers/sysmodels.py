"""Driver for W01, W02, Q01, Q02: cut-off and consequential handling."""
import common, dbproj, gen
from common import call, num
from gen import ALLOC, amount, pick, with_unc

RP, BP, TI = "reference product", "byproduct", "from technosphere"
TA, MA, MG = "transforming activity", "market activity", "market group"
RC = ", Recycled Content cut-off"
ENV = {"a": 3.5, "b": -2.0, "c": 0.25, "yield_": 7.0}
FORMULAS = ["a", "a + b", "a-b*2", "c / (b + a)", "a if a > b else c", "2", "-a", "b**2 - a", "yield_ * 3 + 1"]
LEVELS = ["new", "modern", "current", "old", "outdated", "undefined", "", "unknown"]


def project(data):
    out = dbproj.db(data)
    for d, o in zip(data, out):
        for e, x in zip(d["exchanges"], o["excs"]):
            x["fv"] = num(eval(e["formula"], {}, dict(ENV))) if "formula" in e else [0, 0]
    return out


def dataset(i, typ, excs, rnd, **kw):
    d = {"id": i, "name": "act " + i, "type": typ, "location": pick(rnd, "GLO", "CH", "RoW"), "filepath": i + ".spold", "parent": None,
         "exchanges": excs, "parameters": [], "access restricted": "public", "economic scenario": "Business-as-Usual",
         "start date": "2001-01-01", "end date": "2010-12-31", "technology level": pick(rnd, *LEVELS[:6]),
         "dataset author": {"name": "n"}, "data entry": {"name": "m"}}
    if rnd.random() < 0.3:
        d["parameters"].append({"id": "p", "name": "a", "variable": "a", "amount": 3.5, "unit": "kg"})
    d.update(kw)
    return d


def exchange(rnd, i, name, typ, amt=None, unc=0.5, **kw):
    e = {"id": i, "name": name, "type": typ, "unit": pick(rnd, "kg", "MJ"), "tag": "intermediateExchange",
         "amount": amount(rnd, extreme=0.05) if amt is None else amt}
    if typ in (RP, BP):
        e["byproduct classification"] = pick(rnd, ALLOC, "waste", "recyclable")
        e["production volume"] = {"amount": pick(rnd, 1, 10, 2.5)}
    e.update(kw)
    if rnd.random() < 0.35:
        e["formula"] = rnd.choice(FORMULAS)
    if rnd.random() < 0.3:
        e["variable"] = pick(rnd, "a", "q")
    if rnd.random() < 0.2:
        e["properties"] = [gen.price(3)]
    return with_unc(rnd, e, unc)


def cut_db(rnd, suffix=False):
    pool = rnd.sample(gen.NAMES, 4)
    if suffix:
        pool = [n + pick(rnd, "", "", RC, RC, RC + " b", ", recycled content cut-off", RC[2:]) for n in pool]
        pool = [n for n in pool if n.count(RC[2:]) <= 1]
    data = []
    for k in range(rnd.randrange(1, 6)):
        i = "i%d" % k
        excs = [exchange(rnd, i + "r", rnd.choice(pool), RP)]
        for j in range(pick(rnd, 0, 1, 1, 2, 4)):
            excs.append(exchange(rnd, "%sb%d" % (i, j), rnd.choice(pool), BP))
        for j in range(pick(rnd, 0, 1, 2)):
            excs.append(exchange(rnd, "%sx%d" % (i, j), rnd.choice(pool), pick(rnd, TI, TI, "to environment", "dropped product")))
        rnd.shuffle(excs)
        d = dataset(i, pick(rnd, TA, TA, MA, MG), excs, rnd)
        if rnd.random() < 0.7:
            d["reference product"] = [e for e in excs if e["type"] == RP][0]["name"]
        if suffix and rnd.random() < 0.4:
            d["name"] = rnd.choice(pool)
        data.append(d)
    return data


def sign_db(rnd):
    data = []
    for k in range(rnd.randrange(1, 4)):
        i, name = "i%d" % k, rnd.choice(gen.NAMES)
        mode = pick(rnd, "neg", "neg", "rp", "any", "pos", "zero")

        def amt():
            x = abs(amount(rnd, zero=0.15, extreme=0.05))
            return {"neg": -x, "rp": x, "pos": x, "any": pick(rnd, x, -x), "zero": 0}[mode]
        rp = exchange(rnd, i + "r", name, RP, amt=-abs(amount(rnd, zero=0.1, extreme=0.05)) if mode == "rp" else amt(), unc=0.4)
        rp["byproduct classification"] = pick(rnd, ALLOC, ALLOC, "recyclable", "waste")
        excs = [rp] + [exchange(rnd, "%sx%d" % (i, j), pick(rnd, name, "other", name.upper()), pick(rnd, TI, TI, BP, "to environment"), amt=amt(), unc=0.4)
                       for j in range(pick(rnd, 0, 1, 2, 3))]
        rnd.shuffle(excs)
        data.append(dataset(i, pick(rnd, MA, MA, MA, MG, TA), excs, rnd))
    return data


def constrained(rnd, bad):
    nt = rnd.randrange(1, 4)
    targets, conds = [], []
    for k in range(nt):
        i, x = "t%d" % k, "x%d" % k
        excs = [exchange(rnd, i + "r", "p%d" % k, RP), exchange(rnd, i + "x", x, TI)]
        for j in range(pick(rnd, 0, 1, 2)):
            excs.append(exchange(rnd, "%so%d" % (i, j), pick(rnd, "o", "p%d" % k), pick(rnd, TI, BP)))
        if rnd.random() < bad:
            how = rnd.randrange(4)
            if how == 0:
                excs.append(exchange(rnd, i + "y", x, TI))
            elif how == 1:
                excs[1]["type"] = "to environment"
            elif how == 2:
                excs.append(exchange(rnd, i + "s", "second", RP))
            else:
                excs[1]["name"] = "nothing"
        rnd.shuffle(excs)
        targets.append(dataset(i, TA, excs, rnd))
        conds.append((x, i if rnd.random() > bad / 2 else "missing"))
    rnd.shuffle(conds)
    markets, j = [], 0
    for k in range(rnd.randrange(1, 3)):
        excs = [exchange(rnd, "m%dr" % k, "g%d" % k, RP)]
        for _ in range(pick(rnd, 0, 1, 2, 3)):
            if conds:
                x, t = conds.pop()
                excs.append(exchange(rnd, "m%dc%d" % (k, j), x, BP, amt=-abs(amount(rnd, extreme=0.02)), **{"conditional exchange": True, "activity link": t}))
                j += 1
        excs += [exchange(rnd, "m%di%d" % (k, i), pick(rnd, "g%d" % k, "x0", "z"), pick(rnd, TI, BP)) for i in range(pick(rnd, 0, 1))]
        rnd.shuffle(excs)
        markets.append(dataset("m%d" % k, MA, excs, rnd))
    data = markets + targets + [dataset("u", TA, [exchange(rnd, "ur", "u", RP), exchange(rnd, "ux", pick(rnd, "x0", "p0"), TI)], rnd)]
    ids = [d["id"] for d in data] + ["elsewhere"]
    for d in data:
        for e in d["exchanges"]:
            if "activity link" not in e and rnd.random() < 0.3:
                e["activity link"] = rnd.choice(ids)
            if "conditional exchange" not in e and rnd.random() < 0.1:
                e["conditional exchange"] = False
    rnd.shuffle(data)
    return data


def tech(rnd):
    data, pool = [], LEVELS[:5]
    if rnd.random() < 0.3:
        pool = LEVELS
    for k in range(rnd.randrange(1, 5)):
        d = dataset("i%d" % k, pick(rnd, MA, MA, MG, TA), [exchange(rnd, "r%d" % k, "p%d" % k, RP)], rnd)
        lv = rnd.sample(pool, rnd.randrange(1, min(4, len(pool))))
        if rnd.random() < 0.85:
            d["suppliers"] = [{"code": "s%d" % j, "name": "x", "location": pick(rnd, "GLO", "CH"), "technology level": rnd.choice(lv), "unit": "kg",
                               "production volume": {"amount": pick(rnd, 0, 1, 7.5)}} for j in range(pick(rnd, 0, 1, 2, 3, 6))]
        d["reference product"] = "p%d" % k
        data.append(d)
    return data


def gen_cases(prop, tier, rnd, scen):
    n = {"quick": 1500, "thorough": 20000}[tier]
    fns = {"W01": ["handle", "strip"], "W02": ["flip", "signs"], "Q01": ["drop", "swap"], "Q02": ["prune", "alternative", "levels"]}[prop]
    for c in scen:
        data = [dbproj.real_ds(d) for d in c]
        for d, x in zip(data, c):
            d.update({"dataset author": {}, "data entry": {}})
            d.setdefault("technology level", "")
            if x["hassup"]:
                d["suppliers"] = [{"code": s["code"], "name": s["name"], "location": s["loc"], "technology level": s["tech"], "unit": "kg",
                                   "production volume": {"amount": 1}} for s in x["sup"]]
        for fn in fns:
            if fn == "signs" and not all(any(e["type"] == RP and "byproduct classification" in e for e in d["exchanges"]) for d in data):
                continue
            yield {"kind": "model", "fn": fn, "data": data}
    for k in range(n):
        fn = fns[k % len(fns)]
        data = {"handle": cut_db, "strip": lambda r: cut_db(r, True), "flip": cut_db, "signs": sign_db,
                "drop": lambda r: constrained(r, 0.15), "swap": lambda r: constrained(r, pick(r, 0, 0, 0.3)),
                "prune": tech, "alternative": cut_db, "levels": tech}[fn](rnd)
        if fn == "alternative":
            names = [e["name"] for d in data for e in d["exchanges"] if e["type"] == RP]
            for d in data:
                for e in d["exchanges"]:
                    if e["type"] == BP and rnd.random() < 0.8:
                        e["name"] = rnd.choice(names)
        yield {"kind": "random", "fn": fn, "data": data}


def run(prop, case):
    from ocelot.transformations.cutoff import (handle_waste_outputs, rename_recycled_content_products_after_linking,
                                               flip_non_allocatable_byproducts, adjust_market_signs_for_allocatable_products)
    from ocelot.transformations.consequential import (delete_activity_links_to_constrained_markets, handle_constrained_markets,
                                                      prune_suppliers_by_technology_level, ensure_byproducts_have_alternative_production)
    from ocelot.wrapper import TransformationWrapper

    def handle(data):
        for f in handle_waste_outputs:
            data = f(data)
        return data

    def levels(data):
        from ocelot.transformations.consequential.technology_levels import switch_undefined_to_current
        return switch_undefined_to_current(data)

    def flip(data):
        out = []
        for d in data:
            r = flip_non_allocatable_byproducts(d)
            out.extend(r if isinstance(r, list) else [r])
        return out
    # single_input functions accept a whole database
    flip = flip_non_allocatable_byproducts
    fn = {"handle": handle, "strip": rename_recycled_content_products_after_linking, "flip": flip,
          "signs": adjust_market_signs_for_allocatable_products, "drop": delete_activity_links_to_constrained_markets,
          "swap": handle_constrained_markets, "prune": prune_suppliers_by_technology_level,
          "alternative": ensure_byproducts_have_alternative_production, "levels": levels}[case["fn"]]
    data = case["data"]
    rec = {"fn": case["fn"], "src": project(data)}
    rec["outcome"], out = call(fn, data)
    rec["after"] = project(data)
    rec["out"] = project(out) if rec["outcome"] == "ok" else []
    return rec


if __name__ == "__main__":
    common.main(gen_cases, run, "the database has more than one exchange",
                lambda p, c, r: sum(len(d["exchanges"]) for d in c["data"]) > 1)
