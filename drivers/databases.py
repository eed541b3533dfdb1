"""S09 conversion to Brightway, S10 validation."""
import copy, random
import common, gen, proj
from common import call, main, s, num
from ocelot.io.brightway2 import Brightway2Converter
from ocelot.transformations import ensure_ids_are_unique, validate_markets
from ocelot.transformations.validation import check_single_output_activity
from ocelot.transformations.cutoff.validation import valid_combined_production_activity
from ocelot.transformations.cutoff.cleanup import remove_consequential_exchanges
from ocelot.transformations.cutoff.allocation import no_allocation
from ocelot.transformations.cutoff.economic import economic_allocation
from ocelot.transformations.cutoff.wastes import recycling_allocation, waste_treatment_allocation
from ocelot.transformations.cutoff.combined import merge_byproducts

FIELDS = ("code", "economic scenario", "end date", "filepath", "location", "name", "start date", "technology level", "dataset author", "data entry")


# ------------------------------------------------------------------ S09
def build_bw(i, exs, rnd):
    ds = {f: "%s %d" % (f, i) for f in FIELDS}
    ds["dataset author"] = {"name": "A%d" % i, "email": "x"}
    ds["data entry"] = {"name": "E%d" % i}
    if rnd.random() < 0.5:
        ds.update(location=rnd.choice(["GLO", "RoW", "CH"]), name=rnd.choice(["market for x", "a"]))
    ds.update(type="transforming activity", id="id%d" % i, parameters=[], history=[1])
    ds["reference product"] = "x"
    ds["exchanges"] = []
    for k, e in enumerate(exs):
        a = gen.q(e["amount"]) if isinstance(e["amount"], list) else e["amount"]
        x = {"type": e["type"], "name": e["name"], "unit": e["unit"], "amount": a, "id": "e%d" % k, "tag": "t"}
        if e["code"]:
            x["code"] = e["code"]
        elif e.get("nocode"):
            x["code"] = {"none": None, "empty": ""}[e["nocode"]]
        if e["comp"]:
            x.update(compartment=e["comp"], subcompartment=e["sub"])
        if e["type"] in ("byproduct", "reference product"):
            x["byproduct classification"] = "allocatable product"
            x["production volume"] = {"amount": 5}
        if e.get("unc"):
            x["uncertainty"] = {"type": "uniform", "minimum": a - 1, "maximum": a + 1}
        if e.get("extra"):
            x.update(formula="a*2", variable="v", **{"activity link": "L", "location": "CH", "suppliers": [1]})
        ds["exchanges"].append(x)
    return ds


def ex9(e):
    return {"type": e["type"], "name": e["name"], "unit": e["unit"], "amount": num(e["amount"]), "code": e.get("code") or "", "comp": e.get("compartment", ""), "sub": e.get("subcompartment", "")}


def got9(f):
    keys = set(f)
    inp = f.get("input", ("", ""))
    assert isinstance(inp, tuple) and len(inp) == 2
    tech = f["type"] in ("production", "technosphere")
    return {"type": s(f["type"]), "amount": num(f["amount"]), "db": s(inp[0]), "code": s(inp[1]), "name": "" if tech else s(f["name"]), "unit": "" if tech else s(f["unit"]), "cats": [s(c) for c in f.get("categories", ())]}


def run_s09(case):
    rnd = random.Random(case.get("seed", 0))
    data = [build_bw(i, exs, rnd) for i, exs in enumerate(case["dbs"])]
    before = proj.canon(data)
    src = [{"fields": [proj.canon(ds[f]) for f in FIELDS], "ex": [ex9(e) for e in ds["exchanges"]]} for ds in data]
    out, v = call(lambda: list(Brightway2Converter.convert_to_brightway2(data, case["dbname"])))
    rec = {"src": src, "dbname": case["dbname"], "out": out, "same": proj.canon(data) == before, "got": []}
    if out == "ok":
        for a in v:
            rec["got"].append({"fields": [proj.canon(a.get(f)) for f in FIELDS], "db": s(a["database"]), "unit": s(a["unit"]), "rp": s(a["reference product"]), "amount": num(a["production amount"]), "ex": [got9(f) for f in a["exchanges"]]})
    return rec


def rand_ex9(rnd, rp=False):
    t = "reference product" if rp else rnd.choice(["from technosphere", "from technosphere", "byproduct", "from environment", "to environment", "dropped product"])
    env = "environment" in t
    e = {"type": t, "name": rnd.choice(["x", "x", "y", "refinery gas", "\u00fc"]) if not env else rnd.choice(["CO2", "Water"]), "unit": rnd.choice(["kg", "kWh", "\u00a3"]),
         "amount": 0 if t == "dropped product" else rnd.choice([1e-13, -3e-18, 5e-25, 1e-40]) if rnd.random() < 0.04 else gen.amount(rnd), "code": "" if env or t == "dropped product" else rnd.choice(["c1", "c2", "c3", "c" * 32]),
         "comp": rnd.choice(["air", "water", "natural resource"]) if env else "", "sub": rnd.choice(["unspecified", "low"]) if env else ""}
    if e["name"] == "refinery gas" and not rp and rnd.random() < 0.5:
        e["code"] = ""
        e["nocode"] = rnd.choice(["", "none", "empty"])
    e["unc"], e["extra"] = rnd.random() < 0.3, rnd.random() < 0.3
    return e


# ------------------------------------------------------------------ S10
def build_ds(d, k=0, rnd=None):
    rnd = rnd or random.Random(0)
    ds = {"id": d["id"], "type": d["type"], "name": "n", "location": "GLO", "filepath": "f%d.spold" % k, "exchanges": [], "parameters": [], "history": []}
    val = {-1: -2.5, 0: 0, 1: 2.5}
    for i, e in enumerate(d["ex"]):
        x = {"type": e["type"], "name": e["name"], "unit": "kg", "amount": val[e["amount"]] * rnd.choice([1, 1, 2, 0.001]), "id": "e%d" % i}
        if e["class"]:
            x["byproduct classification"] = e["class"]
        if e["type"] in ("reference product", "byproduct"):
            x["production volume"] = {"amount": 10}
        props = []
        if e["price"] != 9:
            props.append({"name": "price", "amount": val[e["price"]] * rnd.choice([1, 3]), "unit": "EUR"})
        if e["cons"] != 9:
            props.insert(rnd.randint(0, len(props)), {"name": "consequential", "amount": {0: 0, 1: rnd.choice([1, 1.0]), 2: rnd.choice([2, -1, 0.5, 1.0000001, 10])}[e["cons"]], "unit": "dimensionless"})
        if rnd.random() < 0.3:
            props.insert(rnd.randint(0, len(props)), {"name": rnd.choice(["dry mass", "consequential use", "wet mass"]), "amount": 1, "unit": "kg"})
        if props or rnd.random() < 0.3:
            x["properties"] = props
        if e.get("var"):
            x["variable"] = "v%d" % i
        elif rnd.random() < 0.1:
            x["variable"] = rnd.choice([None, ""])
        if e["linked"]:
            x["activity link"] = "some-id"
        elif rnd.random() < 0.1:
            x["activity link"] = None
        ds["exchanges"].append(x)
    return ds


def attempt(fn, data):
    before = proj.canon(data)
    out, v = call(fn, data)
    return {"out": out, "same": out != "ok" or (proj.canon(v) == before and proj.canon(data) == before)}


METHODS = {"none": no_allocation, "single": check_single_output_activity, "economic": economic_allocation, "recycling": recycling_allocation, "waste": waste_treatment_allocation,
           "combined": valid_combined_production_activity(lambda dataset: [dataset])}


def run_s10(case):
    rnd = random.Random(case.get("seed", 0))
    if case["t"] == "db":
        data = [build_ds(d, k, rnd) for k, d in enumerate(case["db"])]
        ids = attempt(ensure_ids_are_unique, copy.deepcopy(data))
        markets = attempt(validate_markets, copy.deepcopy(data))
        merge, _ = call(lambda: list(merge_byproducts(data=copy.deepcopy(data)) if case.get("kw") and data else merge_byproducts(copy.deepcopy(data))))
        return {"t": "db", "db": case["db"], "ids": ids, "markets": markets, "merge": merge}
    if case["t"] == "alloc":
        ds = build_ds(case["ds"], 0, rnd)
        f, before = METHODS[case["method"]], proj.canon(ds)
        kw = case.get("kw") and case["method"] != "none"
        out, v = call(lambda: f(dataset=ds) if kw else f(ds))
        same = proj.canon(ds) == before
        if out == "ok" and case["method"] in ("none", "combined"):
            same = same and [proj.canon(x) for x in v] == [before]
        return {"t": "alloc", "ds": case["ds"], "method": case["method"], "out": out, "same": same}
    exs = case["ex"]
    data = [build_ds({"id": "i%d" % k, "type": "transforming activity", "ex": ex}, k, rnd) for k, ex in enumerate(exs)]
    want = copy.deepcopy(data)
    out, v = call(remove_consequential_exchanges, data)
    rec = {"t": "cons", "ex": exs, "out": out, "left": [], "same": True}
    if out == "ok":
        left, same = [], len(v) == len(want)
        for old, new in zip(want, v):
            mine, pos = [], {e["id"]: i for i, e in enumerate(old["exchanges"])}
            for e in new["exchanges"]:
                i = pos.get(e["id"], -1)
                same = same and i >= 0 and proj.canon(e) == proj.canon(old["exchanges"][i])
                mine.append(i + 1)
            left.append(mine)
            same = same and proj.canon({k: x for k, x in old.items() if k != "exchanges"}) == proj.canon({k: x for k, x in new.items() if k != "exchanges"})
        rec.update(left=left, same=same)
    return rec


def rand_ex10(rnd, market=False):
    t = rnd.choice(["from technosphere"] * 3 + ["byproduct", "to environment", "from environment"] + ([] if market else ["reference product"]))
    prod = t in ("byproduct", "reference product")
    return {"type": t, "name": rnd.choice(["x", "X", "y", "z"]) if "environment" not in t else rnd.choice(["CO2", "x"]), "linked": rnd.random() < 0.3, "class": rnd.choice(["allocatable product", "waste", "recyclable"]) if prod else "",
            "amount": rnd.choice([-1, 0, 1, 1]), "price": rnd.choice([-1, 0, 1, 1, 1, 9]) if prod else 9, "cons": rnd.choice([9, 9, 0, 1, 2]), "var": rnd.random() < 0.7}


def rand_ds10(rnd, k):
    t = rnd.choice(["market activity", "market activity", "transforming activity", "market group"])
    ex = [rand_ex10(rnd, t == "market activity") for _ in range(rnd.randint(0, 5))]
    if t == "market activity":
        for _ in range(rnd.choice([1] * 12 + [0, 2])):
            ex.insert(rnd.randint(0, len(ex)), {"type": "reference product", "name": rnd.choice(["x", "y"]), "linked": rnd.random() < 0.1, "class": "allocatable product", "amount": 1, "price": 9, "cons": 9, "var": rnd.random() < 0.5})
        rp = next((e["name"] for e in ex if e["type"] == "reference product"), None)
        if rnd.random() < 0.8:
            ex = [e for e in ex if e["type"] == "reference product" or e["name"] != rp or e["linked"]]
    return {"id": "id%d" % k, "type": t, "ex": ex}


def run(prop, case):
    return run_s09(case) if prop == "S09" else run_s10(case)


def gen_cases(prop, tier, rnd, scen):
    quick = tier == "quick"
    if prop == "S09":
        for c in scen:
            yield {"kind": "enumerated", "dbs": [c["ex"]], "dbname": "db"}
        for _ in range(2500 if quick else 40000):
            n = rnd.choice([0, 1, 1, 2, 3])
            dbs = []
            for _ in range(n):
                ex = [rand_ex9(rnd) for _ in range(rnd.randint(0, 7))]
                for _ in range(rnd.choice([1] * 14 + [0, 2])):
                    ex.insert(rnd.randint(0, len(ex)), rand_ex9(rnd, True))
                dbs.append(ex)
            yield {"kind": "random", "dbs": dbs, "dbname": rnd.choice(["db", "ecoinvent 3.3 \u00fc"]), "seed": rnd.randrange(10 ** 6)}
    else:
        none = {"type": "from technosphere", "name": "p", "linked": False, "class": "", "amount": 1, "price": 9, "var": False}
        for c in scen:
            if c["t"] == "cons":
                yield {"kind": "enumerated", "t": "cons", "ex": [[dict(none, cons=k) for k in c["cons"]]]}
            else:
                yield dict(c, kind="enumerated")
        for _ in range(3000 if quick else 40000):
            n = rnd.choice([0, 1, 2, 3, 6])
            db = [rand_ds10(rnd, k) for k in range(n)]
            if n > 1 and rnd.random() < 0.3:
                i, j = rnd.sample(range(n), 2)
                db[i]["id"] = db[j]["id"]
            k = rnd.random()
            if k < 0.5:
                yield {"kind": "random databases", "t": "db", "db": db, "seed": rnd.randrange(10 ** 6), "kw": rnd.random() < 0.3}
            elif k < 0.7:
                yield {"kind": "random consequential", "t": "cons", "ex": [d["ex"] for d in db], "seed": rnd.randrange(10 ** 6)}
            else:
                neg = rnd.random() < 0.5
                ex = [rand_ex10(rnd, True) for _ in range(rnd.randint(0, 5))]
                for _ in range(rnd.choice([1, 1, 1, 1, 1, 0, 2])):
                    ex.insert(rnd.randint(0, len(ex)), {"type": "reference product", "name": "r", "linked": False, "class": rnd.choice(["allocatable product", "waste", "recyclable"]), "amount": -1 if neg else rnd.choice([1, 1, 0]), "price": rnd.choice([1, 1, 1, 9, -1, 0]), "cons": 9, "var": rnd.random() < 0.7})
                if rnd.random() < 0.6:
                    for e in ex:
                        if e["type"] == "byproduct":
                            e.update(amount=1, price=1)
                yield {"kind": "random activities", "t": "alloc", "ds": {"id": "a", "type": "transforming activity", "ex": ex}, "method": rnd.choice(sorted(METHODS)), "seed": rnd.randrange(10 ** 6), "kw": rnd.random() < 0.3}


def nontrivial(prop, case, rec):
    if prop == "S09":
        return any(len(x) > 1 for x in case["dbs"])
    return True


if __name__ == "__main__":
    main(gen_cases, run, {"S09": "databases with an activity of at least two exchanges", "S10": "all databases"}, nontrivial)
