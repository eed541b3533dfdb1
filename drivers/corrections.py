"""Driver for C01: corrections for particular ecoinvent data."""
import copy, logging
import common, dbproj
from common import call, num, s
from gen import pick

RP, BP, TI = "reference product", "byproduct", "from technosphere"
TA, MA, MG = "transforming activity", "market activity", "market group"
ALLOC = "allocatable product"
FNS = {"unused", "confidential", "pipeline", "gas", "rows", "texts", "mandatory", "bare", "haspv", "volumes"}


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.rows = []

    def emit(self, record):
        m = record.msg
        if isinstance(m, dict) and m.get("type") in ("table element", "list element"):
            self.rows.append(m["data"])


def cell(x):
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return str(int(x)) if x == int(x) else repr(x)
    return s(x)


def places(d):
    """everything that can hold a formula"""
    for e in d["exchanges"]:
        yield e
        if isinstance(e.get("production volume"), dict):
            yield e["production volume"]
        yield from e.get("properties", [])
    yield from d.get("parameters", [])


def project(data, texts=None):
    """formulas apart from the rest; texts[i] are the pieces of dataset i's"""
    masked = copy.deepcopy(data)
    found = []
    for d in masked:
        q = []
        for p in places(d):
            if "formula" in p:
                q.append(s(p["formula"]))
                p["formula"] = "formula %d" % len(q)
        found.append(q)
    out = dbproj.db(masked)
    for i, (d, o) in enumerate(zip(masked, out)):
        o["ftexts"] = found[i]
        o["texts"] = texts[i] if texts else [[{"k": 0, "t": t}] for t in found[i]]
        for e, x in zip(d["exchanges"], o["excs"]):
            x["plist"] = [{"name": s(p.get("name", "")), "has": "amount" in p} for p in e.get("properties", [])]
    return out


def install(data, texts):
    """put the formulas where there is room for them, in order"""
    rest = []
    for d, ts in zip(data, texts):
        ps = list(places(d))
        while len(ps) < len(ts):
            d["parameters"].append({"id": "q%d" % len(ps), "name": "q", "amount": 1, "unit": "kg", "variable": "q%d" % len(ps)})
            ps = list(places(d))
        at = sorted(d.pop("at", None) or range(len(ts)))[:len(ts)]
        for k, t in zip(at, ts):
            ps[k % len(ps)]["formula"] = "".join(p["t"] for p in t)
        used = sum("formula" in p for p in places(d))
        rest.append(ts[:used] if used == len(ts) else None)
    return all(r is not None for r in rest)


def exchange(rnd, i, name, typ, amt=None):
    e = {"id": i, "name": name, "type": typ, "unit": pick(rnd, "kg", "MJ"), "tag": "intermediateExchange",
         "amount": pick(rnd, 1, 1, 2.5, 0, -3, 1e-9, 0.0) if amt is None else amt}
    if typ in (RP, BP):
        e["byproduct classification"] = pick(rnd, ALLOC, "waste", "recyclable")
        if rnd.random() < 0.9:
            e["production volume"] = {"amount": pick(rnd, 0, 0, 1, 2.5, 4e6)}
            if rnd.random() < 0.2:
                e["production volume"]["original amount"] = pick(rnd, 0, 3, 10)
            if rnd.random() < 0.2:
                e["production volume"]["variable"] = "pv"
    if rnd.random() < 0.3:
        e["variable"] = pick(rnd, "a", "b")
    if rnd.random() < 0.4:
        e["properties"] = properties(rnd)
    return e


MAND = ["dry mass", "water in wet mass", "water content", "wet mass", "carbon content fossil", "carbon content non-fossil"]


def properties(rnd):
    names = pick(rnd, MAND, MAND, rnd.sample(MAND, rnd.randrange(0, 7)), rnd.sample(MAND, 5), [])
    names = list(names) + rnd.sample(["price", "carbon content, fossil", "Dry mass", "carbon content non fossil"], rnd.randrange(0, 3))
    rnd.shuffle(names)
    out = []
    for n in names:
        p = {"id": "p", "name": n, "amount": pick(rnd, 0, 1, 0.5), "unit": "kg"}
        if rnd.random() < 0.02:
            del p["amount"]
        out.append(p)
    return out


def near(rnd, n):
    return pick(rnd, n, n, n, n.upper(), n.capitalize(), n + " 2", n[:-1], " " + n, n.replace(",", ""), n.split(",")[0])


def dataset(rnd, i, names):
    n = near(rnd, rnd.choice(names))
    excs = [exchange(rnd, "%se%d" % (i, k), pick(rnd, "refinery gas", "refinery gas", "p", "q", "Refinery gas"), t)
            for k, t in enumerate([RP] + [pick(rnd, TI, TI, BP, RP if rnd.random() < 0.3 else TI, "to environment") for _ in range(rnd.randrange(4))])]
    rnd.shuffle(excs)
    d = {"id": i, "name": n, "type": pick(rnd, TA, TA, MA, MA, MG), "location": pick(rnd, "GLO", "GLO", "RoW", "RER w/o DE+NL+NO", "CH"), "filepath": i, "parent": None,
         "exchanges": excs, "parameters": [], "technology level": "current", "start date": "2001-01-01", "end date": "2010-12-31",
         "reference product": [e for e in excs if e["type"] == RP][0]["name"]}
    for k in range(rnd.randrange(3)):
        d["parameters"].append({"id": "q%d" % k, "name": "q", "amount": 2, "unit": "kg", "variable": "w%d" % k})
    return d


def gen_cases(prop, tier, rnd, scen):
    n = {"quick": 3000, "thorough": 40000}[tier]
    names, bads = set(), {}
    for c in scen:
        for x in c:
            names.add(x["name"])
            for t in x["texts"]:
                for p in t:
                    if p["k"]:
                        bads[p["k"]] = p["t"]
    names = sorted(names)
    bads = [{"k": k, "t": bads[k]} for k in sorted(bads)]
    for c in scen:
        data, texts = [dbproj.real_ds(d) for d in c], [x["texts"] for x in c]
        for d, x in zip(data, c):
            for e, y in zip(d["exchanges"], x["excs"]):
                if y["plist"]:
                    e["properties"] = [dict({"id": "p", "name": p["name"], "unit": "kg"}, **({"amount": 1} if p["has"] else {})) for p in y["plist"]]
        k = c[0]["id"]
        for fn in {"1": ["unused", "confidential", "pipeline", "rows", "gas", "texts"], "2": ["gas", "unused"], "3": ["texts", "gas", "bare"],
                   "4": ["mandatory", "bare", "volumes"], "5": ["rows", "haspv", "volumes"]}[k]:
            if k == "1" and rnd.random() < (0 if tier == "thorough" else 0.6) and c[0]["name"] != "unrelated" and fn in ("rows", "gas", "texts"):
                continue
            yield {"kind": "model", "fn": fn, "data": data, "texts": texts}
    for j in range(n):
        fn = sorted(FNS)[j % len(FNS)]
        data = [dataset(rnd, "i%d" % k, names) for k in range(rnd.randrange(1, 6))]
        texts = []
        for d in data:
            room = len(list(places(d)))
            ts = []
            for _ in range(rnd.randrange(0, min(4, room + 1)) if fn in ("texts", "bare") or (fn != "gas" and rnd.random() < 0.2) else 0):
                q = []
                for _ in range(rnd.randrange(1, 4)):
                    q.append(rnd.choice(bads) if rnd.random() < 0.6 else {"k": 0, "t": pick(rnd, " + x * ", " 2 ", "average(1;2) - ", "UnitConversion(1, 'kg', 'Mg') / ", bads[1]["t"].lower())})
                ts.append(q)
            if ts:
                d["at"] = rnd.sample(range(room), len(ts))
            texts.append(ts)
        yield {"kind": "random", "fn": fn, "data": data, "texts": texts}


def run(prop, case):
    from ocelot.transformations.locations.markets import assign_fake_pv_to_confidential_datasets, delete_whitelisted_zero_pv_market_datsets
    from ocelot.transformations.locations.cleanup import correct_natural_gas_pipeline_location
    from ocelot.transformations.locations.rest_of_world import drop_zero_pv_row_datasets
    from ocelot.transformations.parameterization.known_ecoinvent_issues import fix_known_bad_formula_strings, fix_specific_ecoinvent_issues
    from ocelot.transformations.validation import ensure_mandatory_properties
    from ocelot.transformations.cleanup import deparameterize, ensure_all_datasets_have_production_volume
    from ocelot.data_helpers import production_volume, original_production_volume, reference_products_as_string
    data, texts, fn = case["data"], case["texts"], case["fn"]
    assert install(data, texts)
    src = project(data, texts)
    for d in src:
        assert ["".join(p["t"] for p in t) for t in d["texts"]] == d["ftexts"]

    def volumes(data):
        out = []
        for d in data:
            names = reference_products_as_string(d)
            out.append({"pv": num(production_volume(d, -77)), "orig": num(original_production_volume(d, -77)),
                        "pvn": num(production_volume(d)), "orign": num(original_production_volume(d)),
                        "names": [] if names == "None found" else names.split("|")})
        return out
    f = {"unused": delete_whitelisted_zero_pv_market_datsets, "confidential": assign_fake_pv_to_confidential_datasets,
         "pipeline": correct_natural_gas_pipeline_location, "gas": fix_specific_ecoinvent_issues, "rows": drop_zero_pv_row_datasets,
         "texts": fix_known_bad_formula_strings, "mandatory": ensure_mandatory_properties, "bare": lambda db: [deparameterize(d) for d in db],
         "haspv": ensure_all_datasets_have_production_volume, "volumes": volumes}[fn]
    log, h = logging.getLogger("ocelot"), Log()
    level = log.level
    log.addHandler(h)
    log.setLevel(logging.INFO)
    try:
        outcome, out = call(f, data)
    finally:
        log.removeHandler(h)
        log.setLevel(level)
    rec = {"fn": fn, "src": src, "outcome": outcome, "out": [], "vals": [], "rows": []}
    for r in h.rows:
        row = [cell(x) for x in r] if isinstance(r, (tuple, list)) else [s(r)]
        if fn == "mandatory":
            row = row[:2] + row[2].split("; ")
        rec["rows"].append(row)
    if outcome == "ok":
        if fn == "volumes":
            rec["vals"] = out
        else:
            rec["out"] = project(out)
    rec["after"] = project(data)
    return rec


if __name__ == "__main__":
    common.main(gen_cases, run, "some dataset is named by a correction",
                lambda p, c, r: True)
