"""Driver for H01-H03: hard links and production volumes."""
import copy
import common, dbproj, gen
from common import call
from gen import ALLOC, amount, pick

RP, BP, TI = "reference product", "byproduct", "from technosphere"
MISSING35 = "25edb027-d7c0-4756-a051-cab82e4f6248"
TYPES = ["transforming activity", "transforming activity", "market activity", "market group"]


def volume(rnd):
    return {"amount": pick(rnd, 0, 0.0, 1, 10, 100, 1e6, 12.5, rnd.uniform(0, 1e3), 3.3e11)}


def rand_db(rnd, valid=0.75, parents=True):
    n = rnd.randrange(1, 6)
    ids = ["i%d" % k for k in range(n)]
    pool = rnd.sample(gen.NAMES, 5)
    data = []
    for i in ids:
        excs = []
        for k in range(pick(rnd, 1, 1, 1, 2, 3, 0)):
            excs.append({"id": "%sr%d" % (i, k), "name": rnd.choice(pool), "type": RP, "unit": "kg",
                         "amount": amount(rnd, zero=0.08, neg=0.2), "production volume": volume(rnd),
                         "byproduct classification": pick(rnd, ALLOC, ALLOC, "waste", "recyclable")})
        for k in range(pick(rnd, 0, 0, 1, 2)):
            excs.append({"id": "%sb%d" % (i, k), "name": rnd.choice(pool), "type": BP, "unit": "kg",
                         "amount": amount(rnd), "production volume": volume(rnd),
                         "byproduct classification": pick(rnd, ALLOC, ALLOC, "waste", "recyclable")})
        data.append({"id": i, "name": "act " + i, "type": pick(rnd, *TYPES), "location": pick(rnd, "GLO", "CH"), "filepath": "f" + i,
                     "parent": pick(rnd, None, None, None, rnd.choice(ids)) if parents else None, "exchanges": excs, "parameters": []})
    targets = [(d["id"], e["name"]) for d in data for e in d["exchanges"] if e["type"] == RP
               or e.get("byproduct classification") == ALLOC and e["type"] == BP]
    for d in data:
        for k in range(pick(rnd, 0, 1, 2, 4)):
            e = {"id": "%sx%d" % (d["id"], k), "name": rnd.choice(pool), "type": pick(rnd, TI, TI, TI, "to environment"), "unit": "kg",
                 "amount": amount(rnd)}
            if e["type"] == TI and rnd.random() < 0.7 and targets:
                e["activity link"], e["name"] = rnd.choice(targets)
                if rnd.random() < 0.05:
                    e["activity link"] = MISSING35
                if rnd.random() < 0.15 and d.get("parent"):
                    e["activity link"] = d["parent"]
                if rnd.random() > valid ** 0.2:
                    if rnd.random() < 0.5:
                        e["activity link"] = pick(rnd, "nowhere", rnd.choice(ids))
                    else:
                        e["name"] = rnd.choice(pool)
            d["exchanges"].append(e)
        for e in d["exchanges"]:  # links on production exchanges and by-products
            if e["type"] in (RP, BP) and rnd.random() < 0.12 and targets:
                e["activity link"] = rnd.choice(targets)[0]
                if rnd.random() < 0.3:
                    e["activity link"], e["name"] = rnd.choice(targets)
                if d.get("parent") and rnd.random() < 0.4:
                    e["activity link"] = d["parent"]
            if rnd.random() < 0.06:
                e["type"] = "dropped product"
                e.pop("byproduct classification", None)
        rnd.shuffle(d["exchanges"])
    if rnd.random() < 0.15:   # many links: accumulation
        for d in data:
            for e in d["exchanges"]:
                if e["type"] == TI and targets:
                    e["activity link"], e["name"] = targets[0]
    return data


def strip_invalid(data):
    """Make the links resolvable (drop those that are not)."""
    for d in data:
        for e in d["exchanges"]:
            if e.get("activity link"):
                t = [x for x in data if x["id"] == e["activity link"]]
                ok = t and sum(1 for p in t[0]["exchanges"] if p["name"] == e["name"] and
                               (p["type"] == RP or p["type"] == BP and p["byproduct classification"] == ALLOC)) == 1
                if not ok:
                    del e["activity link"]
    return data


def pv_params(rnd, data):
    for d in data:
        vs = ["v%d" % k for k in range(9)]
        rnd.shuffle(vs)
        for e in d["exchanges"]:
            if "production volume" in e:
                k = rnd.random()
                if k < 0.3:
                    e["production volume"]["variable"] = vs.pop() if vs else "w"
                if 0.2 < k < 0.5:
                    e["production volume"]["formula"] = pick(rnd, "a + 1", "2 * b", "v1*v2")
                if rnd.random() < 0.1:
                    e["production volume"]["uncertainty"] = {"type": "uniform", "minimum": 1, "maximum": 2}
            elif rnd.random() < 0.1:
                e["production volume"] = {"amount": 3, "formula": "a"}
        if rnd.random() < 0.4:
            d["parameters"].append({"id": "p1", "name": "old", "variable": "old", "amount": 4.5, "unit": "kg"})
        if rnd.random() < 0.12:
            for e in d["exchanges"]:
                if e["type"] in (RP, BP) and rnd.random() < 0.5:
                    e.pop("production volume", None)
    return data


def gen_cases(prop, tier, rnd, scen):
    n = {"quick": 1200, "thorough": 12000}[tier]
    for c in scen:
        data = [dbproj.real_ds(d) for d in c]
        if prop == "H01":
            yield {"kind": "model", "fn": "manage", "data": data}
        elif prop == "H02" and rnd.random() < 0.5:
            for fn in ("check", "parent", "zero", "rp"):
                yield {"kind": "model", "fn": fn, "data": data}
        elif prop == "H03" and rnd.random() < 0.25:
            for fn in ("byproduct", "pvcleanup"):
                yield {"kind": "model", "fn": fn, "data": data}
    for k in range(n):
        data = rand_db(rnd)
        if prop == "H01":
            if rnd.random() < 0.7:
                strip_invalid(data)
            yield {"kind": "random", "fn": "manage", "data": data}
        elif prop == "H02":
            if rnd.random() < 0.4:
                strip_invalid(data)
            for fn in ("check", "parent", "zero", "rp", "cleanup"):
                yield {"kind": "random", "fn": fn, "data": data}
        else:
            pv_params(rnd, data)
            for fn in ("ensure", "byproduct", "deparam", "pvcleanup"):
                if fn == "byproduct" and not all("production volume" in e for d in data for e in d["exchanges"] if e["type"] in (RP, BP)):
                    continue
                yield {"kind": "random", "fn": fn, "data": data}


def run(prop, case):
    import ocelot.transformations as T
    from ocelot.transformations import activity_links as al
    from ocelot.transformations.cutoff import cleanup
    from ocelot.transformations.cutoff import cleanup_activity_links
    fn = {"manage": al.manage_activity_links, "check": al.check_activity_link_validity,
          "parent": al.update_activity_link_parent_child, "zero": cleanup.drop_zero_amount_activity_links,
          "rp": cleanup.drop_rp_activity_links, "cleanup": cleanup_activity_links,
          "ensure": T.ensure_production_exchanges_have_production_volume,
          "byproduct": T.add_pv_to_allocatable_byproducts, "deparam": T.create_pv_parameters,
          "pvcleanup": T.pv_cleanup}[case["fn"]]
    data = case["data"]
    rec = {"fn": case["fn"], "src": dbproj.db(data)}
    rec["outcome"], out = call(fn, data)
    rec["after"] = dbproj.db(data)
    rec["out"] = dbproj.db(out) if rec["outcome"] == "ok" else []
    return rec


if __name__ == "__main__":
    common.main(gen_cases, run, "the database has at least one hard link (H01, H02) or by-product (H03)",
                lambda p, c, r: any(e.get("activity link") or e["type"] == BP for d in c["data"] for e in d["exchanges"]))
