"""Driver for L02-L07: spatial linking."""
import copy
import common, dbproj, gen, proj
from common import call
from gen import ALLOC, amount, pick, with_unc
from geo import geo, COMPAT

RP, BP, TI = "reference product", "byproduct", "from technosphere"
TA, MA, MG = "transforming activity", "market activity", "market group"
RCS = ", Recycled Content cut-off"
ALIAS = {a for a, _ in COMPAT}


def volume(rnd, zero=0.15):
    v = {"amount": 0 if rnd.random() < zero else pick(rnd, 1, 10, 100, 1e6, 12.5, rnd.uniform(0.1, 1e3), 3.3e11)}
    if rnd.random() < 0.25:
        v["original amount"] = v["amount"] + pick(rnd, 0, 5, 100.5)
        v["subtracted activity link volume"] = v["original amount"] - v["amount"]
    return v


def pool_of(rnd):
    """a family of locations: neighbours of a few seeds (keeps overlaps likely)"""
    g = geo()
    k = rnd.random()
    if k < 0.35:
        names = [n for n in g.inside(pick(rnd, "RER", "RNA", "RER", "RAS", "RLA", "RAF"))]
    elif k < 0.7:
        names = ["CH", "FR", "DE", "RER", "RNA", "US", "CA", "CA-QC", "RAS", "CN", "Europe without Switzerland", "BR", "RLA",
                 "IN", "JP", "ENTSO-E", "NORDEL", "UCTE", "ZA", "RAF", "US-SERC", "AT"]
    else:
        names = rnd.sample(g.names, 60)
    return [n for n in names if n in g.mask and n not in ALIAS and n not in ("GLO", "RoW") and g.mask[n]] or ["CH", "FR"]


class Db:
    def __init__(self, rnd):
        self.rnd, self.data, self.n = rnd, [], 0

    def add(self, name, type_, loc, product, excs=(), **pv):
        rnd = self.rnd
        self.n += 1
        i = "i%d" % self.n
        rp = {"id": i + "r", "name": product, "type": RP, "unit": pick(rnd, "kg", "kg", "m3"), "tag": "intermediateExchange",
              "byproduct classification": ALLOC, "amount": pick(rnd, 1, 1, 1, -1, 2.5, 1000) if type_ != TA else amount(rnd, zero=0, extreme=0),
              "production volume": volume(rnd, **pv)}
        d = {"id": i, "name": name, "type": type_, "location": loc, "reference product": product, "code": "c%03d" % rnd.randrange(1000) + i,
             "filepath": i + ".spold", "exchanges": [rp] + list(excs), "parameters": [],
             "start date": "2001-01-01", "end date": "2010-12-31"}
        if rnd.random() < 0.5:
            d["technology level"] = pick(rnd, "current", "old", "modern")
        rnd.shuffle(d["exchanges"])
        self.data.append(d)
        return d


def regions(rnd, pool, n, within=None, row=0.4, glo=0.2):
    """disjoint locations, possibly with Rest-of-World, or the globe alone"""
    g = geo()
    if rnd.random() < glo:
        return ["GLO"]
    p = pool
    if within and rnd.random() < 0.6:
        p = [x for w in within if w in g.mask for x in g.inside(w) if x not in ALIAS and x != "GLO"] or pool
    out = g.disjoint(rnd, n, p)
    if rnd.random() < row:
        out.append("RoW")
    return out


def cover(rnd):
    """large disjoint locations nearly everywhere: the Rest-of-World is small"""
    g = geo()
    out, m = [], 0
    skip = g.mask[pick(rnd, "RER", "CH", "CN", "RNA", "BR", "RAF")]
    names = [n for n in g.names if n not in ALIAS and n != "GLO" and g.mask[n] and not g.mask[n] & skip]
    names.sort(key=lambda n: (-g.size[n] * rnd.uniform(0.3, 1), n))
    for n in names:
        if not g.mask[n] & m:
            out.append(n)
            m |= g.mask[n]
            if len(out) > 9:
                break
    ins = [n for n in g.names if n not in ALIAS and g.mask[n] and not g.mask[n] & ~skip and g.mask[n] != skip and not g.mask[n] & m]
    return out + g.disjoint(rnd, rnd.randrange(1, 4), ins) + ["RoW"]


def world(rnd, bad=0.0, consumers=True, groups=True, rc=0.25):
    g = geo()
    db = Db(rnd)
    products = rnd.sample(gen.NAMES, pick(rnd, 1, 1, 2, 3))
    for p in products:
        pool = pool_of(rnd)
        ms = regions(rnd, pool, pick(rnd, 1, 2, 3, 5))
        if rnd.random() < 0.12:
            ms = cover(rnd)
        if rnd.random() < bad:
            ms.append(pick(rnd, rnd.choice(ms), "GLO", rnd.choice(pool)))
        for l in ms:
            d = db.add("market for " + p, MA, l, p)
            if rnd.random() < 0.25:
                d["exchanges"][-1]["production volume"]["subtracted activity link volume"] = pick(rnd, 0, 1, 20, 1e9)
        for k in range(pick(rnd, 0, 1, 1, 2, 3)):
            name = pick(rnd, p + " production", p + " production %d" % k, "shared production")
            used = {d["location"] for d in db.data if d["name"] == name and d["reference product"] == p}
            ls = regions(rnd, pool, pick(rnd, 1, 2, 3), within=ms)
            if not rnd.random() < bad:
                if used:
                    continue
            else:
                ls.append(pick(rnd, rnd.choice(ls), rnd.choice(pool)))
                if "RoW" in used or ls.count("RoW") > 1:  # relabelling never yields two of them
                    ls = [l for l in ls if l != "RoW"]
            for l in ls:
                db.add(name, TA, l, p, zero=0.25)
        if rnd.random() < rc:
            for l in pick(rnd, ["GLO"], ["GLO"], regions(rnd, pool, 2, within=ms)):
                db.add(p + RCS, TA, l, p + RCS)
        if groups and rnd.random() < 0.7:
            gl = set()
            for _ in range(pick(rnd, 1, 2, 3, 4)):
                m = rnd.choice(ms)
                gl.add(pick(rnd, "GLO", pick(rnd, "RER", "RNA", "RAS", "RAF", "CN", "BR") if len(ms) > 8 else rnd.choice(pool), rnd.choice([x for x in (g.around(m) if m in g.mask else ["GLO"]) if x not in ALIAS] or ["GLO"]), rnd.choice(pool)))
            name = "market group for " + p
            for l in sorted(gl):
                db.add(name if rnd.random() > bad / 4 else name + "2", MG, l, p)
    if consumers:
        for k in range(pick(rnd, 1, 2, 3)):
            pool = pool_of(rnd)
            name = "consumer %d" % k
            typ = pick(rnd, TA, TA, TA, MA)
            prod = "out %d" % k
            split = rnd.random() < 0.4   # the activity has been allocated: regional variants make different products
            for l in regions(rnd, pool, pick(rnd, 1, 2)):
                excs = []
                for j in range(pick(rnd, 1, 2, 3)):
                    p = rnd.choice(products)
                    if rnd.random() < rc * 0.3:
                        p += RCS
                    e = with_unc(rnd, {"id": "u%d-%s-%d" % (k, l, j), "name": p, "type": TI, "unit": "kg", "amount": amount(rnd, extreme=0.02)}, 0.4)
                    if rnd.random() < 0.5:
                        e["tag"] = "intermediateExchange"
                    if rnd.random() < 0.2:
                        e["code"] = pick(rnd, "known", "other")
                        if rnd.random() < 0.5:
                            e["activity link"] = "i1"
                    if rnd.random() < 0.2:
                        e["comment"] = "c"
                        e["formula"] = "2*x"
                        e["properties"] = [{"name": "price", "amount": 3}]
                    if rnd.random() < bad / 5:
                        e["name"] = pick(rnd, "no market", "refinery gas")
                    excs.append(e)
                if rnd.random() < 0.3:
                    excs.append({"id": "e%d" % k, "name": rnd.choice(products), "type": pick(rnd, "to environment", "from environment", BP),
                                 "unit": "kg", "amount": 3, "byproduct classification": "waste"})
                db.add(name, typ, l, prod + pick(rnd, "", "", "b") if split else prod, excs)
    rnd.shuffle(db.data)
    return db.data


def fix_missing(data, keep_gas):
    have = {d["reference product"] for d in data if d["type"] in (MA, MG)}
    for d in data:
        d["exchanges"] = [e for e in d["exchanges"] if not (e["type"] == TI and not e.get("code") and e["name"] not in have
                                                            and not (keep_gas and e["name"] == "refinery gas"))]


def relabel_db(rnd):
    """databases before relabelling"""
    data = world(rnd, bad=0, rc=0)
    seen = set()
    for d in data:
        if d["location"] == "RoW":
            d["location"] = "GLO"
        for e in list(d["exchanges"]):
            if e["type"] == RP:
                if rnd.random() < 0.15:
                    d["exchanges"].append({"id": e["id"] + "b", "name": pick(rnd, "side", "side2"), "type": BP, "amount": pick(rnd, 0, 1, 0.0, 3), "unit": "kg",
                                           "byproduct classification": pick(rnd, ALLOC, ALLOC, "waste")})
                if rnd.random() < 0.05:
                    e["amount"] = 0
                if rnd.random() < 0.05:
                    e["production volume"]["amount"] = 0
        if rnd.random() < 0.1:
            d["location"] = "GLO"
        if rnd.random() < 0.05:
            d["type"] = pick(rnd, TA, MA, MG)
    # a group may not mix market groups and other types (names tell them apart in practice)
    for d in data:
        if d["type"] == MG and not d["name"].startswith("market group"):
            d["name"] = "market group for " + d["name"]
        if d["type"] != MG and d["name"].startswith("market group"):
            d["name"] = "m" + d["name"]
    return data


def suppliers(rnd, n):
    out = []
    for k in range(n):
        out.append({"id": "s%d" % k, "name": "x", "type": RP, "unit": pick(rnd, "kg", "m3"), "amount": pick(rnd, 1, -1, 2.5),
                    "code": "s%02d" % k, "location": pick(rnd, "GLO", "CH", "FR"), "activity": "p%d" % k,
                    "production volume": volume(rnd, zero=0.3)})
    return out


def one_row(data):
    """at most one Rest-of-World market of a name and product (relabelling never yields two)"""
    seen, out = set(), []
    for d in data:
        k = (d["name"], d["reference product"])
        if d["location"] == "RoW" and d["type"] == MA:
            if k in seen:
                continue
            seen.add(k)
        out.append(d)
    return out


def hard(rnd, data, ids=True):
    """add hard links; sometimes give several datasets one id (allocated activities)"""
    if ids and rnd.random() < 0.4:
        for d in data:
            if rnd.random() < 0.2:
                d["id"] = data[0]["id"]
    for d in data:
        if rnd.random() < 0.35:
            x = rnd.choice(data)
            d["exchanges"].append({"id": "h" + d["code"], "name": pick(rnd, x["reference product"], x["reference product"], x["reference product"],
                                                                      rnd.choice(data)["reference product"]) if ids else x["reference product"],
                                   "type": pick(rnd, TI, TI, TI, BP), "amount": 1.5, "unit": "kg", "activity link": x["id"],
                                   "byproduct classification": "waste"})
    have = {d["id"] for d in data}
    for d in data:
        for e in d["exchanges"]:
            if e.get("activity link", data[0]["id"]) not in have:
                e["activity link"] = data[0]["id"]


def raw(rnd, data):
    """a database before linking"""
    if rnd.random() < 0.6:
        fix_missing(data, True)
    hard(rnd, data, ids=rnd.random() < 0.2)
    zero = rnd.random() < 0.4
    for d in data:
        d.pop("code", None)
        d.pop("reference product", None)
        if d["location"] == "RoW":
            d["location"] = "GLO"
            if zero:
                for e in d["exchanges"]:
                    if e["type"] == RP:
                        e["production volume"] = {"amount": 0}
        for e in d["exchanges"]:
            e.pop("code", None)
            if e.get("activity link") == "i1" and not e["id"].startswith("h"):
                del e["activity link"]
    have = {e["name"] for d in data if d["type"] == MA for e in d["exchanges"] if e["type"] == RP}
    rnd.shuffle(data)


def code_data(rnd):
    out = []
    for k in range(rnd.randrange(1, 9)):
        d = {"name": pick(rnd, "a", "A", "ab", "Straße", "a b"), "reference product": pick(rnd, "x", "X", "bx", "y"), "location": pick(rnd, "GLO", "glo", "CH"),
             "start date": pick(rnd, "2001-01-01", "2002-01-01"), "end date": pick(rnd, "2010-12-31", "2011-12-31"), "unit": pick(rnd, "kg", "m3"),
             "type": pick(rnd, TA, MA), "id": "i%d" % k, "exchanges": [], "filepath": "f%d" % k}
        for f in ("unit", "start date", "reference product"):
            if rnd.random() < 0.1:
                del d[f]
        out.append(d)
    if rnd.random() < 0.15:
        out.append(dict(rnd.choice(out), id="dup"))
    return out


def run_codes(case):
    import json, os, subprocess, sys, random
    from ocelot.transformations.identifying import add_unique_codes
    data = case["data"]
    key = lambda d: "".join(d.get(f, "").lower() for f in ("name", "reference product", "unit", "location", "start date", "end date"))
    rec = {"fn": "codes", "skip": False, "keys": [key(d) for d in data], "codes": [], "codes2": [], "frame": [], "frame2": []}
    rec["frame"] = [proj.canon(d) for d in data]
    perm = list(range(len(data)))
    random.Random(len(rec["keys"][0]) + len(data)).shuffle(perm)
    d2 = [copy.deepcopy(data[i]) for i in perm]
    raw_ = json.dumps(data)
    rec["outcome"], out = call(add_unique_codes, data)
    o2, out2 = call(add_unique_codes, d2)
    if rec["outcome"] != "ok":
        return rec
    rec["codes"] = [common.s(d.get("code", "")) for d in out]
    back = {perm[i]: common.s(d.get("code", "")) for i, d in enumerate(out2 or [])}
    rec["codes2"] = [back.get(i, "") for i in range(len(data))]
    if case.get("proc"):
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import sys, json\nfrom ocelot.transformations.identifying import add_unique_codes\n"
                            "print(json.dumps([d['code'] for d in add_unique_codes(json.loads(sys.argv[1]))]))", raw_],
                           env=dict(os.environ, PYTHONHASHSEED="4711"), capture_output=True, text=True)
        rec["codes2"] = json.loads(p.stdout.strip().splitlines()[-1]) if p.returncode == 0 else []
    for d in out:
        d.pop("code", None)
    rec["frame2"] = [proj.canon(d) for d in out]
    return rec


def gen_cases(prop, tier, rnd, scen):
    n = {"quick": 900, "thorough": 9000}[tier]
    scen = list(scen)
    rnd.shuffle(scen)
    cap = {"quick": 700, "thorough": 10 ** 9}[tier]
    for c in scen[:cap]:
        data = [dbproj.real_ds(d) for d in c]
        if prop == "L08":
            yield {"kind": "model", "fn": "link", "data": data}
            continue
        yield {"kind": "model", "fn": "relabel" if prop == "L02" else "pipeline", "data": data}
    for k in range(n):
        if prop == "L02":
            yield {"kind": "random", "fn": "relabel", "data": relabel_db(rnd)}
            if k % 4 == 0:
                data = world(rnd, consumers=False)
                for d in data:
                    if rnd.random() < 0.1:
                        d["location"] = "RoW"
                yield {"kind": "random", "fn": "rowgroups", "data": data}
        elif prop == "L03":
            fn = pick(rnd, "markets", "markets", "groups")
            data = world(rnd, bad=pick(rnd, 0, 0, 0.3), groups=True)
            if fn == "groups":
                data = one_row(data)
            yield {"kind": "random", "fn": fn, "data": data}
        elif prop == "L04":
            if k % 3 == 0:
                yield {"kind": "random", "fn": "pipeline", "data": world(rnd)}
            else:
                db = Db(rnd)
                d = db.add("act", pick(rnd, MA, MA, MG), "GLO", "x", [
                    {"id": "e0", "name": "y", "type": TI, "unit": "kg", "amount": 2, "code": "q"},
                    with_unc(rnd, {"id": "e1", "name": "x", "type": TI, "unit": "kg", "amount": amount(rnd, zero=0.05, extreme=0.05), "comment": "z",
                                   "properties": [{"name": "price", "amount": 3}]}, 0.7)])
                d["suppliers"] = suppliers(rnd, pick(rnd, 1, 1, 2, 3, 6))
                if k % 3 == 1:
                    yield {"kind": "random", "fn": "split", "data": [d]}
                else:
                    d2 = db.add("act2", pick(rnd, MA, TA, MG), "CH", "x")
                    d2["suppliers"] = suppliers(rnd, pick(rnd, 1, 2, 5))
                    yield {"kind": "random", "fn": "markets", "mkind": pick(rnd, MA, MG), "data": db.data}
        elif prop == "L05":
            if k % 2 == 0:
                yield {"kind": "random", "fn": "pipeline", "data": world(rnd), "groups": k % 4 == 0}
            else:
                db = Db(rnd)
                for j in range(pick(rnd, 1, 2, 4)):
                    d = db.add("market for x%d" % j, MA, pick(rnd, "GLO", "CH"), "x%d" % j)
                    d["suppliers"] = suppliers(rnd, pick(rnd, 0, 1, 2, 5))
                    for e in d["exchanges"]:
                        if e["type"] == RP and rnd.random() < 0.5:
                            e["production volume"]["subtracted activity link volume"] = pick(rnd, 0, 1, 50.5, 1e12)
                yield {"kind": "random", "fn": "update", "mkind": MA, "data": db.data}
        elif prop == "L06":
            yield {"kind": "random", "fn": "groups", "data": world(rnd, bad=pick(rnd, 0, 0.15), consumers=False, rc=0.05)}
        elif prop == "L08":
            data = world(rnd, bad=pick(rnd, 0, 0, 0, 0.1), rc=0.1)
            k8 = k % 8
            if k8 == 0:
                yield {"kind": "random", "fn": "codes", "data": code_data(rnd), "proc": k % 400 == 0}
            elif k8 in (1, 2):
                hard(rnd, data)
                for d in data:       # codes left over from earlier steps
                    for e in d["exchanges"]:
                        if rnd.random() < 0.1:
                            e["code"] = pick(rnd, "old", rnd.choice(data).get("code", "c"))
                yield {"kind": "random", "fn": pick(rnd, "actualize", "rpcodes", "unlinked"), "data": data}
            elif k8 == 3:
                for d in data:
                    if rnd.random() < 0.4:
                        d["location"] = "RoW"
                        for e in d["exchanges"]:
                            if e["type"] == RP and rnd.random() < 0.7:
                                e["production volume"] = {"amount": 0}
                    if rnd.random() < 0.2:
                        x = rnd.choice(data)
                        d["exchanges"].append({"id": d["id"] + "h", "name": x["reference product"], "type": TI, "amount": 1, "unit": "kg", "code": x["code"]})
                    if d["type"] == MA and rnd.random() < 0.5:
                        x = rnd.choice(data)
                        d["suppliers"] = [dict(y, code=z["code"]) for y, z in zip(suppliers(rnd, pick(rnd, 1, 1, 2)), rnd.sample(data, min(2, len(data))))]
                yield {"kind": "random", "fn": "purge", "mkind": pick(rnd, MA, TA), "data": data}
            else:
                raw(rnd, data)
                yield {"kind": "random", "fn": "link", "data": data}
        elif prop == "L07":
            data = world(rnd, bad=pick(rnd, 0, 0, 0.2), rc=0.1)
            if rnd.random() < 0.75:
                fix_missing(data, rnd.random() < 0.7)
            yield {"kind": "random", "fn": pick(rnd, "consumers", "consumers", "consumers", "recycled"), "data": data}


def valid(data):
    """no duplicate market or group at a location (the linking steps' precondition)"""
    seen = set()
    for d in data:
        if d["type"] in (MA, MG):
            k = (d["type"], d["reference product"], d["location"])
            if k in seen:
                return False
            seen.add(k)
        if d["location"] == "RoW" and d["type"] == MG:
            return False
    return True


def run(prop, case):
    from functools import partial
    from ocelot.transformations import locations
    from ocelot.transformations.locations import linking, markets, market_groups, rest_of_world
    g = geo()
    data = case["data"]
    fn = case["fn"]
    if fn == "codes":
        return run_codes(case)

    def dropgroups(x):
        return [d for d in x if d["type"] != MG or "suppliers" in d]

    def add(x):
        return markets.add_suppliers_to_markets(markets.add_recycled_content_suppliers_to_markets(x))
    mkind = case.get("mkind", MA)
    if prop == "L08":
        def whole(x):
            for f in locations.link_markets_by_pv:
                x = f(x)
            return x
        pre, post = [], {"actualize": linking.actualize_activity_links, "rpcodes": linking.add_reference_product_codes,
                         "unlinked": linking.log_and_delete_unlinked_exchanges, "link": whole,
                         "purge": partial(markets.delete_global_with_zero_pv_when_regional_present, kind=mkind)}[fn]
    elif prop in ("L02",):
        steps = {"relabel": rest_of_world.relabel_global_to_row, "rowgroups": market_groups.check_no_row_market_groups}
        pre, post = [], steps[fn]
    elif prop == "L03":
        pre = [rest_of_world.relabel_global_to_row] if fn == "pipeline" else []
        fn = "markets" if fn == "pipeline" else fn
        post = add if fn == "markets" else partial(markets.add_suppliers_to_markets, from_type=MA, to_type=MG)
    elif prop == "L04":
        if fn == "pipeline":
            pre, fn, post = [rest_of_world.relabel_global_to_row, add, markets.update_market_production_volumes], "markets", markets.allocate_all_market_suppliers
        elif fn == "markets":
            pre, post = [], partial(markets.allocate_all_market_suppliers, kind=mkind)
        else:
            pre = []

            def post(x):
                e = [e for e in x[0]["exchanges"] if e["id"] == "e1"][0]
                markets.allocate_suppliers(x[0], is_market=False, exc=e)
                return x
    elif prop == "L05":
        if fn == "pipeline" and not case.get("groups", False):
            pre, post = [rest_of_world.relabel_global_to_row, add], markets.update_market_production_volumes
        elif fn == "pipeline":
            mkind = MG
            pre = [rest_of_world.relabel_global_to_row, add, markets.update_market_production_volumes, market_groups.link_market_group_suppliers, dropgroups]
            post = partial(markets.update_market_production_volumes, kind=MG)
        else:
            pre, post = [], markets.update_market_production_volumes
        fn = "update"
    elif prop == "L06":
        pre = [rest_of_world.relabel_global_to_row] if fn == "pipeline" else []
        fn, post = "groups", market_groups.link_market_group_suppliers
    else:
        pre = [rest_of_world.relabel_global_to_row] if fn == "pipeline" else []
        fn = "consumers" if fn == "pipeline" else fn
        post = linking.link_consumers_to_markets if fn == "consumers" else linking.link_consumers_to_recycled_content_activities
    rec = {"fn": fn, "mkind": mkind, "pos": 0, "skip": False, "src": [], "out": [], "after": [], "outcome": "ok"}
    for f in pre:
        o, v = call(f, data)
        if o != "ok":
            rec["skip"] = True
            data = []
            break
        data = v
    if prop in ("L06", "L07") and not valid(data):
        rec["skip"], data = True, []
    T, _ = g.table([d["location"] for d in data] + ["GLO"])
    rec.update(T=T, src=dbproj.db(data))
    if fn == "split":
        rec["pos"] = 1 + [e["id"] for e in data[0]["exchanges"]].index("e1")
    if rec["skip"]:
        return rec
    rec["outcome"], out = call(post, data)
    rec["after"] = dbproj.db(data)
    rec["out"] = dbproj.db(out) if rec["outcome"] == "ok" else []
    return rec


if __name__ == "__main__":
    geo()
    common.main(gen_cases, run, "the database has at least two datasets and the step was reached",
                lambda p, c, r: not r.get("skip", True) and (len(c["data"]) > 1 or r["fn"] == "split"))
