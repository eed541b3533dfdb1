"""E01, E02, E03: whole system model runs on generated dataset files, and the
conversion of their results to Brightway.

The source datasets are described here once, written as ecospold 2 files for
the real code and projected for the specification; the final database is read
from what ``system_model`` returns."""
import os, shutil, tempfile
import allocation, common, dbproj, gen, proj, spold
from common import call, isolated, num
from gen import ALLOC, pick
from geo import geo
from linking import pool_of, regions

RP, BP, TI = "reference product", "byproduct", "from technosphere"
TOENV, FROMENV = "to environment", "from environment"
TA, MA, MG = "transforming activity", "market activity", "market group"
RCS = ", Recycled Content cut-off"
LEVEL = {"undefined": "0", "new": "1", "modern": "2", "current": "3", "old": "4", "outdated": "5"}
GROUP = {RP: ("outputGroup", "0"), BP: ("outputGroup", "2"), TI: ("inputGroup", "5"), TOENV: ("outputGroup", "4"), FROMENV: ("inputGroup", "4")}
CLASS = {ALLOC: "allocatable product", "waste": "Waste", "recyclable": "Recyclable"}
def unit(name):
    """heat and gas are not weighed, nor are services"""
    return {"heat": "MJ", "biogas": "m3", "service": "unit", "heat scrap": "MJ", "biogas scrap": "m3"}.get(name.replace(RCS, "").split(" 0")[0].split(" 1")[0], "kg")


PRODUCTS = ["steel", "zinc oxide", "bl\u00e9", "2,3-dimethylbutan", "heat", "manure, liquid, cattle", "copper'", "x-ray (medical)", "a", "B c", "biogas", "glass"]


# ------------------------------------------------------------- the world
def amt(rnd):
    return pick(rnd, 1, 1, 2, 0.5, 3, 0.25, 10, 0.1, 2.5, 7, 1.3)


def vol(rnd):
    return pick(rnd, 0, 1, 10, 100, 1000, 12.5, 40, 3, 250000, 7.25)


class World:
    def __init__(self, rnd, model):
        self.rnd, self.model, self.data, self.n, self.asts = rnd, model, [], 0, {}
        self.traded = []                # products with a market

    def exc(self, d, type_, name, amount, **kw):
        e = {"id": "%s-%d" % (d["id"], len(d["exchanges"])), "name": name, "type": type_, "amount": amount, "unit": kw.pop("unit", unit(name)),
             "tag": "elementaryExchange" if type_ in (TOENV, FROMENV) else "intermediateExchange"}
        e.update(kw)
        d["exchanges"].append(e)
        return e

    def out(self, d, type_, name, amount, cls=ALLOC, pv=None, price=None, tv=None, **kw):
        props = ([] if price is None else [gen.price(price)]) + ([] if tv is None else [gen.tv(tv)])
        e = self.exc(d, type_, name, amount, **kw)
        e["byproduct classification"] = cls
        e["production volume"] = {"amount": vol(self.rnd) if pv is None else pv}
        if props:
            e["properties"] = props
        return e

    def ds(self, name, type_, loc):
        self.n += 1
        d = {"id": "i%02d" % self.n, "name": name, "type": type_, "location": loc, "parent": None, "exchanges": [], "parameters": [],
             "technology level": pick(self.rnd, "current", "current", "modern", "old", "new", "undefined") if self.model == "con" else pick(self.rnd, "current", "undefined", "old")}
        self.data.append(d)
        return d


def locations(rnd, pool, n):
    ls = regions(rnd, pool, n, row=0.5, glo=0.3)
    return ["GLO" if l == "RoW" else l for l in ls]


def world(rnd, model):
    w = World(rnd, model)
    names = rnd.sample(PRODUCTS, pick(rnd, 1, 2, 2, 3))
    wastes = ["waste %s" % n for n in names[:pick(rnd, 0, 1, 1, 2)]]
    scraps = ["%s scrap" % n for n in names[:pick(rnd, 0, 0, 1, 2)]]
    pool = pool_of(rnd)
    w.traded = names + wastes
    for p in names + wastes:
        waste = p in wastes
        sign = -1 if waste else 1
        ms = locations(rnd, pool, pick(rnd, 1, 1, 2, 3))
        for l in ms:
            d = w.ds("market for " + p, MA, l)
            w.out(d, RP, p, sign * pick(rnd, 1, 1, 1, 2, 0.5), "waste" if waste else ALLOC, pv=vol(rnd))
        if rnd.random() < 0.35:
            inner = [l for l in ms if l != "GLO"]
            gs = ["GLO"] if not inner else rnd.sample(sorted({"GLO"} | {x for l in inner for x in geo().around(l) if x in pool or x in ("RER", "RNA")}), 1)
            if "GLO" not in gs and rnd.random() < 0.4:
                gs.append("GLO")
            for l in gs:
                d = w.ds("market group for " + p, MG, l)
                w.out(d, RP, p, sign, "waste" if waste else ALLOC, pv=vol(rnd))
        for k in range(pick(rnd, 1, 1, 2)):
            kind = producer_kind(rnd, model, waste, scraps)
            for l in locations(rnd, pool, pick(rnd, 1, 1, 2)):
                produce(w, p, kind, k, l, names, wastes, scraps)
    if rnd.random() < 0.25 and len(names) > 1:
        combined(w, names, pool)
    for k in range(pick(rnd, 0, 1, 2)):
        for l in locations(rnd, pool, pick(rnd, 1, 2)):
            d = w.ds("use %d" % k, TA, l)
            w.out(d, RP, "service %d" % k, amt(rnd))
            inputs(w, d, pick(rnd, 1, 2, 3))
    for d in list(w.data):
        if d["type"] == TA and d.pop("fed", True):
            inputs(w, d, pick(rnd, 0, 1, 1, 2))
        elif d["type"] == MA and rnd.random() < 0.2:
            inputs(w, d, 1)
    hardlinks(w)
    if model == "con":
        constrain(w)
    extras(w)
    for d in w.data:
        rnd.shuffle(d["exchanges"])
    rnd.shuffle(w.data)
    tags = ["constrained"] if any(e.get("conditional exchange") for d in w.data for e in d["exchanges"]) else []
    return {"model": model, "data": w.data, "asts": w.asts, "tags": tags}


def producer_kind(rnd, model, waste, scraps):
    if waste:
        return pick(rnd, "treat", "treat", "recover")
    if model == "con":
        return pick(rnd, "single", "single", "byproduct")
    return pick(rnd, "single", "single", "single", "economic", "economic", *(["recycle"] if scraps else []))


def produce(w, p, kind, k, loc, names, wastes, scraps):
    rnd = w.rnd
    name = {"single": p + " production", "economic": p + " production, multi", "byproduct": p + " production, with more",
            "recycle": p + " from scrap", "treat": "treatment of " + p, "recover": "recovery from " + p}[kind]
    d = w.ds(name + (" %d" % k if k else ""), TA, loc)
    if kind in ("single", "economic", "byproduct"):
        w.out(d, RP, p, amt(rnd), price=pick(rnd, 1, 2, 0.5) if kind == "economic" else None)
        if kind != "single":
            for q in rnd.sample([n for n in names if n != p] + ["side product"], 1):
                if model_ok(w, q):
                    w.out(d, BP, q, amt(rnd), price=pick(rnd, 1, 3, 0.25), tv=pick(rnd, None, None, 2), pv=pick(rnd, 0, 5, 20))
    elif kind == "recycle":
        w.out(d, RP, rnd.choice(scraps), -amt(rnd), "recyclable")
        w.out(d, BP, p, amt(rnd), price=pick(rnd, 1, 2), pv=pick(rnd, 0, 5))
    else:
        w.out(d, RP, p, -amt(rnd), "waste")
        if kind == "recover":
            q = rnd.choice(names)
            w.out(d, BP, q, amt(rnd), pv=pick(rnd, 0, 8), price=1)
    if wastes and rnd.random() < 0.4:
        q = rnd.choice(wastes)
        if q != p:
            w.out(d, BP, q, pick(rnd, 1, 0.25, -0.5), "waste", pv=1)
    if scraps and rnd.random() < 0.4 and model_ok(w, scraps[0]):
        w.out(d, BP, rnd.choice(scraps), pick(rnd, 1, 0.5), "recyclable", pv=1)


def model_ok(w, q):
    """consequential runs mostly need an alternative producer"""
    return w.model == "cut" or q in w.traded or w.rnd.random() < 0.05


def combined(w, names, pool):
    rnd = w.rnd
    mode = pick(rnd, "plain", "plain", "byp") if w.model == "cut" else "plain"
    for _ in range(20):
        d, asts = allocation.combined_ds(rnd, "c", mode)
        if not any(" if " in a for a in asts):
            break
    else:
        return
    x = w.ds("combined production", TA, pick(rnd, "GLO", rnd.choice(pool)))
    i = x["id"]
    used = set()
    for e in d["exchanges"]:
        e = dict(e, id=i + "-" + e["id"])
        e.pop("uncertainty", None)
        e.setdefault("tag", "intermediateExchange")
        if e["type"] == RP and e.get("byproduct classification") != ALLOC:
            e["byproduct classification"] = ALLOC
        if e["type"] == BP and e["byproduct classification"] != ALLOC:
            e["type"] = TOENV
            e.pop("byproduct classification")
        if e["type"] in (RP, BP):
            e["production volume"] = {"amount": vol(rnd)}
            free = [n for n in names if n not in used]
            if free and rnd.random() < 0.6:
                e["name"] = free[0]
            elif e["name"] in PRODUCTS:
                e["name"] = "extra " + e["name"]
            used.add(e["name"])
        elif e["type"] == TI:
            free = [n for n in w.traded]
            e["name"] = rnd.choice(free)
        if e["type"] in (TOENV, FROMENV):
            e["tag"] = "elementaryExchange"
            e.pop("production volume", None)
        e["unit"] = unit(e["name"])
        e["properties"] = [p for p in e.get("properties", []) if p["name"] in ("price",)]
        if not e["properties"]:
            e.pop("properties")
        x["exchanges"].append(e)
    x["parameters"] = d["parameters"]
    x["fed"] = False
    w.asts.update(asts)


def inputs(w, d, n):
    rnd = w.rnd
    rps = [e["name"] for e in d["exchanges"] if e["type"] == RP]
    for _ in range(n):
        if rnd.random() < 0.3:
            w.exc(d, pick(rnd, TOENV, FROMENV), pick(rnd, "CO2", "water"), amt(rnd))
            continue
        free = [n for n in w.traded if d["type"] == TA or n not in rps]
        if free:
            n_ = rnd.choice(free)
            w.exc(d, TI, n_, pick(rnd, -1, 1) * amt(rnd) if n_.startswith("waste") else amt(rnd) * pick(rnd, 1, 1, 1, 1, 0, -1))


def hardlinks(w):
    rnd = w.rnd
    for d in w.data:
        for e in d["exchanges"]:
            if e["type"] != TI or rnd.random() > 0.2 or "formula" in e:
                continue
            makers = [m["id"] for m in w.data if m is not d and sum(1 for x in m["exchanges"] if x["name"] == e["name"] and (x["type"] == RP or x.get("byproduct classification") == ALLOC)) == 1]
            if makers:
                e["activity link"] = rnd.choice(makers)
        if d["type"] == MA and rnd.random() < 0.1:
            rp = [e for e in d["exchanges"] if e["type"] == RP][0]
            makers = [m["id"] for m in w.data if m["type"] == TA and any(x["name"] == rp["name"] and x["type"] == RP for x in m["exchanges"])]
            if makers:
                w.exc(d, TI, rp["name"], pick(rnd, 0.1, 0.25), **{"activity link": rnd.choice(makers)})


def constrain(w):
    """a market with a constrained by-product"""
    rnd = w.rnd
    if rnd.random() > 0.3:
        return
    markets = [d for d in w.data if d["type"] == MA]
    for _ in range(5):
        m = rnd.choice(markets)
        t = [d for d in w.data if d["type"] == TA and d is not m]
        if not t:
            return
        t = rnd.choice(t)
        ins = [e for e in t["exchanges"] if e["type"] == TI and sum(1 for x in t["exchanges"] if x["name"] == e["name"]) == 1 and "activity link" not in e]
        if ins and len([e for e in t["exchanges"] if e["type"] == RP]) == 1:
            name = rnd.choice(ins)["name"]
            if name != [e for e in m["exchanges"] if e["type"] == RP][0]["name"]:
                w.out(m, BP, name, -amt(rnd), ALLOC, pv=1, price=1, **{"activity link": t["id"], "conditional exchange": True})
            return


def extras(w):
    rnd = w.rnd
    if w.model == "cut":
        def cons(e, v):
            e.setdefault("properties", []).append({"name": "consequential", "amount": v, "unit": "dimensionless", "id": "cq"})
        for d in w.data:
            if d["type"] == TA and rnd.random() < 0.1:
                e = w.exc(d, TI, rnd.choice(w.traded), 5)
                cons(e, pick(rnd, 1, 1, 0))
                makers = [m["id"] for m in w.data if m is not d and any(x["name"] == e["name"] and x["type"] == RP for x in m["exchanges"])]
                if makers and rnd.random() < 0.5:
                    e["activity link"] = rnd.choice(makers)
            elif d["type"] == MA and rnd.random() < 0.05:      # constrained: only in the consequential model
                t = rnd.choice(w.data)
                w.out(d, BP, rnd.choice([x["name"] for x in t["exchanges"]]), -amt(rnd), pick(rnd, ALLOC, ALLOC, "waste"), pv=pick(rnd, 0, 3), price=1, **{"activity link": t["id"], "conditional exchange": True})
                if d["exchanges"][-1]["name"] == [e for e in d["exchanges"] if e["type"] == RP][0]["name"]:
                    d["exchanges"].pop()
                else:
                    cons(d["exchanges"][-1], 1)
            for e in d["exchanges"]:
                if e["type"] in (BP, TI) and e.get("byproduct classification") != "recyclable" and "formula" not in e and d["name"] != "combined production" and rnd.random() < 0.03:
                    cons(e, pick(rnd, 1, 1, 0))
        scr = {e["name"] for d in w.data for e in d["exchanges"] if e["type"] == BP and e.get("byproduct classification") == "recyclable"}
        for d in w.data:
            if d["type"] == TA and scr and d["name"].startswith("use") and rnd.random() < 0.4:
                w.exc(d, TI, rnd.choice(sorted(scr)) + RCS, amt(rnd))
    used = []
    for d in w.data:     # children of other activities
        if d["type"] == TA and rnd.random() < 0.1:
            par = rnd.choice(w.data)
            if par is not d:
                d["parent"] = par["id"]
    del used


# ------------------------------------------------------------- two writings
def text(x):
    return repr(x)


def document(d):
    def prop(p):
        return {"id": p.get("id", "p"), "name": p["name"], "amount": text(p["amount"]), "unit": p.get("unit"), "formula": p.get("formula"), "var": p.get("variable")}

    def exch(e):
        o = {"tag": e["tag"], "id": e["id"], "name": e["name"], "unit": e["unit"], "amount": text(e["amount"]), "group": GROUP[e["type"]],
             "link": e.get("activity link"), "formula": e.get("formula"), "var": e.get("variable"), "props": [prop(p) for p in e.get("properties", [])],
             "classes": [("By-product classification", CLASS[e["byproduct classification"]])] if "byproduct classification" in e else []}
        if "production volume" in e:
            o["pv"] = text(e["production volume"]["amount"])
        if e["tag"] == "elementaryExchange":
            o["comp"] = ("air", "unspecified")
        return o
    return {"id": d["id"], "name": d["name"], "type": {TA: "0", MA: "1", MG: "10"}[d["type"]], "location": d["location"], "parent": d["parent"],
            "level": LEVEL[d["technology level"]], "exchanges": [exch(e) for e in d["exchanges"]],
            "parameters": [{"id": p["id"], "name": p["name"], "amount": text(p["amount"]), "unit": p.get("unit"), "var": p.get("variable"), "formula": p.get("formula")} for p in d["parameters"]]}


def source(data, asts):
    out = dbproj.db(data)
    for d, o in zip(data, out):
        o["elems"] = proj.elems(d, asts)
        for e, x in zip(d["exchanges"], o["excs"]):
            x.update(price=proj.prop(e, "price"), tv=proj.prop(e, "true value relation"), fv=[0, 0],
                     cq=any(p["name"] == "consequential" and p["amount"] == 1 for p in e.get("properties", [])))
    return out


def lower(data):
    names = set()
    for d in data:
        own = [e["name"] for e in d["exchanges"]]
        names |= {d["name"]} | set(own) | {n + RCS for n in own} | {d["name"] + ", from " + n for n in own} | {d["name"] + ", from " + n + RCS for n in own}
    return {n: n.lower() for n in names}


IDENTITY = ("code", "economic scenario", "end date", "filepath", "location", "name", "start date", "technology level", "dataset author", "data entry")


def plain(e):
    return {"type": e["type"], "name": e["name"], "unit": e["unit"], "amount": num(e["amount"]), "code": e.get("code") or "",
            "comp": e.get("compartment", ""), "sub": e.get("subcompartment", "")}


def flow(f):
    inp = f.get("input", ("", ""))
    assert isinstance(inp, tuple) and len(inp) == 2
    env = f["type"] == "biosphere"
    return {"type": common.s(f["type"]), "amount": num(f["amount"]), "db": common.s(inp[0]), "code": common.s(inp[1]),
            "name": common.s(f["name"]) if env else "", "unit": common.s(f["unit"]) if env else "", "cats": [common.s(c) for c in f.get("categories", ())]}


def export(data, dbname):
    """each activity of a finished run beside what Brightway is given for it"""
    from ocelot.io.brightway2 import Brightway2Converter as B
    src = [{"fields": [proj.canon(d[f]) for f in IDENTITY], "code": d["code"], "ex": [plain(e) for e in d["exchanges"]]} for d in data]
    acts = []
    for d in data:
        what, r = call(lambda: list(B.convert_to_brightway2([d], dbname)))
        a = {"out": what, "n": 1, "fields": [], "db": "", "unit": "", "rp": "", "amount": num(0), "ex": []}
        if what == "ok":
            a["n"] = len(r)
            r = r[0]
            a.update(fields=[proj.canon(r.get(f)) for f in IDENTITY], db=common.s(r["database"]), unit=common.s(r["unit"]), rp=common.s(r["reference product"]),
                     amount=num(r["production amount"]), ex=[flow(f) for f in r["exchanges"]])
        acts.append(a)
    whole, r = call(lambda: list(B.convert_to_brightway2(data, dbname)))
    return {"dbname": dbname, "lin": src, "acts": acts, "whole": len(r) if whole == "ok" else -1}


def execute(case):
    import ocelot
    root = tempfile.mkdtemp(prefix="pipe-")
    try:
        os.environ["XDG_DATA_HOME"] = os.path.join(root, "data")
        os.environ["HOME"] = os.path.join(root, "home")
        os.environ["OCELOT_OUTPUT"] = os.path.join(root, "out")
        for x in ("data", "home", "out", "src"):
            os.makedirs(os.path.join(root, x))
        for k, d in enumerate(case["data"]):
            with open(os.path.join(root, "src", "%s.spold" % d["id"]), "w", encoding="utf-8") as f:
                f.write(spold.document(document(d)))
        src = os.path.join(root, "src")
        pre, _ = call(lambda: ocelot.io.extract_directory(src, use_cache=True, use_mp=False))
        assert pre == "ok", pre
        what, res = call(lambda: ocelot.system_model(src, case.get("config") or None), _timeout=60)
        if what == "ok" and not (isinstance(res, tuple) and len(res) == 2):
            raise TypeError("system_model returned %r" % type(res))
        if case.get("export"):
            return dict(export(res[1] if what == "ok" else [], case["export"]), outcome=what)
        return {"outcome": what, "fin": dbproj.db(res[1]) if what == "ok" else []}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(prop, case):
    if prop == "E03":
        return dict(isolated(execute, case), model=case["model"])
    locs = [d["location"] for d in case["data"]]
    rec = {"model": case["model"], "T": geo().table(locs)[0], "low": lower(case["data"]), "src": source(case["data"], case["asts"])}
    rec.update(isolated(execute, case))
    return rec


# ------------------------------------------------------------------ cases
def real(c):
    """a scenario of the specification"""
    data = []
    for x in c:
        d = dbproj.real_ds(x)
        d["technology level"] = x["tech"] or "current"
        d.setdefault("parameters", [])
        for e, y in zip(d["exchanges"], x["excs"]):
            props = []
            if gen.q(y["price"]) is not None:
                props.append(gen.price(gen.q(y["price"])))
            if gen.q(y["tv"]) is not None:
                props.append(gen.tv(gen.q(y["tv"])))
            if props:
                e["properties"] = props
            if e["type"] in (TOENV, FROMENV):
                e["tag"] = "elementaryExchange"
        data.append(d)
    return data


def corner(model):
    """an activity turned around by a constrained market supplies a market"""
    def d(i, name, type_, loc, *excs):
        return {"id": i, "name": name, "type": type_, "location": loc, "parent": None, "parameters": [], "technology level": "current",
                "exchanges": [dict(e, id="%s-%d" % (i, k), unit="kg", tag="intermediateExchange") for k, e in enumerate(excs)]}

    def out(n, a, t=RP, **kw):
        return dict({"name": n, "type": t, "amount": a, "byproduct classification": ALLOC, "production volume": {"amount": 10}}, **kw)
    if model == "con":
        t = d("i1", "making a", TA, "GLO", out("a", 1), {"name": "b", "type": TI, "amount": 0.5})
        m = d("i2", "market for a", MA, "GLO", out("a", 1), out("b", -0.5, BP, **{"activity link": "i1", "conditional exchange": True}))
        yield [t, m, d("i3", "market for b", MA, "GLO", out("b", 1))], ["constrained"]


def market_links(rnd, data):
    """products of activities that say to which market they go"""
    for d in data:
        for e in d["exchanges"]:
            if d["type"] == TA and e["type"] == RP and rnd.random() < 0.5:
                ms = [m["id"] for m in data if m["type"] == MA and any(x["type"] == RP and x["name"] == e["name"] for x in m["exchanges"])]
                if ms:
                    e["activity link"] = rnd.choice(ms)


def gen_exports(tier, rnd, scen):
    """worlds of both models; what becomes of by-products is a tag"""
    configs = {"cut": ["cutoff", "", "cutoff_ecoinvent_row"], "con": ["consequential"]}

    def case(k, c, model, kind):
        held = model == "con" and any(e["type"] == BP for d in c["data"] for e in d["exchanges"])
        return dict(c, kind=kind, model=model, config=configs[model][k % len(configs[model])], export=pick(rnd, "db", "ocelot run", "\u00e9 2"),
                    tags=c.get("tags", []) + (["byproducts"] if held else []))
    if tier == "quick":
        scen = rnd.sample(scen, min(len(scen), 200))
    for k, c in enumerate(scen):
        yield case(k, {"data": real(c), "asts": {}}, "con", "model")
    for k in range({"quick": 400, "thorough": 5000}[tier]):
        model = ["cut", "con"][k % 2]
        c = world(rnd, model)
        if rnd.random() < 0.3:
            market_links(rnd, c["data"])
        yield case(k // 2, c, model, "random")


def gen_cases(prop, tier, rnd, scen):
    if prop == "E03":
        yield from gen_exports(tier, rnd, scen)
        return
    model = {"E01": "cut", "E02": "con"}[prop]
    configs = ["cutoff", "", "cutoff_ecoinvent_row"] if model == "cut" else ["consequential"]
    if tier == "quick":
        scen = rnd.sample(scen, min(len(scen), 300))
    for k, c in enumerate(scen):
        yield {"kind": "model", "model": model, "data": real(c), "asts": {}, "config": configs[k % len(configs)]}
    for data, tags in corner(model):
        yield {"kind": "corner", "model": model, "data": data, "asts": {}, "config": configs[0], "tags": tags}
    for k in range({"quick": 450, "thorough": 5000}[tier]):
        c = world(rnd, model)
        c.update(kind="random", config=configs[k % len(configs)])
        yield c


def nontrivial(prop, case, r):
    if prop == "E03":
        return any(f["type"] == "technosphere" for a in r["acts"] for f in a["ex"])
    return any(e["code"] and e["type"] == TI for d in r["fin"] for e in d["excs"])


if __name__ == "__main__":
    linked = "runs that finish with at least one linked input"
    common.main(gen_cases, run, {"E01": linked, "E02": linked, "E03": "finished runs of which an activity with an input was converted"}, nontrivial)
