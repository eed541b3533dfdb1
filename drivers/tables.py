"""Driver for R01: rows of the report tables against what was changed."""
import copy, logging, re
import common, dbproj
from common import call, num, s
from gen import pick

RP, BP, TI = "reference product", "byproduct", "from technosphere"
TA, MA, MG = "transforming activity", "market activity", "market group"
ALLOC, RCS = "allocatable product", ", Recycled Content cut-off"
CLS = (ALLOC, "waste", "recyclable")


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.rows = []

    def emit(self, record):
        if isinstance(record.msg, dict) and record.msg.get("type") == "table element":
            self.rows.append(record.msg["data"])


def cell(x):
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return {"t": "", "n": num(x)}
    return {"t": s(x), "n": [0, 0]}


def slots(d):
    for e in d["exchanges"]:
        yield e
        if isinstance(e.get("production volume"), dict):
            yield e["production volume"]
        yield from e.get("properties", [])
    yield from d.get("parameters", [])


def slot(o, pieces):
    f = s(o.get("formula", ""))
    return {"var": s(o.get("variable", "")), "f": f, "words": re.findall(r"[A-Za-z_]\w*", f), "dense": f.replace(" ", ""), "pieces": pieces}


def after(pieces, f):
    """the pieces of a formula in which references were replaced"""
    m = re.fullmatch("".join(r"(\w+)" if p["k"] else re.escape(p["t"]) for p in pieces), f)
    it = iter(m.groups() if m else ["?"] * len(pieces))
    return [dict(p, t=next(it)) if p["k"] else p for p in pieces]


def project(data, before=None):
    out = dbproj.db(data)
    for i, (d, o) in enumerate(zip(data, out)):
        o["label"] = s(d.get("allocation method", ""))
        q = []
        for k, p in enumerate(slots(d)):
            if before is None:
                pieces = p.pop("pieces", None) or []
            else:
                b = before[i]["slots"] if i < len(before) else []
                pieces = after(b[k]["pieces"], s(p.get("formula", ""))) if k < len(b) else []
            q.append(slot(p, pieces))
        o["slots"] = q
    return out


# ------------------------------------------------------------------- the steps
def functions():
    from ocelot.transformations.cutoff import cleanup, markets, wastes, combined, allocation
    from ocelot.transformations import activity_links, production_volumes, utils
    from ocelot.transformations.parameterization import production_volumes as ppv, python_compatibility as pc, implicit_references, recalculation
    from ocelot.transformations.locations import linking, markets as lm, market_groups, rest_of_world
    from ocelot.transformations.consequential import constrained_markets as cm, technology_levels as tl
    each = lambda f: lambda db: [x for d in db for x in f(d)]
    return {
        "zero": (cleanup.drop_zero_amount_activity_links, None), "rps": (cleanup.drop_rp_activity_links, None),
        "conseq": (cleanup.remove_consequential_exchanges, None), "child": (activity_links.update_activity_link_parent_child, None),
        "shift": (ppv.create_pv_parameters, None), "supply": (production_volumes.add_pv_to_allocatable_byproducts, None),
        "conditional": (markets.constrained_market_allocation, lambda f: lambda db: [f(d) for d in db]),
        "flip": (wastes.flip_non_allocatable_byproducts, None), "rename": (wastes.rename_recycled_content_products_after_linking, None),
        "recycle": (wastes.create_recycled_content_datasets, None), "unlinked": (linking.log_and_delete_unlinked_exchanges, None),
        "turned": (cm.handle_constrained_markets, None), "freed": (cm.delete_activity_links_to_constrained_markets, None),
        "signs": (markets.adjust_market_signs_for_allocatable_products, None), "scaled": (utils.normalize_reference_production_amount, each),
        "purge": (lm.delete_global_with_zero_pv_when_regional_present, None), "levelled": (tl.switch_undefined_to_current, None),
        "mixed": (tl.log_conflicting_technology_levels, None), "volumes": (lm.update_market_production_volumes, None),
        "groups": (market_groups.link_market_group_suppliers, None), "actual": (linking.actualize_activity_links, None),
        "recycled": (linking.link_consumers_to_recycled_content_activities, None), "split": (linking.link_consumers_to_markets, None),
        "parts": (combined.combined_production, lambda f: lambda db: f(db[0])), "labels": (allocation.label_allocation_method, None),
        "cut": (pc.delete_unparsable_formulas, None), "spelt": (pc.replace_reserved_words, None),
        "resolved": (implicit_references.replace_implicit_references, None), "failed": (recalculation.recalculate_all_parameterized_datasets, None),
        "moved": (rest_of_world.relabel_global_to_row, None)}


# ---------------------------------------------------------------------- inputs
class Maker:
    def __init__(self, rnd):
        self.rnd, self.n = rnd, 0

    def amount(self, *more):
        return pick(self.rnd, 1, 2, 2.5, -3, 0.5, 7, *more)

    def exc(self, name=None, typ=TI, **kw):
        rnd = self.rnd
        self.n += 1
        e = {"id": "e%d" % self.n, "name": name or pick(rnd, "p", "q", "r"), "type": typ, "unit": "kg", "tag": "intermediateExchange", "amount": self.amount()}
        if typ in (RP, BP):
            e["byproduct classification"] = ALLOC
            e["production volume"] = {"amount": pick(rnd, 1, 4, 10, 2.5)}
        e.update(kw)
        return e

    def ds(self, i, typ=TA, excs=(), **kw):
        rnd = self.rnd
        product = kw.pop("product", None) or pick(rnd, "p", "q")
        rp = kw.pop("rp", None) or self.exc(product, RP)
        excs = [rp] + list(excs)
        rnd.shuffle(excs)
        d = {"id": "d%s" % i, "name": pick(rnd, "a", "b", "c"), "type": typ, "location": pick(rnd, "GLO", "CH", "FR", "RoW"), "filepath": "x.spold", "parent": None, "code": "c%s" % i,
             "reference product": rp["name"], "exchanges": excs, "parameters": [], "technology level": "current", "start date": "2001-01-01", "end date": "2010-12-31",
             "access restricted": "public", "economic scenario": "BAU", "dataset author": "x", "data entry": "y"}
        d.update(kw)
        return d


def formulas(rnd, d, kind, words, m):
    """parameters and formulas of a dataset"""
    names = rnd.sample(words, rnd.randrange(1, 4))
    for v in names:
        d["parameters"].append({"id": "%s%s" % (d["id"], v), "name": v, "amount": 2, "unit": "kg", "variable": v})
    objs = [o for o in slots(d)]
    for o in objs:
        if rnd.random() < 0.6:
            continue
        k = rnd.randrange(1, 4)
        o["formula"] = (" %s " % pick(rnd, "+", "*", "-")).join([rnd.choice(names + ["3"]) for _ in range(k)])
    return names


WORDS = ["x1", "yield_total", "beta", "gamma1", "w"]
RES = ["yield", "lambda", "x", "in", "is", "class", "or", "yield_total", "Y"]
UUIDS = ["%08x-0000-4000-8000-00000000000%d" % (k, k) for k in range(6)]


def random_db(rnd, fn):
    m = Maker(rnd)
    n = rnd.randrange(1, 5)
    ids = ["d%d" % i for i in range(n)]
    some = lambda lo, hi, f: [f() for _ in range(rnd.randrange(lo, hi))]
    link = lambda e: dict(e, **({"activity link": rnd.choice(ids)} if rnd.random() < 0.6 else {}))
    if fn in ("zero", "rps", "unlinked"):
        out = []
        for i in range(n):
            d = m.ds(i, pick(rnd, TA, MA), some(0, 4, lambda: link(m.exc(None, pick(rnd, TI, TI, BP, "dropped product", RP), amount=m.amount(0, 0, 0.0, 1e-30)))))
            for e in d["exchanges"]:
                if rnd.random() < 0.2:
                    e["code"] = pick(rnd, "", "c0")
            out.append(d)
        return out
    if fn == "conseq":
        return [m.ds(i, TA, some(0, 5, lambda: dict(m.exc(None, pick(rnd, TI, BP)), properties=[{"id": "p", "name": pick(rnd, "consequential", "consequential", "price"), "amount": pick(rnd, 0, 1, 1.0, 2), "unit": "kg"}
                for _ in range(rnd.randrange(3))]))) for i in range(n)]
    if fn == "child":
        return [m.ds(i, TA, some(0, 5, lambda: dict(m.exc(None, pick(rnd, TI, TI, BP, "to environment")), **{"activity link": pick(rnd, "P", "d0", "P2")})), parent=pick(rnd, None, "P", "P", "P2")) for i in range(n)]
    if fn == "shift":
        out = [m.ds(i, TA, some(0, 4, lambda: m.exc(None, pick(rnd, RP, BP, TI)))) for i in range(n)]
        for d in out:
            for k, e in enumerate(d["exchanges"]):
                if "production volume" in e:
                    if rnd.random() < 0.5:
                        e["production volume"]["variable"] = "v%d" % k
                    if rnd.random() < 0.5:
                        e["production volume"]["formula"] = "1 + 2"
        return out
    if fn == "supply":
        return [m.ds(i, TA, some(0, 4, lambda: m.exc(None, BP, **{"byproduct classification": rnd.choice(CLS), "production volume": {"amount": pick(rnd, 0, 0, 0.0, 5)}})),
                rp=m.exc("p", RP, amount=pick(rnd, 1, 2, 0.5, -4))) for i in range(n)]
    if fn == "conditional":
        return [m.ds(i, MA, some(0, 4, lambda: m.exc(None, pick(rnd, BP, BP, TI), **{"conditional exchange": rnd.random() < 0.6}))) for i in range(n)]
    if fn in ("flip", "recycle"):
        return [m.ds(i, TA, some(0, 5, lambda: m.exc(None, pick(rnd, BP, BP, TI, RP), **{"byproduct classification": rnd.choice(CLS)}))) for i in range(n)]
    if fn == "rename":
        nm = lambda: pick(rnd, "p", "p" + RCS, "q" + RCS, "Recycled Content cut-off", RCS + " p", "p" + RCS.lower())
        return [m.ds(i, TA, some(0, 4, lambda: m.exc(nm(), pick(rnd, TI, BP))), product=nm()) for i in range(n)]
    if fn in ("turned", "freed"):
        out = []
        for i in range(n):
            flow = "f%d" % i
            out.append(m.ds("t%d" % i, TA, [m.exc(flow, TI, amount=pick(rnd, 2, 0.5))] + some(0, 3, lambda: m.exc("z%d" % rnd.randrange(9), TI)), product="o%d" % i))
            mk = m.ds("m%d" % i, MA, some(0, 2, lambda: m.exc("z", TI)), product="k%d" % i)
            if rnd.random() < 0.8:
                mk["exchanges"].append(m.exc(flow, BP, amount=-2, **{"activity link": "dt%d" % i, "conditional exchange": True}))
            out.append(mk)
        if fn == "freed":
            for d in out:
                for e in d["exchanges"]:
                    if e["type"] == TI and rnd.random() < 0.5:
                        e["activity link"] = "d%s%d" % (pick(rnd, "t", "t", "m"), rnd.randrange(n))
        rnd.shuffle(out)
        return out
    if fn == "signs":
        out = []
        for i in range(n):
            sign = pick(rnd, 1, -1, -1)
            out.append(m.ds(i, pick(rnd, MA, MA, MG, TA), [m.exc(None, TI, amount=pick(rnd, sign, sign, -sign, 0) * 2) for _ in range(rnd.randrange(3))],
                            rp=m.exc("p", RP, amount=pick(rnd, -1, 1, -2.5), **{"byproduct classification": pick(rnd, ALLOC, "waste", "recyclable")})))
        return out
    if fn == "scaled":
        return [m.ds(i, TA, some(0, 3, m.exc), rp=m.exc("p", RP, amount=pick(rnd, 1, -1, 2, -4, 0.3, 1 + 1e-15, 1e9, 1 - 1e-6))) for i in range(n)]
    if fn == "purge":
        out = []
        for i in range(n + 2):
            d = m.ds(i, pick(rnd, MA, MA, MA, MG, TA), some(0, 2, lambda: dict(m.exc(None, TI), code="c%d" % rnd.randrange(9))), location=pick(rnd, "RoW", "CH", "FR", "GLO"), product=pick(rnd, "p", "q"))
            rp = [e for e in d["exchanges"] if e["type"] == RP][0]
            rp["production volume"] = dict({"amount": pick(rnd, 0, 0, 3)}, **({"original amount": pick(rnd, 0, 3)} if rnd.random() < 0.4 else {}))
            out.append(d)
        return out
    if fn in ("levelled", "mixed"):
        return [m.ds(i, pick(rnd, TA, TA, MA), **{"technology level": pick(rnd, "undefined", "undefined", "current", "modern"), "product": pick(rnd, "p", "q", "r")}) for i in range(n + 2)]
    if fn == "volumes":
        out, prod = [], ["p", "q"]
        for i in range(n):
            d = m.ds(i, pick(rnd, MA, MA, TA), product=rnd.choice(prod))
            rp = [e for e in d["exchanges"] if e["type"] == RP][0]
            if rnd.random() < 0.5:
                rp["production volume"]["subtracted activity link volume"] = pick(rnd, 0, 1, 2.5, 100)
            d["suppliers"] = []
            for k in range(rnd.randrange(0, 4)):
                v = {"amount": pick(rnd, 0, 1, 4, 10)}
                if rnd.random() < 0.5:
                    v["original amount"] = v["amount"] + 2
                if rnd.random() < 0.5:
                    v["subtracted activity link volume"] = pick(rnd, 0, 2)
                d["suppliers"].append(dict(m.exc(rp["name"], RP), code="s%d" % k, location="CH", activity="a", **{"production volume": v}))
            out.append(d)
        return out
    if fn in ("groups", "split"):
        out, k = [], 0
        for p in ("p", "q"):
            for loc in rnd.sample(["CH", "FR", "DE", "IT", "AT"], rnd.randrange(1, 5)) + (["RoW"] if rnd.random() < 0.3 else []):
                out.append(m.ds(k, MA, product=p, name="market for " + p, location=loc)); k += 1
            for loc in rnd.sample(["RER", "GLO", "Europe without Switzerland", "DE"], rnd.randrange(0, 4) if fn == "groups" or rnd.random() < 0.4 else 0):
                if not any(d["location"] == loc and d["reference product"] == p for d in out):
                    out.append(m.ds(k, MG, product=p, name="market group for " + p, location=loc)); k += 1
        if fn == "split":
            for i in range(n):
                out.append(m.ds(k, TA, [m.exc(x, TI) for x in rnd.sample(["p", "q"], rnd.randrange(0, 3))], product="z%d" % i, name="act%d" % i, location=pick(rnd, "RER", "CH", "GLO", "FR"))); k += 1
        rnd.shuffle(out)
        return out
    if fn == "actual":
        out = [m.ds(i, TA, some(0, 4, lambda: link(m.exc(None, TI))), product=pick(rnd, "p", "q")) for i in range(n)]
        for d in list(out):
            if rnd.random() < 0.4:           # several products, or one twice, from one activity
                x = copy.deepcopy(d)
                x["exchanges"] = [m.exc(pick(rnd, "p", "q", "r"), RP)]
                x["reference product"], x["code"] = x["exchanges"][0]["name"], x["code"] + "x"
                out.append(x)
        return out
    if fn == "recycled":
        out = [m.ds(i, TA, some(0, 4, lambda: m.exc(pick(rnd, "p" + RCS, "q" + RCS, "p"), TI)), product="z") for i in range(n)]
        for k, p in enumerate(["p" + RCS] + (["q" + RCS] * rnd.randrange(0, 3))):
            out.append(m.ds("r%d" % k, pick(rnd, TA, TA, TA, MA), product=p, name=p, location="GLO"))
        rnd.shuffle(out)
        return out
    if fn == "parts":
        d = m.ds(0, TA, some(0, 3, lambda: m.exc(None, pick(rnd, TI, BP))))
        d["exchanges"] += [m.exc("p%d" % k, RP, amount=pick(rnd, 0, 1, 2), variable="v%d" % k) for k in range(rnd.randrange(1, 4))]
        return [d]
    if fn == "labels":
        out = []
        for i in range(n + 1):
            c = rnd.choice(CLS)
            out.append(m.ds(i, pick(rnd, TA, TA, MA, MG), some(0, 3, lambda: m.exc(None, pick(rnd, BP, TI), **{"byproduct classification": rnd.choice(CLS), "conditional exchange": rnd.random() < 0.2})),
                            rp=m.exc("p", RP, amount=pick(rnd, 1, -1), **{"byproduct classification": c})))
            if rnd.random() < 0.3:
                out[-1]["exchanges"].append(m.exc("p2", RP, amount=1, **{"byproduct classification": c}))
        return out
    if fn in ("cut", "spelt", "failed"):
        out = [m.ds(i, TA, some(0, 3, lambda: m.exc(None, pick(rnd, TI, BP)))) for i in range(n)]
        for d in out:
            for e in d["exchanges"]:
                if rnd.random() < 0.3:
                    e["properties"] = [{"id": "x", "name": "price", "amount": 1, "unit": "kg"}]
            names = formulas(rnd, d, fn, RES if fn == "spelt" else WORDS, m)
            for o in slots(d):
                if fn == "cut" and rnd.random() < 0.3:
                    o["formula"] = pick(rnd, "x +", "2 * (3", "x + " * 20, "a b", "1;2", "(((" + "x * y + " * 9)
                if fn == "failed" and rnd.random() < 0.08:
                    o["formula"] = rnd.choice(names) + pick(rnd, " + missing", " * 2 + nope1", " - " + rnd.choice(names))
        return out
    if fn == "resolved":
        out = []
        for i in range(n):
            d = m.ds(i, TA, [m.exc(None, pick(rnd, TI, BP)) for _ in range(3)])
            for k, e in enumerate(d["exchanges"]):
                e["id"] = UUIDS[k]
                if rnd.random() < 0.3:
                    e["variable"] = "ve%d" % k
            d["parameters"] = [{"id": UUIDS[4], "name": "x", "amount": 1, "unit": "kg"}, {"id": UUIDS[5], "name": "y", "amount": 1, "unit": "kg", "variable": "y"}]
            pvs = [e["id"] for e in d["exchanges"] if "production volume" in e]
            for o in slots(d):
                if rnd.random() < 0.5:
                    q = [{"k": 0, "t": pick(rnd, "", "2 * ", "(y + ")}]
                    for _ in range(rnd.randrange(0, 4)):
                        r = "%s('%s'%s)" % ((pick(rnd, "Ref", "ref"),) + ((rnd.choice(pvs), ", 'ProductionVolume'") if rnd.random() < 0.4 else (rnd.choice(UUIDS[:4] + UUIDS[4:]), "")))
                        q += [{"k": 1, "t": r}, {"k": 0, "t": pick(rnd, " + ", " * 2 - ", ")")}]
                    o["formula"], o["pieces"] = "".join(p["t"] for p in q) or "1", q
                    if o["formula"] == "1":
                        o["pieces"] = [{"k": 0, "t": "1"}]
            out.append(d)
        return out
    if fn == "moved":
        out, k = [], 0
        for name in rnd.sample(["a", "b", "c"], rnd.randrange(1, 4)):
            prods = rnd.sample(["p", "q", "r"], rnd.randrange(1, 4))
            typ = pick(rnd, TA, TA, MA, MG)
            for loc in rnd.sample(["CH", "FR", "DE"], rnd.randrange(0, 3)) + (["GLO"] if rnd.random() < 0.8 else []):
                ps = prods if rnd.random() < 0.8 else prods[:1]
                out.append(m.ds(k, typ, [m.exc(x, BP, amount=pick(rnd, 1, 2, 3)) for x in ps[1:]], product=ps[0], name=name, location=loc)); k += 1
        rnd.shuffle(out)
        return out
    raise ValueError(fn)


def real(c):
    out = [dbproj.real_ds(d) for d in c["db"]]
    for d, x in zip(out, c["db"]):
        for k in ("access restricted", "economic scenario", "dataset author", "data entry"):
            d.setdefault(k, "x")
        d.setdefault("technology level", "current")
        d["code"] = x["code"]
        for e, y in zip(d["exchanges"], x["excs"]):
            if y["props"]:
                e["properties"] = [{"id": "p", "name": "consequential", "unit": "kg", "amount": {"one": 1, "zero": 0, "two": 2}[y["props"]]}]
            if e["type"] in (RP, BP):
                e.setdefault("byproduct classification", "waste")
    return out


STEPS = ["zero", "rps", "conseq", "child", "shift", "supply", "conditional", "flip", "rename", "recycle", "unlinked", "turned", "freed", "signs", "scaled", "purge", "levelled",
         "mixed", "volumes", "groups", "actual", "recycled", "split", "parts", "labels", "cut", "spelt", "resolved", "failed", "moved"]


def gen_cases(prop, tier, rnd, scen):
    n = {"quick": 6000, "thorough": 60000}[tier]
    for c in scen:
        if tier == "thorough" or rnd.random() < 0.3:
            yield {"kind": "model", "fn": c["fn"], "data": real(c)}
    for j in range(n):
        fn = STEPS[j % len(STEPS)]
        yield {"kind": "random", "fn": fn, "data": random_db(rnd, fn)}


def run(prop, case):
    data, fn = case["data"], case["fn"]
    f, wrap = functions()[fn]
    width = len(f.__table__["columns"])
    src = project(data)
    log, h = logging.getLogger("ocelot"), Log()
    level = log.level
    log.addHandler(h)
    log.setLevel(logging.INFO)
    try:
        outcome, out = call(wrap(f) if wrap else f, data)
    finally:
        log.removeHandler(h)
        log.setLevel(level)
    rec = {"fn": fn, "of": MA, "src": src, "outcome": outcome, "out": project(out, src) if outcome == "ok" else [], "rows": [], "width": width,
           "widths": [len(r) if isinstance(r, (tuple, list)) else 0 for r in h.rows]}
    for r in h.rows:
        r = list(r) if isinstance(r, (tuple, list)) else [r]
        if fn == "moved" and isinstance(r[-1], str):
            r = r[:-1] + r[-1].split("; ")
        if fn == "spelt" and isinstance(r[1], str):
            r = r[:1] + r[1].split(";") + r[2:]
        if fn == "cut" and isinstance(r[-1], str):
            r = r[:-1] + [r[-1].replace(" ", "")]
        rec["rows"].append([cell(x) for x in r])
    return rec


if __name__ == "__main__":
    common.main(gen_cases, run, "the table of the transformation is not empty",
                lambda p, c, r: bool(r["rows"]))
