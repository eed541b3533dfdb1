"""Driver for R02: messages of the detailed log against what was done."""
import logging, re
import common, dbproj, tables
from common import call, num, s
from gen import pick
from tables import Maker, RP, BP, TI, TA, MA, MG, ALLOC, CLS

NUMBER = re.compile(r"(?<![\w.])-?\d+(?:\.\d+)?(?:e[+-]?\d+)?(?![\w])")


class Details(logging.Handler):
    def __init__(self, known):
        super().__init__()
        self.msgs, self.known = [], known

    def emit(self, record):
        m = record.msg
        if not isinstance(m, dict):
            self.msgs.append({"code": "?", "named": False, "words": [], "nums": []})
            return
        text = m.get("message")
        named = isinstance(text, str) and isinstance(m.get("function"), str) and bool(m["function"]) and isinstance(m.get("ds"), dict)
        text = str(text)
        words = [w for w in self.known if re.search(r"(?<!\w)%s(?!\w)" % re.escape(w), text)]
        self.msgs.append({"code": s(m["ds"].get("code", "")) if named else "?", "named": named, "words": words, "nums": [num(float(x)) for x in NUMBER.findall(text)]})


def functions():
    from ocelot.transformations.cutoff import allocation
    from ocelot.transformations import activity_links as al
    from ocelot.transformations.locations import linking, markets as lm, rest_of_world
    return {"actual": linking.actualize_activity_links, "labels": allocation.label_allocation_method, "moved": rest_of_world.relabel_global_to_row,
            "hard": al.add_hard_linked_production_volumes, "shrunk": al.update_transforming_activity_production_volumes,
            "divided": lm.allocate_all_market_suppliers, "split": linking.link_consumers_to_markets}


def hard_db(rnd, shrunk):
    m = Maker(rnd)
    n = rnd.randrange(1, 5)
    out = []
    for i in range(n):
        ps = rnd.sample(["p", "q", "r"], rnd.randrange(1, 4))
        out.append(m.ds(i, pick(rnd, TA, TA, MA), [m.exc(x, BP) for x in ps[1:]], product=ps[0]))
    for i, d in enumerate(out):
        for k in range(rnd.randrange(0, 4)):
            t = rnd.choice(out)
            e = rnd.choice([e for e in t["exchanges"] if e["type"] in (RP, BP)])
            d["exchanges"].append(m.exc(e["name"], TI, **{"activity link": t["id"]}))
        if shrunk:
            for e in d["exchanges"]:
                if "production volume" in e and rnd.random() < 0.6:
                    e["production volume"]["subtracted activity link volume"] = pick(rnd, 0, 1, 2.5, 17)
        else:
            rnd.shuffle(d["exchanges"])
    return out


def divided_db(rnd):
    m = Maker(rnd)
    out = []
    for i in range(rnd.randrange(1, 5)):
        d = m.ds(i, pick(rnd, MA, MA, MG, TA), location=pick(rnd, "RER", "GLO", "RoW"))
        rp = [e for e in d["exchanges"] if e["type"] == RP][0]
        if d["type"] != TA:
            d["suppliers"] = [dict(m.exc(rp["name"], RP), code="s%d%d" % (i, k), location=pick(rnd, "CH", "FR", "DE"), name=pick(rnd, "maker", "factory", "plant 2"), **{"production volume": {"amount": pick(rnd, 0, 1, 4, 10, 2.5)}})
                              for k in range(rnd.randrange(1, 4))]
            for x in d["suppliers"]:
                x["activity"] = x["name"]
        out.append(d)
    return out


STEPS = ["actual", "labels", "moved", "hard", "shrunk", "divided", "split"]


def make(rnd, fn):
    if fn in ("hard", "shrunk"):
        return hard_db(rnd, fn == "shrunk")
    return divided_db(rnd) if fn == "divided" else tables.random_db(rnd, fn)


def real(c):
    out = tables.real({"db": c["db"]})
    for d, x in zip(out, c["db"]):
        if x["hassup"]:
            d["suppliers"] = [{"code": y["code"], "name": y["name"], "location": y["loc"], "unit": "kg", "type": RP, "amount": 1, "production volume": {"amount": y["pv"]["amt"][0] / y["pv"]["amt"][1]}} for y in x["sup"]]
    return out


def gen_cases(prop, tier, rnd, scen):
    for c in scen:
        if tier == "thorough" or rnd.random() < 0.5:
            yield {"kind": "model", "fn": c["fn"], "of": MA, "data": real(c)}
    for j in range({"quick": 4200, "thorough": 50000}[tier]):
        fn = STEPS[j % len(STEPS)]
        yield {"kind": "random", "fn": fn, "of": pick(rnd, MA, MA, MG) if fn == "divided" else MA, "data": make(rnd, fn)}


def run(prop, case):
    data, fn = case["data"], case["fn"]
    f = functions()[fn]
    src = tables.project(data)
    known = {x for d in data for x in [d["name"], d["location"], d.get("reference product", "")] + [e["name"] for e in d["exchanges"]] + [e["unit"] for e in d["exchanges"]]
             + [y for p in d.get("suppliers", []) for y in (p["name"], p["location"])]}
    from ocelot.transformations.cutoff.allocation import ALLOCATION_METHODS
    known |= {str(x) for x, _ in ALLOCATION_METHODS}
    log, h = logging.getLogger("ocelot-detailed"), Details(sorted(x for x in known if x))
    level = log.level
    log.addHandler(h)
    log.setLevel(logging.INFO)
    try:
        outcome, out = call((lambda db: f(db, kind=case["of"])) if fn == "divided" else f, data)
    finally:
        log.removeHandler(h)
        log.setLevel(level)
    return {"fn": fn, "of": case["of"], "src": src, "outcome": outcome, "out": tables.project(out, src) if outcome == "ok" else [], "msgs": h.msgs}


if __name__ == "__main__":
    common.main(gen_cases, run, "something was done that the detailed log must tell", lambda p, c, r: bool(r["msgs"]))
