"""S11: dataset files written, extracted by the real code, and both sides
projected.  What the file says comes from the description it was written
from; the relation between the two is in Extraction.tla."""
import os, random, shutil, tempfile
import spold
from common import call, main, s, num
from ocelot.io import extract_directory
from ocelot.io import dataset_schema

PED = ("reliability", "completeness", "temporal correlation", "geographical correlation", "further technology correlation")
KEYS = {"lognormal": ["meanValue", "mu", "variance", "varianceWithPedigreeUncertainty"], "normal": ["meanValue", "variance", "varianceWithPedigreeUncertainty"],
        "triangular": ["minValue", "mostLikelyValue", "maxValue"], "beta": ["minValue", "mostLikelyValue", "maxValue"], "uniform": ["minValue", "maxValue"],
        "undefined": ["minValue", "maxValue", "standardDeviation95"], "binomial": ["n", "p"], "gamma": ["shape", "scale", "minValue"]}
NAMES = ["steel", "heat, low <temp>", "CO2 & co", "d\u00e9chet \u00fc", "a \"q\" 'r'", "x" * 200, "\u6f22\u5b57", "two  blanks", "1 > 0", "a]]b"]
NUMS = ["1", "0", "-1", "0.1", "1e-12", "-2.5E+3", "3.14159265358979", "123456789.123456789", "1E5", "-0.0", "+4", ".5", "5.", "1e-300", " 7 "]
VARS = ["a", "b_1", "Var", " padded ", "\tt", "yield"]
FORMS = ["a*2", " a + b_1 ", "IF(a<3;1;2)", "Ref('x-y', 'ProductionVolume')", "1,5*a", "a&\"b\"", "2\n"]


def unc(rnd, kind=None, ped=None):
    kind = kind or rnd.choice(list(KEYS))
    ped = rnd.random() < 0.5 if ped is None else ped
    u = {"type": kind, "values": [(k, rnd.choice(NUMS)) for k in KEYS[kind]], "ped": [rnd.randint(1, 5) for _ in range(5)] if ped else [], "comment": rnd.choice(["", "", "a < b"])}
    if kind == "undefined" and rnd.random() < 0.3:
        u["values"] = []
    return u


def opt(rnd, p, pool):
    """Absent, empty, or one of the pool."""
    return rnd.choice(pool) if rnd.random() < p else rnd.choice([None, ""])


def part(rnd, i):
    return {"id": "p%s" % i, "name": rnd.choice(NAMES), "unit": rnd.choice([None, "kg", "EUR2005", "m<3", "dimensionless"]), "amount": rnd.choice(NUMS), "var": opt(rnd, 0.4, VARS), "formula": opt(rnd, 0.4, FORMS),
            "unc": unc(rnd) if rnd.random() < 0.4 else None}


def exch(rnd, i, group=None):
    g = group or rnd.choice([("inputGroup", n) for n in "12345"] + [("outputGroup", n) for n in "02345"])
    env = g[1] == "4"
    e = {"tag": "elementaryExchange" if env else "intermediateExchange", "id": "e%s" % i, "name": rnd.choice(NAMES), "unit": rnd.choice(["kg", "MJ", "\u00b5g"]), "amount": rnd.choice(NUMS), "group": g,
         "link": None if env else opt(rnd, 0.3, ["11111111-2222", "act-7"]), "var": opt(rnd, 0.4, VARS), "formula": opt(rnd, 0.4, FORMS), "unc": unc(rnd) if rnd.random() < 0.5 else None,
         "props": [part(rnd, "%s-%d" % (i, k)) for k in range(rnd.choice([0, 0, 1, 2, 4]))], "comment": rnd.choice(["", "", "c"]), "xmlcomment": rnd.choice(["", "", "note"]),
         "comp": (rnd.choice(["air", "water"]), rnd.choice(["unspecified", "low. pop."])) if env else None, "classes": []}
    if g in (("outputGroup", "0"), ("outputGroup", "2")):
        if rnd.random() < 0.8:
            e.update(pv=opt(rnd, 0.9, NUMS))
        if rnd.random() < 0.4:
            e.update(pvvar=opt(rnd, 0.7, VARS), pvformula=opt(rnd, 0.7, FORMS))
        if rnd.random() < 0.4:
            e.update(pvunc=unc(rnd))
    if not env:
        if rnd.random() < 0.5:
            e["classes"].append(("CPC", "123: x"))
        if rnd.random() < 0.6:
            e["classes"].append(("By-product classification", rnd.choice(["allocatable product", "Waste", "Recyclable"])))
            if rnd.random() < 0.15:
                e["classes"] = e["classes"] + e["classes"][-1:]
        if rnd.random() < 0.3:
            e["classes"].append(("By-product", "Waste"))
    return e


def dset(rnd, i):
    d = {"id": "id%s" % i, "name": rnd.choice(NAMES), "location": rnd.choice(["GLO", "CH", "RoW", "CA-QC"]), "type": rnd.choice([str(k) for k in range(11)]), "level": rnd.choice([None] + list("012345")), "access": rnd.choice("0123"),
         "parent": opt(rnd, 0.3, ["par-1"]), "start": rnd.choice(["2000-01-01", "1999", ""]), "end": rnd.choice(["2020-12-31", "2001-02"]), "scenario": rnd.choice(["Business-as-Usual", "Green <1>"]),
         "entry": rnd.choice(NAMES), "author": rnd.choice(NAMES), "root": rnd.choice(["activityDataset", "activityDataset", "childActivityDataset"]),
         "classes": rnd.choice([[("ISIC rev.4 ecoinvent", "2011:x")], [("CPC", "3"), ("ISIC rev.4 ecoinvent", "0111")], [("EcoSpold01Categories", "c"), ("ISIC rev.4 ecoinvent", "1 & 2"), ("ISIC rev.5", "9")], []]),
         "exchanges": [exch(rnd, "%s.%d" % (i, k)) for k in range(rnd.choice([1, 2, 3, 6]))], "parameters": [part(rnd, "%s:%d" % (i, k)) for k in range(rnd.choice([0, 1, 3]))]}
    if rnd.random() < 0.3:
        d["xmlcomment"] = (rnd.randrange(10), "between")
    return d


# ------------------------------------------------------------ projections
def txt(x):
    return "" if x is None else x


def f_unc(u):
    return [] if not u else [{"type": u["type"], "values": [[k, num(float(v))] for k, v in u["values"]], "ped": u["ped"]}]


def f_part(p):
    return {"id": p["id"], "name": p["name"], "unit": txt(p["unit"]), "amount": num(float(p["amount"])), "var": txt(p["var"]).strip(), "formula": txt(p["formula"]).strip(), "unc": f_unc(p.get("unc"))}


def f_exc(e):
    return {"tag": e["tag"], "id": e["id"], "name": e["name"], "unit": e["unit"], "amount": num(float(e["amount"])), "group": list(e["group"]), "link": txt(e.get("link")), "classes": [list(c) for c in e.get("classes", [])],
            "var": txt(e.get("var")).strip(), "formula": txt(e.get("formula")).strip(), "props": [f_part(p) for p in e.get("props", [])], "comp": list(e.get("comp") or ("", "")), "pv": num(float(e.get("pv") or 0)),
            "pvvar": txt(e.get("pvvar")).strip(), "pvformula": txt(e.get("pvformula")).strip(), "pvunc": f_unc(e.get("pvunc")), "unc": f_unc(e.get("unc"))}


def f_ds(fname, d):
    return {"file": fname, "id": d["id"], "parent": txt(d["parent"]), "name": d["name"], "location": d["location"], "type": d["type"], "level": txt(d["level"]), "start": d["start"], "end": d["end"], "scenario": d["scenario"],
            "access": d["access"], "author": d["author"], "entry": d["entry"], "classes": [[a, b, "ISIC" in a] for a, b in d["classes"]], "exchanges": [f_exc(e) for e in d["exchanges"]], "parameters": [f_part(p) for p in d["parameters"]]}


def g_unc(o):
    if "uncertainty" not in o:
        return []
    u = o["uncertainty"]
    ped = u["pedigree matrix"]
    assert not ped or set(ped) == set(PED)
    return [{"type": s(u["type"]), "values": [[k, num(v)] for k, v in u.items() if k not in ("type", "pedigree matrix")], "ped": [ped[k] for k in PED] if ped else []}]


def g_part(p):
    return {"id": s(p["id"]), "name": s(p["name"]), "unit": s(p["unit"]), "amount": num(p["amount"]), "var": s(p.get("variable", "")), "formula": s(p.get("formula", "")), "unc": g_unc(p)}


def g_exc(e):
    pv = e.get("production volume")
    return {"id": s(e["id"]), "tag": s(e["tag"]), "name": s(e["name"]), "unit": s(e["unit"]), "amount": num(e["amount"]), "type": s(e["type"]), "link": s(e.get("activity link", "")), "class": s(e.get("byproduct classification", "")),
            "var": s(e.get("variable", "")), "formula": s(e.get("formula", "")), "props": [g_part(p) for p in e["properties"]], "comp": [s(e.get("compartment", "")), s(e.get("subcompartment", ""))],
            "pv": [] if pv is None else [{"amount": num(pv["amount"]), "var": s(pv.get("variable", "")), "formula": s(pv.get("formula", "")), "unc": g_unc(pv)}], "unc": g_unc(e),
            "cond": {True: "T", False: "F"}[e["conditional exchange"]] if "conditional exchange" in e else "-"}


def g_ds(d):
    return {"file": os.path.basename(d["filepath"]), "id": s(d["id"]), "parent": s(d["parent"] or ""), "name": s(d["name"]), "location": s(d["location"]), "type": s(d["type"]), "level": s(d["technology level"]), "start": s(d["start date"]), "end": s(d["end date"]),
            "scenario": s(d["economic scenario"]), "access": s(d["access restricted"]), "author": s(d["dataset author"]), "entry": s(d["data entry"]), "isic": s(d["ISIC classification"] or ""),
            "parameters": [g_part(p) for p in d["parameters"]], "exchanges": [g_exc(e) for e in d["exchanges"]]}


def text(case, k, ds):
    doc = spold.document(ds, bom=False)
    style = case["styles"][k]
    if "comment" in style:
        doc = doc.replace("<activityDataset>", "<!-- <activityDataset/> --><activityDataset>").replace("</ecoSpold>", "<!-- end -->\n</ecoSpold>")
    if "master" in style:
        doc = doc.replace("</ecoSpold>", '<usedUserMasterData><activityName id="1"><name>n</name></activityName></usedUserMasterData></ecoSpold>')
    if "intext" in style:
        doc = doc.replace("<shortname xml:lang=\"en\">", "<shortname xml:lang=\"en\"><!-- where -->")
    if "pi" in style:
        doc = doc.replace("<flowData>", "<?check me?><flowData>").replace("</ecoSpold>", "<?done?></ecoSpold>")
    if "prefix" in style:
        doc = doc.replace("</", "\x00").replace("<?", "\x01").replace("<!", "\x02").replace("<", "<es:").replace("\x00", "</es:").replace("\x01", "<?").replace("\x02", "<!").replace(' xmlns="', ' xmlns:es="')
        # comments may contain markup-like text: harmless
    if "crlf" in style:
        doc = doc.replace("\n", "\r\n")
    if "blank" in style:
        doc = doc.replace("><", ">\n    <")
    if "bom" in style:
        doc = "\ufeff" + doc
    return doc.encode("utf-8")


def run(prop, case):
    rnd = random.Random(case["seed"])
    tmp = tempfile.mkdtemp(prefix="vf-s11-", dir="/tmp")
    try:
        src = []
        for k, (fname, dss) in enumerate(case["files"]):
            for i, d in enumerate(dss):
                src.append(f_ds(fname, d))
            with open(os.path.join(tmp, fname), "wb") as f:
                f.write(text(case, k, dss))
        for fname in case["others"]:
            with open(os.path.join(tmp, fname), "w") as f:
                f.write("not a dataset <")
        if case.get("broken"):
            f = os.path.join(tmp, case["broken"][0])
            doc = open(f, encoding="utf-8").read()
            how = case["broken"][1]
            doc = doc[:int(len(doc) * 0.6)] if how == "cut" else "" if how == "empty" else doc.replace(*how)
            with open(f, "w", encoding="utf-8") as fh:
                fh.write(doc)
        rec = {"shape": "ok", "broken": bool(case.get("broken")), "ds": src, "got": [], "schema": True, "mp": True, "source": True}
        out, v = call(extract_directory, tmp, use_cache=False, use_mp=case["mp"] == "only")
        rec["out"] = out
        if out == "ok":
            try:
                rec["got"] = [g_ds(d) for d in v]
            except (KeyError, AttributeError, TypeError, AssertionError):
                rec["shape"] = "bad"
            for d in v:
                if d["ISIC classification"] and d["filepath"] != os.path.join(tmp, os.path.basename(d["filepath"])):
                    rec["shape"] = "bad"
            if case.get("schema"):
                for d in v:
                    if call(dataset_schema, d)[0] != "ok":
                        rec["schema"] = False
            if case["mp"] == "both":
                o2, v2 = call(extract_directory, tmp, use_cache=False, use_mp=True)
                rec["mp"] = o2 == "ok" and v2 == v
        if rec["broken"]:
            return dict(rec, ds=[], got=[])
        left = sorted(os.listdir(tmp))
        rec["source"] = left == sorted([f for f, _ in case["files"]] + case["others"]) and all(open(os.path.join(tmp, f), "rb").read() == text(case, k, d) for k, (f, d) in enumerate(case["files"]))
        return rec
    finally:
        shutil.rmtree(tmp)


STYLES = ["comment", "master", "intext", "pi", "prefix", "crlf", "blank", "bom"]
FILES = ["a.spold", "B.SPOLD", "c d.Spold", "\u00fc\u6f22.spold", ".spold", "x.y.spold", "a.spold.spold", "z'\".spold", "0.spold"]
OTHERS = ["readme.txt", "a.spold.bak", "spold", "b.xml", "xspold", "a.spold~", "c.spoldx"]


def from_scen(rnd, sc):
    """One dataset around the scenario's combination."""
    d = dset(rnd, "s")
    if sc["t"] == "exchange":
        d["type"] = sc["dstype"]
        g = tuple(sc["group"])
        e = exch(rnd, "s", g)
        if g[1] != "4":
            e["link"] = "lnk" if sc["link"] else None
            e["classes"] = ([("By-product classification", sc["class"])] if sc["class"] else []) + [("CPC", "x")]
        e["amount"] = {-1: "-0.5", 0: "0", 1: "2"}[sc["sign"]]
        d["exchanges"] = d["exchanges"][:1] + [e]
    elif sc["t"] == "uncertainty":
        u = unc(rnd, sc["dist"], sc["ped"])
        e = exch(rnd, "s", ("outputGroup", "0"))
        p = part(rnd, "s")
        e["props"] = [p]
        q = part(rnd, "q")
        vf = {"var": "v" if sc["var"] else None, "formula": "v*2" if sc["formula"] else None}
        if sc["where"] == "exchange":
            e.update(unc=u, **vf)
        elif sc["where"] == "volume":
            e.update(pv="5", pvunc=u, pvvar=vf["var"], pvformula=vf["formula"])
        else:
            (p if sc["where"] == "property" else q).update(unc=u, **vf)
        d["exchanges"] = [e]
        d["parameters"] = [q]
    else:
        d.update(type=sc["type"], level=sc["level"] or None, access=sc["access"], parent="par" if sc["parent"] else None)
        d["exchanges"] = d["exchanges"][:2]
    return d


def documented(o):
    """Only distributions with the fields the internal format knows."""
    for u in (o.get("unc"), o.get("pvunc")):
        if u:
            if u["type"] == "gamma":
                u["values"] = [v for v in u["values"] if v[0] != "minValue"]
            if u["type"] == "undefined" and not u["values"]:
                u["values"] = [("minValue", "0"), ("maxValue", "1"), ("standardDeviation95", "2")]
    for p in o.get("props", []):
        documented(p)
    return o


def gen_cases(prop, tier, rnd, scen):
    quick = tier == "quick"
    for k in range(0, len(scen), 6):      # six scenarios to a directory
        part_ = [from_scen(rnd, sc) for sc in scen[k:k + 6]]
        yield {"seed": rnd.randrange(1 << 30), "files": [["f%d.spold" % i, [d]] for i, d in enumerate(part_)], "styles": [[] for _ in part_], "others": [], "mp": "no", "kind": scen[k]["t"]}
    n = 250 if quick else 3000
    for k in range(n):
        nf = rnd.choice([0, 1, 1, 2, 3, 6])
        files = rnd.sample(FILES, nf)
        dss = []
        for i, f in enumerate(files):
            m = rnd.choice([1, 1, 1, 2, 3])
            dss.append([f, [dset(rnd, "%d-%d" % (i, j)) for j in range(m)]])
        yield {"seed": rnd.randrange(1 << 30), "files": dss, "styles": [rnd.sample(STYLES, rnd.choice([0, 1, 1, 2, 3])) for _ in files], "others": rnd.sample(OTHERS, rnd.choice([0, 0, 1, 3])),
               "mp": rnd.choice(["no", "no", "no", "both", "only"]) if k % 2 == 0 else "no", "kind": "directory"}
    # many files over several processes
    for k in range(4 if quick else 30):
        m = rnd.choice([17, 40, 70])
        dss = [["m%02d.spold" % i, [dset(rnd, str(i)) for _ in range(rnd.choice([1, 1, 2]))][:2]] for i in range(m)]
        for i, (f, l) in enumerate(dss):
            for j, d in enumerate(l):
                d["exchanges"] = d["exchanges"][:1 + (i % 3)]
                d["parameters"] = []
        yield {"seed": 1, "files": dss, "styles": [[] for _ in dss], "others": [], "mp": "both", "kind": "many"}
    # a file that cannot be read stops the extraction
    for how in ["cut", "empty", ("specialActivityType=", "x="), (" amount=\"", " amount=\"q"), ("flowData>", "data>"), ("</ecoSpold>", ""), ("outputGroup>", "group>")]:
        for mp in ("no", "only"):
            dss = [["b%d.spold" % i, [dict(dset(rnd, str(i)), exchanges=[exch(rnd, "r", ("outputGroup", "0"))])]] for i in range(3)]
            yield {"seed": 1, "files": dss, "styles": [[], [], []], "others": [], "mp": mp, "kind": "broken", "broken": ["b%d.spold" % rnd.randrange(3), how]}
    # accepted by the documented internal format
    for k in range(60 if quick else 500):
        d = dset(rnd, "v")
        d.update(type=rnd.choice("01") if rnd.random() < 0.9 else "10", level=rnd.choice("012345"), classes=[("ISIC rev.4 ecoinvent", "2011:x")], start="2000-01-01")
        d["exchanges"] = [documented(e) for e in d["exchanges"] if e["group"][1] in "0245" and tuple(e["group"]) != ("inputGroup", "2") and tuple(e["group"]) != ("outputGroup", "5")]
        d["parameters"] = [documented(q) for q in d["parameters"]]
        yield {"seed": 1, "files": [["v.spold", [d]]], "styles": [[]], "others": [], "mp": "no", "kind": "schema", "schema": True}


if __name__ == "__main__":
    main(gen_cases, run, {"S11": "directories with at least one dataset"}, lambda prop, case, rec: bool(rec["ds"]))
