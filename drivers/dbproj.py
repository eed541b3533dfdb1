"""Projection of whole databases (lists of datasets) for the linking models."""
import proj
from common import num, s

PV_CORE = {"amount": "amt", "subtracted activity link volume": "sub", "original amount": "orig",
           "global amount": "gl", "original total": "tot"}
EXC_CORE = {"id", "name", "type", "byproduct classification", "amount", "uncertainty", "unit", "activity link", "code",
            "conditional exchange", "formula", "variable", "production volume", "properties"}
UNC_CORE = {"type", "negative"} | {a for a, _ in proj.UNC_NUMS}
DS_CORE = {"id", "name", "type", "location", "parent", "code", "reference product", "technology level", "suppliers",
           "exchanges", "parameters"}


def pv(o):
    p = o.get("production volume")
    has = isinstance(p, dict)
    p = p if has else {}
    r = {v: num(p.get(k)) for k, v in PV_CORE.items()}
    r.update(has=has, var=s(p.get("variable", "")), f=s(p.get("formula", "")),
             attrs=proj.canon({k: v for k, v in p.items() if k not in PV_CORE and k not in ("variable", "formula")}))
    return r


def exc(e, skip=()):
    return {"id": s(e.get("id", "")), "name": s(e.get("name", "")), "type": s(e.get("type")),
            "cls": s(e.get("byproduct classification", "none")), "amt": num(e.get("amount")), "unit": s(e.get("unit", "")),
            "link": s(e.get("activity link", "")), "code": s(e.get("code", "")), "cond": bool(e.get("conditional exchange")),
            "f": s(e.get("formula", "")), "var": s(e.get("variable", "")), "pv": pv(e), "unc": proj.unc(e),
            "props": proj.canon(sorted(e.get("properties", []), key=proj.canon)),
            "attrs": proj.canon({k: v for k, v in e.items() if k not in EXC_CORE and k not in skip}),
            "rest": proj.canon([{k: v for k, v in e.items() if k not in EXC_CORE and k not in skip and k != "tag"},
                                {k: v for k, v in (e.get("uncertainty") or {}).items() if k not in UNC_CORE}])}


def sup(x):
    return {"code": s(x.get("code", "")), "name": s(x.get("name", "")), "loc": s(x.get("location", "")),
            "act": s(x.get("activity", "")), "tech": s(x.get("technology level", "")), "unit": s(x.get("unit", "")),
            "type": s(x.get("type", "")), "amt": num(x.get("amount")), "pv": pv(x)}


def ds(d, skip=(), exc_skip=()):
    return {"id": s(d.get("id", "")), "name": s(d.get("name", "")), "type": s(d.get("type", "")),
            "loc": s(d.get("location", "")), "parent": s(d.get("parent") or ""), "code": s(d.get("code", "")),
            "refp": s(d.get("reference product", "")), "tech": s(d.get("technology level", "")),
            "lkey": (s(d.get("name", "")) + "|" + s(([e.get("name") for e in d["exchanges"] if e.get("type") == "reference product"] or [""])[0])).lower(),
            "isrc": "Recycled Content cut-off" in s(d.get("reference product", "")), "hassup": "suppliers" in d, "sup": [sup(x) for x in d.get("suppliers", [])],
            "excs": [exc(e, exc_skip) for e in d["exchanges"]],
            "params": [{"id": s(p.get("id", "")), "name": s(p.get("name", "")), "var": s(p.get("variable", "")),
                        "f": s(p.get("formula", "")), "amt": num(p.get("amount")), "unit": s(p.get("unit", ""))}
                       for p in d.get("parameters", [])],
            "attrs": proj.canon({k: v for k, v in d.items() if k not in DS_CORE and k not in skip})}


def db(data, **kw):
    return [ds(d, **kw) for d in data]


# ------------------------------------------------------- specification -> real
def _num(o, key, r):
    import gen
    v = gen.q(r)
    if v is not None:
        o[key] = v


def real_pv(p):
    o = {}
    for k, v in PV_CORE.items():
        _num(o, k, p[v])
    for k, v in (("variable", "var"), ("formula", "f")):
        if p[v]:
            o[k] = p[v]
    return o


def real_exc(x):
    e = {"name": x["name"], "type": x["type"], "unit": x["unit"], "tag": "intermediateExchange"}
    _num(e, "amount", x["amt"])
    for k, v in (("id", "id"), ("activity link", "link"), ("code", "code"), ("formula", "f"), ("variable", "var")):
        if x[v]:
            e[k] = x[v]
    if x["cls"] != "none":
        e["byproduct classification"] = x["cls"]
    if x["cond"]:
        e["conditional exchange"] = True
    if x["pv"]["has"]:
        e["production volume"] = real_pv(x["pv"])
    return e


def real_ds(d):
    o = {"id": d["id"], "name": d["name"], "type": d["type"], "location": d["loc"], "filepath": d["id"] + ".spold",
         "parent": d["parent"] or None, "exchanges": [real_exc(x) for x in d["excs"]], "parameters": [],
         "start date": "2001-01-01", "end date": "2010-12-31", "economic scenario": "Business-as-Usual",
         "access restricted": "public"}
    for k, v in (("code", "code"), ("reference product", "refp"), ("technology level", "tech")):
        if d[v]:
            o[k] = d[v]
    return o
