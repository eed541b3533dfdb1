"""Projections of real Ocelot objects to specification records."""
import json
from common import num, s

UNC_NUMS = (("mean", "mean"), ("mu", "mu"), ("variance", "var"),
            ("variance with pedigree uncertainty", "varp"),
            ("minimum", "min"), ("mode", "mode"), ("maximum", "max"))


def canon(x):
    """Canonical text of any value (order-free for dicts)."""
    def d(o):
        if isinstance(o, dict):
            return {str(k): d(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [d(v) for v in o]
        if isinstance(o, (set, frozenset)):
            return sorted(d(v) for v in o)
        if isinstance(o, bool) or o is None or isinstance(o, str):
            return o
        if isinstance(o, (int, float)):
            return float(o)
        try:
            return float(o)
        except Exception:
            return repr(o)
    return json.dumps(d(x), sort_keys=True, ensure_ascii=False)


def unc(obj):
    u = obj.get("uncertainty") or {}
    r = {"type": s(u.get("type", "none")) if u else "none",
         "neg": {True: "T", False: "F"}.get(u.get("negative"), "-")}
    for a, b in UNC_NUMS:
        r[b] = num(u.get(a))
    return r


def prop(e, name):
    for p in e.get("properties", []):
        if p.get("name") == name:
            return num(p.get("amount"))
    return [0, 0]


EXC_CORE = {"id", "name", "type", "byproduct classification", "amount", "uncertainty"}


def exc(e, skip=()):
    return {"id": s(e.get("id")), "name": s(e.get("name")), "type": s(e.get("type")),
            "cls": s(e.get("byproduct classification", "none")), "amt": num(e.get("amount")),
            "price": prop(e, "price"), "tv": prop(e, "true value relation"),
            "cond": bool(e.get("conditional exchange")), "unc": unc(e),
            "attrs": canon({k: v for k, v in e.items() if k not in EXC_CORE and k not in skip})}


def elems(ds, asts):
    out = []

    def add(key, o):
        if "variable" in o or "formula" in o:
            hasf = "formula" in o
            out.append({"key": key, "var": o.get("variable", ""), "hasf": hasf,
                        "f": asts[o["formula"]] if hasf else ["n", [0, 1]], "amt": num(o.get("amount"))})
    for e in ds["exchanges"]:
        add(e["id"], e)
        if "production volume" in e:
            add(e["id"] + "/pv", e["production volume"])
        for p in e.get("properties", []):
            add(e["id"] + "/" + p["name"], p)
    for p in ds.get("parameters", []):
        add("param/" + p["id"], p)
    return out


DS_CORE = {"id", "name", "type", "exchanges", "allocation method"}


def ds(d, asts=None, skip=(), exc_skip=()):
    return {"id": s(d.get("id")), "name": s(d.get("name")), "type": s(d.get("type")),
            "attrs": canon({k: v for k, v in d.items() if k not in DS_CORE and k not in skip}),
            "excs": [exc(e, exc_skip) for e in d["exchanges"]],
            "elems": elems(d, asts) if asts is not None else []}
