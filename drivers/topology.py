"""Driver for L01: topology queries against one long-lived object."""
import random
import common
from common import call
from geo import geo
from gen import pick


def place(rnd, base):
    g = geo()
    k = rnd.random()
    if k < 0.15:
        return {"k": "set", "of": rnd.sample(base, rnd.randrange(1, min(4, len(base)) + 1))}
    if k < 0.3:
        return {"k": "loc", "n": "RoW"}
    if k < 0.4:
        return {"k": "loc", "n": "GLO"}
    return {"k": "loc", "n": rnd.choice(base)}


def family(rnd):
    """related locations"""
    g = geo()
    a = rnd.choice(g.names)
    pool = g.inside(a) + g.around(a) + g.overlapping(a)
    out = [a] + [rnd.choice(pool) for _ in range(4)]
    out += [rnd.choice(g.inside(rnd.choice(out))) for _ in range(2)] + [rnd.choice(g.names)]
    return sorted(set(out) - {"RoW"})


def gen_cases(prop, tier, rnd, scen):
    scen = list(scen)
    rnd.shuffle(scen)
    cap = {"quick": 4000, "thorough": 40000}[tier]
    for q in scen[:cap]:
        for p in (q["parent"], q["child"], q["row"]):
            p.pop("s", None)
        q["row"] = {"has": q["row"]["has"], "of": list(q["row"]["of"])}
        yield dict(q, kind="model", fn="contains")
    n = {"quick": 700, "thorough": 8000}[tier]
    for k in range(n):
        fam = family(rnd)
        base = fam
        row = {"has": rnd.random() < 0.5, "of": rnd.sample(fam, rnd.randrange(1, min(5, len(fam)) + 1))}
        sub = [] if rnd.random() < 0.5 else rnd.sample(fam + ["RoW"], rnd.randrange(1, 3))
        for _ in range(3):
            yield {"kind": "random", "fn": "contains", "parent": place(rnd, base), "child": place(rnd, base),
                   "sub": sub if rnd.random() < 0.7 else [], "row": row if rnd.random() < 0.8 else {"has": False, "of": []},
                   "prime": rnd.random() < 0.3, "tup": rnd.random() < 0.3, "kw": rnd.random() < 0.8}
        p = place(rnd, base)
        for ex in (False, True):
            yield {"kind": "random", "fn": "contained", "parent": p, "prime": rnd.random() < 0.3, "excl": ex, "sub": sub, "row": row,
                   "extra": fam + [rnd.choice(geo().names) for _ in range(15)]}
        yield {"kind": "random", "fn": "row", "locs": rnd.sample(fam + ["RoW"], rnd.randrange(1, len(fam) + 1))}
        ls = pick(rnd, geo().disjoint(rnd, rnd.randrange(1, 7)), rnd.sample(fam, min(len(fam), pick(rnd, 1, 2, 3))), fam)
        if rnd.random() < 0.2:
            ls = ls + [rnd.choice(ls)]
        if rnd.random() < 0.5:
            ls = ls + ["RoW"]
        yield {"kind": "random", "fn": "overlaps", "locs": ls}
        yield {"kind": "random", "fn": "order", "locs": sorted(set(ls)), "prime": rnd.random() < 0.6, "dup": rnd.random() < 0.3, "proxy": rnd.random() < 0.3,
               "row": pick(rnd, row, {"has": False, "of": []}, {"has": True, "of": [rnd.choice(ls)], "inv": True},
                           {"has": True, "of": [rnd.choice(fam)], "inv": True}, {"has": True, "of": [rnd.choice(geo().names)], "inv": True}),
               "shuf": rnd.random()}


_t = {}


def proxy(face):
    h = (face * 2654435761 >> 7) % 1009
    return 1000 + h if h % 5 == 0 else 1 + h % 3


def topo(kind="plain"):
    if kind not in _t:
        from ocelot.transformations.locations._topology import Topology
        from ocelot.transformations.locations import topology
        _t[kind] = topology if kind == "plain" else Topology(size_proxy=proxy)
    return _t[kind]


def shifted(x, k=17):
    """a different face set with the same number of faces"""
    if not isinstance(x, (set, frozenset)):
        return x
    fs = sorted(geo().faces["GLO"])
    idx = {f: i for i, f in enumerate(fs)}
    return {fs[(idx[f] + k) % len(fs)] for f in x}


def run(prop, c):
    g, t = geo(), topo()
    names = set()
    for k in ("parent", "child", "row"):
        if k in c:
            names.update(c[k].get("of", []) or [])
            if c[k].get("k") == "loc":
                names.add(c[k]["n"])
    names.update(c.get("sub", []) + c.get("locs", []))
    def faces(p):
        u = set().union(*[g.faces.get(x, set()) for x in p["of"]])
        return u if p.get("inv") else set(g.faces["GLO"]) - u
    arg = lambda p: p["n"] if p["k"] == "loc" else faces(p)
    rowarg = (faces(c["row"]) if c["row"]["has"] else None) if "row" in c else None
    r = {"fn": c["fn"], "sub": c.get("sub", [])}

    def conv(T, amap, p):
        p = dict(p)
        p["s"] = g.set_of(faces(p), T, amap)[0] if p.get("k") == "set" or p.get("has") else []
        p.pop("of", None)
        p.pop("inv", None)
        return p
    sub = c.get("sub") or None
    if c.get("tup") and sub:
        sub = tuple(sub)
    if c["fn"] == "contains":
        if c.get("prime"):   # an earlier query about other regions of the same size
            call(t.contains, shifted(arg(c["parent"])), shifted(arg(c["child"])), subtract=sub, resolved_row=shifted(rowarg))
        if c.get("kw", True):
            r["outcome"], res = call(t.contains, arg(c["parent"]), arg(c["child"]), subtract=sub, resolved_row=rowarg)
        else:
            r["outcome"], res = call(t.contains, arg(c["parent"]), arg(c["child"]), sub, rowarg)
        T, am = g.table(names)
        r.update(T=T, parent=conv(T, am, c["parent"]), child=conv(T, am, c["child"]), row=conv(T, am, c["row"]), res=bool(res))
    elif c["fn"] == "contained":
        if c.get("prime"):
            call(t.contained, shifted(arg(c["parent"])), exclude_self=c["excl"], subtract=sub, resolved_row=shifted(rowarg))
        r["outcome"], res = call(t.contained, arg(c["parent"]), exclude_self=c["excl"], subtract=sub, resolved_row=rowarg)
        res = list(res or [])
        rr = random.Random(len(res))
        shown = set(c["extra"]) | {"RoW", "GLO"} | set(rr.sample(sorted(res), min(12, len(res)))) | names
        r["unknown"] = sum(1 for x in res if x != "RoW" and x not in g.mask)
        shown = {x for x in shown if x == "RoW" or x in g.mask}
        T, am = g.table(names | shown)
        r.update(T=T, parent=conv(T, am, c["parent"]), row=conv(T, am, c["row"]), excl=c["excl"], names=sorted(shown),
                 res=sorted(x for x in res if x in shown))
    elif c["fn"] == "row":
        r["outcome"], res = call(t.resolve_row, c["locs"])
        T, am = g.table(names)
        at, whole = g.set_of(res or set(), T, am)
        r.update(T=T, locs=c["locs"], res=at, whole=whole)
    elif c["fn"] == "overlaps":
        r["outcome"], res = call(t.overlaps, c["locs"])
        T, am = g.table(names)
        r.update(T=T, locs=c["locs"], res=bool(res))
    else:
        tt = topo("proxy") if c["proxy"] else t
        ds = [{"location": x} for x in c["locs"]]
        rnd = random.Random(c["shuf"])
        ds2 = ds + ([rnd.choice(ds)] if c["dup"] else [])
        rnd.shuffle(ds2)
        if c.get("prime"):
            call(tt.ordered_dependencies, ds2, shifted(rowarg, 1 + len(ds2) * 37))
        r["outcome"], res = call(tt.ordered_dependencies, ds2, rowarg)
        o2, res2 = call(tt.ordered_dependencies, list(reversed(ds)), rowarg)
        T, am = g.table(names, proxy if c["proxy"] else None)
        r.update(T=T, locs=c["locs"], res=list(res or []), res2=list(res2 or []), row=conv(T, am, c["row"]))
    return r


if __name__ == "__main__":
    geo()
    common.main(gen_cases, run, "the query involves at least two related locations")
