"""Driver for U01-U04: uncertainty distributions and pedigree matrices."""
import copy, math
import common, gen, proj
from common import call, num
from gen import amount, pick, q

IND = {"reliability": "reliability", "completeness": "completeness", "temporal": "temporal correlation",
       "geographical": "geographical correlation", "technological": "further technological correlation", "sample": "sample size"}
TABLE = {"reliability": (0, 600, 2000, 8000, 40000), "completeness": (0, 100, 600, 2000, 8000), "temporal": (0, 200, 2000, 8000, 40000),
         "geographical": (0, 25, 100, 600, 2000), "technological": (0, 600, 8000, 40000, 120000), "sample": (0, 98, 600, 2300, 8300)}


def real(o):
    """Object of the model -> exchange."""
    e = {"amount": q(o["a"])}
    u = o["u"]
    if u["type"] != "none":
        d = {"type": u["type"]}
        for a, b in proj.UNC_NUMS:
            if q(u[b]) is not None:
                d[a] = q(u[b])
        if u["neg"] != "-":
            d["negative"] = u["neg"] == "T"
        if u["type"] == "lognormal" and e["amount"]:
            d["mu"] = math.log(abs(e["amount"]))
        e["uncertainty"] = d
    return e


def pm(rnd, full=0.6):
    ks = list(IND)[:5] if rnd.random() < full else rnd.sample(list(IND), rnd.randrange(1, 7))
    r = {k: rnd.randrange(1, 6) for k in ks}
    if rnd.random() < 0.1:
        r["sample"] = rnd.randrange(1, 6)
    return r


def messy(rnd, a):
    """Any distribution, consistent with the amount or not."""
    t = pick(rnd, "lognormal", "lognormal", "normal", "triangular", "uniform", "undefined", None)
    if t is None:
        return pick(rnd, None, {})
    any_ = lambda: pick(rnd, a, a, -a, 0, 1, amount(rnd, extreme=0.03))
    if t in ("lognormal", "normal"):
        v = pick(rnd, 0, 0.0006, 0.01, 0.3, 0.999, 1, 1.0, 1.2, 2.5, 3, 7.5, 40)
        u = {"type": t, "mean": any_(), "variance": pick(rnd, v, 0.1), "variance with pedigree uncertainty": v}
        if t == "lognormal":
            m = any_()
            u["mu"] = math.log(abs(m)) if m else 0
            if rnd.random() < 0.5:
                u["negative"] = pick(rnd, True, False)
        if rnd.random() < 0.3:
            u["pedigree matrix"] = {"reliability": 2}
        return u
    lo, hi = any_(), any_()
    k = rnd.random()
    if k < 0.35:
        w = pick(rnd, 0.25, 1, 3) * (abs(a) or 1)
        lo, hi = a - w, a + w * pick(rnd, 1, 1, 1.5, 1 + 1e-12)
    elif k < 0.45:
        lo = hi = a
    if rnd.random() < 0.3:
        lo, hi = hi, lo
    u = {"type": t, "minimum": lo, "maximum": hi}
    if t == "triangular":
        u["mode"] = any_()
    return u


def place(rnd, u=None, unif=0.15):
    """A dataset with uncertain objects in every position."""
    def obj(d):
        a = amount(rnd, zero=0.08, extreme=0.03)
        d["amount"] = a
        x = messy(rnd, a)
        if x and x["type"] == "uniform" and not min(x["minimum"], x["maximum"]) <= a <= max(x["minimum"], x["maximum"]) and rnd.random() > unif:
            x = None
        if x is not None:
            d["uncertainty"] = x
            # keep the repaired variance clear of the thresholds
            p = pm(rnd)
            ped = sum(TABLE[k][v - 1] for k, v in p.items()) / 1e6
            if x.get("type") == "lognormal" and rnd.random() < 0.4:
                v0 = x["variance with pedigree uncertainty"] - ped
                if all(abs(v0 - t) > 1e-6 for t in (0, 1, math.e)) and x["variance with pedigree uncertainty"]:
                    d["pedigree matrix"] = {IND[k]: v for k, v in p.items()}
            elif rnd.random() < 0.2:
                d["pedigree matrix"] = {}
        if rnd.random() < 0.3:
            d["formula"] = "a"
        if rnd.random() < 0.3:
            d["comment"] = "c"
        return d
    ds = {"id": "d", "name": "n", "location": "GLO", "type": "transforming activity", "exchanges": [], "parameters": []}
    for k in range(rnd.randrange(1, 4)):
        e = obj({"id": "e%d" % k, "name": "x", "type": pick(rnd, "reference product", "from technosphere", "to environment")})
        if rnd.random() < 0.6:
            e["production volume"] = obj({})
        if rnd.random() < 0.6:
            e["properties"] = [obj({"name": "p%d" % j}) for j in range(rnd.randrange(1, 3))]
        ds["exchanges"].append(e)
    ds["parameters"] = [obj({"id": "q%d" % j, "name": "q"}) for j in range(pick(rnd, 0, 1, 2))]
    if rnd.random() < 0.1:
        del ds["parameters"]
    return ds


def objects(data):
    for d in data:
        for e in d["exchanges"]:
            yield e
            if "production volume" in e:
                yield e["production volume"]
            yield from e.get("properties", [])
        yield from d.get("parameters", [])


def frame(data):
    x = copy.deepcopy(data)
    for o in list(objects(x)):
        o.pop("uncertainty", None)
        o.pop("amount", None)
    return proj.canon(x)


def gen_cases(prop, tier, rnd, scen):
    big = tier == "thorough"
    if prop == "U01":
        for o in scen:
            for k in (-2, -1, 0, 0.5, 1, 3, -0.25):
                yield {"kind": "model", "obj": real(o), "ks": [k, pick(rnd, 2, -3, 1, 0.5)]}
        for _ in range(40000 if big else 4000):
            a = amount(rnd, zero=0.05, extreme=0.05)
            e = gen.with_unc(rnd, {"amount": a, "name": "x", "comment": "c"}, 0.9)
            u = e.get("uncertainty", {})
            if u and rnd.random() < 0.2:
                u["comment"] = "kept"
            if u.get("type") == "normal" and rnd.random() < 0.2:
                u.pop(pick(rnd, "mean", "variance"))
            if "mean" in u and rnd.random() < 0.1:      # not what the amount says
                u["mean"] = pick(rnd, 0, 0.0, 1, -2.5, 7) if u["type"] == "normal" else pick(rnd, 1, 2.5, 0)
                if u["type"] == "lognormal" and rnd.random() < 0.5:
                    u["mu"] = pick(rnd, 0, 0.5)
            if u.get("type") == "lognormal" and not u["negative"] and rnd.random() < 0.2:
                del u["negative"]
            if u.get("type") == "triangular" and rnd.random() < 0.2:     # mode on a bound
                u[pick(rnd, "minimum", "maximum")] = a
                if u["minimum"] == u["maximum"]:
                    e.pop("uncertainty")
            ks = [pick(rnd, 1, 1.0, -1, 0.5, 2, -3, 0.1, -1e-3, 1e4, rnd.uniform(-5, 5), 0 if rnd.random() < 0.3 else 7) for _ in range(pick(rnd, 1, 2, 3, 5))]
            yield {"kind": "random", "obj": e, "ks": ks}
    elif prop == "U02":
        for o in scen:
            e = real(o)
            e.update(id="e", name="x", type="from technosphere")
            yield {"kind": "model", "data": [{"id": "d", "name": "n", "location": "GLO", "type": "transforming activity", "exchanges": [e], "parameters": []}]}
        for _ in range(20000 if big else 2500):
            unif = pick(rnd, 0, 0, 0.2)
            yield {"kind": "random", "data": [place(rnd, unif=unif) for _ in range(pick(rnd, 1, 1, 2))]}
    elif prop == "U04":
        for o in scen:
            yield {"kind": "model", "obj": real(o), "how": pick(rnd, "", "", "repair", -2, 0.5)}
        for _ in range(20000 if big else 2500):
            a = amount(rnd, zero=0.05, extreme=0.05)
            if rnd.random() < 0.3:
                e, how = {"amount": a}, "repair"
                u = messy(rnd, a)
                if u:
                    e["uncertainty"] = u
            else:
                e, how = gen.with_unc(rnd, {"amount": a}, 0.9), pick(rnd, "", "", "repair", -1, 0.1, 3, rnd.uniform(-5, 5))
                if rnd.random() < 0.3 and how == "":      # files have no sign flag
                    e.get("uncertainty", {}).pop("negative", None)
            yield {"kind": "random", "obj": e, "how": how}
    else:
        for c in range(1, 6):
            for d in range(0, 16):
                for s in (1, -1):
                    yield {"kind": "table", "fn": "adjust", "end": 2005, "year": 2005 + s * d, "form": pick(rnd, "int", "date"), "endform": "%d-%02d-%02d" % (2005, rnd.randrange(1, 13), rnd.randrange(1, 29)),
                           "exc": {"amount": 2, "pedigree matrix": dict({IND[k]: v for k, v in pm(rnd).items()}, **{"temporal correlation": c})}}
        for v in ("original", "ciroth"):
            for k in IND:
                for sc in range(1, 6):
                    yield {"kind": "table", "fn": "variance", "pm": {k: sc}, "version": v}
        for _ in range(20000 if big else 3000):
            if rnd.random() < 0.3:
                yield {"kind": "random", "fn": "variance", "pm": pm(rnd, 0.4) if rnd.random() < 0.95 else {}, "version": pick(rnd, "original", "original", "ciroth")}
                continue
            a = amount(rnd, zero=0, extreme=0.03)
            e = gen.with_unc(rnd, {"amount": a, "name": "x"}, 0.8)
            if rnd.random() < 0.85:
                p = pm(rnd)
                p["temporal"] = rnd.randrange(1, 6)
                e["pedigree matrix"] = {IND[k]: v for k, v in p.items()}
            end = rnd.randrange(1990, 2021)
            yield {"kind": "random", "fn": "adjust", "end": end, "year": end + pick(rnd, 0, 0, 1, -1, rnd.randrange(-20, 21), rnd.randrange(-6, 14)),
                   "form": pick(rnd, "int", "date"), "endform": "%d-%02d-%02d" % (end, rnd.randrange(1, 13), rnd.randrange(1, 29)), "exc": e}
        # as extracted: the matrix lies inside the uncertainty
        yield {"kind": "extracted", "fn": "adjust", "end": 2000, "year": 2010, "form": "int", "endform": "2000-12-31", "inside": True, "tags": ["extracted"],
               "exc": {"amount": 2, "uncertainty": {"type": "lognormal", "mean": 2, "mu": math.log(2), "negative": False, "variance": 0.04, "variance with pedigree uncertainty": 0.0402,
                                                    "pedigree matrix": {"reliability": 1, "completeness": 1, "temporal correlation": 2, "geographical correlation": 1, "further technology correlation": 1}}}}


def obj(e):
    return {"a": num(e.get("amount")), "u": proj.unc(e)}


def rest(e):
    x = copy.deepcopy(e)
    u = x.pop("uncertainty", {})
    x.pop("amount")
    return proj.canon(x)


def run(prop, case):
    from ocelot.transformations.uncertainty import scale_exchange, adjust_pedigree_matrix_time
    from ocelot.transformations.uncertainty.pedigree import get_pedigree_variance
    from ocelot.transformations.parameterization import repair_all_uncertainty_distributions
    if prop == "U01":
        e = case["obj"]
        rec = {"src": obj(e), "ks": [num(k) for k in case["ks"]], "rest0": rest(e), "steps": [], "rest": [], "joint": obj(e)}
        j = copy.deepcopy(e)
        tot, joint = 1, None
        rec["outcome"] = "ok"
        for k in case["ks"]:
            o, r = call(scale_exchange, e, k)
            if o != "ok":
                rec["outcome"] = o
                return rec
            rec["steps"].append(obj(e))
            rec["rest"].append(rest(e) if r is e else "not the same exchange")
            tot *= k
        o, r = call(scale_exchange, j, tot)
        rec["outcome"], rec["joint"] = o, obj(j)
        if tot == 0 and case["ks"][-1] != 0:
            rec["joint"] = rec["steps"][-1]
        return rec
    if prop == "U04":
        from ocelot.transformations.uncertainty import get_uncertainty_class
        e = case["obj"]
        if case["how"] == "repair":
            o, _ = call(get_uncertainty_class(e).repair, e)
            if o != "ok":       # U02
                e = {"amount": e["amount"]}
        elif case["how"] != "":
            o, _ = call(scale_exchange, e, case["how"])
            assert o == "ok"
        rec = {"src": obj(e), "stats": {}, "draws": {}}
        ids = {0: "undefined", 1: "none", 2: "lognormal", 3: "normal", 4: "uniform", 5: "triangular"}
        o, s = call(lambda: get_uncertainty_class(e).to_stats_arrays(e))
        rec["outcome"] = o
        if o == "ok":
            rec["stats"] = {"type": ids[s["uncertainty type"]], "amt": num(s.get("amount")), "loc": num(s.get("loc")), "scale": num(s.get("scale")), "min": num(s.get("minimum")), "max": num(s.get("maximum")),
                            "neg": {True: "T", False: "F", None: "-"}[s.get("negative")]}
            import numpy
            numpy.random.seed(case["id"])
            o, v = call(lambda: get_uncertainty_class(e).sample(e, 200))
            rec["outcome"] = o
            if o == "ok":
                v = [float(x) for x in v]
                ln = [math.log(abs(x)) if x else 0.0 for x in v]
                rec["draws"] = {"n": len(v), "lo": num(min(v)), "hi": num(max(v)), "llo": num(min(ln)), "lhi": num(max(ln))}
        rec["after"] = obj(e)
        return rec
    if prop == "U02":
        data = case["data"]

        def view():
            out = []
            for o in objects(data):
                x = obj(o)
                p = o.get("pedigree matrix", {})
                from fractions import Fraction
                back = {v: k for k, v in IND.items()}
                x["ped"] = num(Fraction(sum(TABLE[back[k]][v - 1] for k, v in p.items()), 10 ** 6))
                out.append(x)
            return out
        rec = {"src": view(), "frame": frame(data), "out": [], "twice": []}
        rec["outcome"], out = call(repair_all_uncertainty_distributions, data)
        rec["frame2"] = ""
        if rec["outcome"] == "ok":
            assert out is data or out == data
            rec["out"], rec["frame2"] = view(), frame(data)
            o2, _ = call(repair_all_uncertainty_distributions, data)
            rec["twice"] = view()
            if o2 != "ok":
                rec["outcome"] = "second:" + o2
        return rec
    if case["fn"] == "variance":
        o, v = call(get_pedigree_variance, {IND[k]: x for k, x in case["pm"].items()}, **({"version": "Ciroth et al"} if case["version"] == "ciroth" else {}))
        return {"fn": "variance", "outcome": o, "value": num(v), "pm": case["pm"] or {"reliability": 1}, "version": case["version"]}
    e = case["exc"]
    back = {v: k for k, v in IND.items()}
    back["further technology correlation"] = "technological"

    def mat():
        p = e.get("uncertainty", {}).get("pedigree matrix") if case.get("inside") else e.get("pedigree matrix")
        return p is not None, ({back[k]: v for k, v in p.items()} if p is not None else {"temporal": 1})

    def fr():
        x = copy.deepcopy(e)
        x.pop("pedigree matrix", None)
        u = x.pop("uncertainty", None) or {}
        return proj.canon(x)
    rec = {"fn": "adjust", "end": case["end"], "year": case["year"], "u": proj.unc(e), "frame": fr()}
    rec["haspm"], rec["pm"] = mat()
    year = case["year"] if case["form"] == "int" else "%d-06-30" % case["year"]
    rec["outcome"], _ = call(adjust_pedigree_matrix_time, {"end date": case["endform"]}, e, year)
    rec["haspm2"], rec["pm2"] = mat()
    rec["u2"], rec["frame2"] = proj.unc(e), fr()
    return rec


if __name__ == "__main__":
    common.main(gen_cases, run, {"U01": "the object has a distribution and a factor other than one", "U02": "at least one object has a distribution",
                                 "U03": "there is a pedigree matrix", "U04": "the object has a distribution"},
                lambda p, c, r: (c["obj"].get("uncertainty") and any(k != 1 for k in c["ks"])) if p == "U01" else
                "uncertainty" in c["obj"] if p == "U04" else
                any(o.get("uncertainty") for o in objects(c["data"])) if p == "U02" else c["fn"] == "variance" or "pedigree matrix" in c["exc"])
