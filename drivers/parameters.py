"""Driver for F01-F03: formulas, recalculation, references."""
import copy, logging, math
from fractions import Fraction
import common, gen, proj
from common import call, num
from gen import pick, q
from distributions import messy, objects, obj as uobj, place, pm, IND, TABLE

RESERVED = ("and as assert break class continue def del elif else except finally for from global if import in is lambda "
            "nonlocal not or pass raise return try while with yield").split()
PLAIN = ["x", "eff", "m_kg", "T1_kW", "APV_cement", "clinker_pv", "c2", "a_1b", "heat"]
TRICKY = ["yield_x", "min_x", "my_yield", "is_ok", "in5", "yield2", "this", "_in", "as_1", "orr", "lambda_2", "classy", "notes", "ifx", "elsewhere", "power_x", "xif", "e2", "for_2"]


# ------------------------------------------------------------ source dialect
PREC = {"+": 1, "-": 1, "*": 2, "/": 2}


def src(f, rnd, prec=0, style=None):
    """Text of a formula in the source dialect."""
    sp = lambda: pick(rnd, "", "", " ") if style is None else ""
    t = f[0]
    out, p = "", 9
    if t == "n":
        out = f[2] if len(f) > 2 else "%r" % q(f[1])
        p = 9 if not out.startswith("-") else 0
    elif t == "v":
        out = case(f[1], rnd)
    elif t in PREC:
        p = PREC[t]
        out = src(f[1], rnd, p) + sp() + t + sp() + src(f[2], rnd, p + 1)
    elif t == "neg":
        out, p = "-" + src(f[1], rnd, 8), 0
    elif t == "abs":
        out = pick(rnd, "abs", "ABS", "Abs") + "(" + src(f[1], rnd) + ")"
    elif t == "pct":
        out, p = f[1][2] if len(f[1]) > 2 else "%r" % q(f[1][1]), 8
        return out + "%"
    elif t == "pow":
        if rnd.random() < 0.5:
            out, p = src(f[1], rnd, 9) + sp() + "^" + sp() + ("%d" % f[2] if f[2] >= 0 or rnd.random() < 0.3 else "(%d)" % f[2]), 3
        else:
            e = ("%d" % f[2]) if rnd.random() < 0.7 else ("-0%d" % -f[2] if f[2] < 0 else "0%d" % f[2] if f[2] == 0 else "%d.0" % f[2])
            out, p = pick(rnd, "power", "POWER", "Power") + "(" + src(f[1], rnd) + ";" + sp() + e + ")", 9
    elif t == "if":
        c = src(f[1][1], rnd) + sp() + {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "=="}[f[1][0]] + sp() + src(f[1][2], rnd)
        a, b = src(f[2], rnd), src(f[3], rnd)
        if f[2] == f[3] and rnd.random() < 0.7:
            b = a
        out = pick(rnd, "if", "IF", "If") + "(" + sp() + c + ";" + sp() + a + ";" + sp() + b + sp() + ")"
    else:
        raise ValueError(t)
    if p < prec or rnd.random() < 0.08:
        out = "(" + out + ")"
    if rnd.random() < 0.02:
        out = out + "\r\n"
    return out


def case(n, rnd):
    return pick(rnd, n, n, n.upper(), n.lower(), n.capitalize())


def dast(rnd, vs, depth=3):
    """Random formula of the source dialect."""
    k = rnd.random()
    if depth == 0 or k < 0.18:
        if vs and rnd.random() < 0.7:
            return ["v", rnd.choice(vs)]
        t = pick(rnd, "2", "3", "0.5", "10", "1.5", "1e2", "2.5E-1", "0", "750")
        return ["n", num(Fraction(t)), t]
    sub = lambda: dast(rnd, vs, depth - 1)
    if k < 0.34:
        return ["+", sub(), sub()]
    if k < 0.46:
        return ["*", sub(), sub()]
    if k < 0.54:
        return ["-", sub(), sub()]
    if k < 0.62:
        return ["/", sub(), sub()]
    if k < 0.66:
        return ["neg", sub()]
    if k < 0.69:
        return ["abs", sub()]
    if k < 0.76:
        t = pick(rnd, "5", "32", "0.5", "100")
        return ["pct", ["n", num(Fraction(t)), t]]
    if k < 0.86:
        b = sub() if rnd.random() < 0.5 else dast(rnd, vs, 0)
        return ["pow", b, pick(rnd, 2, 2, 3, 0, 1, *(() if "abs" in str(b) else (-1, -2)))]
    if {"if", "else"} & {v.lower() for v in vs}:      # would be read as a conditional clause
        return ["*", sub(), sub()]
    at = lambda: ["v", rnd.choice(vs)] if vs and rnd.random() < 0.7 else ["n", [3, 1], "3"]
    cx = lambda: at() if rnd.random() < 0.6 else ["+", at(), at()] if rnd.random() < 0.7 else ["if", ["lt", at(), at()], at(), at()]
    a = sub()
    return ["if", [pick(rnd, "lt", "le", "gt", "ge", "eq"), cx(), cx()], a, a if rnd.random() < 0.1 else sub()]


def size(f):
    return 1 + sum(size(x) for x in f[1:] if isinstance(x, list) and x and isinstance(x[0], str)) if isinstance(f, list) else 0


def names_of(f):
    if f[0] == "v":
        return {f[1]}
    if f[0] in ("n", "ref", "refpv"):
        return set()
    out = set()
    for x in f[1:]:
        if isinstance(x, list) and x:
            out |= names_of(x)
    return out


BAD = ["a +", "UnitConversion(1; 2)", "AVERAGE(1;2;3)", "2 3", "x y", "(x", "x)", "3,,4", "IF(x>1;2", "if(x>1;2)", "POWER(2", "x = 3", "x :", "x; y", "import x", "del x", "if(x;\"a;b", "5 kg", "power(x;y", "2*(3"]

# formulas known to be bad, by activity (the four documented substitutions)
KNOWN = [
    ("thermoforming of plastic sheets", "1/014000000/50*0.946", ["/", ["/", ["n", [1, 1]], ["n", [14000000, 1]]], ["/", ["n", [50, 1]], ["n", [473, 500]]]]),
    ("benzene chlorination", "UnitConversion(152000000, 'pound avoirdupois', 'kg')", ["*", ["n", [152000000, 1]], ["n", [45359237, 100000000]]]),
    ("glued laminated timber production, for indoor use",
     "AVERAGE(3.08E04;4.00E04;3.39E04)*(AVERAGE(367561;433458;449963)/AVERAGE(1408383;1631979;1717500))",
     ["/", ["*", ["n", [104700, 3]], ["n", [1250982, 1]]], ["n", [4757862, 1]]]),
    ("cement production, alternative constituents 6-20%", "ABS(blast_furnace_slag/ cement* APV_cement)",
     ["abs", ["*", ["/", ["v", "blast_furnace_slag"], ["v", "cement"]], ["v", "apv_cement"]]]),
]


def scaffold(rnd, k, els):
    """Put elements into a dataset at random positions."""
    ds = {"id": "d%d" % k, "name": "act %d" % k, "location": "GLO", "reference product": "rp", "type": "transforming activity", "exchanges": [], "parameters": []}
    for i, e in enumerate(els):
        where = pick(rnd, "exc", "exc", "pv", "prop", "param") if ds["exchanges"] else "exc"
        o = dict(e)
        if where == "exc":
            o.update(id="e%d" % i, name="x%d" % i, type=pick(rnd, "reference product", "from technosphere", "to environment"))
            ds["exchanges"].append(o)
        elif where == "param":
            o.update(id="q%d" % i, name="q%d" % i)
            ds["parameters"].append(o)
        else:
            x = rnd.choice(ds["exchanges"])
            if where == "pv" and "production volume" not in x:
                x["production volume"] = o
            else:
                o["name"] = "prop%d" % i
                x.setdefault("properties", []).append(o)
    return ds


def gen_f01(tier, rnd, scen):
    big = tier == "thorough"

    def one(k, asts, vs, bads=()):
        els, meta = [], []
        rest = list(vs)
        for f in asts:
            e = {"amount": pick(rnd, 1, 2.5, 0)}
            if rest and rnd.random() < 0.5:
                e["variable"] = case(rest.pop(rnd.randrange(len(rest))), rnd)
            if f is not None:
                e["formula"] = f if isinstance(f, str) else src(f, rnd)
                e["_ast"] = ["n", [0, 1]] if isinstance(f, str) else f
                e["_bad"] = isinstance(f, str)
            els.append(e)
        return scaffold(rnd, k, els)
    for f in scen:
        yield {"kind": "model", "data": [one(0, [f], sorted(names_of(f)))]}
    for n, text, f in KNOWN:
        for _ in range(4):
            ds = one(0, [text, None], [])
            ds["name"] = n if rnd.random() < 0.9 or "AVERAGE" not in text else n
            for o in objects([ds]):
                if "formula" in o:
                    o["_ast"], o["_bad"] = f, False
                    o["formula"] = pick(rnd, text, text + "*1" if "UnitC" in text else text)
            yield {"kind": "known", "data": [ds], "tags": ["pound"] if "pound" in text else []}
    for _ in range(30000 if big else 2600):
        data = []
        pool = rnd.sample(PLAIN, 2) + ([rnd.choice(RESERVED[:])] if rnd.random() < 0.5 else []) + ([rnd.choice(TRICKY)] if rnd.random() < 0.6 else [])
        if rnd.random() < 0.25:
            r = rnd.choice(RESERVED)
            pool += [r, pick(rnd, r + "_x", "my" + r, r + "2", r + r, "x_" + r)]
        pool = list({v.lower(): v for v in pool}.values())
        for k in range(pick(rnd, 1, 1, 2)):
            fs = []
            for _ in range(pick(rnd, 1, 1, 2, 3)):
                f = dast(rnd, pool, pick(rnd, 0, 1, 2, 3, 3))
                while size(f) > 24:
                    f = dast(rnd, pool, 2)
                fs.append(f)
            if rnd.random() < 0.12:
                fs.append(rnd.choice(BAD))
            if rnd.random() < 0.3:
                fs.append(None)
            data.append(one(k, fs, pool))
        yield {"kind": "random", "data": data}


# ------------------------------------------------------------------ recalc
def gen_f02(tier, rnd, scen):
    big = tier == "thorough"

    def build(els, k=0):
        """els: [key, var, ast or None, amount] placed by key."""
        ds = {"id": "d%d" % k, "name": "act %d" % k, "location": "GLO", "reference product": "rp", "type": "transforming activity", "exchanges": [], "parameters": []}
        asts = {}
        for key, var, f, a in els:
            o = {"amount": a}
            if var:
                o["variable"] = var
            if f is not None:
                o["formula"] = gen.render(f)
                asts[o["formula"]] = f
            if key.startswith("param/"):
                o.update(id=key[6:], name=key)
                ds["parameters"].append(o)
            elif "/" not in key:
                o.update(id=key, name=key, type=pick(rnd, "reference product", "from technosphere"))
                ds["exchanges"].append(o)
            else:
                e = [x for x in ds["exchanges"] if x["id"] == key.split("/")[0]][0]
                if key.endswith("/pv"):
                    e["production volume"] = o
                else:
                    o["name"] = key.split("/")[1]
                    e.setdefault("properties", []).append(o)
        return ds, asts
    for g in scen:
        order = {"e": 0}
        ds, asts = build([[e["key"], e["var"], e["f"] if e["hasf"] else None, q(e["amt"])] for e in sorted(g, key=lambda e: e["key"].startswith("param/"))])
        yield {"kind": "model", "mode": "one", "data": [ds], "asts": asts}
    n = 0
    while n < (25000 if big else 2200):
        data, asts = [], {}
        for k in range(pick(rnd, 1, 1, 1, 2, 3)):
            nv = pick(rnd, 1, 2, 3, 4, 6)
            vs = ["v%d" % i for i in range(nv)]
            topo = rnd.sample(vs, nv)
            els, env = [], {}
            cyc = rnd.random() < 0.12
            und = rnd.random() < 0.08
            slots = ["e0", "e0/pv", "e0/p1", "e0/p2", "e1", "e1/pv", "e1/p1", "e2", "param/q1", "param/q2", "param/q3", "e3"]
            fx = {}
            for i, v in enumerate(topo):
                dens = [w for w in topo[:i] if env.get(w) and (env[w].numerator & (env[w].numerator - 1) == 0) and env[w] != 0]
                f = None if rnd.random() < 0.3 else gen.ast(rnd, topo[:i], pick(rnd, 1, 2, 3), dens=dens if rnd.random() < 0.7 else ())
                a = pick(rnd, 0, 1, 2, 0.5, -3, 4, 7)
                fx[v] = (f, a)
                if f is None:
                    env[v] = Fraction(a)
                else:
                    try:
                        env[v] = gen.evalf(f, env)
                    except ZeroDivisionError:
                        env[v] = Fraction(0)
                    except gen.Inexact:
                        env = None
                        break
            if env is None:
                continue
            unnamed = []
            ok = True
            for _ in range(pick(rnd, 0, 1, 2, 4)):
                f = gen.ast(rnd, vs, 2, dens=[w for w in vs if env[w] and env[w].numerator & (env[w].numerator - 1) == 0])
                try:
                    gen.evalz(f, env)
                except gen.Inexact:
                    ok = False
                unnamed.append(f)
            if not ok:
                continue
            if cyc:
                L = pick(rnd, 1, 2, min(3, nv))
                ring = rnd.sample(vs, min(L, nv))
                for i, v in enumerate(ring):
                    fx[v] = (["+", ["v", ring[(i + 1) % len(ring)]], ["n", [1, 1]]], 1)
            if und:
                if rnd.random() < 0.5:
                    fx[rnd.choice(vs)] = (["+", ["v", "missing"], ["n", [1, 1]]], 1)
                else:
                    unnamed.append(["*", ["v", "missing"], ["n", [2, 1]]])
            items = [(v,) + fx[v] for v in vs] + [("", f, pick(rnd, 0, 1, 9)) for f in unnamed]
            items += [("", None, pick(rnd, 3, 8)) for _ in range(pick(rnd, 0, 1))]
            slots = ["e0"] + rnd.sample(slots[1:], len(slots) - 1)
            rnd.shuffle(items)
            els, have = [], set()
            need = len(items)
            i = 0
            for sl in slots:
                if i >= need:
                    break
                b = sl.split("/")[0]
                if b == "param" or "/" not in sl or b in have:
                    els.append([sl, *items[i]])
                    i += 1
                    have.add(sl)
            if i < need:
                continue
            ds, aa = build(els, k)
            asts.update(aa)
            # uncertainties anywhere, around the final amount or not
            final = dict(env)
            if not cyc and not und:
                for o in objects([ds]):
                    if rnd.random() < 0.35:
                        if "formula" in o:
                            fin = float(gen.evalz(aa[o["formula"]], env))
                        else:
                            fin = o["amount"]
                        u = messy(rnd, fin)
                        if u and u.get("type") == "uniform" and not min(u["minimum"], u["maximum"]) <= fin <= max(u["minimum"], u["maximum"]) and rnd.random() > 0.1:
                            u = None
                        if u is not None:
                            o["uncertainty"] = u
            data.append(ds)
        if not data:
            continue
        n += 1
        yield {"kind": "random", "mode": "one" if len(data) == 1 and rnd.random() < 0.7 else "all", "data": data, "asts": asts}


# -------------------------------------------------------------- references
def uid(rnd):
    h = "0123456789abcdef"
    r = lambda n: "".join(rnd.choice(h) for _ in range(n))
    return "-".join((r(8), r(4), r(4), r(4), r(12)))


def ref(f, rnd, ids):
    """Python text of a formula with references."""
    t = f[0]
    if t == "ref":
        return pick(rnd, "Ref", "ref") + "('%s')" % ids[f[1]]
    if t == "refpv":
        return pick(rnd, "Ref", "ref") + "('%s', 'ProductionVolume')" % ids[f[1]]
    if t == "n":
        return "%r" % q(f[1])
    if t == "v":
        return f[1]
    if t in PREC:
        return "(%s%s%s%s%s)" % (ref(f[1], rnd, ids), pick(rnd, "", " "), t, pick(rnd, "", " "), ref(f[2], rnd, ids))
    if t == "if":
        return "(%s if %s < %s else %s)" % (ref(f[2], rnd, ids), ref(f[1][1], rnd, ids), ref(f[1][2], rnd, ids), ref(f[3], rnd, ids))
    raise ValueError(t)


def gen_f03(tier, rnd, scen):
    big = tier == "thorough"

    def build(k, els, ids=None):
        """els: dicts id, kind, var, hasf, f (model records)."""
        ids = ids or {}
        for e in els:
            ids.setdefault(e["id"], uid(rnd))
        ids.setdefault("gone", uid(rnd))
        ds = {"id": "d%d" % k, "name": "act %d" % k, "location": "GLO", "reference product": "rp", "type": "transforming activity", "exchanges": [], "parameters": []}
        for e in els:
            o = {"amount": pick(rnd, 1, 2, 3), "_k": [e["kind"], e["id"]], "_ast": e["f"]}
            if e["var"]:
                o["variable"] = e["var"]
            if e["hasf"]:
                o["formula"] = ref(e["f"], rnd, ids)
            if e["kind"] == "pv":
                x = [x for x in ds["exchanges"] if x["id"] == ids[e["id"]]][0]
                x["production volume"] = o
            elif e["kind"] == "prop":
                o["name"] = "p"
                rnd.choice(ds["exchanges"]).setdefault("properties", []).append(o)
            elif e["id"].startswith("p"):
                ds["parameters"].append(dict(o, id=ids[e["id"]], name="q"))
            else:
                ds["exchanges"].append(dict(o, id=ids[e["id"]], name="x", type="from technosphere"))
        if not ds["parameters"] and rnd.random() < 0.3:
            del ds["parameters"]
        return ds
    for g in scen:
        yield {"kind": "model", "data": [build(0, g)]}
    for _ in range(20000 if big else 2500):
        data, shared = [], {}
        for k in range(pick(rnd, 1, 1, 2)):
            els, vn = [], ["a", "b", "c", "d_x", "e5", "A"]
            dup = rnd.random() < 0.15
            slots = []
            for i in range(rnd.randrange(1, 5)):
                slots.append(("ep", "e%d" % i))
                if rnd.random() < 0.5:
                    slots.append(("pv", "e%d" % i))
                if rnd.random() < 0.3:
                    slots.append(("prop", "r%d" % i))
            for i in range(pick(rnd, 0, 1, 2)):
                slots.append(("ep", "p%d" % i))
            free = list(vn)
            for kd, i in slots:
                v = ""
                if rnd.random() < 0.45:
                    v = rnd.choice(vn) if dup else (free.pop(rnd.randrange(len(free))) if free else "")
                els.append({"id": i, "kind": kd, "var": v, "hasf": False, "f": ["n", [0, 1]]})
            named = [e["var"] for e in els if e["var"]]
            eps = [e["id"] for e in els if e["kind"] == "ep"]
            pvs = [e["id"] for e in els if e["kind"] == "pv"]
            lost = rnd.random() < 0.12

            def leaf():
                z = rnd.random()
                if z < 0.5:
                    return ["ref", rnd.choice(eps)]
                if z < 0.75 and pvs:
                    return ["refpv", rnd.choice(pvs)]
                if z < 0.85 and named:
                    return ["v", rnd.choice(named)]
                if lost and z < 0.95:
                    return pick(rnd, ["ref", "gone"], ["refpv", "gone"], ["refpv", rnd.choice(eps)])
                return ["n", gen.rat(pick(rnd, 2, 3, 0.5))]

            def tree(d):
                z = rnd.random()
                if d == 0 or z < 0.3:
                    return leaf()
                if z < 0.9:
                    return [pick(rnd, "+", "-", "*", "/"), tree(d - 1), tree(d - 1)]
                return ["if", ["lt", leaf(), leaf()], tree(d - 1), tree(d - 1)]
            for e in els:
                if rnd.random() < 0.5:
                    e["hasf"], e["f"] = True, tree(pick(rnd, 0, 1, 2))
            data.append(build(k, els, shared))
        yield {"kind": "random", "data": data}


def gen_cases(prop, tier, rnd, scen):
    return {"F01": gen_f01, "F02": gen_f02, "F03": gen_f03}[prop](tier, rnd, scen)


# ---------------------------------------------------------------------- run
def strip(data, *keys):
    x = copy.deepcopy(data)
    for o in list(objects(x)):
        for k in keys:
            o.pop(k, None)
    return proj.canon(x)


def value(text, env):
    """Value of a python formula as the package evaluates it."""
    from asteval import Interpreter
    from ocelot.transformations.parameterization.recalculation import evaluate_formula
    it = Interpreter()
    it.symtable.update(env)
    o, v = call(evaluate_formula, it, text, _timeout=5)
    return num(v) if o == "ok" else [0, 0]


def clean_ast(f):
    if isinstance(f, list):
        if f and f[0] == "n":
            return f[:2]
        return [clean_ast(x) for x in f]
    return f


def run(prop, case):
    return {"F01": run_f01, "F02": run_f02, "F03": run_f03}[prop](case)


def run_f01(case):
    from ocelot.transformations.parameterization import fix_ecoinvent_parameters
    import random
    data = case["data"]
    elems, names = [], {}
    for k, ds in enumerate(data):
        for o in objects([ds]):
            f, bad = clean_ast(o.pop("_ast", ["n", [0, 1]])), o.pop("_bad", False)
            elems.append({"ds": k, "var": o.get("variable", ""), "kind": "bad" if bad else "ok" if "formula" in o else "none", "f": f,
                          "low": o.get("formula", "").lower(), "crlf": "\r\n" in o.get("formula", "")})
            if not bad:
                for n in names_of(f) | ({o["variable"]} if "variable" in o else set()):
                    names[n] = {"src": n, "low": n.lower(), "up": n.upper()}
    amts = [num(o.get("amount")) for o in objects(data)]
    fr = strip(data, "formula", "variable", "amount")
    tgt = lambda n: n.upper() if n.lower() in RESERVED else n.lower()
    names = [names[n] for n in sorted(names)]
    rnd = random.Random(case["id"])
    low = {}
    envs = []
    pool = [1, 2, 3, 5, 7, 0, -2, 4] if case["kind"] != "known" else [2, 3, 5, 7]
    for _ in range(3):
        v = {}
        for n in names:
            v.setdefault(n["low"], pick(rnd, *pool))
        envs.append(v)
    rec = {"names": names, "bind": [tgt(n["src"]) for n in names], "envs": [[num(v[n["low"]]) for n in names] for v in envs],
           "elems": elems, "amts": amts, "frame": fr, "out": [], "amts2": [], "frame2": ""}
    rec["outcome"], out = call(fix_ecoinvent_parameters, data)
    if rec["outcome"] != "ok":
        return rec
    rec["amts2"] = [num(o.get("amount")) for o in objects(out)]
    rec["frame2"] = strip(out, "formula", "variable", "amount")
    for o in objects(out):
        has = "formula" in o
        rec["out"].append({"var": o.get("variable", ""), "hasf": has, "text": o.get("formula", ""),
                           "vals": [value(o["formula"], {tgt(n["src"]): float(v[n["low"]]) for n in names}) if has else [0, 0] for v in envs]})
    # name of a variable: lower/upper spelling for the specification
    for e in elems:
        e["v"] = {"src": e["var"], "low": e["var"].lower(), "up": e["var"].upper()}
    rec["known"] = case["kind"] == "known"
    return rec


def run_f02(case):
    from ocelot.transformations.parameterization.recalculation import recalculate, recalculate_all_parameterized_datasets
    data, asts = case["data"], case["asts"]

    def ped(o):
        back = {v: k for k, v in IND.items()}
        return num(Fraction(sum(TABLE[back[k]][v - 1] for k, v in o.get("pedigree matrix", {}).items()), 10 ** 6))

    def view(d):
        """all objects of a dataset; el: index of the element, 0 if not parameterized"""
        out, n = [], 0
        for o in objects([d]):
            el = 0
            if "variable" in o or "formula" in o:
                n += 1
                el = n
            out.append(dict(uobj(o), ped=ped(o), el=el))
        return out
    rec = {"mode": case["mode"], "dss": []}
    for d in data:
        rec["dss"].append({"elems": proj.elems(d, asts), "src": view(d), "frame": strip([d], "amount", "uncertainty"), "outcome": "", "out": [], "twice": [], "frame2": ""})
    if case["mode"] == "one":
        d, r = data[0], rec["dss"][0]
        r["outcome"], out = call(recalculate, d)
        rec["outcome"] = "ok"
        rec["logged"] = []
        if r["outcome"] == "ok":
            r["out"], r["frame2"] = view(out), strip([out], "amount", "uncertainty")
            o2, out2 = call(recalculate, out)
            r["twice"] = view(out2) if o2 == "ok" else []
        return rec
    seen = []

    class H(logging.Handler):
        def emit(self, r):
            if isinstance(r.msg, dict) and r.msg.get("type") == "table element":
                seen.append(str(r.msg["data"][0]))
    lg = logging.getLogger("ocelot")
    h, lv = H(), lg.level
    lg.addHandler(h)
    lg.setLevel(logging.INFO)
    try:
        rec["outcome"], out = call(recalculate_all_parameterized_datasets, data)
    finally:
        lg.removeHandler(h)
        lg.setLevel(lv)
    rec["logged"] = seen
    for i, r in enumerate(rec["dss"]):
        r["outcome"] = "rejected" if "act %d" % int(data[i]["id"][1:]) in seen else "ok"
        if rec["outcome"] == "ok" and r["outcome"] == "ok":
            d = out[i]
            r["out"], r["frame2"] = view(d), strip([d], "amount", "uncertainty")
            o2, out2 = call(recalculate, d)
            r["twice"] = view(out2) if o2 == "ok" else []
    return rec


def run_f03(case):
    from ocelot.transformations.parameterization import replace_implicit_references, variable_names_are_unique
    import random
    rnd = random.Random(case["id"])
    data = case["data"]
    dss, vals = [], []
    for d in data:
        els = []
        for o in objects([d]):
            k, f = o.pop("_k"), clean_ast(o.pop("_ast"))
            els.append({"kind": k[0], "id": k[1], "var": o.get("variable", ""), "hasf": "formula" in o, "f": f if "formula" in o else ["n", [0, 1]]})
        dss.append(els)
        vals.append([num(v) for v in rnd.sample([2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43], len(els))])
    rec = {"dss": dss, "vals": vals, "frame": strip(data, "formula", "variable"), "frame2": "", "out": []}
    before = proj.canon(data)
    rec["unique"], u = call(variable_names_are_unique, copy.deepcopy(data))
    rec["uniquesame"] = rec["unique"] != "ok" or proj.canon(u) == before
    rec["outcome"], out = call(replace_implicit_references, data)
    if rec["outcome"] == "ok":
        rec["frame2"] = strip(out, "formula", "variable")
        for k, d in enumerate(out):
            env = {}
            obs = list(objects([d]))
            for o, v in zip(obs, vals[k]):
                if o.get("variable"):
                    env.setdefault(o["variable"], q(v))
            rec["out"].append([{"var": o.get("variable", ""), "hasf": "formula" in o, "val": value(o["formula"], env) if "formula" in o else [0, 0]} for o in obs])
    return rec


if __name__ == "__main__":
    common.main(gen_cases, run, {"F01": "a formula uses a construct or name that needs translation", "F02": "there are at least two parameterized elements",
                                 "F03": "a formula contains a reference"},
                lambda p, c, r: any(x in o.get("formula", "") for x in ("(", "%", "^", ";", "\r") for o in objects(c["data"])) if p == "F01" else
                len(r["dss"][0]["elems"]) > 1 if p == "F02" else any("ef('" in o.get("formula", "") for o in objects(c["data"])))
