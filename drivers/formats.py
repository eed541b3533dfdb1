"""S12 validation of datasets, directories and files; S13 the command line."""
import contextlib, inspect, io, os, re, shutil, subprocess, sys, tempfile
import extraction, spold
from common import call, isolated, main
import ocelot, ocelot.io, ocelot.bin.ocelot_cli
from ocelot.io import dataset_schema, extract_directory, validate_directory, validate_directory_against_xsd

HERE = os.path.dirname(os.path.abspath(__file__))


# ------------------------------------------------- values as tagged trees
def enc(v):
    o = {"t": "o", "s": "", "l": [], "d": []}
    if v is None:
        o["t"] = "n"
    elif isinstance(v, bool):
        o["t"] = "b"
    elif isinstance(v, str):
        o.update(t="s", s=v)
    elif isinstance(v, float):
        o["t"] = "f"
    elif isinstance(v, int):
        o["t"] = "i"
    elif isinstance(v, (list, tuple)):
        o.update(t="l", l=[enc(x) for x in v])
    elif isinstance(v, dict):
        o.update(t="d", d=[[str(k), enc(x)] for k, x in v.items()])
    return o


def dec(o):
    return {"s": lambda: o["s"], "f": lambda: 1.5, "i": lambda: 3, "b": lambda: True, "n": lambda: None, "o": lambda: object(),
            "l": lambda: [dec(x) for x in o["l"]], "d": lambda: {k: dec(x) for k, x in o["d"]}}[o["t"]]()


def paths(v, at=()):
    yield at
    if isinstance(v, dict):
        for k in v:
            yield from paths(v[k], at + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths(x, at + (i,))


def damage(rnd, v):
    """v with one part of it changed"""
    p = rnd.choice(list(paths(v)))
    if not p:
        return
    at = v
    for k in p[:-1]:
        at = at[k]
    old, how = at[p[-1]], rnd.choice(["set", "set", "drop", "add"])
    if isinstance(old, int) and not isinstance(old, bool):    # pedigree scores: present and whole, or else
        at[p[-1]] = rnd.choice(["3", 2.0, None, 4])
    elif how == "drop" and isinstance(at, dict) and not any(isinstance(x, int) and not isinstance(x, bool) for x in at.values()):
        del at[p[-1]]
    elif how == "add" and isinstance(at, dict):
        at[rnd.choice(["extra", "Name", "amounts", "code", "formula"])] = rnd.choice(["x", 1.5, None])
    else:
        at[p[-1]] = rnd.choice(["x", 2.5, None, [], {}, 7, True, "public", "byproduct", "waste"])


# ------------------------------------------------------------------- S12
def valid_doc(rnd, i):
    d = extraction.dset(rnd, str(i))
    d.update(id="ds-%02d-%04d" % (i, rnd.randrange(10000)), type=rnd.choice("01"), level=rnd.choice("012345"), classes=[("ISIC rev.4 ecoinvent", "2011:x")], start="2000-01-01", parent=None,
             name="activity", entry="A. Entry", author="B. Author", scenario="Business-as-Usual")
    d["exchanges"] = [extraction.documented(e) for e in d["exchanges"] if e["group"][1] in "0245" and tuple(e["group"]) not in (("inputGroup", "2"), ("outputGroup", "5"))]
    d["parameters"] = [extraction.documented(q) for q in d["parameters"]]
    return d


FLAWS = ["entry", "author", "isic", "start", "location", "scenario", "unit", "name", "group", "gamma", "normal", "lognormal", "parameter", "property", "id"]


def flaw(rnd, d, which=None):
    """something the files can say and the format does not admit (mostly)"""
    w = which or rnd.choice(FLAWS)
    if w in ("entry", "author", "start"):
        d[w] = None
    elif w == "isic":
        d["classes"] = [("CPC", "3")]
    elif w in ("location", "scenario"):
        d[w] = ""
    elif w == "parameter":
        d["parameters"].append({"id": "q", "name": "", "unit": "kg", "amount": "1", "var": None, "formula": None, "unc": None})
    else:
        e = {"tag": "intermediateExchange", "id": "flawed", "name": "flow", "unit": "kg", "amount": "1", "group": ("outputGroup", "0"), "pv": "10"}
        if w == "unit" or w == "name":
            e[w] = ""
        elif w == "id":
            e["id"] = None
        elif w == "group":
            e["group"] = rnd.choice([("inputGroup", "1"), ("inputGroup", "2"), ("inputGroup", "3"), ("outputGroup", "3"), ("outputGroup", "5")])
            e.pop("pv")
        elif w == "gamma":
            e["unc"] = {"type": "gamma", "values": [("shape", "1"), ("scale", "2"), ("minValue", "0")]}
        elif w == "property":
            e["props"] = [{"id": None, "name": "p", "unit": "kg", "amount": "1"}]
        else:
            e["unc"] = {"type": w, "values": [("meanValue", "1"), ("variance", "0.1")], "ped": [1, 2, 3, 4, 5]}
        d["exchanges"].append(e)


@contextlib.contextmanager
def scratch():
    tmp, old = tempfile.mkdtemp(prefix="vf-s12-", dir="/tmp"), os.getcwd()
    try:
        os.makedirs(os.path.join(tmp, "work"))
        os.makedirs(os.path.join(tmp, "src"))
        os.chdir(os.path.join(tmp, "work"))
        yield os.path.join(tmp, "src"), os.path.join(tmp, "work")
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)


def spoken(fn, *args):
    """outcome, what it printed"""
    buf = io.StringIO()

    def inner():
        with contextlib.redirect_stdout(buf):
            return fn(*args)
    out, _ = call(inner, _timeout=60)
    return out, buf.getvalue()


def snapshot(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}


def run_directory(case):
    with scratch() as (src, work):
        for i, d in enumerate(case["docs"]):
            with open(os.path.join(src, "f%02d.spold" % i), "w", encoding="utf-8") as f:
                f.write(spold.document(d))
        before = snapshot(src)
        out, data = call(extract_directory, src, False, False)
        assert out == "ok", out
        out, text = spoken(validate_directory, src)
        log = "".join(open(os.path.join(work, f), encoding="utf-8").read() for f in os.listdir(work))
        m = re.search(r"(\d+) error", text)
        count = int(m.group(1)) if m else 0 if "No errors" in text else -1
        return {"mode": "directory", "out": out, "ds": [{"name": d["id"], "tree": enc(d)} for d in data], "named": [d["id"] for d in data if d["id"] in log],
                "count": count, "source": snapshot(src) == before}


OWN = """<?xml version="1.0"?><xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="r"><xs:complexType><xs:sequence>
<xs:element name="c" type="xs:string" minOccurs="1" maxOccurs="3"/></xs:sequence><xs:attribute name="n" type="xs:integer" use="required"/></xs:complexType></xs:element></xs:schema>"""
EDITS = {  # of drivers/data/valid.spold: does the file still follow the ecospold 2 format?
    "none": ("", "", False), "name": (">kWh<", ">MJ<", False), "amount": ('amount="0.05769"', 'amount="-12.5E3"', False), "comment": ("<flowData>", "<flowData><!-- x -->", False),
    "where": (">RER<", ">CH<", False), "noamount": ('amount="0.05769"', "", True), "nounit": (' unitId="77ae64fa-7e74-4252-9c3b-889c1cd20bfc"', "", True),
    "kind": ('specialActivityType="0"', 'specialActivityType="77"', True), "group": ("<outputGroup>0</outputGroup>", "<outputGroup>9</outputGroup>", True),
    "text": ('amount="0.05769"', 'amount="much"', True), "stray": ("<flowData>", "<flowData><stray/>", True), "date": ('startDate="2005-01-01"', 'startDate="yesterday"', True),
    "noname": ('<activityName xml:lang="en">treatment of aluminium scrap, post-consumer, prepared for recycling, at refiner</activityName>', "", True)}


def run_xsd(case):
    with scratch() as (src, work):
        files = []
        for i, f in enumerate(case["files"]):
            name = "f%02d%s" % (i, f["ext"])
            if case["own"]:
                text = '<?xml version="1.0" encoding="utf-8"?><r n="%s">%s%s</r>' % (f["n"], "<c>\u00e9</c>" * f["children"], "<d/>" if f["stray"] else "")
                o = {"name": name, "number": bool(re.fullmatch(r"[+-]?[0-9]+", f["n"])), "children": f["children"], "stray": f["stray"], "damaged": False}
            else:
                old, new, bad = EDITS[f["edit"]]
                text = open(os.path.join(HERE, "data", "valid.spold"), encoding="utf-8").read()
                assert old in text
                text = text.replace(old, new, 1)
                if f.get("child"):
                    text = text.replace("activityDataset>", "childActivityDataset>")
                o = {"name": name, "number": True, "children": 1, "stray": False, "damaged": bad}
            with open(os.path.join(src, name), "w", encoding="utf-8") as fh:
                fh.write(text)
            if f["ext"].lower() == ".spold":
                files.append(o)
        schema = os.path.join(os.path.dirname(ocelot.__file__), "data", "EcoSpold02.xsd")
        if case["own"]:
            schema = os.path.join(os.path.dirname(src), "own.xsd")
            open(schema, "w").write(OWN)
        before = snapshot(src)
        out, text = spoken(validate_directory_against_xsd, src, schema)
        return {"mode": "xsd", "own": case["own"], "out": out, "files": files, "named": sorted(set(f for f in before if f in text)), "allvalid": "All files valid" in text, "source": snapshot(src) == before}


def run_dataset(case):
    if "tree" in case:
        ds = dec(case["tree"])
    else:
        with scratch() as (src, work):
            open(os.path.join(src, "f.spold"), "w", encoding="utf-8").write(spold.document(case["doc"]))
            out, data = call(extract_directory, src, False, False)
            assert out == "ok", out
            ds = data[0]
        import random
        rnd = random.Random(case["seed"])
        for _ in range(case["n"]):
            damage(rnd, ds)
    tree = enc(ds)
    out, _ = call(dataset_schema, ds)
    assert out in ("ok", "Invalid", "MultipleInvalid") or out.endswith("Invalid"), out
    return {"mode": "dataset", "tree": tree, "accepted": out == "ok", "same": enc(ds) == tree}


# ------------------------------------------------------------------- S13
WORKERS = {"run": "system_model", "validate": "validate_directory", "xsd": "validate_directory_against_xsd", "cleanup": "cleanup_data_directory"}


def normal(what, f, a, k):
    b = inspect.signature(f).bind(*a, **k)
    b.apply_defaults()
    v = b.arguments
    o = {"what": what, "path": "", "second": "", "show": True, "save": "", "follow": ""}

    def text(x):
        return "" if x is None else x if isinstance(x, str) else "~" + repr(x)
    if what == "run":
        o.update(path=os.path.basename(v["data_path"]), second=text(v["config"]), show=v["show"], save=text(v["save_strategy"]), follow=text(v["follow"]))
        if v["use_cache"] is not True:
            o["what"] = "run without cache"
    elif what == "validate":
        o.update(path=os.path.basename(v["dirpath"]))
    elif what == "xsd":
        std = os.path.realpath(os.path.join(os.path.dirname(ocelot.__file__), "data", "EcoSpold02.xsd"))
        o.update(path=os.path.basename(v["dirpath"]), second="default" if os.path.realpath(v["schema"]) == std else os.path.basename(v["schema"]))
    elif v:
        o["second"] = text(str(dict(v)))
    return o


def run_line(case):
    tmp = tempfile.mkdtemp(prefix="vf-s13-", dir="/tmp")
    try:
        os.chdir(tmp)
        os.environ.update(HOME=tmp, XDG_DATA_HOME=tmp, OCELOT_OUTPUT=os.path.join(tmp, "out"))
        calls = []
        for what, name in WORKERS.items():       # stand-ins, wherever the name is known
            real = getattr(ocelot, name)

            def stand(*a, _what=what, _real=real, **k):
                calls.append(normal(_what, _real, a, k))
                if case["interrupt"]:
                    raise KeyboardInterrupt
                if case["fails"]:
                    raise OSError("cannot")
            for m in list(sys.modules.values()):
                for key, v in list(getattr(m, "__dict__", {}).items()):
                    if v is real:
                        setattr(m, key, stand)
        sys.argv = ["ocelot-cli"] + case["line"]
        out, err, status, said = io.StringIO(), io.StringIO(), 0, ""
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                sys.modules["ocelot.bin.ocelot_cli"].main()
            except SystemExit as e:
                status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
                said = e.code if isinstance(e.code, str) else ""
            except BaseException:
                status = 1
        out, err = out.getvalue(), err.getvalue() + said
        return {"mode": "line", "line": case["line"], "interrupt": case["interrupt"], "fails": case["fails"], "calls": calls, "status": status, "usage": "Usage:" in out and "ocelot-cli run" in out,
                "errusage": "Usage:" in err, "version": bool(re.search(r"\d", out)) and "Usage:" not in out}
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)


def run_process(case):
    """the program itself, on real directories"""
    tmp = tempfile.mkdtemp(prefix="vf-s13-", dir="/tmp")
    try:
        for d in ("src", "home", "data", "out", "work"):
            os.makedirs(os.path.join(tmp, d))
        docs = [spold.simple("making steel", "a", "1", "steel"), dict(spold.simple("market for steel", "m", "1", "steel"), type="1")]
        for d in docs:
            open(os.path.join(tmp, "src", d["id"] + ".spold"), "w", encoding="utf-8").write(spold.document(d))
        if case["broken"]:
            open(os.path.join(tmp, "src", "z.spold"), "w").write("<ecoSpold")
        env = dict(os.environ, HOME=os.path.join(tmp, "home"), XDG_DATA_HOME=os.path.join(tmp, "data"), OCELOT_OUTPUT=os.path.join(tmp, "out"), TMPDIR=tmp)
        argv = [a.replace("SRC", os.path.join(tmp, "src")) for a in case["argv"]]
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import sys; sys.argv[0] = 'ocelot-cli'; from ocelot.bin.ocelot_cli import main; main()"] + argv,
                           cwd=os.path.join(tmp, "work"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        runs, kept = 0, []
        for root, _, names in os.walk(tmp):
            if any("final-results" in x for x in names):
                runs += 1
                kept += [int(x.split(".")[0]) for x in names if x.endswith(".pickle") and x.split(".")[0].isdigit()]
        return {"mode": "process", "status": p.returncode, "good": case["good"], "runs": runs, "kept": sorted(kept), "strategy": case["kept"]}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, case):
    f = {"dataset": run_dataset, "directory": run_directory, "xsd": run_xsd, "line": run_line, "process": run_process}[case["mode"]]
    return isolated(f, case) if case["mode"] in ("line", "directory", "xsd") else f(case)


def gen_cases(prop, tier, rnd, scen):
    quick = tier == "quick"
    if prop == "S12":
        for t in scen:
            yield {"kind": "model", "mode": "dataset", "tree": t}
        for k in range(300 if quick else 4000):
            yield {"kind": "extracted", "mode": "dataset", "doc": valid_doc(rnd, k % 100), "seed": rnd.randrange(1 << 30), "n": rnd.choice([0, 1, 1, 1, 2])}
        for k in range(80 if quick else 800):
            docs = [valid_doc(rnd, i) for i in range(rnd.choice([0, 1, 2, 3, 5, 8]))]
            same = rnd.choice(FLAWS + [None] * 10)
            for d in docs:
                if rnd.random() < 0.5:
                    for _ in range(rnd.choice([1, 1, 2])):
                        flaw(rnd, d, same)
            yield {"kind": "directory", "mode": "directory", "docs": docs}
        for k in range(60 if quick else 500):
            own = rnd.random() < 0.7
            files = [{"ext": rnd.choice([".spold", ".spold", ".spold", ".SPOLD", ".xml"]), "n": rnd.choice(["1", "-20", "007", "x", "", "1.5", "+3"]), "children": rnd.choice([0, 1, 1, 2, 3, 4]), "stray": rnd.random() < 0.1,
                      "edit": rnd.choice(list(EDITS) + ["none"] * 6)} for _ in range(rnd.choice([0, 1, 2, 4, 7]))]
            if not own:
                for f in files:
                    f["child"] = f["edit"] == "none" and rnd.random() < 0.3
            yield {"kind": "schema", "mode": "xsd", "own": own, "files": files}
        for e in EDITS:
            if EDITS[e][2]:     # see known_findings.json
                yield {"kind": "schema", "mode": "xsd", "own": False, "tags": ["child"], "files": [{"ext": ".spold", "n": "1", "children": 1, "stray": False, "edit": x, "child": True} for x in ("none", e)]}
    else:
        for line in (rnd.sample(scen, min(1500, len(scen))) if quick else scen):
            yield {"kind": "model", "mode": "line", "line": line, "interrupt": rnd.random() < 0.2, "fails": rnd.random() < 0.2}
        base = [["run", "P"], ["run", "P", "Q"], ["validate", "P"], ["xsd", "P"], ["xsd", "P", "Q"], ["cleanup"], ["--list"], ["-l"]]
        names = ["data", "my data", "\u00fc\u6f22", "a=b", "run", "xsd", "x.y", "0", "cleanup", "'q'"]
        opts = ["--noshow", "--save=3", "--follow=x.spold"]
        for k in range(300 if quick else 2000):
            line = [rnd.choice(names) if w in "PQ" else w for w in rnd.choice(base)]
            for o in rnd.sample(opts, rnd.choice([0, 0, 1, 2, 3])):
                line.insert(rnd.randrange(len(line) + 1), o)
            yield {"kind": "words", "mode": "line", "line": line, "interrupt": rnd.random() < 0.2, "fails": rnd.random() < 0.2}
        for argv, broken, good, kept in [(["run", "SRC", "--noshow"], False, True, []), (["run", "SRC", "cutoff", "--noshow"], False, True, []), (["--noshow", "run", "SRC", "consequential"], False, True, []),
                                         (["run", "SRC", "--noshow", "--save=2:3"], False, True, [2, 3]), (["run", "SRC", "--save=4", "--noshow"], False, True, [4]), (["--save=1:8:3", "run", "SRC", "consequential", "--noshow"], False, True, [1, 8, 3]),
                                         (["run", "SRC", "--noshow"], True, False, []), (["run", "SRC/nowhere", "--noshow"], False, False, []),
                                         (["run", "SRC", "nonsense", "--noshow"], False, False, [])]:
            yield {"kind": "process", "mode": "process", "argv": argv, "broken": broken, "good": good, "kept": kept}


if __name__ == "__main__":
    main(gen_cases, run, {"S12": "values that differ from a valid dataset, or directories with files", "S13": "command lines that make Ocelot act"},
         lambda prop, case, rec: bool(rec.get("calls")) or case["mode"] in ("dataset", "process") or bool(rec.get("ds") or rec.get("files")))
