"""S08: reports of real model runs, read back as a browser would."""
import functools, hashlib, json, logging, os, pathlib, random, re, shutil, sys, tempfile, time
import common, spold
from common import call, main, s, isolated
import lxml.html, lxml.etree
import webbrowser
import ocelot.model, ocelot.report, ocelot.io
from ocelot.collection import Collection
from ocelot.model import system_model
from ocelot.report import HTMLReport
from ocelot.transformations.utils import single_input
from ocelot.wrapper import TransformationWrapper
import docutils.core, docutils.parsers.rst, docutils.writers.html4css1, docutils.readers.standalone  # noqa
docutils.core.publish_parts("x", writer_name="html")

ROOT = os.path.dirname(os.path.abspath(ocelot.model.__file__))
logger = logging.getLogger("ocelot")
CLOCK = [1700000000.0]


def canon(x):
    t = str(x)
    try:
        return "n:" + repr(float(t))
    except ValueError:
        return t


def words(x):
    return " ".join((x or "").split())


def text(e):
    return "".join(e.itertext())


def html_text(snippet):
    return words(text(lxml.html.fromstring("<ul><li>%s</li></ul>" % snippet)))


def parse(fp):
    raw = open(fp, encoding="utf-8").read()
    doc = lxml.html.document_fromstring(raw.encode("utf-8"), parser=lxml.html.HTMLParser(encoding="utf-8"))
    tags = [words(text(e)) for e in doc.xpath("//h2[@class='brand-tagline']")]
    rep = {"uuid": tags[0], "inputs": int(tags[1].split(":")[1]), "tenths": round(float(tags[2].split(":")[1].split()[0]) * 10), "fns": []}
    nav = [(a.get("href"), text(a)) for a in doc.xpath("//a[@class='sidebar-link']")]
    heads = [h for h in doc.iter("h2") if h.get("id")]
    seen = []
    for h in heads:
        ident = h.get("id")
        name = h.text or ""
        assert name.startswith(ident + ": "), name
        name = name[len(ident) + 2:].rstrip(" ")
        seen.append(("#" + ident, name))
        box = h.getnext()
        assert box.get("id") == ident + "-container"
        f = {"name": name, "title": "", "cols": [], "table": False, "els": [], "desc": ""}
        stage, desc = "facts", []
        for e in box:
            if e.tag == "h3":
                stage = "desc" if stage == "facts" else "table"
                if stage == "table":
                    f["table"], f["title"] = True, text(e)
            elif stage == "facts":
                for li in e.iter("li"):
                    t = words(text(li))
                    if t.startswith("Total time"):
                        f["secs"] = int(t.split(":")[1].split()[0])
                    elif t.startswith("Number of datasets"):
                        f["count"] = int(t.split(":")[1])
            elif stage == "desc" and e.tag == "ul":
                stage = "list"
                f["els"] = [[canon(words(text(li)))] for li in e if li.tag == "li"]
            elif stage == "desc":
                desc.append(text(e))
                desc.append(e.tail or "")
            elif stage == "table":
                f["cols"] = [text(th) for th in e.iter("th")]
                f["els"] = [[canon(text(td)) for td in tr.iter("td")] for tr in e.iter("tr") if not list(tr.iter("th"))]
        f["desc"] = words(" ".join(desc))
        rep["fns"].append(f)
    charts = re.findall(r"labels: (\[.*?\]),\s*series: \[\s*(\[.*?\])\s*\]", raw, re.S)
    by = {"times": None, "counts": None}
    for (labels, series), key in zip(charts, ("times", "counts")):
        by[key] = json.loads(series)
        assert len(json.loads(labels.replace("'", '"'))) == len(by[key])
    rep["counts"] = [int(x) for x in by["counts"]]
    rep["times"] = [int(x * 2) if x * 2 == int(x * 2) else -1 for x in by["times"]]
    return rep, nav == seen and len({i for i, _ in seen}) == len(seen)


def digest(root):
    out = []
    for base, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            out.append([os.path.relpath(p, root), hashlib.md5(open(p, "rb").read()).hexdigest()])
        out.append(os.path.relpath(base, root))
    return out


def function(f):
    def log():
        for row in f["raw"]:
            logger.info({"type": "table element" if f["table"] else "list element", "data": row if f["table"] else row[0]})
    if f["each"]:
        def func(ds):
            CLOCK[0] += f["dur"] / 2
            log()
            return [dict(ds, n=i) for i in range(f["mult"])]
    else:
        def func(data, *extra):
            CLOCK[0] += f["dur"] / 2
            log()
            if f["delta"] >= 0:
                return data + [{"name": "new", "filepath": "x"} for _ in range(f["delta"])]
            return data[:max(0, len(data) + f["delta"])]
    func.__name__ = f["name"]
    func.__doc__ = f["rawdesc"]
    if f["table"]:
        func.__table__ = {"title": f["title"], "columns": f["cols"]}
    if f["each"]:
        return single_input(func) if f.get("form") == "single" else TransformationWrapper(func)
    return functools.partial(func) if f.get("form") == "partial" else func


def go(case):
    root = tempfile.mkdtemp(prefix="reports-")
    here = os.getcwd()
    try:
        os.environ.update(XDG_DATA_HOME=os.path.join(root, "data"), HOME=os.path.join(root, "home"), OCELOT_OUTPUT=os.path.join(root, "o\u00fct"))
        out, src = os.environ["OCELOT_OUTPUT"], os.path.join(root, "src")
        os.makedirs(out); os.mkdir(src)
        if case["count"]:
            with open(os.path.join(src, "a.spold"), "w", encoding="utf-8") as f:
                f.write(spold.document([spold.simple("n%d" % i, "id%d" % i) for i in range(case["count"])]))
        fns = case["fns"]
        for f in fns:
            f.setdefault("raw", f["els"])
            f.setdefault("rawdesc", f["desc"] or None)
            f["desc"] = words(f["rawdesc"])
            f["els"] = [[canon(c) for c in row] for row in f["raw"]] if f["table"] else [[canon(html_text(row[0]))] for row in f["raw"]]
        config = [function(f) for f in fns]
        if case.get("nest") and len(config) > 1:
            config = [config[0], Collection("rest", *config[1:])] if case["nest"] == 1 else [config[:-1], config[-1]]
        opened = []
        webbrowser.open_new_tab = lambda url: opened.append(url) or True
        real = time.time
        time.time = lambda: CLOCK[0]
        try:
            res, v = call(lambda: system_model(src, config, use_cache=False, show=case.get("show", False)), _timeout=60)
        finally:
            time.time = real
        rec = {"out": res, "run": {"uuid": "", "count": case["count"], "fns": [{k: f[k] for k in ("name", "desc", "title", "cols", "table", "els", "each", "delta", "mult", "dur")} for f in fns]},
               "show": bool(case.get("show"))}
        dirs = sorted(os.listdir(out))
        if res != "ok":
            return rec
        assert len(dirs) == 1
        d = os.path.join(out, dirs[0])
        rec["run"]["uuid"] = dirs[0]
        fp = os.path.join(d, "report.html")
        rec["report"], rec["links"] = parse(fp)
        rec["opened"] = opened == [pathlib.Path(fp).as_uri()] if case.get("show") else opened != []
        assets, mine = os.path.join(ROOT, "data", "assets"), os.path.join(d, "assets")
        want = digest(assets)
        rec["assets"] = digest(mine) == want
        rec["place"] = {"report.html", "assets", "report.log.json"} <= set(os.listdir(d))
        before = open(fp, "rb").read()
        log = open(os.path.join(d, "report.log.json"), "rb").read()
        how = case.get("again", "same")
        if how == "damaged":
            open(os.path.join(mine, "stale.css"), "w").write("x")
            os.remove(os.path.join(mine, "css", "report.css"))
            open(fp, "a").write("x" * 100000)
        elif how == "gone":
            shutil.rmtree(mine)
            os.remove(fp)
        if how == "relative":
            os.chdir(d)
            again, _ = call(lambda: HTMLReport("report.log.json"))
            os.chdir(here)
        elif how == "moved":
            d2 = os.path.join(root, "elsewhere")
            os.mkdir(d2)
            shutil.copy(os.path.join(d, "report.log.json"), d2)
            os.remove(fp); shutil.rmtree(mine)
            d, fp, mine = d2, os.path.join(d2, "report.html"), os.path.join(d2, "assets")
            again, _ = call(lambda: HTMLReport(os.path.join(d2, "report.log.json")))
        else:
            again, _ = call(lambda: HTMLReport(os.path.join(d, "report.log.json")))
        rec["again"] = again == "ok" and open(fp, "rb").read() == before and digest(mine) == want and open(os.path.join(d, "report.log.json"), "rb").read() == log
        return rec
    finally:
        os.chdir(here)
        shutil.rmtree(root, ignore_errors=True)


def run(prop, case):
    return isolated(go, case)


CELLS = ["a", "heat, <100kW", "<b>x</b>", "a & b", "a &amp; b", "'q' \"d\"", "\u00fc \u4e2d \U0001f600", "x\u2028y", "{{ 7*7 }}", "{% if %}", "</td></tr></table>", "", " pad ", 1, 0, -3, 1.5, 1e-20, 2.5e30, True, None,
         "line\nbreak", "<!-- c -->", "C:\\x\\n", "<script>x", "a<b", "1 > 0"]
NAMES = ["f", "g", "<lambda>", "link_markets", "\u00fcber", "a & b", "x<y", "f", "{{ uuid }}"]
DOCS = [None, "", "Plain words.", "Two\n\nparagraphs of text.", "Less <than> & \"more\".", "\u00fcber \u4e2d", "Drop if x < y and y > z; {{ uuid }} {% x %}", "indented\n    block quote\n\nend"]
ITEMS = ["plain", "<b>bold</b> text", "a &lt; b &amp; c", "\u00fc", "<a href='x'>link</a>", "12", "{{ 7*7 }}", "x<br>y"]


def rand_fn(rnd, i):
    table, each = rnd.random() < 0.6, rnd.random() < 0.35
    n = rnd.choice([0, 1, 1, 2, 3, 5])
    ncol = rnd.randint(1, 4)
    f = {"name": rnd.choice(NAMES) + rnd.choice(["", str(i)]), "rawdesc": rnd.choice(DOCS), "table": table, "each": each, "mult": rnd.choice([0, 1, 1, 2, 3]), "delta": rnd.choice([0, 0, 1, 2, -1, -9]),
         "dur": rnd.choice([0, 0, 1, 2, 3, 7, 200]), "form": rnd.choice(["", "partial" if not each else "single"]), "title": "", "cols": []}
    if table:
        f["title"] = rnd.choice(["Table", "A & <B>", "Log ``x``", "\u00fc"])
        f["cols"] = [rnd.choice(["Name", "Product(s)", "a < b", "Num. & more", "\u00fc"]) for _ in range(ncol)]
        f["raw"] = [[rnd.choice(CELLS) for _ in range(ncol)] for _ in range(n)]
    else:
        f["raw"] = [[rnd.choice(ITEMS)] for _ in range(n)]
    f["els"], f["desc"] = [], ""
    return f


def gen_cases(prop, tier, rnd, scen):
    quick = tier == "quick"
    pick = [c for c in scen if len(c["fns"]) == 1]
    rest = [c for c in scen if len(c["fns"]) > 1]
    take = rnd.sample(pick, min(len(pick), 90 if quick else 250)) + rnd.sample(rest, min(len(rest), 210 if quick else 2500))
    for c in take:
        yield {"kind": "enumerated", "count": c["count"], "fns": c["fns"], "again": rnd.choice(["same", "damaged"])}
    for _ in range(450 if quick else 5000):
        n = rnd.choice([1, 2, 3, 4, 12])
        yield {"kind": "random", "count": rnd.choice([0, 1, 2, 3]), "fns": [rand_fn(rnd, i) for i in range(n)], "nest": rnd.choice([0, 0, 1, 2]), "show": rnd.random() < 0.3,
               "again": rnd.choice(["same", "damaged", "gone", "relative", "moved"])}


def nontrivial(prop, case, rec):
    return any(f.get("raw") or f["els"] for f in case["fns"])


if __name__ == "__main__":
    main(gen_cases, run, {"S08": "runs that log table or list elements"}, nontrivial)
