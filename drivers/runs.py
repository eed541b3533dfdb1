"""S02-S04: model runs.  Every case is a history of runs in one process (of
its own), on real source files, with configurations of probe functions."""
import copy, functools, hashlib, json, logging, os, pickle, random, shutil, signal, sys, tempfile, time
import common, spold
from common import call, main, s, isolated

import ocelot.model, ocelot.report, ocelot.io
from ocelot.collection import Collection
from ocelot.model import system_model
from ocelot.transformations.utils import single_input
from ocelot.wrapper import TransformationWrapper
import docutils.core, docutils.parsers.rst, docutils.writers.html4css1, docutils.readers.standalone  # noqa
docutils.core.publish_parts("x", writer_name="html")

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(ocelot.model.__file__)))
report = logging.getLogger("ocelot")
detailed = logging.getLogger("ocelot-detailed")


MARKS = []      # when each probe was called


def mark():
    time.sleep(0.00002)
    MARKS.append(time.time())


class Boom(Exception):
    pass


def proj(data):
    return [{"n": s(ds["name"]), "f": os.path.basename(ds["filepath"]), "t": [s(x) for x in ds.get("trace", [])]} for ds in data]


def emit(leaf, data):
    for i in range(leaf.get("emit", 0)):
        report.info({"type": "table element" if leaf.get("table") else "list element", "data": [leaf["name"], "#%d" % (i + 1)]})
        if data:
            detailed.info({"ds": data[0], "message": "m%d" % (i + 1), "function": leaf["name"]})


def tagged(ds, *marks):
    ds = copy.deepcopy(ds)
    ds["trace"] = ds.get("trace", []) + list(marks)
    return ds


def leaf_function(leaf):
    k, name = leaf["k"], leaf["name"]
    if k in ("split", "sel"):
        if k == "split":
            def func(ds):
                mark()
                return [tagged(ds, name, "1"), tagged(ds, name, "2")]
        else:
            def func(ds):
                mark()
                return [tagged(ds, name)]
    elif k == "single":
        def func(ds):
            mark()
            return [tagged(ds, name)]
    else:
        def func(data, *extra):
            mark()
            emit(leaf, data)
            if k == "tag":
                for ds in data:
                    ds["trace"] = ds.get("trace", []) + [name]
                return data
            if k == "tagc":
                return [tagged(ds, name) for ds in data]
            if k == "dup":
                return data + [tagged(data[0], "copy")] if data else data
            if k == "drop":
                del data[-1:]
                return data
            if k == "rev":
                return data[::-1]
            if k == "clear":
                return []
            if k == "fail":
                raise Boom(name)
            if k == "int":
                raise KeyboardInterrupt
            if k == "kill":
                os.kill(os.getpid(), 2)
                return data
            raise ValueError(k)
    func.__name__ = name
    func.__doc__ = leaf.get("doc")
    if leaf.get("table"):
        func.__table__ = {"title": "t " + name, "columns": ["a", "b"]}
    if k == "split":
        return TransformationWrapper(func)
    if k == "sel":
        return TransformationWrapper(func, lambda ds: ds["name"] == leaf["sel"])
    if k == "single":
        return single_input(func)
    if leaf.get("form") == "partial":
        return functools.partial(func)
    return func


def build(tree):
    if tree["t"] == "f":
        return leaf_function(tree)
    if tree["t"] == "bad":
        return 42
    kids = [build(c) for c in tree["c"]]
    if tree["t"] == "coll":
        return Collection("c", *kids)
    if tree["t"] == "tuple":
        return tuple(kids)
    return kids


def digest(root, skip=None):
    out = []
    for base, dirs, files in os.walk(root):
        if skip and os.path.abspath(base) == skip:
            dirs[:] = []
            continue
        dirs.sort()
        out.append(os.path.relpath(base, root))
        for f in sorted(files):
            p = os.path.join(base, f)
            out.append([os.path.relpath(p, root), os.readlink(p) if os.path.islink(p) else hashlib.md5(open(p, "rb").read()).hexdigest()])
    return hashlib.md5(json.dumps([o for o in out if skip is None or o != os.path.relpath(skip, root)]).encode()).hexdigest()


class Tracer:
    """Interrupts the k-th line executed in /repo/ocelot after the run directory exists."""
    def __init__(self, k, out):
        self.k, self.out, self.n, self.hit = k, out, 0, False
        self.before = set(os.listdir(out)) if os.path.isdir(out) else set()
        self.started = False

    def __call__(self, frame, event, arg):
        if event == "call":
            return self if frame.f_code.co_filename.startswith(ROOT + os.sep) else None
        if event == "line" and not self.hit:
            if not self.started:
                self.started = os.path.isdir(self.out) and set(os.listdir(self.out)) != self.before
            if self.started:
                self.n += 1
                if self.n == self.k:
                    self.hit = True
                    raise KeyboardInterrupt
        return self


def stamps(fp, detailed=False):
    """for each event, how many calls of probes came before its time stamp"""
    if not os.path.exists(fp):
        return []
    out = []
    for line in open(fp, encoding="utf-8"):
        try:
            t = json.loads(line)["time"]
            out.append(len([m for m in MARKS if m <= t]))
        except Exception:
            out.append(-1)
    return out


def read_log(fp):
    """Events of a report log; anything that is not one JSON object with a time stamp is marked."""
    if not os.path.exists(fp):
        return []
    out = []
    for line in open(fp, encoding="utf-8"):
        try:
            d = json.loads(line)
            assert isinstance(d, dict) and isinstance(d["time"], (int, float)) and line.endswith("\n")
        except Exception:
            out.append({"type": "~malformed", "name": "", "index": -1, "count": -1, "data": [], "desc": "", "table": False, "uuid": ""})
            continue
        out.append({"type": s(d.get("type")), "name": s(d.get("name", "")), "index": d.get("index", -1), "count": d.get("count", -1),
                    "data": [s(x) for x in d.get("data", [])], "desc": s(d.get("description", "")), "table": bool(d.get("table")), "uuid": s(d.get("uuid", ""))})
    return out


def read_detailed(fp):
    if not os.path.exists(fp):
        return []
    out = []
    for line in open(fp, encoding="utf-8"):
        try:
            d = json.loads(line)
            assert isinstance(d["time"], (int, float)) and line.endswith("\n")
            out.append({"function": s(d["function"]), "message": s(d["message"]), "dsid": s(d["dataset"]["id"]), "file": s(d["dataset"]["filename"]), "code": s(d["dataset"]["code"])})
        except Exception:
            out.append({"function": "~malformed", "message": "", "dsid": "", "file": "", "code": ""})
    return out


def one_run(spec, w, earlier):
    out_dir = w["out"]
    before = set(os.listdir(out_dir)) if os.path.isdir(out_dir) else set()
    others = digest(w["root"])
    rec = {"init": w["init"], "config": spec["config"], "follow": spec.get("follow") or "", "want": spec.get("int", 0),
           "strategy": [] if spec.get("save") is None else [int(x) for x in str(spec["save"]).split(":")],
           "hits": sorted({d["f"] for d in w["init"] if spec.get("follow") and spec["follow"] in d["f"]})}
    del MARKS[:]
    config = build(spec["config"])
    kw = {}
    if spec.get("save") is not None:
        kw["save_strategy"] = spec["save"]
    if spec.get("follow"):
        kw["follow"] = spec["follow"]
    tr = Tracer(spec["int"], out_dir) if spec.get("int") else None

    def go():
        if tr:
            sys.settrace(tr)
        try:
            return system_model(w["src"], config, use_cache=spec.get("cache", True), **kw)
        finally:
            sys.settrace(None)
    result, code, kind = None, 0, "ok"
    stdout, stderr = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = open(os.devnull, "w")
    try:
        result = go()
    except SystemExit as e:
        kind, code = "exit", (e.code if isinstance(e.code, int) else (0 if e.code is None else 1))
    except KeyboardInterrupt:
        kind = "KeyboardInterrupt"
    except Boom as e:
        kind = "Boom:" + str(e)
    except Exception as e:
        kind = type(e).__name__
    finally:
        sys.settrace(None)
        sys.stdout, sys.stderr = stdout, stderr
    rec["hit"] = bool(tr and tr.hit)
    rec["lines"] = tr.n if tr else 0
    new = sorted(set(os.listdir(out_dir)) - before) if os.path.isdir(out_dir) else []
    rec.update(outcome=kind, code=code, new=len(new), returned=[], dirok=True)
    rec["others"] = True
    d = os.path.join(out_dir, new[0]) if len(new) == 1 else None
    if d is None:
        rec["others"] = others == digest(w["root"])
    else:
        rec["others"] = others == digest(w["root"], d)
    w["dirs"].append(d)
    if kind == "ok":
        om, data = result
        rec["returned"] = proj(data)
        rec["dirok"] = d is not None and os.path.abspath(om.directory) == os.path.abspath(d) and om.report_id == new[0]
    rec.update(files(d))
    rec["uuid"] = new[0] if len(new) == 1 else ""
    return rec


def files(d):
    rec = {"report": [], "detailed": [], "stamps": [], "dstamps": [], "calls": 0, "saved": [], "final": {"has": False, "data": []}, "follows": [], "extra": []}
    if d is None:
        return rec
    rec["report"] = read_log(os.path.join(d, "report.log.json"))
    rec["detailed"] = read_detailed(os.path.join(d, "detailed.log.json"))
    rec.update(stamps=stamps(os.path.join(d, "report.log.json")), dstamps=stamps(os.path.join(d, "detailed.log.json")), calls=len(MARKS))
    for fn in sorted(os.listdir(d)):
        p = os.path.join(d, fn)
        if fn in ("report.log.json", "detailed.log.json", "report.html", "assets"):
            continue
        if fn == "follow" and os.path.isdir(p):
            for g in sorted(os.listdir(p)):
                x = pickle.load(open(os.path.join(p, g), "rb"))
                rec["follows"].append({"index": x["index"], "name": s(x["function name"]), "string": s(x["follow string"]), "data": proj(x["datasets"]), "fileindex": g.split(".")[0]})
        elif fn == "final-results.pickle":
            rec["final"] = {"has": True, "data": proj(pickle.load(open(p, "rb")))}
        elif fn.endswith(".pickle") and fn.split(".")[0].isdigit():
            rec["saved"].append({"index": int(fn.split(".")[0]), "data": proj(pickle.load(open(p, "rb")))})
        else:
            rec["extra"].append(fn)
    rec["saved"].sort(key=lambda x: x["index"])
    rec["follows"].sort(key=lambda x: x["index"])
    return rec


def history(case):
    signal.signal(signal.SIGINT, signal.default_int_handler)
    root = tempfile.mkdtemp(prefix="runs-")
    try:
        os.environ["XDG_DATA_HOME"] = os.path.join(root, "data")
        os.environ["HOME"] = os.path.join(root, "home")
        if case.get("output", "env") == "env":
            os.environ["OCELOT_OUTPUT"] = os.path.join(root, "out")
            out = os.path.join(root, "out")
        else:
            os.environ.pop("OCELOT_OUTPUT", None)
            out = os.path.join(root, "data", "Ocelot", "model-runs")
        os.makedirs(out)
        os.makedirs(os.path.join(out, "0123456789abcdef"))
        open(os.path.join(out, "0123456789abcdef", "report.html"), "w").write("old")
        open(os.path.join(out, "notes.txt"), "w").write("keep")
        src = os.path.join(root, "src")
        os.mkdir(src)
        for fn, names in case["src"]:
            with open(os.path.join(src, fn), "w", encoding="utf-8") as f:
                f.write(spold.document([spold.simple(n, "id-" + n) for n in names]))
        out_, init = call(lambda: ocelot.io.extract_directory(src, use_cache=True, use_mp=False))
        assert out_ == "ok"
        w = {"root": root, "src": src, "out": out, "init": proj(init), "dirs": []}
        runs = []
        for spec in case["runs"]:
            runs.append(one_run(spec, w, runs))
            if spec.get("after"):
                report.info({"type": "table element", "data": ["outside", spec["after"]]})
                detailed.info({"ds": {"id": "o", "filepath": "o"}, "message": "outside", "function": spec["after"]})
        for rec, d in zip(runs, w["dirs"]):
            if d is not None and os.path.isdir(d):
                rec["later"] = {"exists": True, "report": read_log(os.path.join(d, "report.log.json")), "detailed": read_detailed(os.path.join(d, "detailed.log.json"))}
            else:
                rec["later"] = {"exists": False, "report": [], "detailed": []}
        return {"runs": runs}
    finally:
        sys.settrace(None)
        shutil.rmtree(root, ignore_errors=True)


def run(prop, case):
    return isolated(history, case)


# ------------------------------------------------------------------ cases
KINDS = ["tag", "tagc", "dup", "drop", "rev", "split", "sel", "single", "tag", "tagc", "dup", "clear"]
WORDS = ["alpha", "beta", "gamma", "delta <b>", "\u00fcber", "a/b", "eps", "zeta"]
SRCS = [[["a.spold", ["one"]]], [["a.spold", ["one", "two"]], ["b.spold", ["three"]]], [["a b.spold", ["one"]], ["\u00e9.spold", ["two"]], ["c.SPOLD", ["three", "four"]]], []]


def rand_leaf(rnd, i, bad=0.0):
    k = rnd.choice(KINDS)
    if rnd.random() < bad:
        k = "fail"
    name = rnd.choice(WORDS) + (str(i) if rnd.random() < 0.7 else "")
    leaf = {"t": "f", "k": k, "name": name, "emit": 0 if k in ("split", "sel", "single") else rnd.choice([0, 0, 0, 1, 2]), "table": rnd.random() < 0.5,
            "sel": rnd.choice(["one", "two", "none"]), "form": rnd.choice(["", "", "partial"])}
    if rnd.random() < 0.6:
        leaf["doc"] = rnd.choice(["Some *text*.", "", "Line one.\n\n* a\n* b\n"])
    return leaf


def rand_tree(rnd, n, depth=0, bad=0.0):
    kids, i = [], 0
    while i < n:
        if depth < 3 and rnd.random() < 0.3:
            m = rnd.randint(0, min(3, n - i))
            kids.append(rand_tree(rnd, m, depth + 1, bad))
            i += max(m, 1)
        else:
            kids.append(rand_leaf(rnd, i, bad)); i += 1
    return {"t": rnd.choice(["list", "list", "coll", "tuple"]) if depth else rnd.choice(["list", "coll"]), "c": kids}


def leaves(t):
    return [t] if t["t"] == "f" else [x for c in t.get("c", []) for x in leaves(c)]


def rand_run(rnd, prop, last=False):
    n = rnd.choice([1, 2, 3, 4, 6, 9]) if prop == "S02" else rnd.choice([1, 2, 3])
    spec = {"config": rand_tree(rnd, n, bad=0.0 if prop == "S02" else 0.12), "cache": rnd.random() < 0.8}
    if not leaves(spec["config"]):
        spec["config"]["c"].append(rand_leaf(rnd, 0))
    if rnd.random() < 0.7:
        spec["save"] = rnd.choice([1, 2, 3, "1", "2", "0:2", "1:3", "0:9:2", "1:8:3", "5:2", 4, "3:3"])
    if rnd.random() < 0.5:
        spec["follow"] = rnd.choice(["a.spold", "b.spold", ".spold", "nothing", "c.SPOLD", "b.sp"])
    if prop != "S02":
        r = rnd.random()
        if not last and prop == "S03" and r < 0.75 or r < 0.2:
            spec["int"] = rnd.randint(1, rnd.choice([12, 60, 250, 600]))
            for x in leaves(spec["config"]):    # interrupting a run that has failed already is not claimed
                if x["k"] == "fail":
                    x["k"] = "tag"
        elif r > 0.9:
            ls = leaves(spec["config"])
            x = rnd.choice(ls)
            x.update(k=rnd.choice(["int", "kill"]), form="")
        if rnd.random() < 0.3:
            spec["after"] = "x"
    return spec


def gen_cases(prop, tier, rnd, scen):
    quick = tier == "quick"
    for c in scen:
        yield dict(c, kind="enumerated")
    if prop == "S03":
        base = {"config": {"t": "list", "c": [{"t": "f", "k": "tag", "name": "one", "emit": 1, "table": True}, {"t": "f", "k": "dup", "name": "two", "emit": 1, "table": False, "doc": "d"}]},
                "save": "0:1", "follow": "a.spold"}
        clean = {"config": {"t": "list", "c": [{"t": "f", "k": "tagc", "name": "later", "emit": 1, "table": False}]}}
        for k in range(1, 520):
            if quick and k > 60 and k % 2 == 0:
                continue
            yield {"kind": "every point", "src": SRCS[1], "runs": [dict(base, int=k), clean]}
    for _ in range({"S02": 330, "S03": 220, "S04": 300}[prop] * (1 if quick else 6)):
        n = rnd.choice([1, 1, 2]) if prop == "S02" else rnd.choice([1, 2, 2, 3]) if prop == "S03" else rnd.choice([2, 2, 3, 4])
        yield {"kind": "random", "src": rnd.choice(SRCS[:3] * 3 + SRCS[3:]), "output": rnd.choice(["env", "default"]),
               "runs": [rand_run(rnd, prop, i == n - 1) for i in range(n)]}


def nontrivial(prop, case, rec):
    if prop == "S02":
        return any(len(leaves(r["config"])) > 1 for r in case["runs"])
    if prop == "S03":
        return any(r["hit"] or r["outcome"] != "ok" for r in rec["runs"])
    return len(case["runs"]) > 1


if __name__ == "__main__":
    main(gen_cases, run, {"S02": "runs with at least two transformations", "S03": "histories with an interrupted or failed run", "S04": "histories of several runs"}, nontrivial)
