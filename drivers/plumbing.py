"""S05 saving strategies, S06 cleanup, S07 collections and wrappers."""
import datetime, functools, hashlib, json, os, pwd, random, resource, shutil, sys, tempfile, time
import pandas, numpy, lxml.etree, jinja2, wrapt  # before the clock is faked
import common
from common import call, main, s, isolated

FAKE = {"now": None}
_time, _time_ns = time.time, time.time_ns
time.time = lambda: _time() if FAKE["now"] is None else FAKE["now"]
time.time_ns = lambda: _time_ns() if FAKE["now"] is None else int(FAKE["now"] * 10 ** 9)
_dt = datetime.datetime


class _Datetime(_dt):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(time.time(), tz)

    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(time.time())

    @classmethod
    def today(cls):
        return cls.now()


datetime.datetime = _Datetime
import ocelot.io
from ocelot.collection import Collection, unwrap_functions
from ocelot.io import cleanup_data_directory
from ocelot.results import SaveStrategy
from ocelot.transformations.utils import single_input
from ocelot.utils import get_function_meta
from ocelot.wrapper import TransformationWrapper

WEEK = 7 * 24 * 3600

# ------------------------------------------------------------------ S05
STEPS = list(range(0, 26)) + [998, 999, 1000, 1001, 1999, 2000, 3000, 99999, 123456]


def run_s05(case):
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    vm = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (vm + (1 << 30), hard))
    try:
        if "bad" in case:
            out, v = call(lambda: SaveStrategy(case["bad"]))
            return {"q": [], "malformed": True, "out": out, "steps": [], "sel": []}
        q, form = case["q"], case["form"]
        sep = " : " if form == "spaced" else ":"
        arg = None if not q else (q[0] if form == "int" and len(q) == 1 else sep.join(map(str, q)))
        out, v = call(lambda: SaveStrategy(arg) if not (form == "default" and arg is None) else SaveStrategy())
        sel = []
        if out == "ok":
            order = STEPS[::-1] if case.get("down") else STEPS
            got = {}
            for i in order:
                o, x = call(lambda: v(i))
                got[i] = bool(x) if o == "ok" else "~" + o
            sel = [got[i] for i in STEPS]
            if any(isinstance(x, str) for x in sel):
                out, sel = "call failed", []
        return {"q": q, "malformed": False, "out": out, "steps": STEPS, "sel": sel}
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


# ------------------------------------------------------------------ S06
def tree_digest(p):
    if os.path.islink(p):
        return "link:" + os.readlink(p)
    if os.path.isfile(p):
        return hashlib.md5(open(p, "rb").read()).hexdigest()
    return hashlib.md5(json.dumps([[n, tree_digest(os.path.join(p, n))] for n in sorted(os.listdir(p))]).encode()).hexdigest()


def make_entry(out, outside, name, kind):
    p = os.path.join(out, name)
    if kind in ("dir", "nested", "empty"):
        os.mkdir(p)
        if kind != "empty":
            open(os.path.join(p, "report.log.json"), "w").write(name)
        if kind == "nested":
            os.makedirs(os.path.join(p, "assets", "css"))
            open(os.path.join(p, "assets", "css", "x.css"), "w").write(name)
            os.symlink(os.path.join(outside, "precious"), os.path.join(p, "link"))
            os.symlink("nowhere", os.path.join(p, "dangling"))
    elif kind == "file":
        open(p, "w").write(name)
    elif kind == "link":
        os.symlink(os.path.join(outside, "precious"), p)
    elif kind == "filelink":
        os.symlink(os.path.join(outside, "precious", "data.txt"), p)
    elif kind == "dangling":
        os.symlink(os.path.join(outside, "nothing"), p)
    return p


def wait_tick(p, last):
    """Touch p until its change time is later than last."""
    while True:
        os.utime(p, follow_symlinks=False)
        t = os.lstat(p).st_ctime_ns
        if t > last + 2000:
            return t
        time.sleep(0.0005)


def cleanup_child(case, root):
    os.setgroups([]); os.setgid(65534); os.setuid(65534)
    assert os.getuid() == 65534
    os.chdir(root)
    outside = os.path.join(root, "outside")
    os.makedirs(os.path.join(outside, "precious"))
    open(os.path.join(outside, "precious", "data.txt"), "w").write("precious")
    os.environ["XDG_DATA_HOME"] = os.path.join(root, "data")
    os.environ["HOME"] = root
    os.environ["TMPDIR"] = root
    if case.get("output") == "default":
        os.environ.pop("OCELOT_OUTPUT", None)
        out = os.path.join(root, "data", "Ocelot", "model-runs")
    else:
        out = os.path.join(root, "o\u00fct put")
        os.environ["OCELOT_OUTPUT"] = out
    os.makedirs(out)
    order = sorted(range(len(case["world"])), key=lambda i: ["old", "at", "new"].index(case["world"][i][1]))
    last = 0
    entries, ctimes, limit = [], {}, None
    for i in order:
        kind, age = case["world"][i]
        name = case["names"][i]
        p = make_entry(out, outside, name, kind)
        if case.get("mtime") and kind in ("dir", "nested", "empty", "file"):
            past = _time() - case["mtime"] * WEEK
            os.utime(p, (past, past))
            while os.lstat(p).st_ctime_ns <= last + 2000:
                time.sleep(0.0005)
                os.utime(p, (past, past))
            last = os.lstat(p).st_ctime_ns
        else:
            last = wait_tick(p, last)
        time.sleep(0.0003)
        ctimes[i] = last
    # links are judged by what they are (never deleted), so only real directories matter for the limit
    ages = {a: [ctimes[i] for i in order if case["world"][i][1] == a] for a in ("old", "at", "new")}
    if ages["at"]:
        limit = ages["at"][0]
        fl = os.lstat(os.path.join(out, case["names"][[i for i in order if case["world"][i][1] == "at"][0]])).st_ctime
    else:
        lo = max(ages["old"]) if ages["old"] else min(ages["new"]) - 2000000 if ages["new"] else _time_ns()
        hi = min(ages["new"]) if ages["new"] else lo + 2000000
        limit = (lo + hi) // 2
        fl = limit / 10 ** 9
    base = min(list(ctimes.values()) + [limit])
    for i, (kind, age) in enumerate(case["world"]):
        entries.append({"name": case["names"][i], "kind": {"nested": "dir", "empty": "dir", "filelink": "link", "dangling": "link"}.get(kind, kind), "t": ctimes[i] - base})
    before = {n: tree_digest(os.path.join(out, n)) for n in case["names"]}
    od = tree_digest(outside)
    FAKE["now"] = fl + WEEK
    res, _ = call(cleanup_data_directory)
    FAKE["now"] = None
    left = sorted(os.listdir(out)) if os.path.isdir(out) else ["~gone"]
    same = all(before.get(n) == tree_digest(os.path.join(out, n)) for n in left if n in before)
    return {"entries": entries, "limit": limit - base, "out": res, "left": left, "same": same and tree_digest(outside) == od}


def run_s06(case):
    root = tempfile.mkdtemp(prefix="s06-", dir="/tmp")
    try:
        os.chown(root, 65534, 65534)
        return isolated(cleanup_child, case, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------------------ S07
class Fn:
    pass


def make_fn(x):
    def f(data):
        return list(data) + [x]
    f.__name__ = "f%d" % x
    f.x = x
    return f


def build(t, fns):
    if t["t"] == "f":
        return fns[t["x"]]
    kids = [build(c, fns) for c in t["c"]]
    return Collection("inner", *kids) if t["t"] == "coll" else tuple(kids) if t["t"] == "tuple" else kids


def wrapt_fn(x):
    @single_input
    def f(ds):
        return [ds]
    return f


def run_list(case):
    fns = {x: make_fn(x) for x in range(0, 12)}
    ident = {id(f): x for x, f in fns.items()}
    xs = lambda it: [ident.get(id(f), -99) for f in it]
    tree = case["tree"]
    out, col = call(lambda: Collection("outer", *(build(c, fns) for c in tree["c"])))
    if out != "ok":
        return {"type": "list", "tree": tree, "flat": [], "init": [], "out": out, "steps": []}
    flat = call(lambda: unwrap_functions([build(c, fns) for c in tree["c"]]))
    rec = {"type": "list", "tree": tree, "out": "ok", "flat": xs(flat[1]) if flat[0] == "ok" else [-1], "init": xs(col), "steps": []}
    for o in case["ops"]:
        op, i, j, x, ys = o["op"], o["i"], o["j"], o["x"], o["xs"]
        before = xs(list(col))
        f, val = fns.get(x), []
        extra = [fns[y] for y in ys]
        box = {"col": col}

        def go():
            c = box["col"]
            if op == "insert": c.insert(i, f)
            elif op == "append": c.append(f)
            elif op == "extend": c.extend(extra)
            elif op == "iadd":
                c += extra
                box["col"] = c
            elif op == "set": c[i] = f
            elif op == "get": return [ident[id(c[i])]]
            elif op == "del": del c[i]
            elif op == "pop": return [ident[id(c.pop(i))]]
            elif op == "remove": c.remove(f)
            elif op == "index": return [c.index(f)]
            elif op == "count": return [c.count(f)]
            elif op == "in": return [1 if f in c else 0]
            elif op == "len": return [len(c)]
            elif op == "reverse": c.reverse()
            elif op == "clear": c.clear()
            elif op == "iter": return xs(f for f in c)
            elif op == "reversed": return xs(reversed(c))
            elif op == "cut": return xs(c[i:j])
            elif op == "setcut": c[i:j] = extra
            elif op == "delcut": del c[i:j]
            elif op == "call": return c([])
            elif op == "unwrap": c.unwrap()
            return []
        out, v = call(go)
        col = box["col"]
        rec["steps"].append({"o": o, "before": before, "after": xs(list(col)), "out": out, "val": v if out == "ok" else []})
    return rec


def run_wrap(case):
    kids, sel = {int(k): v for k, v in case["kids"].items()}, case["sel"]
    calls = []

    def func(d):
        calls.append(d)
        r = list(kids[d])
        return tuple(r) if case.get("tuple") else r
    func.__name__ = case["name"]
    func.__doc__ = case["doc"]
    if case["table"]:
        func.__table__ = {"title": "T", "columns": ["a"]}
    meta0 = get_function_meta(func)
    if case["form"] == "wrapper":
        w = TransformationWrapper(func, (lambda d: d in sel) if case["filter"] else None)
    else:
        w = single_input(func)
    if case.get("partial"):
        w = functools.partial(w)
    data = list(case["data"])
    out, v = call(lambda: w(data=data) if case.get("kw") else w(data))
    o2, meta = call(lambda: get_function_meta(w))
    return {"type": "wrap", "out": out, "data": case["data"], "selected": sel if case["form"] == "wrapper" and case["filter"] else sorted(set(case["data"])),
            "kids": [kids.get(d, []) for d in range(1, 6)], "res": list(v) if out == "ok" else [], "calls": calls, "same": data == case["data"],
            "meta": o2 == "ok" and meta == meta0}


def run(prop, case):
    return {"S05": run_s05, "S06": run_s06}[prop](case) if prop != "S07" else (run_list(case) if "tree" in case else run_wrap(case))


def rand_tree(rnd, depth=0):
    return {"t": "list" if depth == 0 else rnd.choice(["list", "coll", "tuple"]),
            "c": [rand_tree(rnd, depth + 1) if depth < 4 and rnd.random() < 0.35 else {"t": "f", "x": rnd.randint(0, 11)} for _ in range(rnd.choice([0, 1, 2, 3, 4]))]}


OPS = ["insert", "append", "extend", "iadd", "set", "get", "del", "pop", "remove", "index", "count", "in", "len", "reverse", "clear", "iter", "reversed", "cut", "setcut", "delcut", "call", "unwrap"]


def gen_cases(prop, tier, rnd, scen):
    quick = tier == "quick"
    if prop == "S05":
        for q in scen:
            for form in (["int", "str"] if len(q) == 1 else ["default", "none"] if not q else ["str"]):
                yield {"kind": "enumerated", "q": q, "form": form, "down": rnd.random() < 0.5}
        for bad in ["", "x", ":", "::", "1:", ":1", "1::2", "a:b", "1:b", "1:2:c", "1:2:3:4", "1.5", "1:2.5", "0x10", "one", "1;2", "1-2", " ", "1:2:", "-", [], {}, "1 2", "0:3:0", "-1", "0", "3:1:-1"]:
            yield {"kind": "malformed", "bad": bad}
        for _ in range(400 if quick else 6000):
            n = rnd.choice([1, 2, 3])
            q = [rnd.choice([rnd.randint(-5, 30), rnd.randint(0, 2000), rnd.randint(0, 10 ** 9)]) for _ in range(n)]
            yield {"kind": "random", "q": q, "form": rnd.choice(["str", "spaced"]), "down": rnd.random() < 0.5}
    elif prop == "S06":
        def finish(c):
            c["names"] = rnd.sample(["0a1b", "zzz", ".hidden", "with space", "\u00e4\u00f6", "assets", "9e107d9d372bb6826bd81d3542a419d6", "x.pickle", "-rf", "~"], len(c["world"]))
            c["output"] = rnd.choice(["env", "default"])
            c["mtime"] = rnd.choice([0, 0, 2, -1])
            return c
        for c in scen:
            if sum(a == "at" for k, a in c["world"]) > 1:
                c["world"] = [[k, a if i == 0 or a != "at" or c["world"][0][1] != "at" else "new"] for i, (k, a) in enumerate(c["world"])]
            yield finish(dict(c, kind="enumerated"))
        for _ in range(120 if quick else 700):
            w, at = [], False
            for _ in range(rnd.choice([0, 1, 3, 4, 6])):
                a = rnd.choice(["old", "old", "new", "new", "at"])
                if a == "at":
                    a, at = ("new", at) if at else ("at", True)
                w.append([rnd.choice(["dir", "nested", "empty", "dir", "file", "link", "filelink", "dangling"]), a])
            yield finish({"kind": "random", "world": w})
    else:
        for c in scen:
            yield dict(c, kind="enumerated")
        for _ in range(400 if quick else 4000):
            yield {"kind": "random list", "tree": rand_tree(rnd), "ops": [
                {"op": rnd.choice(OPS), "i": rnd.randint(-6, 6), "j": rnd.randint(-6, 6), "x": rnd.randint(0, 11), "xs": [rnd.randint(0, 11) for _ in range(rnd.choice([0, 1, 2, 3]))]}
                for _ in range(rnd.choice([1, 3, 6, 10]))]}
        for _ in range(600 if quick else 5000):
            yield {"kind": "per dataset", "form": rnd.choice(["wrapper", "wrapper", "single"]), "filter": rnd.random() < 0.6, "data": [rnd.randint(1, 5) for _ in range(rnd.choice([0, 1, 2, 3, 5]))],
                   "kids": {str(d): [rnd.randint(1, 40) for _ in range(rnd.choice([0, 1, 1, 2, 3]))] for d in range(1, 6)}, "sel": sorted(rnd.sample(range(1, 6), rnd.randint(0, 5))),
                   "name": rnd.choice(["foo", "bar_baz"]), "doc": rnd.choice([None, "", "Doc."]), "table": rnd.random() < 0.5, "kw": rnd.random() < 0.3, "partial": rnd.random() < 0.2}


def nontrivial(prop, case, rec):
    if prop == "S05":
        return "bad" not in case and len(case["q"]) > 0
    if prop == "S06":
        return any(a == "old" for k, a in case["world"])
    return bool(case.get("ops")) or bool(case.get("data"))


if __name__ == "__main__":
    main(gen_cases, run, {"S05": "explicit strategies", "S06": "output directories with old entries", "S07": "operations on collections, per-dataset functions on data"}, nontrivial)
