"""S01: histories of source changes, extractions and crashes.

Every case is a history over two source directories (1, 2) and a symbolic
link (3, pointing to directory 1 first).  Files a..d are real ecospold files
whose activity name is their version.
"""
import os, random, resource, shutil, signal, sys, tempfile, time
import common, spold
from common import call, main, s

NAMES = {"a": "a.spold", "b": "b.SPOLD", "c": ".c.spold", "d": "d d-\u00e9.spold", "n": "notes.txt", "l": "left over.tmp"}
TICK = 0.011

import ocelot.io
from ocelot.io import extract_directory

STATE = {"on": False, "n": 0, "at": -1, "do": None, "opened": [], "trigger": None}
EVENTS = ("open", "os.rename", "os.remove", "os.utime", "os.truncate", "os.link", "os.chmod", "shutil.move", "shutil.copyfile", "tempfile.mkstemp")


def hook(event, args):
    if not STATE["on"] or event not in EVENTS:
        return
    if event == "open":
        p = os.fspath(args[0]) if isinstance(args[0], (str, os.PathLike)) else ""
        if not isinstance(p, str) or p.startswith(("/proc", "/dev", "/sys", "/usr", "/opt")) or p.endswith((".py", ".pyc")):
            return
        STATE["opened"].append(p)
    STATE["n"] += 1
    if STATE["n"] == STATE["at"]:
        STATE["on"] = False
        try:
            STATE["do"]()
        finally:
            STATE["on"] = True


sys.addaudithook(hook)


class World:
    def __init__(self, case):
        self.root = tempfile.mkdtemp(prefix="s01-")
        os.environ["XDG_DATA_HOME"] = os.path.join(self.root, "data")
        os.environ["HOME"] = os.path.join(self.root, "home")
        self.paths = {d: os.path.join(self.root, n) for d, n in ((1, "src"), (2, "src2"), (3, "current"))}
        os.mkdir(self.paths[1]); os.mkdir(self.paths[2])
        os.symlink(self.paths[1], self.paths[3])
        self.target = 1
        self.v = 0
        self.old = time.time() - 86400
        for d, files in enumerate(case["init"], 1):
            for f in files:
                self.write(d, f)

    def fp(self, d, f):
        return os.path.join(self.paths[d], NAMES[f])

    def text(self):
        self.v += 1
        return spold.document(spold.simple("v%06d" % self.v, "id%06d" % self.v))

    def write(self, d, f):
        t = self.text()
        with open(self.fp(d, f), "w", encoding="utf-8") as fh:
            fh.write(t)
        return self.v

    def versions(self, d):
        """What the directory really contains: [file, version] for dataset files."""
        out = []
        inv = {v: k for k, v in NAMES.items()}
        for fn in sorted(os.listdir(self.paths[d])):
            if fn.lower().endswith(".spold"):
                t = open(os.path.join(self.paths[d], fn), encoding="utf-8").read()
                i = t.index(">v0") + 2
                out.append([inv[fn], int(t[i:i + 6])])
        return sorted(out)

    def change(self, op, d, f, g):
        """Apply one source change to the real directory; returns the version written (0: none)."""
        if op == "edit":
            if not os.path.exists(self.fp(d, f)):
                return 0
            return self.write(d, f)
        if op == "keep":      # overwritten in place, time stamp restored (cp -p, rsync -t, unzip)
            if not os.path.exists(self.fp(d, f)):
                return 0
            st = os.stat(self.fp(d, f))
            v = self.write(d, f)
            os.utime(self.fp(d, f), ns=(st.st_atime_ns, st.st_mtime_ns))
            return v
        if op == "past":      # replaced by another file that is a day old (mv backup/a.spold .)
            if not os.path.exists(self.fp(d, f)):
                return 0
            tmp = os.path.join(self.root, "incoming")
            t = self.text()
            with open(tmp, "w", encoding="utf-8") as fh:
                fh.write(t)
            os.utime(tmp, (self.old, self.old))
            st = os.stat(self.paths[d])
            os.replace(tmp, self.fp(d, f))
            if g == "k":      # and the directory's own time stamp restored, as archivers do
                os.utime(self.paths[d], ns=(st.st_atime_ns, st.st_mtime_ns))
            return self.v
        if op == "add":
            if os.path.exists(self.fp(d, f)):
                return 0
            return self.write(d, f)
        if op == "rm":
            if os.path.exists(self.fp(d, f)):
                os.remove(self.fp(d, f))
            return 0
        if op == "ren":
            if os.path.exists(self.fp(d, f)):
                os.replace(self.fp(d, f), self.fp(d, g))
            return 0
        if op == "note":      # something else in the directory changes
            with open(os.path.join(self.paths[d], NAMES["n"]), "a") as fh:
                fh.write("x")
            return 0
        if op == "sub":
            p = os.path.join(self.paths[d], "sub")
            if os.path.isdir(p):
                os.rmdir(p)
            else:
                os.mkdir(p)
            return 0
        if op == "swap":
            t = os.path.join(self.root, "aside")
            os.rename(self.paths[1], t); os.rename(self.paths[2], self.paths[1]); os.rename(t, self.paths[2])
            return 0
        if op == "relink":
            os.remove(self.paths[3])
            self.target = 3 - self.target
            os.symlink(self.paths[self.target], self.paths[3])
            return 0
        raise ValueError(op)

    def cache_listing(self):
        base, out = os.environ["XDG_DATA_HOME"], []
        for b, ds, fs in os.walk(base):
            for f in fs:
                st = os.stat(os.path.join(b, f))
                out.append([os.path.join(b, f), st.st_mtime_ns, st.st_size, open(os.path.join(b, f), "rb").read()])
        return sorted(out)

    def extract(self, d, cache=True, rel=False, mp=False):
        cwd = os.getcwd()
        p = self.paths[d]
        try:
            if rel:
                os.chdir(self.root)
                p = os.path.basename(p)
            if rel == 2:
                p = "./" + p + "/"
            return call(lambda: extract_directory(p, use_cache=cache, use_mp=mp), _timeout=60)
        finally:
            os.chdir(cwd)

    def project(self, data):
        inv = {v: k for k, v in NAMES.items()}
        return sorted([inv.get(os.path.basename(ds["filepath"]), "?" + s(ds["filepath"])), int(ds["name"][1:])] for ds in data)


def step(w, st):
    op, d, f, g = st["op"], st["d"], st.get("f", ""), st.get("g", "")
    rec = {"op": op, "d": d, "f": f, "g": g, "v": 0, "out": "ok", "res": [], "quiet": True}
    time.sleep(TICK)
    if op in ("x", "xrel", "xmp", "xf"):
        if op == "xf":
            before = w.cache_listing()
        STATE.update(on=True, n=0, at=-1, opened=[])
        out, data = w.extract(d, cache=op != "xf", rel=2 if op == "xrel" else 0, mp=op == "xmp")
        STATE["on"] = False
        rec["out"] = out
        if out == "ok":
            rec["res"] = w.project(data)
        if op == "xf":
            base = os.environ["XDG_DATA_HOME"]
            rec["quiet"] = before == w.cache_listing() and not any(p.startswith(base) for p in STATE["opened"])
    elif op == "mid":        # the source changes while it is being extracted
        inner = dict(st["inner"])
        def do():
            time.sleep(TICK)
            rec["v"] = w.change(inner["op"], d, inner.get("f", ""), inner.get("g", ""))
            rec["f"], rec["g"] = inner.get("f", ""), inner.get("g", "")
            rec["done"] = True
            time.sleep(TICK)
        rec["iop"] = inner["op"]
        STATE.update(on=True, n=0, at=st["k"], do=do, opened=[])
        w.extract(d)
        STATE["on"] = False
        if not rec.pop("done", False):
            rec["op"] = "none"
    elif op in ("full", "crash", "die"):
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                if op == "die":
                    STATE.update(on=True, n=0, at=st["k"], do=lambda: os.kill(os.getpid(), signal.SIGKILL), opened=[])
                else:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if op == "crash" else signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_FSIZE, (st["k"], st["k"]))
                w.extract(d)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
    else:
        rec["v"] = w.change(op, d, f, g)
        if rec["v"] == 0 and op in ("edit", "keep", "past", "add"):
            rec["op"] = "none"
    rec.setdefault("iop", "")
    return rec


def run(prop, case):
    w = World(case)
    try:
        init = [w.versions(1), w.versions(2)]
        steps = [step(w, st) for st in case["ops"]]
        return {"init": init, "steps": steps, "final": [w.versions(1), w.versions(2)]}
    finally:
        STATE["on"] = False
        shutil.rmtree(w.root, ignore_errors=True)


def rand_op(rnd):
    d = rnd.choice([1, 1, 1, 2])
    f = rnd.choice("aaabbcd")
    k = rnd.random()
    if k < 0.30:
        return {"op": rnd.choice(["x", "x", "x", "xrel"]), "d": rnd.choice([1, 1, 2, 3])}
    if k < 0.36:
        return {"op": "xf", "d": d}
    if k < 0.50:
        o = rnd.choice(["crash", "full", "die", "die"])
        return {"op": o, "d": rnd.choice([1, 2, 3]), "k": rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 9]) if o == "die" else rnd.choice([0, 1, 16, 200, 700, 1500, 3000])}
    if k < 0.58:
        return {"op": "mid", "d": rnd.choice([1, 2]), "k": rnd.choice([1, 2, 3, 4, 5, 6]), "inner": {"op": rnd.choice(["edit", "keep", "past", "add", "rm"]), "f": f}}
    if k < 0.64:
        return {"op": "relink", "d": 0}
    if k < 0.68:
        return {"op": "swap", "d": 0}
    if k < 0.73:
        return {"op": rnd.choice(["note", "sub"]), "d": d}
    if k < 0.80:
        return {"op": "ren", "d": d, "f": f, "g": rnd.choice([x for x in "abcdl" if x != f])}
    o = rnd.choice(["edit", "keep", "past", "past", "add", "rm"])
    return {"op": o, "d": d, "f": f, "g": rnd.choice(["", "k"]) if o == "past" else ""}


def gen_cases(prop, tier, rnd, scen):
    for c in scen:
        yield {"kind": "enumerated", "init": c["init"], "ops": c["ops"]}
    for _ in range(150 if tier == "quick" else 900):
        init = [sorted(rnd.sample("abcd", rnd.choice([0, 1, 2, 2, 3]))), rnd.choice([[], ["a"], ["a", "b"]])]
        ops = [rand_op(rnd) for _ in range(rnd.choice([4, 6, 8, 12]))]
        if rnd.random() < 0.1:
            ops[0] = {"op": "xmp", "d": 1}
        yield {"kind": "random", "init": init, "ops": ops + [{"op": "x", "d": 1}, {"op": "x", "d": 2}, {"op": "x", "d": 3}]}


def nontrivial(prop, case, rec):
    return sum(st["op"] not in ("x", "xf", "xrel", "xmp", "none", "note", "sub") for st in rec["steps"]) >= 1


if __name__ == "__main__":
    main(gen_cases, run, "histories with at least one change or crash between extractions", nontrivial)
