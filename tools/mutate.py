"""Mutation sweep: mutate.py FILE N SEED CHECK...   (FILE relative to /repo)

Random syntactic mutants of FILE in scratch copies; those that pass the test
suite are run against the checks, stopping at the first that reports.
Survivors are printed for inspection by hand."""
import ast, concurrent.futures as cf, copy, os, random, shutil, subprocess, sys, threading

REPO, W = "/repo", int(os.environ.get("MUT_WORKERS", "4"))
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.And: ast.Or, ast.Or: ast.And}
FUN = {"max": "min", "min": "max", "any": "all", "all": "any", "sorted": "list", "abs": "float"}


def sites(tree):
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value)); docs.add(id(n.body[0]))
    out = []
    for k, n in enumerate(ast.walk(tree)):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare):
            out += [(k, "cmp", i) for i in range(len(n.ops)) if type(n.ops[i]) in SWAP]
        elif isinstance(n, (ast.BinOp, ast.AugAssign, ast.BoolOp)) and type(n.op) in SWAP:
            out.append((k, "op", 0))
            if isinstance(n, ast.BoolOp):
                out += [(k, "dropop", i) for i in range(len(n.values))]
        elif isinstance(n, ast.UnaryOp):
            out.append((k, "un", 0))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            out.append((k, "const", 0))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value:
            out.append((k, "str", 0))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out += [(k, "if", True), (k, "if", False)]
        elif isinstance(n, ast.comprehension) and n.ifs:
            out += [(k, "noif", i) for i in range(len(n.ifs))]
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in FUN:
                out.append((k, "fun", 0))
            if isinstance(n.func, ast.Name) and n.func.id in ("deepcopy", "list", "set", "sorted", "reversed", "tuple") and len(n.args) == 1:
                out.append((k, "unwrap", 0))
            if n.keywords:
                out += [(k, "nokw", i) for i in range(len(n.keywords))]
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "strip", "copy"):
                out.append((k, "nomethod", 0))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Assert, ast.Raise)):
            out.append((k, "del", 0))
    return out


class Put(ast.NodeTransformer):
    def __init__(self, old, new): self.old, self.new = old, new
    def visit(self, n):
        return self.new if n is self.old else self.generic_visit(n)


def mutate(src, site):
    tree = ast.parse(src)
    k, what, i = site
    n = list(ast.walk(tree))[k]
    line = getattr(n, "lineno", 0)
    new = None
    if what == "cmp": n.ops[i] = SWAP[type(n.ops[i])]()
    elif what == "op": n.op = SWAP[type(n.op)]()
    elif what == "dropop":
        v = [x for j, x in enumerate(n.values) if j != i]
        new = v[0] if len(v) == 1 else ast.BoolOp(n.op, v)
    elif what == "un": new = n.operand
    elif what == "const": n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1
    elif what == "str": n.value = n.value + "X"
    elif what == "if": n.test = ast.Constant(i)
    elif what == "noif": del n.ifs[i]; line = 0
    elif what == "fun": n.func.id = FUN[n.func.id]
    elif what == "unwrap": new = n.args[0]
    elif what == "nokw": del n.keywords[i]
    elif what == "nomethod": new = n.func.value
    elif what == "del": new = ast.Pass()
    if new is not None:
        tree = Put(n, new).visit(tree)
    return line, ast.unparse(ast.fix_missing_locations(tree))


def run(cmd, cwd, env, t):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=t, text=True)
    except subprocess.TimeoutExpired:
        return None


def main():
    path, n, seed, checks = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4:]
    src = open(os.path.join(REPO, path), encoding="utf-8").read()
    base = ast.unparse(ast.parse(src))
    s = sites(ast.parse(src))
    rnd = random.Random(seed)
    rnd.shuffle(s)
    root = "/tmp/mut-%d" % os.getpid()
    local, lock, ids = threading.local(), threading.Lock(), iter(range(99))
    stat = {"dead in tests": 0, "caught": 0, "survived": 0, "broken": 0}

    def one(site):
        if not hasattr(local, "d"):
            with lock:
                local.d = os.path.join(root, "w%d" % next(ids))
            shutil.copytree(REPO, local.d, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        try:
            line, new = mutate(src, site)
        except Exception as e:
            stat["broken"] += 1
            return
        if new == base:
            return
        f = os.path.join(local.d, path)
        open(f, "w", encoding="utf-8").write(new)
        scratch = os.path.join(local.d, ".scratch"); shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch + "/data"); os.makedirs(scratch + "/tmp")
        env = dict(os.environ, PYTHONPYCACHEPREFIX=scratch + "/pyc", PYTHONHASHSEED="0", XDG_DATA_HOME=scratch + "/data", TMPDIR=scratch + "/tmp", PYTHONPATH=local.d)
        r = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"], local.d, env, 200)
        if r is None or r.returncode:
            stat["dead in tests"] += 1
            return
        r = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "-o", "norecursedirs=venv", "tests/manual"], local.d, env, 200)
        if r is None or r.returncode:
            stat["dead in tests"] += 1
            return
        env = dict(os.environ, VERIF_REPO=local.d, VERIF_EVIDENCE=scratch)
        for c in checks:
            r = run(["bin/check", c], os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env, 900)
            if r is not None and r.returncode == 1 and "VIOLATION" in r.stdout:
                stat["caught"] += 1
                print("caught  ", c, site[1:], "line", line, flush=True)
                return
            if r is None or r.returncode not in (0, 1):
                print("NOANSWER", c, site, "line", line, flush=True)
        stat["survived"] += 1
        import difflib
        d = [l for l in difflib.unified_diff(base.splitlines(), new.splitlines(), lineterm="", n=0) if l[:2] not in ("--", "++", "@@")]
        print("SURVIVED", site[1:], "line", line, "\n    " + "\n    ".join(d[:6]), flush=True)

    try:
        with cf.ThreadPoolExecutor(W) as ex:
            list(ex.map(one, s[:n]))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print(path, len(s), "sites", stat)


main()
