"""Shared driver code: case generation loop, forked workers, projections.

A driver defines  gen(prop, tier, rnd, scen) -> iterator of cases (JSON-able
dicts with a "kind"), and  run(prop, case) -> trace record (dict).  Numbers in
records are exact rationals [n, d] ([0, 0] = not a number).
"""
import argparse, collections, copy, json, logging, math, os, random, signal, sys, traceback
from fractions import Fraction

for _name in ("ocelot", "ocelot-detailed"):
    logging.getLogger(_name).propagate = False
    logging.getLogger(_name).addHandler(logging.NullHandler())
logging.getLogger().addHandler(logging.NullHandler())

M = 2 ** 31 - 1


def num(x):
    """Exact rational of a number; [0,0] for anything else."""
    if isinstance(x, bool):
        return [0, 0]
    try:
        import numpy as np
        if isinstance(x, np.generic):
            x = x.item()
    except ImportError:
        pass
    if isinstance(x, bool):
        return [0, 0]
    if isinstance(x, int):
        n, d = x, 1
    elif isinstance(x, float):
        if not math.isfinite(x):
            return [0, 0]
        n, d = x.as_integer_ratio()
    elif isinstance(x, Fraction):
        n, d = x.numerator, x.denominator
    else:
        return [0, 0]
    if abs(n) <= M and d <= M:
        return [n, d]
    return [str(n), str(d)]


def s(x):
    """Strings as is, everything else as a tagged string (TLC compares strings only)."""
    if isinstance(x, str):
        return x
    if x is None:
        return "~none"
    return "~" + type(x).__name__ + ":" + repr(x)[:80]


TIMEOUTS = 0


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def call(fn, *args, **kw):
    """Run the real code; returns (outcome, value): outcome "ok" or error class."""
    out, err = sys.stdout, sys.stderr
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    if not os.environ.get("VF_STDERR"):
        sys.stderr = devnull
    signal.signal(signal.SIGALRM, _alarm)
    global TIMEOUTS
    limit = kw.pop("_timeout", 20)
    signal.alarm(limit if TIMEOUTS < 3 else max(2, limit // 5))   # code that hangs still gets an answer in time
    try:
        v = fn(*args, **kw)
        if hasattr(v, "__next__"):
            v = list(v)
        return "ok", v
    except Timeout:
        TIMEOUTS += 1
        return "timeout", None
    except KeyboardInterrupt:
        return "KeyboardInterrupt", None
    except SystemExit as e:
        return "SystemExit", None
    except Exception as e:
        return type(e).__name__, None
    finally:
        signal.alarm(0)
        sys.stdout, sys.stderr = out, err
        devnull.close()


class Counter:
    def __init__(self):
        self.n = 0


def main(gen, run, rule, nontrivial=lambda prop, case, rec: True):
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop"); ap.add_argument("--tier"); ap.add_argument("--seed", type=int)
    ap.add_argument("--out"); ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--scen", action="append", default=[]); ap.add_argument("--cases")
    a = ap.parse_args()
    if a.cases:
        cases = [json.loads(l) for l in open(a.cases)]
    else:
        scen = []
        for f in a.scen:
            with open(f, encoding="utf-8") as fh:
                scen.extend(json.loads(l) for l in fh if l.strip())
        rnd = random.Random("%s/%s/%s" % (a.prop, a.tier, a.seed))
        cases = []
        for i, c in enumerate(gen(a.prop, a.tier, rnd, scen)):
            c["id"] = i
            cases.append(c)
    W = max(1, min(a.workers, len(cases) // 20 + 1))
    pids = []
    for w in range(W):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                kinds, non = collections.Counter(), set()
                with open(os.path.join(a.out, "rec%02d" % w), "w", encoding="utf-8") as fr, \
                        open(os.path.join(a.out, "case%02d" % w), "w", encoding="utf-8") as fc:
                    for c in cases[w::W]:
                        raw = json.dumps(c, ensure_ascii=False)
                        try:
                            rec = run(a.prop, copy.deepcopy(c))
                            rec.setdefault("shape", "ok")
                        except Exception as e:  # the result cannot be projected
                            if os.environ.get("VF_DEBUG"):
                                traceback.print_exc()
                            rec = {"shape": "bad: %s: %s" % (type(e).__name__, str(e)[:200])}
                        rec["id"], rec["kind"] = c["id"], c.get("kind", "")
                        fr.write(json.dumps(rec, ensure_ascii=False) + "\n")
                        fc.write(raw + "\n")
                        kinds[c.get("kind", "")] += 1
                        try:
                            if nontrivial(a.prop, c, rec):
                                cc = dict(c); cc.pop("id")
                                non.add(hash(json.dumps(cc, sort_keys=True)))
                        except Exception:
                            pass
                json.dump([dict(kinds), sorted(non)], open(os.path.join(a.out, "stat%02d" % w), "w"))
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    ok = True
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        ok = ok and st == 0
    if not ok:
        sys.exit(3)
    kinds, non = collections.Counter(), set()
    for w in range(W):
        k, n = json.load(open(os.path.join(a.out, "stat%02d" % w)))
        kinds.update(k); non.update(n)
    json.dump({"kinds": dict(kinds), "nontrivial": len(non), "rule": rule if isinstance(rule, str) else rule[a.prop]},
              open(os.path.join(a.out, "DONE"), "w"))


def isolated(fn, *args, timeout=120):
    """Run fn in a forked child of its own; returns its JSON-able result."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            signal.alarm(timeout)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            out = json.dumps(fn(*args))
        except BaseException:
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
            out, code = json.dumps({"shape": "bad: " + traceback.format_exc()[-300:]}), 0
        try:
            with os.fdopen(w, "w", encoding="utf-8") as f:
                f.write(out)
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, encoding="utf-8") as f:
        text = f.read()
    os.waitpid(pid, 0)
    if not text:
        return {"shape": "bad: the process died or hung"}
    return json.loads(text)
