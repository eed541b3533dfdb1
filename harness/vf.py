#!/usr/bin/env python3
"""Check runner: model checking of the specification, conformance of the real
code (scenario replay + recorded traces judged by TLC), evidence, verdict.

  vf.py check <PROPERTY> [--tier quick|thorough] [--seed N]
  vf.py replay <replay.json>
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLCJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(VERIF, "harness"))
import registry  # noqa: E402


class Machinery(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = registry.PROPS[pid]
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid.lower())
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.mc_notes = []
        self.specdir = os.path.join(self.scratch, "spec")
        os.mkdir(self.specdir)
        for base, _, files in os.walk(os.path.join(VERIF, "spec")):
            for f in files:
                if f.endswith((".tla", ".cfg")):
                    shutil.copy(os.path.join(base, f), self.specdir)
        self.classes = os.path.join(self.scratch, "classes")
        os.mkdir(self.classes)
        jav = [os.path.join(VERIF, "java", f) for f in os.listdir(os.path.join(VERIF, "java")) if f.endswith(".java")]
        r = subprocess.run(["javac", "-nowarn", "-d", self.classes, "-cp", TLCJARS] + jav,
                           capture_output=True, text=True)
        if r.returncode:
            raise Machinery("javac: " + r.stderr)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, heap="2g", timeout=800, extra=()):
        meta = tempfile.mkdtemp(prefix="meta-", dir=self.scratch)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap,
               "-Djava.io.tmpdir=" + meta,
               "-cp", self.classes + ":" + TLCJARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        r = subprocess.run(cmd, cwd=self.specdir, env=e, capture_output=True, text=True, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        return r

    def model_check(self):
        """Exhaustive design check of the area model; may emit scenarios."""
        scen_files = []
        for i, mc in enumerate(self.cfg.get("mc", [])):
            name, cfg = mc["module"], mc.get("cfg", {}).get(self.tier) or mc["module"] + ".cfg"
            out = os.path.join(self.scratch, "scen%d.ndjson" % i)
            env = {"SCEN_OUT": out, "TIER": self.tier, "PROP": self.pid}
            env.update(mc.get("env", {}).get(self.tier, {}))
            t = time.time()
            r = self.tlc(name + ".tla", cfg, env=env, workers=mc.get("workers", 4), heap=mc.get("heap", "4g"),
                         extra=mc.get("extra", []))
            m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", r.stdout)
            if r.returncode != 0 or not m:
                raise Machinery("model checking of %s failed:\n%s\n%s" % (name, r.stdout[-4000:], r.stderr[-2000:]))
            gen, dist = map(int, m[-1])
            self.states += dist
            self.transitions += gen
            self.mc_notes.append("%s/%s: %d distinct states, %d generated, %.1fs" % (name, cfg, dist, gen, time.time() - t))
            scen_files.append(out if os.path.exists(out) else "")
            if mc.get("stdout_scen"):
                with open(out, "w") as f:
                    for line in r.stdout.splitlines():
                        if line.startswith('"@@'):
                            f.write(json.loads(line)[2:] + "\n")
                scen_files[-1] = out
        return [s for s in scen_files if s]

    # ------------------------------------------------------------- driver
    def drive(self, scen_files, cases_file=None):
        out = os.path.join(self.scratch, "trace")
        os.makedirs(out, exist_ok=True)
        home = os.path.join(self.scratch, "home")
        os.makedirs(home, exist_ok=True)
        tmp = os.path.join(self.scratch, "tmp")
        os.makedirs(tmp, exist_ok=True)
        env = dict(os.environ)
        for k in ("OCELOT_OUTPUT", "PYTHONPATH"):
            env.pop(k, None)
        env.update(HOME=home, XDG_DATA_HOME=os.path.join(home, "data"), TMPDIR=tmp,
                   OCELOT_OUTPUT=os.path.join(home, "output"),
                   PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO + ":" + os.path.join(VERIF, "drivers"),
                   PYTHONHASHSEED=str(self.seed % 4294967295), MPLBACKEND="Agg",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   VERIF_TIER=self.tier, VERIF_SEED=str(self.seed))
        cmd = [PY, "-W", "ignore", os.path.join(VERIF, "drivers", self.cfg["driver"] + ".py"),
               "--prop", self.pid, "--tier", self.tier, "--seed", str(self.seed), "--out", out,
               "--workers", str(self.cfg.get("workers", 8))]
        for s in scen_files:
            cmd += ["--scen", s]
        if cases_file:
            cmd += ["--cases", cases_file]
        p = subprocess.run(cmd, cwd=self.scratch, env=env, capture_output=True, text=True, timeout=800)
        if p.returncode != 0 or not os.path.exists(os.path.join(out, "DONE")):
            raise Machinery("driver failed (%s):\n%s\n%s" % (p.returncode, p.stdout[-3000:], p.stderr[-6000:]))
        recs, cases = [], {}
        for f in sorted(os.listdir(out)):
            if f.startswith("rec"):
                with open(os.path.join(out, f), encoding="utf-8") as fh:
                    for line in fh:
                        recs.append(line)
            elif f.startswith("case"):
                with open(os.path.join(out, f), encoding="utf-8") as fh:
                    for line in fh:
                        d = json.loads(line)
                        cases[d["id"]] = d
        recs.sort(key=lambda l: json.loads(l)["id"])
        stats = json.load(open(os.path.join(out, "DONE")))
        return recs, cases, stats

    # -------------------------------------------------------------- judge
    def judge_chunk(self, lines):
        d = tempfile.mkdtemp(prefix="judge-", dir=self.scratch)
        tr, out = os.path.join(d, "trace.ndjson"), os.path.join(d, "verdict.json")
        with open(tr, "w", encoding="utf-8") as f:
            f.writelines(lines)
        mod = self.cfg["trace"]
        env = {"TRACE": tr, "OUT": out, "PROP": self.pid}
        try:
            r = self.tlc(mod + ".tla", "Trace.cfg", env=env, heap="3g")
        except subprocess.TimeoutExpired:
            raise Machinery("TLC timed out on a trace of %d records" % len(lines))
        if r.returncode == 0 and os.path.exists(out):
            v = json.load(open(out))
            if isinstance(v, list):
                v = v[0]
            if v["done"] != len(lines):
                raise Machinery("TLC judged %s of %d records" % (v["done"], len(lines)))
            self.judge_states += len(lines) + 2
            self.unclaimed += v.get("open", 0)
            bad = {}
            for i, names in v["bad"]:
                bad[i] = sorted(names)
            return bad
        if "Parsing or semantic analysis failed" in r.stdout or "Could not find" in r.stdout and "class" in r.stdout:
            raise Machinery("TLC cannot read the specification:\n" + r.stdout[-4000:])
        # evaluation error: the record does not fit the specification's types
        if len(lines) == 1:
            rec = json.loads(lines[0])
            m = re.search(r"Error: (?:TLC threw|Evaluating|The|Attempted)[\s\S]{0,800}", r.stdout)
            self.unevaluable += 1
            if self.unevaluable <= 3:
                log("record %s is not evaluable by the specification:\n%s" % (rec["id"], (m.group(0) if m else r.stdout[-1500:])))
            return {rec["id"]: ["NotEvaluable"]}
        self.splits += 1
        if self.splits > 60 and self.unevaluable:
            return {}      # enough witnesses
        if self.splits > 60:
            raise Machinery("too many unevaluable traces; last TLC output:\n" + r.stdout[-3000:])
        h = len(lines) // 2
        a = self.judge_chunk(lines[:h])
        a.update(self.judge_chunk(lines[h:]))
        return a

    def judge(self, recs):
        self.splits, self.judge_states, self.unevaluable, self.unclaimed = 0, 0, 0, 0
        if not recs:
            raise Machinery("driver produced no records")
        n = self.cfg.get("judges", 6)
        if len(recs) < 200:
            n = min(n, max(1, len(recs) // 30 + 1))
        chunks = [recs[i::n] for i in range(n)]
        bad = {}
        with cf.ThreadPoolExecutor(n) as ex:
            for b in ex.map(self.judge_chunk, [c for c in chunks if c]):
                bad.update(b)
        return bad

    # ------------------------------------------------------------ verdict
    def known(self):
        fp = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(fp):
            return []
        return [k for k in json.load(open(fp)) if k.get("property") == self.pid and k.get("status") == "known"]

    def run(self):
        scen = self.model_check()
        recs, cases, stats = self.drive(scen)
        t = time.time()
        bad = self.judge(recs)
        log("[%s] judged %d records in %.1fs; %d rejected" % (self.pid, len(recs), time.time() - t, len(bad)))
        known, hits, viol = self.known(), {}, []
        for i in sorted(bad):
            case = cases.get(i, {})
            k = next((k for k in known if k["tag"] in (case.get("tags") or []) and set(bad[i]) <= set(k["clauses"])), None)
            if k:
                hits.setdefault(k["tag"], []).append(i)
            else:
                viol.append(i)
        for k in known:
            if k["tag"] in hits:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        byid = {json.loads(r)["id"]: json.loads(r) for r in recs} if (viol or True) else {}
        rp = os.path.join(evd, "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s-%s.json" % (self.pid, self.tier))
        if os.path.exists(path):
            os.remove(path)
        if viol:
            with open(path, "w", encoding="utf-8") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "violations": [{"id": i, "clauses": bad[i], "case": cases.get(i), "record": byid.get(i)} for i in viol[:10]],
                           "total": len(viol)}, f, indent=1, ensure_ascii=False)
            for i in viol[:5]:
                log("  rejected record %s: clauses %s" % (i, bad[i]))
        lvl = self.cfg["level"]
        samples = []
        ids = sorted(byid)
        for i in (ids[:1] + ids[len(ids) // 2:len(ids) // 2 + 1]):
            s = json.dumps(byid[i], ensure_ascii=False)
            samples.append(byid[i] if len(s) < 6000 else s[:6000])
        cov = {"states": self.states + self.judge_states, "transitions": self.transitions + len(recs),
               "traces_validated_against_impl": len(recs), "samples": samples,
               "evaluations": len(recs), "distinct_nontrivial": stats.get("nontrivial", 0),
               "rule": stats.get("rule", ""), "design_model": self.mc_notes,
               "case_kinds": stats.get("kinds", {}), "known_finding_hits": {k: len(v) for k, v in hits.items()}}
        if self.unclaimed:
            cov["outside_the_claim"] = self.unclaimed
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": lvl, "coverage": cov,
              "assumptions": self.cfg.get("assumptions", []) + [
                  "numbers are compared as exact rationals with relative tolerance 1e-9 (double rounding)",
                  "java/Rat.java computes the arithmetic defined in spec/Rat.tla"],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        with open(os.path.join(evd, self.pid + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        if viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            return 1
        print("OK property=%s records=%d design_states=%d wall=%.1fs" % (self.pid, len(recs), self.states, time.time() - self.t0))
        return 0


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in argv:
        i = argv.index("--tier"); tier = argv[i + 1]; del argv[i:i + 2]
    if "--seed" in argv:
        i = argv.index("--seed"); seed = int(argv[i + 1]); del argv[i:i + 2]
    if argv[0] == "check":
        r = None
        try:
            r = Runner(argv[1], tier, seed)
            return r.run()
        except Machinery as e:
            log("MACHINERY ERROR: %s" % e)
            return 2
        finally:
            if r and not os.environ.get("VF_KEEP"):
                r.close()
    elif argv[0] == "replay":
        d = json.load(open(argv[1]))
        r = Runner(d["property"], d["tier"], d["seed"])
        try:
            cases = os.path.join(r.scratch, "replay.ndjson")
            with open(cases, "w") as f:
                for v in d["violations"]:
                    f.write(json.dumps(v["case"]) + "\n")
            recs, cs, _ = r.drive([], cases)
            bad = r.judge(recs)
            for i in sorted(bad):
                print("case %s rejected: %s" % (i, bad[i]))
                print(json.dumps(cs[i], indent=1, ensure_ascii=False)[:4000])
            return 1 if bad else 0
        finally:
            r.close()
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
