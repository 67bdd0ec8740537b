"""Runs the stages of a check: generate scenarios with TLC, execute them on the real code, judge the traces with TLC."""
import json, os, re, subprocess, sys, time, shutil, glob, zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF, BUILD = B.VERIF, B.BUILD
TLA = "/opt/veriftools/tla"
CLASSES = os.path.join(BUILD, "classes")
CP = f"{CLASSES}:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class Violation(Exception):
    pass


class Broken(Exception):
    """The machinery could not give an answer."""


def javac():
    src = sorted(glob.glob(os.path.join(VERIF, "java/*.java")))
    stamp = os.path.join(CLASSES, "stamp")
    text = "".join(open(s).read() for s in src)
    if os.path.exists(stamp) and open(stamp).read() == text:
        return
    os.makedirs(CLASSES, exist_ok=True)
    r = subprocess.run(["javac", "-nowarn", "-cp", CP, "-d", CLASSES] + src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("javac: " + r.stdout[-2000:])
    open(stamp, "w").write(text)


def tlc(module, cfg, env, workers=8, timeout=800, extra=(), heap="12g", stack="64m", cp=None):
    """Runs TLC on spec/<module>.tla; returns (exit code, output)."""
    meta = os.path.join(BUILD, "tlc", f"{module}-{os.getpid()}-{time.time_ns()}")
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", f"-Xss{stack}", "-Dtlc2.tool.impl.Tool.cdot=false", "-cp", cp or CP, "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-cleanup", "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, env=e, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def brief(out):
    i = out.find("Error:")
    return out[max(0, i):][:2500] if i >= 0 else out[-2500:]


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
                    "model_states": 0, "stages": [], "samples": []}
        self.bins = {}
        self.violations = []
        self.forms = None
        javac()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def env(self, **kw):
        d = {"VERIF_SEED": self.seed, "VERIF_TIER": self.tier}
        d.update(kw)
        return d

    def bin(self, features=()):
        key = tuple(features)
        if key not in self.bins:
            try:
                self.bins[key], _, self.forms = B.build(features)
            except RuntimeError as e:
                raise Broken(str(e))
        return self.bins[key]

    # -- stage: exhaustive model checking of the specification itself
    def model(self, module, cfg=None, timeout=600, min_states=2, **env):
        cfg = cfg or module + ".cfg"
        rc, out = tlc(module, cfg, self.env(**env), timeout=timeout, extra=["-deadlock"])
        gen, dist = states(out)
        if rc != 0 or "No error has been found" not in out or dist < min_states:
            raise Broken(f"model {module}/{cfg}: exit {rc}\n" + brief(out))
        self.cov["model_states"] += dist
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["stages"].append({"model": module, "cfg": cfg, "distinct_states": dist, "states_generated": gen})
        return out

    # -- stage: the Java evaluation of Lin.tla against its definitions
    def selfcheck(self):
        only = os.path.join(self.work, "classes")
        os.makedirs(only)
        for f in glob.glob(CLASSES + "/*.class"):
            if not os.path.basename(f).startswith("Lin"):
                shutil.copy(f, only)
        out = os.path.join(self.work, "lin.json")
        for mode, cp in (("define", CP.replace(CLASSES, only)), ("compare", CP)):
            rc, text = tlc("LinSelf", "Gen.cfg", self.env(OUT=out, MODE=mode), workers=1, timeout=300, cp=cp)
            if rc != 0 or not os.path.exists(out):
                raise Broken(f"LinSelf ({mode}): exit {rc}\n" + brief(text))
        self.cov["stages"].append({"selfcheck": "LinSelf", "result": "Java evaluation agrees with the definitions of Lin.tla"})

    # -- stage: scenarios from an ASSUME in a generator module
    def generate(self, module, name=None, cfg="Gen.cfg", **env):
        out = os.path.join(self.work, (name or module) + ".scn")
        rc, text = tlc(module, cfg, self.env(OUT=out, **env), workers=1, timeout=600)
        if rc != 0 or not os.path.exists(out):
            raise Broken(f"generator {module}: exit {rc}\n" + brief(text))
        return out

    # -- stage: scenarios from the behaviours of a specification (one line per PrintT'ed behaviour)
    def behaviours(self, module, cfg=None, name=None, simulate=None, timeout=600, share=1, **env):
        """Each output line '"SCN" {json}' printed by the model becomes a scenario (share n: one in n of them, by hash and seed)."""
        out = os.path.join(self.work, (name or module) + ".scn")
        extra = ["-deadlock"]
        if simulate:
            extra += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(self.seed)]
        rc, text = tlc(module, cfg or module + ".cfg", self.env(**env), workers=1, timeout=timeout, extra=extra)
        lines = []
        for m in re.finditer(r'^<<"SCN", "(.*)">>$', text, re.M):
            lines.append(json.loads('"' + m.group(1) + '"'))
        if rc != 0 or not lines:
            raise Broken(f"behaviours of {module}: exit {rc}, {len(lines)} lines\n" + brief(text))
        gen, dist = states(text)
        uniq = sorted(set(lines))
        total = len(uniq)
        uniq = [x for x in uniq if share == 1 or (zlib.crc32(x.encode()) // 7 + self.seed) % share == 0]
        with open(out, "w") as f:
            f.write("\n".join(uniq) + "\n")
        self.cov["model_states"] += dist
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["stages"].append({"behaviours_of": module, "distinct_states": dist, "states_generated": gen, "behaviours": total, "scenarios": len(uniq)})
        return out

    # -- stage: execute on the real code
    def execute(self, scn, features=(), timeout=700, case_timeout=60):
        b = self.bin(features)
        out = scn[:-4] + ("-" + "-".join(features) if features else "") + ".trace"
        e = dict(os.environ, CASE_TIMEOUT_S=str(case_timeout), SCRATCH=self.work)
        try:
            r = subprocess.run([b, scn, out], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("harness timed out")
        if r.returncode < 0:
            self.one_by_one(b, scn, out, e)
        elif r.returncode != 0:
            raise Broken(f"harness exit {r.returncode}: {r.stdout[-2000:]}")
        return out

    def one_by_one(self, b, scn, out, e):
        """The code under test took the process down: find out which scenarios do."""
        from concurrent.futures import ThreadPoolExecutor
        lines = [l for l in open(scn) if l.strip()]

        def one(i):
            f, o = f"{scn}.{i}", f"{scn}.{i}.out"
            open(f, "w").write(lines[i])
            try:
                rc = subprocess.run([b, f, o], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode
            except subprocess.TimeoutExpired:
                rc = -9
            if rc == 0:
                d = json.loads(open(o).read())
                d["id"] = i + 1
            else:
                d = {"id": i + 1, "scn": json.loads(lines[i]), "ev": [{"e": "crash"}]}
            for x in (f, o):
                if os.path.exists(x):
                    os.unlink(x)
            return json.dumps(d)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(len(lines))))
        open(out, "w").write("\n".join(res) + "\n")

    # -- stage: judge a trace with the specification
    def judge(self, module, trace, cfg="Trace.cfg", timeout=800, label=None, **env):
        cases = [json.loads(x) for x in open(trace)]
        for cse in cases:
            for ev in cse["ev"]:
                if ev.get("e") == "panic" and str(ev.get("msg", "")).startswith("HARNESS"):
                    raise Broken(f"harness: {ev['msg']}")
        nev = sum(len(x["ev"]) for x in cases)
        # TLC indexes cases by position; give it exactly the file
        rc, out = tlc(module, cfg, self.env(TRACE=trace, **env), timeout=timeout, extra=["-deadlock"])
        rej = [(int(a), int(b), c) for a, b, c in re.findall(r'^<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(.*?)\s*>>$', out, re.M | re.S)]
        gen, dist = states(out)
        lab = label or os.path.basename(trace)
        bycase = {x["id"]: x for x in cases}
        if rej:
            seen = set()
            for cid, evn, what in rej:
                if cid in seen:
                    continue
                seen.add(cid)
                self.violations.append({"stage": lab, "module": module, "case": cid, "event": evn, "clauses": re.sub(r"\s+", " ", what),
                                        "scenario": bycase[cid]["scn"], "observed": bycase[cid]["ev"][max(0, evn - 1):evn][:1]})
        elif rc != 0 or "No error has been found" not in out:
            if re.search(r"OutOfMemory|StackOverflow|java\.io|Parsing or semantic|Could not", out) or dist == 0 and gen == 0 and "Error: Evaluating" not in out and "TLC threw an unexpected exception" not in out:
                raise Broken(f"judge {module}: exit {rc}\n{brief(out)}")
            # the trace does not even have the shape the specification gives it meaning for
            m = re.search(r"/\\ c = (\d+)", out)
            cid = int(m.group(1)) if m else 0
            self.violations.append({"stage": lab, "module": module, "case": cid, "event": 0,
                                    "clauses": "recorded behaviour outside the specification's domain: " + brief(out),
                                    "scenario": bycase.get(cid, {}).get("scn"), "observed": []})
        elif dist != nev + 2 * len(cases):
            raise Broken(f"judge {module}: {dist} states for {nev} events in {len(cases)} cases\n" + brief(out))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["traces_validated_against_impl"] += len(cases)
        self.cov["events_validated"] += nev
        self.cov["stages"].append({"judge": module, "trace": lab, "cases": len(cases), "events": nev, "rejected": len({r[0] for r in rej})})
        if len(self.cov["samples"]) < 3 and cases:
            smp = cases[(self.seed * 7919) % len(cases)]
            txt = json.dumps(smp)
            self.cov["samples"].append(json.loads(txt) if len(txt) < 4000 else txt[:4000] + "...")
        return out

    def gej(self, gen, judge, features=(), name=None, genenv=None, judgeenv=None, **kw):
        scn = self.generate(gen, name=name, **(genenv or {}))
        tr = self.execute(scn, features, **kw)
        return self.judge(judge, tr, **(judgeenv or {}))

    def finish(self, level="model_checking", assumptions=()):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            rp = os.path.join(BUILD, "replay")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, f"{self.prop}-{self.tier}-{self.seed}.json")
            with open(path, "w") as f:
                json.dump(self.violations[:50], f, indent=1)
            for v in self.violations[:5]:
                print(f"  {v['stage']} case {v['case']} event {v['event']}: {v['clauses'][:300]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"{self.prop} {self.tier}: held; {self.cov['traces_validated_against_impl']} traces, {self.cov['events_validated']} events, "
              f"{self.cov['states']} states, {time.time() - self.t0:.1f}s")
        return 0
