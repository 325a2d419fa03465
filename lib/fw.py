"""Common machinery of the checks: drive the real code, judge its traces with
TLC, check the design models with TLC, write evidence and verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, glob
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vb
VERIF = vb.VERIF
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

class CheckError(Exception): pass

def dumps(o): return json.dumps(o, ensure_ascii=True, separators=(",", ":"))

_NA = re.compile(r'(\\\\)|\\u00([89a-f][0-9a-f])')
def tladump(o):
    """JSON for TLC: bytes above 127 as ~xx (TLC does not keep them when it
    pages states to disk)."""
    return _NA.sub(lambda m: m.group(1) or "~" + m.group(2), dumps(o))
def lat(b):  # bytes -> the latin-1 text the driver reads as those bytes
    return b.decode("latin-1") if isinstance(b, bytes) else b.encode("utf-8").decode("latin-1")

class Found(Exception): pass
class Ctx:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.t0 = time.time()
        os.makedirs(os.path.join(vb.WORK, "run"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + ".", dir=os.path.join(vb.WORK, "run"))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []; self.models = []; self.bad = []; self.info = {}; self.kinds = {}
        self.distinct = set(); self.n = 0; self.known = []
        self._drv = None; self.env = {}; self.scale = None; self.cap = 600 if tier == "quick" else 6000  # set while another property's scenarios run under other conditions
        for f in json.load(open(os.path.join(VERIF, "known_findings.json"))):
            if f["property"] == pid and f["status"] == "known": self.known.append(f)
    def log(self, *a): print("[%s %.1fs]" % (self.pid, time.time() - self.t0), *a, file=sys.stderr, flush=True)
    def pick(self, quick, thorough):
        v = thorough if self.thorough else quick
        return max(1, int(v * self.scale)) if self.scale and type(v) is int else v
    @property
    def drv(self):
        if not self._drv:
            try: self._drv = vb.build()
            except vb.BuildError as e: raise CheckError("build of /repo failed:\n" + str(e))
            self.log("driver built")
        return self._drv

    # ---- running the real code ----
    def drive(self, handler, scenarios, secs=10, env=None, jobs=None):
        """Runs every scenario; returns {id: result}.  A scenario that kills or
        hangs the driver has {"died": true, "why": ...}."""
        drv = self.drv
        for i, s in enumerate(scenarios): s["id"] = i + 1
        if not scenarios: return {}
        jobs = min(jobs or NCPU, max(1, len(scenarios)))
        e = dict(os.environ); e.update({"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0",
                                        "TZ": "UTC", "LC_ALL": "C"})
        e.update(self.env)
        if env: e.update(env)
        self.n += 1; tag = "%s%d" % (handler, self.n)
        def shard(k):
            mine = scenarios[k::jobs]
            sf = os.path.join(self.dir, "%s.%d.in" % (tag, k)); of = os.path.join(self.dir, "%s.%d.out" % (tag, k))
            scratch = os.path.join(self.dir, "%s.%d.scratch" % (tag, k)); os.makedirs(scratch)
            with open(sf, "w") as f:
                for s in mine: f.write(dumps(s) + "\n")
            res = {}; first = 0; fails = 0
            while first < len(mine):
                if os.path.exists(of): os.unlink(of)
                p = subprocess.run([drv, handler, sf, of, str(first), scratch, str(secs)], env=e, cwd=scratch,
                                   stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                done = 0
                if os.path.exists(of):
                    with open(of, "rb") as f:
                        for line in f:
                            if not line.endswith(b"\n"): break
                            r = json.loads(line); res[r["id"]] = r; done += 1
                if p.returncode == 2: raise CheckError("driver: " + p.stdout.decode("latin-1")[-2000:])
                if p.returncode == 0 and first + done == len(mine): break
                s = mine[first + done] if first + done < len(mine) else None
                if s is None: break
                out = p.stdout.decode("latin-1")
                m = re.search(r"SUMMARY: .*|ERROR: AddressSanitizer.*|HANG|runtime error.*|terminate called.*", out)
                why = "hang" if p.returncode == 98 else ("exit %d %s" % (p.returncode, m.group(0) if m else out[-200:]))
                res[s["id"]] = {"id": s["id"], "died": True, "why": why}
                first += done + 1; fails += 4 if p.returncode == 98 else 1
                if fails > 25: # enough evidence; skip the rest of this shard
                    break
            shutil.rmtree(scratch, ignore_errors=True); os.unlink(sf)
            if os.path.exists(of): os.unlink(of)
            return res
        out = {}
        with ThreadPoolExecutor(jobs) as ex:
            for r in ex.map(shard, range(jobs)): out.update(r)
        return out

    # ---- TLC ----
    def tlc(self, module, cfg, env=None, args=(), workers=None, heap="6g", timeout=800):
        e = dict(os.environ); e.update(env or {})
        md = tempfile.mkdtemp(prefix="md.", dir=self.dir)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE",
               "-workers", str(workers or NCPU), "-config", cfg] + list(args) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired: raise CheckError("TLC timed out on " + module)
        finally: shutil.rmtree(md, ignore_errors=True)
        return p.returncode, p.stdout.decode("utf-8", "replace")

    def judge(self, module, traces, cfg="Judge.cfg", env=None):
        """traces: [{"id":..,"ev":[..],...}].  Returns [(id, pos, detail)]."""
        if not traces: return []
        outside = []  # traces whose observed values the specification cannot even be evaluated on
        while True:
            path = os.path.join(self.dir, "%s.%d.trace" % (module, time.monotonic_ns()))
            with open(path, "w") as f:
                for t in traces: f.write(tladump(t) + "\n")
            en = {"TRACE": path}; en.update(env or {})
            rc, out = self.tlc(module, cfg, en)
            m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
            if "No error has been found" in out and m: break
            sc = re.findall(r"(?m)^/\\ sc = (\d+)$", out); why = re.search(r"(?s)Error: (?!TLC was unable)(.{0,300})", out)
            if not sc or not 1 <= int(sc[0]) <= len(traces) or "OutOfMemory" in out or "StackOverflow" in out:
                raise CheckError("TLC on %s:\n%s" % (module, out[:1500] + "\n...\n" + out[-2500:]))
            t = traces[int(sc[0]) - 1]; pos = [int(x) for x in re.findall(r"(?m)^/\\ pos = (\d+)$", out)]
            outside.append((t["id"], (pos[-1] if pos else 0) + 1, ["outside the specification", (why.group(1) if why else "").strip()[:200]]))
            os.unlink(path); traces = [x for x in traces if x is not t]
            if len(outside) >= 3 or not traces: return outside
        rej = []
        for l in out.splitlines():
            if l.startswith('"REJECT '):
                r = json.loads(json.loads(l)[7:]); rej.append((r[0], r[1], r[2]))
        seen = {r[0]: r[1] for r in rej}
        want = sum(1 + (seen[t["id"]] if t["id"] in seen else len(t["ev"])) for t in traces)
        got = int(m[-1][1])
        if got != want: raise CheckError("TLC examined %d states of %s, expected %d" % (got, module, want))
        self.states += got; self.transitions += got - len(traces)
        self.traces += len(traces); self.events += got - len(traces)
        rej += outside
        os.unlink(path)
        return rej

    def model(self, module, cfg=None, env=None, args=(), heap="6g"):
        """Checks a design model; its failure is a failure of this machinery."""
        if self.scale: return ""
        t = time.time(); rc, out = self.tlc(module, cfg or module + ".cfg", env, args, heap=heap)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if "No error has been found" not in out or not m: raise CheckError("design model %s:\n%s" % (module, out[-4000:]))
        d = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.states += int(m[-1][1]); self.transitions += int(m[-1][0])
        self.models.append({"module": module, "cfg": cfg or module + ".cfg", "states": int(m[-1][1]), "transitions": int(m[-1][0]), "depth": int(d[-1]) if d else 0, "s": round(time.time() - t, 1)})
        return out

    def generate(self, module, cfg=None, env=None, args=(), timeout=600, simulate=None, workers=None, heap="8g"):
        """Behaviours of the specification, printed by it as "BEH <json>" while
        TLC checks its invariants (exhaustively, or on num random runs of the
        given depth with simulate=(num, depth))."""
        t = time.time(); args = list(args)
        if simulate: args += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        rc, out = self.tlc(module, cfg or module + ".cfg", env, args, timeout=timeout, workers=1 if simulate else workers, heap=heap)
        if "is violated" in out or "Error:" in out: raise CheckError("design model %s:\n%s" % (module, re.sub(r'(?m)^"BEH .*\n', "", out)[-4000:]))
        beh = [json.loads(json.loads(l)[4:]) for l in out.splitlines() if l.startswith('"BEH ')]
        if not beh: raise CheckError("no behaviours from %s:\n%s" % (module, out[-3000:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if not m: m = [(x, x) for x in re.findall(r"The number of states generated: (\d+)", out)]
        if m:
            self.states += int(m[-1][1]); self.transitions += int(m[-1][0])
            d = re.findall(r"depth of the complete state graph search is (\d+)", out)
            self.models.append({"module": module, "cfg": cfg or module + ".cfg", "states": int(m[-1][1]), "transitions": int(m[-1][0]),
                                "depth": int(d[-1]) if d else (simulate[1] if simulate else 0), "mode": "simulation" if simulate else "exhaustive", "s": round(time.time() - t, 1)})
        uniq = {}
        for b in beh: uniq.setdefault(dumps(b), b)
        return [uniq[k] for k in sorted(uniq)]

    # ---- whole pipeline for one family of scenarios ----
    def run(self, handler, module, scenarios, wrap=None, secs=10, keep=None, env=None, cfg="Judge.cfg", drvenv=None, confirm=True):
        """Drives the scenarios, judges the traces, confirms every rejection by
        running it again on its own, and records the confirmed ones."""
        wrap = wrap or (lambda s, r: {"id": r["id"], "ev": [r]})
        if self.scale and len(scenarios) > self.cap: scenarios = self.rng.sample(scenarios, self.cap)
        t = time.time(); res = self.drive(handler, scenarios, secs, drvenv); td = time.time() - t
        byid = {s["id"]: s for s in scenarios}
        traces = []; suspects = []
        for s in scenarios:
            r = res.get(s["id"])
            if r is None: continue
            if r["died"]: suspects.append((s["id"], 0, r["why"]))
            else:
                try: traces.append(wrap(s, r))
                except Exception as ex: suspects.append((s["id"], 0, "results of no known form: %r" % ex))
        t = time.time(); suspects += self.judge(module, traces, cfg, env)
        self.log("%s: %d scenarios driven in %.1fs, judged in %.1fs, %d suspects" % (module, len(scenarios), td, time.time() - t, len(suspects)))
        for s in scenarios:
            k = s.get("kind", handler); self.kinds[k] = self.kinds.get(k, 0) + 1
            self.distinct.add(dumps({a: b for a, b in s.items() if a not in ("id", "kind")}))
        if scenarios and len(self.samples) < 8:
            s = self.rng.choice(scenarios); self.samples.append(json.loads(dumps(s)[:4000]) if len(dumps(s)) < 4000 else dumps(s)[:1500])
        confirmed = []
        if suspects:
            again = [json.loads(dumps(byid[i])) for i, _, _ in suspects[:40]]
            orig = [i for i, _, _ in suspects[:40]]
            res2 = self.drive(handler, again, secs, drvenv); tr2 = []
            for s, o in zip(again, orig):
                r = res2.get(s["id"])
                if r is None: continue
                if r["died"]: confirmed.append((byid[o], 0, r["why"]))
                else:
                    try: tr2.append((s, wrap(s, r)))
                    except Exception as ex: confirmed.append((byid[o], 0, "results of no known form: %r" % ex))
            rej = self.judge(module, [t for _, t in tr2], cfg, env)
            m = {s["id"]: s for s, _ in tr2}
            for i, pos, d in rej: confirmed.append((m[i], pos, d))
            if not confirmed: raise CheckError("rejections did not repeat: %s" % dumps(suspects[:3])[:1000])
        for s, pos, d in confirmed: self.violation(handler, module, s, pos, d)
        if self.bad: raise Found()  # enough for a verdict
        return confirmed

    def violation(self, handler, module, scenario, pos, detail):
        for f in self.known:
            if f.get("scenario") == scenario.get("known"):
                f["hit"] = True; return
        self.bad.append({"handler": handler, "module": module, "scenario": scenario, "step": pos, "disagreement": detail})

    # ---- verdict ----
    def finish(self, rule, assumptions, exhaustive=None):
        if self.scale: return None
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "evaluations": sum(self.kinds.values()), "distinct_nontrivial": len(self.distinct),
               "rule": rule, "scenario_kinds": self.kinds, "design_models": self.models, "samples": self.samples or ["none"]}
        cov.update(self.info)
        if exhaustive is not None: cov["exhaustive"] = exhaustive
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        if not self.bad: return 0
        rd = os.path.join(VERIF, "replay"); os.makedirs(rd, exist_ok=True)
        for i, b in enumerate(self.bad[:5]):
            path = os.path.join(rd, "%s-%d.json" % (self.pid, i + 1))
            json.dump({"property": self.pid, **b}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            self.log("scenario", dumps(b["scenario"])[:300]); self.log("step", b["step"], "disagreement", dumps(b["disagreement"])[:700])
        return 1
_schema = None
def schema():
    """The vocabulary, as KmlSchema.tla states it."""
    global _schema
    if _schema is None:
        import hashlib
        src = b"".join(open(os.path.join(SPEC, f), "rb").read() for f in ("KmlSchema.tla", "DumpSchema.tla"))
        path = os.path.join(vb.WORK, "schema.%s.json" % hashlib.sha256(src).hexdigest()[:16])
        if not os.path.exists(path):
            os.makedirs(vb.WORK, exist_ok=True); tmp = path + ".%d" % os.getpid(); md = tempfile.mkdtemp(dir=vb.WORK)
            p = subprocess.run(["java", "-cp", CP, "tlc2.TLC", "-metadir", md, "-config", "DumpSchema.cfg", "DumpSchema.tla"], cwd=SPEC,
                               env=dict(os.environ, OUT=tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            shutil.rmtree(md, ignore_errors=True)
            if not os.path.exists(tmp): raise CheckError("schema dump failed:\n" + p.stdout[-3000:])
            os.rename(tmp, path)
        _schema = json.load(open(path))[0]
    return _schema
