"""Shared machinery of the checks: TLC runs, drivers, trace validation, evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import VERIF, BUILD

SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
TMPD = os.path.join(BUILD, "tmp"); os.makedirs(TMPD, exist_ok=True)

class MachineryError(Exception):
    pass

TRACE_TMPL = """---- MODULE %(mod)sTrace ----
\\* Generated by lib/vlib.py: validates recorded executions against %(mod)s.
EXTENDS %(mod)s, Json, IOUtils
TraceFile == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, s, ok
vars == <<tid, l, s, ok>>
TInit == /\\ tid \\in 1..Len(TraceFile) /\\ l = 0 /\\ s = InitS /\\ ok = TRUE
TNext == /\\ ok /\\ l < Len(TraceFile[tid].ev)
         /\\ LET e == TraceFile[tid].ev[l+1] IN
            IF e.op = "crash" THEN /\\ s' = s /\\ ok' = FALSE
            ELSE LET n == Step(s, e) IN /\\ s' = n /\\ ok' = Ok(s, e, n)
         /\\ l' = l + 1 /\\ UNCHANGED tid
TSpec == TInit /\\ [][TNext]_vars
Accepted == ok
Alias == [tid |-> tid, l |-> l, ok |-> ok, s |-> s]
====
"""

def java(args, timeout, env=None, mem="6g", cwd=None):
    e = dict(os.environ)
    if env: e.update(env)
    tmpd = tempfile.mkdtemp(dir=TMPD)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + mem, "-Xss64m", "-Djava.io.tmpdir=" + tmpd, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE"] + args
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, cwd=cwd, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise MachineryError("TLC timed out after %ss: %s" % (timeout, " ".join(args)))
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)
    return p.returncode, p.stdout

def stats(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", out)
    if not m:
        m2 = re.findall(r"(\d[\d,]*) states checked", out)
        return (int(m2[-1].replace(",", "")) if m2 else 0, 0)
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))

class Check:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random((self.seed, pid).__repr__())
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.assumptions, self.notes = [], [], {}
        self.violations = []
        self.work = tempfile.mkdtemp(prefix="w%s_" % pid, dir=self._mk(os.path.join(BUILD, "work")))
        self.thorough = tier == "thorough"
        self.known = self._known()

    def _mk(self, d):
        os.makedirs(d, exist_ok=True)
        return d

    def _known(self):
        f = os.path.join(VERIF, "known-findings.txt")
        return [l.strip() for l in open(f)] if os.path.exists(f) else []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- model checking of the specification itself
    def model_check(self, mod, cfg=None, timeout=800, workers=NCPU, mem="8g"):
        """Exhaustive TLC run; the spec's invariants must hold (else the machinery is broken)."""
        meta = tempfile.mkdtemp(dir=self.work)
        cfg = cfg or mod + ".cfg"
        rc, out = java(["-workers", str(workers), "-metadir", meta, "-nowarning", "-deadlock", "-config", os.path.join(SPEC, cfg),
                        os.path.join(SPEC, mod + ".tla")], timeout, mem=mem, cwd=SPEC)
        shutil.rmtree(meta, ignore_errors=True)
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError("specification %s/%s does not satisfy its own invariants (rc=%d)\n%s" % (mod, cfg, rc, out[-3000:]))
        g, d = stats(out)
        self.states += d; self.transitions += g
        self.notes.setdefault("model_check", []).append({"module": mod, "cfg": cfg, "distinct": d, "generated": g})
        return d

    # ---- behaviours generated from the specification
    def generate(self, mod, cfg, simulate=None, timeout=600, workers=NCPU):
        """Run a *Gen module; each complete behaviour is printed as a line GEN<json>."""
        meta = tempfile.mkdtemp(dir=self.work)
        args = ["-metadir", meta, "-nowarning", "-deadlock", "-config", os.path.join(SPEC, cfg)]
        if simulate:
            num, depth = simulate
            w = min(workers, 4)
            args += ["-workers", str(w), "-simulate", "num=%d" % max(1, num // w), "-depth", str(depth), "-seed", str(self.seed * 7919 + 13)]
        else:
            args += ["-workers", str(workers)]
        rc, out = java(args + [os.path.join(SPEC, mod + ".tla")], timeout, cwd=SPEC)
        shutil.rmtree(meta, ignore_errors=True)
        if rc != 0:
            raise MachineryError("behaviour generation %s/%s failed rc=%d\n%s" % (mod, cfg, rc, out[-3000:]))
        g, d = stats(out)
        if not simulate:
            self.states += d; self.transitions += g
        res = set()
        for line in out.splitlines():
            i = line.find("GEN")
            if line.startswith('"GEN'):
                res.add(json.loads(line)[3:])
        self.notes.setdefault("generated_behaviours", []).append({"module": mod, "cfg": cfg, "behaviours": len(res), "states": d or g})
        return [json.loads(x) for x in sorted(res)]

    # ---- running the real code
    def run_driver(self, exe, scripts, name="drv", timeout=300, env=None, args=(), jobs=1):
        if jobs > 1 and len(scripts) > jobs:   # independent traces in parallel processes; a process that dies loses its remaining traces only
            import concurrent.futures as cf
            n = -(-len(scripts) // jobs)
            with cf.ThreadPoolExecutor(jobs) as ex:
                parts = list(ex.map(lambda i: self.run_driver(exe, scripts[i*n:(i+1)*n], "%s-%d" % (name, i), timeout, env, args), range(jobs)))
            res = []
            for i, p in enumerate(parts):
                res += p + [[] for _ in range(len(scripts[i*n:(i+1)*n]) - len(p))]
            return res
        """scripts: list of lists of command lines. Returns list of traces (list of event dicts)."""
        sf = os.path.join(self.work, name + ".scripts"); lf = os.path.join(self.work, name + ".log")
        with open(sf, "w") as f:
            for i, sc in enumerate(scripts):
                f.write("T %d\n" % i)
                for l in sc: f.write(l + "\n")
            f.write("E\n")
        if os.path.exists(lf): os.remove(lf)
        e = dict(os.environ); e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4"
        e["OMP_NUM_THREADS"] = "1"; e["OPENBLAS_NUM_THREADS"] = "1"
        if env: e.update(env)
        scratch = tempfile.mkdtemp(dir=self.work)
        end = "exit"
        try:
            p = subprocess.run([exe, sf, lf] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=scratch, text=True, errors="replace")
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired as x:
            rc, err, end = -1, "driver did not finish within %ss" % timeout, "hang"
        shutil.rmtree(scratch, ignore_errors=True)
        traces, cur, done = [], None, False
        if os.path.exists(lf):
            for line in open(lf, errors="replace"):
                line = line.rstrip("\n")
                if line.startswith("T "):
                    cur = []; traces.append(cur)
                elif line == "E": done = True
                elif line:
                    try: cur.append(json.loads(line))
                    except (ValueError, AttributeError): pass
        if rc == 3:
            raise MachineryError("driver rejected its script: " + err[-1500:])
        if rc != 0 or not done:
            if cur is None: traces.append([]); cur = traces[-1]
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|AMINO ERROR[^\n]*|[^\n]*[Aa]ssert[^\n]*|terminate called[^\n]*)", err)
            cur.append({"op": "crash", "how": end, "rc": rc, "msg": (m.group(1) if m else err[-300:])[:300], "detail": err[:2500]})
        return traces

    def threads_checkable(self, exe):
        """ThreadSanitizer needs an address-space layout the sandbox may refuse: try it on an empty script."""
        sf = os.path.join(self.work, "empty.scripts")
        with open(sf, "w") as f: f.write("E\n")
        p = subprocess.run([exe, sf, sf + ".log"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode: self.notes["thread_sanitizer"] = "unavailable: " + p.stdout[-200:]
        return p.returncode == 0

    # ---- validating recorded executions
    def validate(self, mod, traces, timeout=800, workers=NCPU, mem="10g", _depth=0):
        """Returns None when every trace is a behaviour of the spec, else (trace index, event index, text)."""
        if not traces: raise MachineryError("no traces recorded for " + mod)
        tf = os.path.join(self.work, mod + ".ndjson")
        n = 0
        with open(tf, "w") as f:
            for i, t in enumerate(traces):
                ev = [{k: v for k, v in e.items() if k not in ("detail",)} for e in t]
                n += len(ev)
                f.write(json.dumps({"id": i, "ev": ev}, separators=(",", ":")) + "\n")
        d = tempfile.mkdtemp(dir=self.work)
        with open(os.path.join(d, mod + "Trace.tla"), "w") as f: f.write(TRACE_TMPL % {"mod": mod})
        consts = ""
        cf = os.path.join(SPEC, mod + "Trace.const")
        if os.path.exists(cf): consts = open(cf).read()
        with open(os.path.join(d, mod + "Trace.cfg"), "w") as f:
            f.write("SPECIFICATION TSpec\nINVARIANT Accepted\nALIAS Alias\nCHECK_DEADLOCK FALSE\n" + consts)
        rc, out = java(["-DTLA-Library=" + SPEC] if False else
                       ["-workers", str(workers), "-metadir", os.path.join(d, "m"), "-nowarning", "-config", os.path.join(d, mod + "Trace.cfg"),
                        os.path.join(d, mod + "Trace.tla")], timeout, env={"TRACE": tf, "JAVA_TOOL_OPTIONS": "-DTLA-Library=" + SPEC}, mem=mem, cwd=d)
        g, dis = stats(out)
        shutil.rmtree(d, ignore_errors=True)
        if rc == 0 and "No error has been found" in out:
            if dis != n + len(traces):
                raise MachineryError("trace validation consumed %d of %d states" % (dis, n + len(traces)))
            self.traces += len(traces); self.events += n
            self.states += dis; self.transitions += g
            return None
        if rc == 12 and "Invariant Accepted is violated" in out:
            ti = [int(x) for x in re.findall(r"tid \|-> (\d+)|/\\ tid = (\d+)", out)[-1] if x][0] - 1
            li = [int(x) for x in re.findall(r" l \|-> (\d+)|/\\ l = (\d+)", out)[-1] if x][0] - 1
            return (ti, li, out[-6000:])
        if "verflow" in out:
            m = re.findall(r"tid = (\d+)", out)
            if m and len(traces) > 1 and _depth < 40:
                # exact arithmetic of this trace leaves TLC's 32-bit integers: skip it
                self.notes["skipped_overflow"] = self.notes.get("skipped_overflow", 0) + 1
                k = int(m[-1]) - 1
                traces[k] = traces[k][:0]
                return self.validate(mod, traces, timeout, workers, mem, _depth + 1)
            raise MachineryError("integer overflow in " + mod + out[-1500:])
        if rc in (75, 76, 77, 150, 151, 152, 153, 154, 155, 255, 1) or "Error" in out:
            m = re.findall(r"tid = (\d+)", out); k = re.findall(r"/\\ l = (\d+)", out)
            if "The behavior up to this point is" in out and m and k:
                # the specification has no successor for this event: its operands are outside the spec's domain
                return (int(m[-1]) - 1, int(k[-1]), out[-4000:])
        raise MachineryError("TLC failed on %s traces rc=%d\n%s" % (mod, rc, out[-4000:]))

    def conform(self, mod, exe, scripts, name, describe=None, timeout=300, args=(), env=None, vtimeout=800, jobs=1):
        """Execute scripts on the real code and validate; records a violation when rejected twice."""
        traces = self.run_driver(exe, scripts, name, timeout, args=args, env=env, jobs=jobs)
        bad = self.validate(mod, traces, timeout=vtimeout)
        if bad is None:
            self._sample(name, scripts, traces)
            return True
        traces2 = self.run_driver(exe, scripts, name, timeout, args=args, env=env, jobs=jobs)
        bad2 = self.validate(mod, traces2, timeout=vtimeout)
        if bad2 is None:
            # Not reproducible by re-execution: not reported, but noted in the evidence.
            self.notes.setdefault("unreproduced_rejections", []).append({"driver": name, "trace": bad[0], "event": bad[1]})
            self._sample(name, scripts, traces2)
            return True
        ti, li, txt = bad2
        sc = scripts[ti] if ti < len(scripts) else []
        ev = traces2[ti][li] if li < len(traces2[ti]) else {}
        self.violation({"spec": mod, "driver": os.path.basename(exe), "script": sc, "events": traces2[ti][:li + 1], "rejected_event": ev,
                        "rejected_index": li, "tlc": txt})
        return False

    def conform_with(self, mod, execute, script, exe):
        """One script; execute() records its traces (any number of them). A violation is recorded when it is rejected."""
        traces = execute()
        if not any(traces): self.notes["unreproduced"] = self.notes.get("unreproduced", 0) + 1; return True
        bad = self.validate(mod, traces)
        if bad is None: self.notes["unreproduced"] = self.notes.get("unreproduced", 0) + 1; return True
        ti, li, txt = bad
        self.violation({"spec": mod, "driver": os.path.basename(exe), "script": script, "events": traces[ti][:li + 1], "rejected_event": traces[ti][li] if li < len(traces[ti]) else {}, "rejected_index": li, "tlc": txt})
        return False

    def _sample(self, name, scripts, traces):
        if len(self.samples) < 6 and scripts:
            i = self.rng.randrange(len(scripts))
            self.samples.append({"driver": name, "script": scripts[i][:12], "events": [dict((k, v) for k, v in e.items()) for e in traces[i][:6]]})

    def violation(self, rec):
        d = self._mk(os.path.join(VERIF, "replays"))
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        rec = dict(rec, property=self.pid, seed=self.seed, tier=self.tier)
        with open(p, "w") as f: json.dump(rec, f, indent=1)
        self.violations.append(p)
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        e = rec.get("rejected_event")
        if e: print("  rejected event: %s" % json.dumps(e)[:600])
        sys.stdout.flush()

    def binding(self, mod, traces, corrupt):
        """Self-test of the binding: a corrupted recording must be rejected by the spec."""
        t = [json.loads(json.dumps(x)) for x in traces]
        if not corrupt(t): return
        sv = (self.traces, self.events, self.states, self.transitions)
        bad = self.validate(mod, t)
        self.traces, self.events, self.states, self.transitions = sv
        if bad is None:
            raise MachineryError("binding self-test failed: corrupted trace accepted by " + mod)
        self.notes["binding_selftest"] = self.notes.get("binding_selftest", 0) + 1

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "events_validated": self.events, "samples": self.samples, "detail": self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = self._mk(os.path.join(VERIF, "evidence"))
        with open(os.path.join(d, self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0

def main(pid, fn):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"): tier = sys.argv[2]
    c = Check(pid, tier)
    try:
        fn(c)
    except vbuild.BuildError as x:
        print("BUILD FAILED\n" + str(x)); shutil.rmtree(c.work, ignore_errors=True); return 2
    except MachineryError as x:
        print("MACHINERY ERROR: " + str(x)); shutil.rmtree(c.work, ignore_errors=True); return 2
    r = c.finish()
    print("%s %s: %s states=%d traces=%d events=%d wall=%.1fs" % (pid, tier, "VIOLATED" if r else "held", c.states, c.traces, c.events, time.time() - c.t0))
    return r
