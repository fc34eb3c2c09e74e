"""Shared driver for the checks: builds a harness from /repo's working tree, runs TLC on the
design specifications, records traces of the real code and lets TLC decide whether every recorded
step is a step of the specification.

Exit codes of a check: 0 held, 1 violated (with a VIOLATION line), 3 error of the check itself."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))   # override: development only
REPO = os.environ.get("VERIF_REPO", "/repo")   # override: development only
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class CheckError(Exception):
    pass

def goenv():
    e = dict(os.environ)
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env"], capture_output=True, text=True)
    for l in p.stdout.splitlines():
        if "=" in l:
            k, v = l.split("=", 1)
            if k in ("HOME", "PATH") or k.startswith("GO"):
                e[k] = v
    e["GOFLAGS"] = "-mod=mod"
    return e

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0          # traces of the real code accepted/decided by TLC
        self.events = 0
        self.samples = []
        self.design = []
        self.extra = {}
        self.assumptions = []
        self.viol = []
        self.known_hits = []
        self.replaydir = os.path.join(EVID, "replay")
        os.makedirs(self.replaydir, exist_ok=True)
        self.known = load_known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, *a):
        return os.path.join(self.scratch, *a)

    def mkdir(self, *a):
        d = self.path("dir-" + a[0], *a[1:])
        os.makedirs(d, exist_ok=True)
        return d

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- build -----------------------------------------------------------------
    def build(self, name, race=False, extra_replace=None, tags=None):
        """Builds /verif/harness/<name> as package <module>/zzverif/<name> by overlay."""
        repl = {}
        for pkg in ("vlib", name):
            d = os.path.join(VERIF, "harness", pkg)
            for f in sorted(os.listdir(d)):
                if f.endswith(".go"):
                    repl[os.path.join(REPO, "zzverif", pkg, f)] = os.path.join(d, f)
        if extra_replace:
            repl.update(extra_replace)
        ov = self.path("overlay-%s.json" % name)
        with open(ov, "w") as f:
            json.dump({"Replace": repl}, f)
        out = self.path("h-%s%s" % (name, "-race" if race else ""))
        # -mod=mod could write go.mod/go.sum: build with copies of them
        mf = self.path("go.mod")
        if not os.path.exists(mf):
            shutil.copy(os.path.join(REPO, "go.mod"), mf)
            shutil.copy(os.path.join(REPO, "go.sum"), self.path("go.sum"))
        cmd = ["go", "build", "-modfile", mf, "-overlay", ov, "-o", out]
        if race:
            cmd.append("-race")
        cmd.append("./zzverif/" + name)
        p = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("build of harness %s failed:\n%s" % (name, p.stdout + p.stderr))
        return out

    # ---- TLC -------------------------------------------------------------------
    def _tlc(self, module, cfg, env=None, timeout=600, workers=4, args=(), heap="3g", tag=None):
        sd = os.path.join(VERIF, "spec")
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
               "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
               "-config", cfg] + list(args) + [module]
        try:
            p = subprocess.run(cmd, cwd=sd, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise CheckError("TLC timed out after %ds on %s" % (timeout, module))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout + p.stderr

    def cfg(self, name, text):
        f = self.path(name + ".cfg")
        with open(f, "w") as h:
            h.write(text)
        return f

    def tlc_design(self, module, cfgtext, timeout=600, workers=4, env=None, args=(), expect_ok=True, deadlock=False):
        """Model checks a design specification. A failure here is an error of the specification
        (it does not depend on /repo), hence of the check."""
        cfg = self.cfg(module.replace("/", "_") + "-%d" % len(self.design), cfgtext)
        a = list(args)
        if not deadlock:
            a.append("-deadlock")
        t = time.time()
        rc, out = self._tlc(module, cfg, env=env, timeout=timeout, workers=workers, args=a)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        ok = "Model checking completed. No error has been found." in out or \
             ("-simulate" in a and rc == 0) or "No error has been found" in out
        if not ok:
            raise CheckError("design specification %s: TLC rc=%d\n%s" % (module, rc, out[-4000:]))
        gen = int(m.group(1).replace(",", "")) if m else 0
        dist = int(m.group(2).replace(",", "")) if m else 0
        self.states += dist
        self.transitions += gen
        self.design.append({"module": module, "distinct_states": dist, "states_generated": gen,
                            "wall_s": round(time.time() - t, 1)})
        self.log("design spec %s: %d distinct states, %d generated, ok" % (module, dist, gen))
        return out

    def printed(self, out, tag):
        """Values printed by PrintT(<<tag, ToJson(x)>>) or PrintT(tag \\o json)."""
        res = []
        for l in out.splitlines():
            l = l.strip()
            if l.startswith('"' + tag):
                s = l[1:-1].encode().decode("unicode_escape")
                res.append(json.loads(s[len(tag):]))
        return res

    # ---- traces ----------------------------------------------------------------
    def run(self, binary, args, timeout=300, env=None, cwd=None, ok=(0,)):
        e = goenv()
        e["VERIF_SEED"] = str(self.seed)
        e["VERIF_TIER"] = self.tier
        e.update(env or {})
        p = subprocess.run([binary] + [str(a) for a in args], cwd=cwd or self.scratch, env=e,
                           capture_output=True, text=True, timeout=timeout, errors="replace")
        return p

    def record(self, binary, args, out, timeout=300, env=None, cwd=None):
        """Runs a harness that writes an ndjson trace to `out`. If the code under test brings the
        process down, that is reported as a violation with the last scenario as replay."""
        cur = out + ".current"
        hung = False
        try:
            p = self.run(binary, args, timeout=timeout, cwd=cwd,
                         env=dict(env or {}, VERIF_OUT=out, VERIF_CURRENT=cur))
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired as ex:
            raise CheckError("harness timed out after %ss: %s" % (timeout, args))
        if rc == 0:
            return True
        if rc == 3:
            raise CheckError("harness error: " + err[-3000:])
        scen = ""
        if os.path.exists(cur):
            scen = open(cur, errors="replace").read()
        if rc == 4:      # watchdog: the code under test did not finish one scenario
            what = "the call did not return (hang)"
        elif "panic" in err or "fatal error" in err or "runtime error" in err or "SIGSEGV" in err:
            what = "the process crashed: " + first_panic(err)
        else:
            raise CheckError("harness ended with rc=%d: %s" % (rc, err[-3000:]))
        self.violation(what, {"scenario": scen, "stderr": err[-6000:], "args": [str(a) for a in args]},
                       key="crash")
        return False

    def validate(self, module, tracefile, cfgtext=None, timeout=600, parallel=1, grouped=False, env=None,
                 describe=None, sample=3):
        """TLC checks the trace against the trace specification `module`. The trace file is an
        ndjson file of records; with parallel>1 it is split (at trace boundaries `new`:1 if
        grouped). Mismatches are printed by the specification as MISMATCH lines."""
        with open(tracefile) as f:
            lines = [l for l in f if l.strip()]
        if not lines:
            raise CheckError("empty trace " + tracefile)
        chunks = split(lines, parallel, grouped)
        cfgtext = cfgtext or "SPECIFICATION TraceSpec\nINVARIANT TraceInv\nPOSTCONDITION TraceAccepted\n"
        jobs = []
        for k, ch in enumerate(chunks):
            fn = "%s.part%d" % (tracefile, k)
            with open(fn, "w") as f:
                f.writelines(ch)
            jobs.append((fn, ch))
        cfg = self.cfg("%s-tr%d" % (module, time.time_ns()), cfgtext)
        def one(job):
            fn, ch = job
            ee = dict(env or {})
            ee["TRACE_FILE"] = fn
            rc, out = self._tlc(module, cfg, env=ee, timeout=timeout, workers=1, args=["-deadlock"],
                                heap="2g")
            return rc, out, ch
        bad = []
        with cf.ThreadPoolExecutor(max_workers=parallel) as ex:
            for rc, out, ch in ex.map(one, jobs):
                mm = []
                for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+)\s*(?:,\s*("(?:[^"\\]|\\.)*"|.*?))?\s*>>(?=\s)', out, re.S):   # TLC breaks long tuples over lines
                    mm.append((int(m.group(1)) - 1, (m.group(2) or "").strip('"')))
                done = re.search(r'<<"TRACEDONE", (\d+)>>', out)
                if not done and "The error occurred when TLC was evaluating" in out and "OutOfMemory" not in out and "StackOverflow" not in out:
                    # a recorded value outside of the domain of the specification (overflow, wrong type or length)
                    ls = [int(x) for x in re.findall(r"\bl = (\d+)", out)]
                    i = min(max((ls[-1] if ls else 1) - 1, 0), len(ch) - 1)
                    first = re.search(r"Error: (?!TLC threw|The error|The behavior|Evaluating)(.*)", out)
                    for j, why in mm:
                        bad.append((j, why, ch))
                    bad.append((i, "value outside of the specified domain (%s)" % (first.group(1)[:120] if first else "evaluation error"), ch))
                    continue
                if out.count('"MISMATCH"') != len(mm):
                    raise CheckError("unreadable mismatch report of %s:\n%s" % (module, out[-4000:]))
                if not done or int(done.group(1)) != len(ch) or "No error has been found" not in out:
                    raise CheckError("trace specification %s did not complete on %s (rc=%d):\n%s" %
                                     (module, tracefile, rc, out[-4000:]))
                m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
                if m:
                    self.transitions += int(m.group(1).replace(",", ""))
                    self.states += int(m.group(2).replace(",", ""))
                seen = set()
                for i, why in mm:
                    if i in seen:
                        continue
                    seen.add(i)
                    bad.append((i, why, ch))
        nrec = len(lines)
        self.events += nrec
        ntr = sum(1 for l in lines if '"new":1' in l) if grouped else nrec
        self.traces += ntr
        if sample:
            step = max(1, nrec // sample)
            for k in range(0, nrec, step):
                if len(self.samples) < 12:
                    s = lines[k].strip()
                    self.samples.append(json.loads(s) if len(s) < 1500 else s[:1500] + "...")
        for f_, _ in jobs:
            os.remove(f_)
        self.log("%s: %d records (%d traces) validated, %d mismatches" % (module, nrec, ntr, len(bad)))
        for i, why, ch in bad:
            rec = json.loads(ch[i])
            ctx = [rec]
            if grouped:
                j = i
                while j > 0 and not json.loads(ch[j]).get("new"):
                    j -= 1
                k = i + 1
                while k < len(ch) and not json.loads(ch[k]).get("new"):
                    k += 1
                ctx = [json.loads(x) for x in ch[j:k]]
                rec = dict(rec, _trace=ctx)
            self.violation("%s rejects the recorded step%s" % (module, (": " + why) if why else ""),
                           {"module": module, "index": i, "why": why, "record": json.loads(ch[i]), "trace": ctx},
                           key=(describe(json.loads(ch[i]), ctx) if describe else None))
        return bad

    # ---- verdicts --------------------------------------------------------------
    def violation(self, what, replay, key=None):
        k = key or ""
        for kf in self.known:
            if kf["key"] and kf["key"] == k:
                if kf not in self.known_hits:
                    self.known_hits.append(kf)
                return
        self.viol.append((what, replay, k))

    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples,
                           "trace_records": self.events, "design_specs": self.design},
              "assumptions": self.assumptions, "wall_s": round(wall, 1), "violations": len(self.viol)}
        ev["coverage"].update(self.extra)
        ed = EVID
        with open(os.path.join(ed, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for kf in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, kf["text"]))
        if os.environ.get("VERIF_DEBUG"):   # development only
            with open(os.environ["VERIF_DEBUG"], "w") as f:
                json.dump([(w, r) for w, r, k in self.viol], f)
        if self.viol:
            for n, (what, replay, k) in enumerate(self.viol[:5]):
                rp = os.path.join(self.replaydir, "%s-%d-%d.json" % (self.prop, self.seed, n))
                with open(rp, "w") as f:
                    json.dump({"property": self.prop, "what": what, "key": k, "seed": self.seed,
                               "tier": self.tier, "replay": replay}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
                print("  " + what[:600])
            if len(self.viol) > 5:
                print("  ... %d violations in total" % len(self.viol))
        else:
            print("OK property=%s tier=%s seed=%d states=%d traces=%d wall=%.1fs" %
                  (self.prop, self.tier, self.seed, self.states, self.traces, wall))
        return 1 if self.viol else 0

def first_panic(err):
    for l in err.splitlines():
        if l.startswith("panic:") or l.startswith("fatal error:"):
            return l
    return err.strip().splitlines()[0] if err.strip() else ""

def split(lines, parallel, grouped):
    if parallel <= 1 or len(lines) < 2 * parallel:
        return [lines]
    n = (len(lines) + parallel - 1) // parallel
    chunks, cur = [], []
    for l in lines:
        if len(cur) >= n and (not grouped or '"new":1' in l):
            chunks.append(cur)
            cur = []
        cur.append(l)
    if cur:
        chunks.append(cur)
    return chunks

def load_known(prop):
    """known_findings.txt: lines 'finding: property=<id> key=<key> <text>' (recorded, not repaired)
    and 'fixed: property=<id> <commit> <text>' (repaired; suppresses nothing)."""
    res = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append({"key": m.group(2), "text": m.group(3)})
    return res

def main(prop, body):
    c = Check(prop)
    rc = 3
    try:
        body(c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e), file=sys.stderr)
        rc = 3
        if c.viol:      # already demonstrated on the real code: report it
            rc = c.finish()
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("scratch kept:", c.scratch)
        else:
            shutil.rmtree(c.scratch, ignore_errors=True)
    sys.exit(rc)
