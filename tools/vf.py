"""Common machinery of the checks: scratch space, builds, TLC runs, drivers,
trace validation, confirmation of rejections and evidence."""
import concurrent.futures as cf
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself failed: no verdict."""


def text(s):
    return list(s.encode("latin-1")) if isinstance(s, str) else list(s)


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rnd = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        atexit.register(lambda: shutil.rmtree(self.scratch, ignore_errors=True))
        self.pool = cf.ThreadPoolExecutor(CPUS)
        self.states = 0           # states of the model checked exhaustively
        self.transitions = 0
        self.models = []          # what was model checked
        self.validated = 0        # traces of the real code accepted or rejected
        self.validated_steps = 0
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.violations = []
        self.nfile = 0

    # ---------- files -----------------------------------------------------
    def path(self, name):
        self.nfile += 1
        return os.path.join(self.scratch, "%03d-%s" % (self.nfile, name))

    def subdir(self, name):
        d = self.path(name)
        os.makedirs(d)
        return d

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---------- builds ------------------------------------------------------
    def build(self, src, flags=(), libs=(), out=None):
        """Builds a driver of harness/ against the headers in the working tree."""
        exe = os.path.join(self.scratch, out or os.path.basename(src).split(".")[0])
        cmd = ["g++", "-std=c++17", "-g1", "-O0", "-w", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS, *flags,
               os.path.join(HARNESS, src), "-o", exe, "-pthread", *libs]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("cannot build %s:\n%s" % (src, r.stdout[-4000:]))
        return exe

    # ---------- TLC ---------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, timeout=800, heap="3g", extra=(), props=()):
        meta = self.subdir("tlc")
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, *props, "-cp", TLA_CP, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", os.path.join(SPEC, cfg), *extra,
               os.path.join(SPEC, module)]
        e = dict(os.environ)
        e.update(env or {})
        outf = self.path("tlc.out")
        try:
            with open(outf, "w") as f:
                r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = open(outf, errors="replace").read()
        os.remove(outf)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        res = {"rc": r.returncode, "out": out,
               "generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0}
        return res

    def model(self, name, module, cfg, env=None, workers=1, timeout=800, heap="3g", extra=()):
        """Exhaustive check of a bounded model: must hold, as it does not depend on the code."""
        r = self.tlc(module, cfg, env, workers, timeout, heap, extra)
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise CheckError("model %s: TLC rc %d\n%s" % (name, r["rc"], r["out"][-3000:]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"model": name, "states": r["distinct"], "transitions": r["generated"]})
        return r

    # ---------- drivers -------------------------------------------------------
    def drive(self, exe, stimuli, args=(), shards=None, timeout=300, env=None):
        """Runs the stimuli on the real code.  The result has one trace per stimulus;
        a crash or a hang gives a trace with a final step that no specification allows."""
        shards = shards or CPUS
        n = len(stimuli)
        shards = max(1, min(shards, n))
        parts = [list(range(k, n, shards)) for k in range(shards)]
        result = [None] * n

        def one(idx):
            d = self.subdir("drv")
            sf, of = os.path.join(d, "stim"), os.path.join(d, "out")
            with open(sf, "w") as f:
                for i in idx:
                    f.write(json.dumps(stimuli[i], separators=(",", ":")) + "\n")
            open(of, "w").close()
            done, deadline, hangs = 0, time.time() + timeout, 0
            lines = []
            sd = os.path.join(d, "scratch")
            os.makedirs(sd)
            e = dict(os.environ)
            e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
            e["TSAN_OPTIONS"] = "exitcode=98"
            e.update(env or {})
            while done < len(idx):
                if hangs >= 3 or (hangs and time.time() > deadline):    # enough to tell
                    with open(of, "a") as f:
                        for k in idx[done:]:
                            f.write(json.dumps(dict(stimuli[k], skipped=1), separators=(",", ":")) + "\n")
                    break
                if time.time() > deadline:
                    raise CheckError("driver did not finish in %d s" % timeout)
                with open(os.path.join(d, "err"), "w") as ef:
                    try:
                        r = subprocess.run([exe, sf, of, str(done), sd, *args], stdout=ef, stderr=ef, env=e,
                                           timeout=max(5, deadline - time.time()), cwd=sd)
                        rc = r.returncode
                    except subprocess.TimeoutExpired:
                        rc = "timeout"
                lines = open(of, errors="replace").read().split("\n")[:-1]
                if rc == 0:
                    break
                done = len(lines)
                if done >= len(idx):
                    break
                err = open(os.path.join(d, "err"), errors="replace").read()
                if rc == 2:
                    raise CheckError("driver usage: " + err[-500:])
                t = dict(stimuli[idx[done]])
                t["crash"] = crash_text(rc, err)
                hangs += t["crash"].startswith("hang")
                with open(of, "a") as f:
                    f.write(json.dumps(t, separators=(",", ":")) + "\n")
                done += 1
            lines = open(of, errors="replace").read().split("\n")[:-1]
            if len(lines) != len(idx):
                raise CheckError("driver wrote %d traces of %d" % (len(lines), len(idx)))
            for i, l in zip(idx, lines):
                result[i] = l
            shutil.rmtree(d, ignore_errors=True)

        list(self.pool.map(one, parts))
        return result

    # ---------- trace validation ------------------------------------------------
    def validate(self, traces, module="TraceCli.tla", cfg="TraceCli.cfg", prop=None, shards=None, timeout=700, env=None):
        """Checks recorded traces (json lines) against the specification.
        Returns the rejected ones: index -> what was expected and observed."""
        rejected = {}
        todo = []
        for i, t in enumerate(traces):
            if '"crash":"' in t:
                c = json.loads(t)
                if "crash" in c:
                    rejected[i] = {"crash": c["crash"]}
                    continue
            if t.endswith('"skipped":1}'):
                continue
            todo.append(i)
        if not todo:
            return rejected
        if shards is None:
            shards = max(1, min(CPUS, sum(len(traces[i]) for i in todo) // 200000 + 1))
        shards = min(shards, len(todo))

        def one(k):
            return some(todo[k::shards])

        def some(idx):
            f = self.path("traces.ndjson")
            steps = 0
            with open(f, "w") as o:
                for i in idx:
                    o.write(traces[i] + "\n")
                    steps += len(json.loads(traces[i])["steps"])
                # a trace with an event that never happens must be rejected
                canary = json.loads(max((traces[i] for i in idx[:50]), key=len))
                for st in canary["steps"]:
                    st["obs"].append({"e": "bogus"})
                o.write(json.dumps(canary) + "\n")
            e = {"TRACE": f, "PROP": prop or self.prop}
            e.update(env or {})
            r = self.tlc(module, cfg, e, 1, timeout)
            rej, seen_canary = {}, False
            for m in re.finditer(r'^"REJECT (.*)"$', r["out"], re.M):
                try:
                    j = json.loads(json.loads('"' + m.group(1) + '"'))
                except ValueError:
                    j = {"trace": None, "raw": m.group(1)[:400]}
                if j["trace"] is None:
                    raise CheckError("unreadable rejection: " + m.group(1)[:500])
                if j["trace"] == len(idx) + 1:
                    seen_canary = True
                else:
                    rej[idx[j["trace"] - 1]] = j
            if beyond(r["out"]):      # something was observed that the specification cannot even read
                if len(idx) == 1:
                    return {idx[0]: {"unreadable": r["out"][-1500:]}}
                return {**some(idx[::2]), **some(idx[1::2])}
            if r["rc"] != 0 or "No error has been found" not in r["out"]:
                raise CheckError("trace validation: TLC rc %d\n%s" % (r["rc"], r["out"][-3000:]))
            if not seen_canary:
                raise CheckError("trace validation: a corrupted trace was accepted")
            if not rej and r["distinct"] < steps + len(idx):
                raise CheckError("trace validation: %d states, %d expected" % (r["distinct"], steps + len(idx)))
            os.remove(f)
            self.validated_steps += steps
            return rej

        for rej in self.pool.map(one, range(shards)):
            rejected.update(rej)
        self.validated += len(todo)
        return rejected

    def conform(self, exe, stimuli, args=(), confirm=True, repeats=1, sample=True, **kw):
        """Drives the code with the stimuli, validates the traces, confirms and records violations."""
        if self.violations:
            return {}
        vkw = {k: kw[k] for k in ("module", "cfg", "prop") if k in kw}
        dkw = {k: kw[k] for k in ("shards", "timeout", "env") if k in kw}
        traces = self.drive(exe, stimuli, args, **dkw)
        if sample and traces:
            self.samples.append(shorten(json.loads(traces[len(traces) // 2])))
        rej = self.validate(traces, **vkw)
        if rej:
            self.log("%d of %d traces rejected" % (len(rej), len(traces)))
        for i in sorted(rej, key=lambda k: len(traces[k]))[:3]:
            # a rejection counts only if the same stimulus is rejected again
            again = self.drive(exe, [stimuli[i]], args, **dkw)
            r2 = self.validate(again, **vkw)
            self.validated -= 1
            if r2:
                self.violation({"stimulus": stimuli[i], "rejection": r2[0], "trace": json.loads(again[0]),
                                "driver": os.path.basename(exe), "args": list(args)})
                break
            self.log("rejection not repeated, ignored", json.dumps(rej[i])[:600])
        return rej

    # ---------- verdict -----------------------------------------------------------
    def violation(self, what):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(p, "w") as f:
            json.dump(what, f, indent=1)
        self.violations.append(p)
        r = what.get("rejection", what)
        self.log("rejected:", json.dumps(r)[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(p, VERIF)), flush=True)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated, "trace_steps_validated": self.validated_steps,
               "models": self.models, "samples": self.samples[:4] or ["none"]}
        cov.update(self.extra)
        e = {"property": self.prop, "tier": "thorough" if self.thorough else "quick", "seed": self.seed, "level": "model_checking",
             "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
             "violations": len(self.violations)}
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(e, f, indent=1)
        os.replace(p + ".tmp", p)
        self.log("states %d, transitions %d, traces %d (%d steps), violations %d" % (
            self.states, self.transitions, self.validated, self.validated_steps, len(self.violations)))
        return 1 if self.violations else 0


def beyond(out):
    """TLC could not evaluate the specification on a trace."""
    return ("TLC threw an unexpected exception" in out or "The error occurred when TLC was evaluating" in out or "Error: Attempted to" in out or "Error: In evaluation" in out
            or "Error: Evaluating" in out) and not any(x in out for x in ("OutOfMemory", "StackOverflow", "Parsing or semantic", "No space left"))


def crash_text(rc, err):
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*|terminate called[^\n]*(\n[^\n]*what[^\n]*)?|Assertion[^\n]*)", err)
    if rc == "timeout":
        return "hang"
    if isinstance(rc, int) and rc < 0:
        try:
            name = signal.Signals(-rc).name
        except ValueError:
            name = str(-rc)
        if name == "SIGALRM":
            name = "hang (SIGALRM)"
        return name + (": " + m.group(1) if m else "")
    return "exit %s%s" % (rc, ": " + m.group(1) if m else ": " + err[-200:])


def readable(x):
    """Byte lists as text, for samples."""
    if isinstance(x, dict):
        return {k: readable(v) for k, v in x.items()}
    if isinstance(x, list):
        if x and all(isinstance(i, int) and 0 <= i < 256 for i in x) and len(x) > 1:
            return bytes(x).decode("latin-1").encode("unicode_escape").decode()
        return [readable(i) for i in x]
    return x


def shorten(t, n=12):
    t = dict(t)
    if "steps" in t:
        t["steps"] = t["steps"][:n]
    t.pop("ops", None)
    return readable({k: t[k] for k in t if k in ("steps", "store", "smax", "storage", "nodes", "kids", "input")})


def histories(out):
    """The operation histories printed by a bounded model, without those that are prefixes of others."""
    hs = set()
    for m in re.finditer(r'^"T \[([0-9, ]*)\]"$', out, re.M):
        hs.add(tuple(int(x) for x in m.group(1).split(",")) if m.group(1).strip() else ())
    pref = set()
    for h in hs:
        for k in range(1, len(h)):
            pref.add(h[:k])
    return sorted(h for h in hs if h not in pref)
