"""Shared machinery of the checks: builds, driver runs, TLC runs, reporting."""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4
FLAGNAMES = ["TS_SUPPORT_L5", "TS_SUPPORT_L3", "TS_SUPPORT_SHAKE", "TS_SUPPORT_SHA2", "TS_SUPPORT_S",
             "TS_SHA2_OPTIMIZATION", "TS_SHAKE256_OPT"]
ALLP = dict(TS_SUPPORT_L5=1, TS_SUPPORT_L3=1, TS_SUPPORT_SHAKE=1, TS_SUPPORT_SHA2=1, TS_SUPPORT_S=1,
            TS_SHA2_OPTIMIZATION=1, TS_SHAKE256_OPT=0)


CLASSES = threading.Lock()
BUDGET = int(os.environ.get("VF_BUDGET", "600"))      # seconds after which a quick check starts nothing new


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def lib_sources():
    """The library's source files: what the Makefile links, or else everything that is not a test or tool."""
    names = []
    try:
        mk = open(os.path.join(REPO, "Makefile")).read().replace("\\\n", " ")
        m = re.search(r"^OBJECTS\s*=\s*(.*)$", mk, re.M)
        names = [w[:-2] + ".c" for w in m.group(1).split() if w.endswith(".o")]
    except Exception:
        pass
    if not names or not all(os.path.exists(os.path.join(REPO, n)) for n in names):
        names = [os.path.basename(p) for p in glob.glob(REPO + "/*.c")]
        names = [n for n in names if not n.startswith(("test_", "ramspace", "get_space", "stack"))]
    return sorted(names)


def defs(cfg):
    return ["-DTUNE_H_"] + [f"-D{k}={cfg[k]}" for k in FLAGNAMES]


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.thorough = tier == "thorough"
        self.work = f"{VERIF}/build/{prop}-{os.getpid()}"
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.out = f"{VERIF}/out/{prop}"
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.notes = {}, [], []
        self.violations, self.known_hit = [], []
        self.pool = concurrent.futures.ThreadPoolExecutor(max_workers=CPUS)
        self.n = 0
        self.extra = {}

    # ------------------------------------------------------------ building
    def compile(self, name, cfg=ALLP, cc="gcc", flags=("-O2",), link=(), harness="driver.c", hflags=(), internal=True,
                hashes=False, libflags=(), seq=False):
        """Builds harness + library; returns the binary, or raises BuildError."""
        d = f"{self.work}/{name}"
        os.makedirs(d, exist_ok=True)
        srcs = lib_sources()
        jobs = []
        for s in srcs:
            o = f"{d}/{s[:-2]}.o"
            jobs.append(([cc, "-w", *flags, *libflags, *defs(cfg), "-I", REPO, "-c", f"{REPO}/{s}", "-o", o], o))
        hs = harness if isinstance(harness, (list, tuple)) else [harness]

        def hjob(internal):
            hf = list(hflags) + (["-DUSE_INTERNAL"] if internal else []) + (["-DHASHES"] if hashes else [])
            return [([cc, "-w", *flags, *hf, *defs(cfg), "-I", REPO, "-c", f"{VERIF}/harness/{h}", "-o", f"{d}/h_{h[:-2]}.o"],
                     f"{d}/h_{h[:-2]}.o") for h in hs]
        hj = hjob(internal)
        res = list((map if seq else self.pool.map)(lambda j: sh(j[0]), jobs + hj))
        for (cmd, o), r in zip(jobs, res):
            if r.returncode:
                raise BuildError(f"{os.path.basename(o)} does not compile with {cfg}:\n{r.stdout[-1500:]}", lib=True)
        has = internal
        if any(r.returncode for r in res[len(jobs):]):
            bad = [r.stdout for r in res[len(jobs):] if r.returncode][0]
            if not internal:
                raise BuildError("harness: " + bad[-1500:], lib=False)
            # internal.h is not what the harness knows: do without shapes of our own
            hj = hjob(False)
            for (cmd, o) in hj:
                r = sh(cmd)
                if r.returncode:
                    raise BuildError("harness: " + r.stdout[-1500:], lib=False)
            has = False
        exe = f"{d}/exe"
        r = sh([cc, *flags, *link, "-o", exe, *[o for _, o in jobs + hj], "-lpthread"])
        if r.returncode:
            raise BuildError(f"link with {cfg}:\n{r.stdout[-1500:]}", lib=not hashes)
        for _, o in jobs + hj:
            os.unlink(o)
        if has and harness == "driver.c":
            has = sh([exe, "layout"]).returncode == 0
        note = "internal.h is not what the harness knows: no shapes of its own, the 12 sets only"
        if internal and not has and note not in self.notes:
            self.notes.append(note)
        return Binary(exe, has, name)

    def compile_seq(self, *a, **kw):
        """As compile, for use inside the pool."""
        return self.compile(*a, seq=True, **kw)

    def classes(self):
        """Compiles the Java overrides (once per content)."""
        with CLASSES:
            return self._classes()

    def _classes(self):
        import hashlib
        src = sorted(glob.glob(f"{VERIF}/java/vf/*.java"))
        h = hashlib.sha256(b"".join(open(s, "rb").read() for s in src)).hexdigest()[:16]
        d = f"{VERIF}/build/classes-{h}"
        if not os.path.exists(d + "/ok"):
            t = f"{d}.{os.getpid()}"
            shutil.rmtree(t, ignore_errors=True)
            os.makedirs(t)
            r = sh(["javac", "-nowarn", "-cp", JARS, "-d", t, *src])
            if r.returncode:
                raise ToolError("javac: " + r.stdout)
            open(t + "/ok", "w").close()
            try:
                os.rename(t, d)
            except OSError:
                shutil.rmtree(t, ignore_errors=True)
        return d

    # ------------------------------------------------------------- driver
    def drive(self, binary, scripts, env=None, timeout=300, tag=None):
        """Runs scripts (lists of lines), one thread each; returns the trace files."""
        self.n += 1
        base = f"{self.work}/run{self.n}"
        args, traces = [], []
        for i, s in enumerate(scripts):
            open(f"{base}.{i}.script", "w").write("\n".join(s) + "\n")
            args += [f"{base}.{i}.script", f"{base}.{i}.trace"]
            traces.append(f"{base}.{i}.trace")
        e = dict(os.environ, VF_ALARM=str(timeout))
        e.update(env or {})
        try:
            r = subprocess.run([binary.exe, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout + 60)
            rc, err = r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        for t in traces:
            fix_tail(t)
        return Run(binary, scripts, traces, rc, err, dict(env or {}), timeout)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, override="vf.Overrides", level=None, workers=1, timeout=600, args=(), mem="2g",
            files=None):
        """Runs TLC on spec/<module>.tla; returns a TlcResult."""
        self.n += 1
        md = f"{self.work}/tlc{self.n}"
        os.makedirs(md)
        for f in glob.glob(f"{VERIF}/spec/*.tla") + glob.glob(f"{VERIF}/spec/*.cfg"):
            os.symlink(f, f"{md}/{os.path.basename(f)}")
        for fn, text in (files or {}).items():
            p = f"{md}/{fn}"
            if os.path.islink(p):
                os.unlink(p)
            open(p, "w").write(text)
        cp = JARS
        j = ["-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss16m",
             "-Dtlc2.TLC.ide=vf", "-Djava.io.tmpdir=" + md]
        if override:
            cp = self.classes() + ":" + cp
            j.append(f"-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:{override}")
        if level:
            j.append(f"-Dvf.level={level}")
        cmd = ["java", *j, "-cp", cp, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md + "/states",
               "-config", cfg or f"{module}.cfg", *args, f"{module}.tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=md, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e,
                               timeout=timeout)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "timeout"
        res = TlcResult(out, rc, module)
        res.dir = md
        return res

    def model(self, module, cfg=None, workers=None, timeout=600, files=None, note=None, **kw):
        """A design model that has to hold (a failure is an error of the model: the library is not involved)."""
        if os.environ.get("VF_NOMODEL"):
            return None
        r = self.tlc(module, cfg, workers=workers or CPUS, timeout=timeout, files=files, **kw)
        if not r.ok:
            raise ToolError(f"model {module}: TLC did not succeed ({r.rc})\n" + r.out[-3000:])
        self.states += r.distinct
        self.transitions += r.generated
        self.models[note or module] = dict(states=r.distinct, transitions=r.generated)
        self.drop(r)
        return r

    def proofs(self, module, cinits, inits, step, inv="IndAndSafe", timeout=200):
        """An invariant of an unbounded model that Apalache proves inductive (a counterexample is an error of the model; no
        answer in time is noted)."""
        if os.environ.get("VF_NOMODEL"):
            return

        def one(q):
            cinit, init, length = q
            d = tempfile.mkdtemp(dir=self.work)
            os.symlink(f"{VERIF}/spec/{module}.tla", f"{d}/{module}.tla")
            e = dict(os.environ, TMPDIR=d, JVM_ARGS="-Xmx1500m", HOME=d)
            e.pop("JAVA_TOOL_OPTIONS", None)
            try:
                r = subprocess.run(["apalache-mc", "check", f"--cinit={cinit}", f"--init={init}", f"--inv={inv}",
                                    f"--length={length}", f"--out-dir={d}/out", f"{module}.tla"], cwd=d, env=e, timeout=timeout,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                out = r.stdout
            except subprocess.TimeoutExpired:
                out = "timeout"
            shutil.rmtree(d, ignore_errors=True)
            return q, out
        done = []
        with concurrent.futures.ThreadPoolExecutor(max(1, CPUS // 2)) as ex:
            for q, out in ex.map(one, [(ci, i, 0) for ci in cinits[:1] + cinits[-1:] for i in inits] + [(ci, i, 1) for ci in cinits for i in step]):
                if "The outcome is: Error" in out or "outcome is: Deadlock" in out:
                    raise ToolError(f"model {module} {q}: not inductive\n" + out[-3000:])
                (done if "The outcome is: NoError" in out else self.notes).append(
                    " ".join(map(str, q)) if "NoError" in out else f"{module} {q}: Apalache gave no answer: {out[-200:]}")
        self.models[module + " (Apalache, unbounded: invariant inductive)"] = dict(proved=done)

    def spec(self, reqs, par=None):
        """Has TLC compute keys and signatures (Sphincs.tla).  reqs: ("key", P, random) or ("sign", P, sk, msgtext, opt|None);
        all byte strings as hex text.  Returns the results as hex, in order."""
        par = max(1, min(par or CPUS, (len(reqs) + 3) // 4))
        lines = []
        for i, q in enumerate(reqs):
            p = q[1]
            d = dict(op=q[0], id=str(i), fam=p.fam, n=p.n, k=p.k, t=p.t, h=p.h, d=p.d, spike=int(p.spike))
            d.update(dict(random=q[2]) if q[0] == "key" else dict(sk=q[2], msg=q[3], opt=q[4] or "det"))
            lines.append(json.dumps(d))

        def part(w):
            f = f"{self.work}/req{id(reqs)}.{w}"
            open(f, "w").write("\n".join(lines[w::par]) + "\n")
            r = self.tlc("SpecSign", env=dict(REQ=f), timeout=800)
            if r.rc != 0:
                raise ToolError("SpecSign: " + r.out[-2000:])
            out = {}
            for m in re.finditer(r'^<<"RES", "(.*)">>$', r.out, re.M):
                x = json.loads(m.group(1).replace('\\"', '"'))
                out[int(x["id"])] = x.get("sk") or x["sig"]
            self.drop(r)
            return out
        res = {}
        with concurrent.futures.ThreadPoolExecutor(par) as ex:
            for o in ex.map(part, range(par)):
                res.update(o)
        if len(res) != len(reqs):
            raise ToolError("SpecSign: results missing")
        return [res[i] for i in range(len(reqs))]

    def drop(self, r):
        shutil.rmtree(r.dir, ignore_errors=True)

    # --------------------------------------------------- trace validation
    def validate(self, trace, module="TraceApi", env=None, timeout=800, mem="3g"):
        """Returns None when the trace is a behaviour of the specification, else (index, event)."""
        r = self.tlc(module, env=dict(env or {}, TRACE=trace), timeout=timeout, mem=mem)
        m = re.search(r'<<"REACHED", (\d+), "OF", (\d+)>>', r.out)
        if not m:
            raise ToolError(f"{module} on {trace}: no verdict ({r.rc})\n" + r.out[-2500:])
        got, n = int(m.group(1)), int(m.group(2))
        if "The specification" in r.out and "error" in r.out.lower() and got == n:
            raise ToolError(r.out[-2000:])
        if got < n and "Evaluating" in r.out and "Error:" in r.out and "POSTCONDITION" not in r.out and "PostCondition" not in r.out and "ost condition" not in r.out and "ostcondition" not in r.out:
            raise ToolError(r.out[-2500:])
        self.drop(r)
        self.states += r.distinct
        self.transitions += r.generated
        return (None if got == n else got), n

    def check_runs(self, jobs):
        """jobs: dicts name, binary, scripts, modes/env, module, drive_env, precat.  Drives, validates in parallel, reports."""
        skipped = []

        def one(j):
            if self.violations and not self.thorough:
                return
            if not self.thorough and time.time() - self.t0 > BUDGET:    # a slow machine: say so instead of giving no answer
                skipped.append(j["name"])
                return
            try:
                self._one(j)
            except BaseException as e:
                j["error"] = e
        list(self.pool.map(one, jobs))
        for j in jobs:
            if "error" in j:
                raise j["error"]
        if skipped:
            self.extra["jobs_not_reached_in_time"] = self.extra.get("jobs_not_reached_in_time", []) + skipped

    def _one(self, j):
        module = j.get("module", "TraceApi")
        env = dict(SIGMODE="learn", VALMODE="own", KEYMODE="learn")
        env.update(j.get("env", {}))
        run = j.get("run") or self.drive(j["binary"], j["scripts"], env=j.get("drive_env"), timeout=j.get("timeout", 240))
        if run.rc == "timeout" or run.hung():
            again = self.drive(j["binary"], j["scripts"], env=j.get("drive_env"), timeout=2 * j.get("timeout", 240))
            run = again
        for i, t in enumerate(run.traces):
            use, whole = t, run.complete(t)
            if j.get("post"):
                use = j["post"](t)
            bad, n = self.validate(use, module, env)
            self.traces += 1
            self.events += n if bad is None else bad
            if bad is None and not whole:
                if run.rc == 3:
                    raise ToolError(f"{j['name']}: driver: {run.err[-500:]}")
                # the process ended without a word (killed, exit in the library, sanitizer)
                bad, n = n, n
                self.reject(j, run, i, use, n, dict(e="fault", rc=run.rc, err=run.err[-1500:]), env, module)
                return
            if bad is not None:
                ev = read_events(use, bad, bad + 1)
                # the verdict on a recorded trace has to be repeatable
                bad2, _ = self.validate(use, module, env)
                if bad2 != bad:
                    raise ToolError(f"{j['name']}: verdict not repeatable ({bad}, {bad2})")
                self.reject(j, run, i, use, bad, ev[0] if ev else {}, env, module)
                return
            if len(self.samples) < 8:
                self.samples.append(dict(trace=j["name"], events=n, first=short(read_events(use, 0, 1)), last=short(read_events(use, n - 2, n - 1))))
            os.unlink(t)
        for s in glob.glob(run.traces[0][:-8] + ".*"):
            if os.path.exists(s):
                os.unlink(s)

    def reject(self, j, run, i, trace, at, event, env, module):
        k = len(self.violations) + 1
        d = f"{self.out}/{k}"
        os.makedirs(d, exist_ok=True)
        script = trace.replace(".trace", ".script")
        for x, s in enumerate(run.scripts):
            open(f"{d}/script.{x}", "w").write("\n".join(s) + "\n")
        evs = read_events(trace, 0, at + 1)
        with open(f"{d}/trace", "w") as f:
            for e in evs:
                f.write(json.dumps(e) + "\n")
        info = dict(property=self.prop, scenario=j["name"], trace_module=module, mode=env, build=run.binary.name,
                    drive_env=run.env, rejected_at_event=at + 1, event=short([event]),
                    stderr=run.err[-2000:],
                    replay=f"driver of build '{run.binary.name}' with script.* ; then TLC on {module}.tla with TRACE=trace and the mode")
        json.dump(info, open(f"{d}/info.json", "w"), indent=1)
        self.violations.append((j["name"], d, info))

    def violation(self, name, detail, files=None):
        k = len(self.violations) + 1
        d = f"{self.out}/{k}"
        os.makedirs(d, exist_ok=True)
        for fn, text in (files or {}).items():
            open(f"{d}/{fn}", "w").write(text)
        info = dict(property=self.prop, scenario=name, detail=detail)
        json.dump(info, open(f"{d}/info.json", "w"), indent=1)
        self.violations.append((name, d, info))

    # ----------------------------------------------------------- the end
    def finish(self, level="model_checking", **cov):
        known = load_known(self.prop)
        rest = []
        for name, d, info in self.violations:
            hit = [k for k in known if k in json.dumps(info)]
            if hit:
                print(f"KNOWN-FINDING: property={self.prop} {hit[0]}")
            else:
                rest.append((name, d, info))
        coverage = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                        events_validated=self.events, models=self.models, samples=self.samples or [dict(note="none")])
        coverage.update(self.extra)
        coverage.update(cov)
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=level, coverage=coverage,
                  assumptions=self.notes, wall_s=round(time.time() - self.t0, 1), violations=len(rest))
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{self.prop}.json", "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for name, d, info in rest[:5]:
            print(f"# {name}: {json.dumps(info)[:900]}")
            print(f"VIOLATION property={self.prop} replay={d}")
        if not rest:
            print(f"{self.prop}: held on {self.traces} traces ({self.events} events), {self.states} states, "
                  f"{ev['wall_s']} s")
        sys.stdout.flush()
        return 1 if rest else 0


class BuildError(Exception):
    def __init__(self, msg, lib):
        super().__init__(msg)
        self.lib = lib


class Binary:
    def __init__(self, exe, internal, name):
        self.exe, self.internal, self.name = exe, internal, name


class Run:
    def __init__(self, binary, scripts, traces, rc, err, env, timeout):
        self.binary, self.scripts, self.traces, self.rc, self.err, self.env, self.timeout = binary, scripts, traces, rc, err, env, timeout

    def complete(self, trace):
        t = tail(trace)
        return t.startswith('{"e":"end"') or '"e":"fault"' in t

    def hung(self):
        return any('"e":"fault","signal":14' in tail(t) for t in self.traces)


class TlcResult:
    def __init__(self, out, rc, module):
        self.out, self.rc, self.module = out, rc, module
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = rc == 0 and ("No error has been found" in out or "states generated" in out)


def tail(path):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 400))
            return f.read().decode(errors="replace").rstrip("\n").split("\n")[-1]
    except OSError:
        return ""


def fix_tail(path):
    """Drops an unfinished last line and empty lines."""
    try:
        data = open(path, "rb").read()
    except OSError:
        open(path, "w").close()
        return
    if data and not data.endswith(b"\n"):
        data = data[:data.rfind(b"\n") + 1]
    lines = [l for l in data.split(b"\n") if l.strip()]
    ok = []
    for l in lines:
        if l.startswith(b"{") and l.endswith(b"}"):
            ok.append(l)
    open(path, "wb").write(b"\n".join(ok) + (b"\n" if ok else b""))


def read_events(path, a, b):
    out = []
    with open(path) as f:
        for i, l in enumerate(f):
            if i >= b:
                break
            if i >= a and l.strip():
                out.append(json.loads(l))
    return out


def short(evs):
    def cut(v):
        return v if not isinstance(v, str) or len(v) <= 80 else f"{v[:60]}...({len(v) // 2} bytes)"
    return [{k: cut(v) for k, v in e.items()} for e in evs]


def load_known(prop):
    out = []
    p = f"{VERIF}/KNOWN_FINDINGS"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out
