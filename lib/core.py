"""Shared machinery: building the instrumented binary, running driver jobs,
running TLC, writing evidence and reporting violations."""
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
SPEC = os.path.join(VERIF, "spec")
PARTS = ["zip", "prs", "hilb", "kmeans", "bench"]
NCPU = os.cpu_count() or 4
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check itself could not do its work: never a verdict on the code."""


class Violation(Exception):
    def __init__(self, what, detail):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail


def log(*a):
    print(*a, file=sys.stderr)
    sys.stderr.flush()


# ---------------------------------------------------------------- build

def build_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=TARGET)
    e.pop("RUSTFLAGS", None)
    return e


def seed_target():
    """Reuse the dependencies that /repo's own build left behind, if any."""
    dst = os.path.join(TARGET, "debug")
    src = os.path.join(REPO, "target", "debug")
    if os.path.isdir(os.path.join(dst, "deps")):
        return
    os.makedirs(dst, exist_ok=True)
    if os.path.isdir(os.path.join(src, "deps")):
        for sub in ("deps", ".fingerprint", "build"):
            s = os.path.join(src, sub)
            if os.path.isdir(s):
                subprocess.call(["cp", "-a", s, dst])


def compile_with(parts):
    """Compile /repo's working tree with the driver and the given parts. Returns
    None, or the errors."""
    src = ""
    for p in ["core"] + parts:
        with open(os.path.join(VERIF, "driver", p + ".rs")) as f:
            src += f.read() + "\n"
    drv = os.path.join(TARGET, "driver.rs")
    old = open(drv).read() if os.path.exists(drv) else None
    if old != src:
        with open(drv, "w") as f:
            f.write(src)
    env = build_env()
    env["CNIIC_VERIF_DRIVER"] = drv
    cmd = ["cargo", "rustc", "--offline", "--bin", "cniic", "--", "--cfg", "cniic_verif"]
    for p in parts:
        cmd += ["--cfg", "cniic_verif_" + p]
    cmd += ["-C", "opt-level=2", "-C", "debug-assertions=on", "-C", "overflow-checks=on"]
    r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return None if r.returncode == 0 else r.stdout


def build():
    """Returns the binary and the parts of the driver it has. The parts reach for
    internal operations: one whose operations are not there anymore is left
    out, the checks then make do with the codecs and the command line."""
    os.makedirs(TARGET, exist_ok=True)
    import fcntl
    lock = open(os.path.join(TARGET, ".verif-lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        seed_target()
        parts = [p for p in PARTS if p not in os.environ.get("VERIF_WITHOUT", "").split(",")]  # for testing
        err = compile_with(parts)
        if err:
            parts = [p for p in PARTS if compile_with([p]) is None]
            err = compile_with(parts)
            if err:
                raise ToolError("build failed:\n" + err[-6000:])
            log("  [build] without the parts %s" % sorted(set(PARTS) - set(parts)))
        # private copy: a concurrent check must not replace it under us
        b = os.path.join(WORK, "cniic")
        shutil.copy2(os.path.join(TARGET, "debug", "cniic"), b)
        return b, parts
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


# ---------------------------------------------------------------- driver jobs

def h(s):
    if isinstance(s, str):
        s = s.encode()
    return s.hex()


class Driver:
    def __init__(self, binary, jobtime=60.0, env=None):
        self.binary = binary
        self.jobtime = jobtime
        self.env = env or {}
        self.count = 0

    def run(self, jobs, shards=NCPU):
        """jobs: list of (op, {k: v}). Returns the list of result dicts, in order.
        A job that kills the process gives {"crash": ...}, one that exceeds its
        time {"hang": ...}."""
        n = len(jobs)
        self.count += n
        results = [None] * n
        shards = max(1, min(shards, n))
        threads = []
        errors = []
        for s in range(shards):
            idx = list(range(s, n, shards))
            t = threading.Thread(target=self._shard, args=(s, idx, jobs, results, errors))
            t.start()
            threads.append(t)
        for t in threads:
            t.join()
        if errors:
            raise ToolError(errors[0])
        for i, r in enumerate(results):
            if r is None:
                raise ToolError("job %d has no result" % i)
            if "unsupported" in r:
                raise ToolError("driver lacks operation " + r["unsupported"])
        return results

    def _shard(self, s, idx, jobs, results, errors):
        try:
            todo = idx
            attempt = 0
            while todo:
                attempt += 1
                todo = self._run_once("%d_%d_%d" % (id(jobs) & 0xffffff, s, attempt), todo, jobs, results)
        except Exception as e:  # noqa
            errors.append(repr(e))

    def _run_once(self, tag, todo, jobs, results):
        jf = os.path.join(WORK, "jobs_%s.txt" % tag)
        of = os.path.join(WORK, "out_%s.txt" % tag)
        with open(jf, "w") as f:
            for i in todo:
                op, kv = jobs[i]
                f.write("%d\t%s" % (i, op))
                for k, v in kv.items():
                    f.write("\t%s=%s" % (k, v))
                f.write("\n")
        open(of, "w").close()
        env = dict(os.environ)
        env.update(self.env)
        env["CNIIC_VERIF_JOBS"] = jf
        env["CNIIC_VERIF_OUT"] = of
        ef = open(os.path.join(WORK, "err_%s.txt" % tag), "w+")

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen([self.binary], env=env, cwd=WORK, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=ef, preexec_fn=limits)
        last, t_last, hung = -1, time.time(), False
        while True:
            try:
                p.wait(timeout=0.05 if time.time() - t_last < 1 else 0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            sz = os.path.getsize(of)
            if sz != last:
                last, t_last = sz, time.time()
            elif time.time() - t_last > self.jobtime:
                p.kill()
                p.wait()
                hung = True
                break
        current = None
        done = set()
        with open(of, errors="replace") as f:
            for line in f:
                if line.startswith("B "):
                    current = int(line[2:])
                elif line.startswith("{") and line.endswith("}\n"):
                    r = json.loads(line)
                    results[int(r["id"])] = r
                    done.add(int(r["id"]))
                    current = None
        rest = [i for i in todo if i not in done]
        if rest:
            if current is None:
                ef.seek(0)
                raise ToolError("driver stopped outside of a job (status %s): %s" % (p.returncode, ef.read()[-2000:]))
            if hung:
                results[current] = {"id": str(current), "hang": self.jobtime}
            else:
                ef.seek(0)
                results[current] = {"id": str(current), "crash": "status %s" % p.returncode, "stderr": ef.read()[-500:]}
            rest.remove(current)
        ef.close()
        os.remove(jf)
        os.remove(of)
        return rest


def died(r):
    """A description if the job killed or hung the process."""
    if "hang" in r:
        return "did not finish within %s s" % r["hang"]
    if "crash" in r:
        return "crashed the process (%s)" % r["crash"]
    return None


# ---------------------------------------------------------------- TLC

class TLCResult:
    pass


def tlc(module, cfg=None, env=None, workers=None, extra=(), timeout=800, heap="6g", defs=None, name=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg (or generated constants)."""
    md = os.path.join(WORK, "tlc_%s_%d" % (name or module, random.getrandbits(40)))
    os.makedirs(md, exist_ok=True)
    cfgpath = os.path.join(SPEC, (cfg or module) + ".cfg")
    if defs:
        with open(cfgpath) as f:
            text = f.read()
        for k, v in defs.items():
            text, cnt = re.subn(r"(?m)^(\s*)%s\s*=.*$" % re.escape(k), r"\g<1>%s = %s" % (k, v), text)
            if cnt != 1:
                raise ToolError("constant %s not found in %s" % (k, cfgpath))
        cfgpath = os.path.join(md, "gen.cfg")
        with open(cfgpath, "w") as f:
            f.write(text)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + md, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLA_CP, "tlc2.TLC",
           "-config", cfgpath, "-metadir", md, "-noGenerateSpecTE",
           "-workers", str(workers or NCPU)] + list(extra) + [module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timeout on %s" % module)
    r = TLCResult()
    r.out = p.stdout
    r.code = p.returncode
    r.wall = time.time() - t0
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", r.out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if not m:
        m = re.findall(r"The number of states generated: (\d+)", r.out)
        if m:
            r.generated = r.distinct = int(m[-1])
    shutil.rmtree(md, ignore_errors=True)
    r.ok = p.returncode == 0 and "No error has been found" in r.out or (
        p.returncode == 0 and "-simulate" in extra)
    r.kind = None
    if not r.ok:
        if "Deadlock reached" in r.out:
            r.kind = "deadlock"
        elif re.search(r"Invariant (\S+) is violated", r.out):
            r.kind = "invariant " + re.search(r"Invariant (\S+) is violated", r.out).group(1)
        elif "Temporal properties were violated" in r.out or re.search(r"property \S+ (is|was) violated", r.out):
            r.kind = "temporal property"
        elif re.search(r"Action property (\S+) is violated", r.out):
            r.kind = "action property"
        elif re.search(r"(?i)assumption.*is false", r.out):
            r.kind = "assumption"
    return r


def model_check(ctx, module, cfg=None, defs=None, timeout=800, extra=(), workers=None, heap="6g"):
    """Exhaustive check of a specification: failing it is an error of ours."""
    r = tlc(module, cfg, defs=defs, timeout=timeout, extra=extra, workers=workers, heap=heap)
    if not r.ok:
        raise ToolError("specification %s/%s rejected by TLC (%s):\n%s" % (module, cfg, r.kind, r.out[-5000:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.models.append(dict(spec=module, config=cfg or module, constants=defs or {}, distinct_states=r.distinct,
                           states_generated=r.generated, wall_s=round(r.wall, 1)))
    log("  [mc] %s/%s: %d distinct states, %.1fs" % (module, cfg or module, r.distinct, r.wall))
    return r


def model_refute(ctx, module, cfg, kind, defs=None, timeout=800):
    """A specification that must fail, in this way: what it leaves out matters."""
    r = tlc(module, cfg, defs=defs, timeout=timeout)
    if r.ok or r.kind != kind:
        raise ToolError("%s/%s should have been refuted (%s):\n%s" % (module, cfg, kind, r.out[-3000:]))
    ctx.models.append(dict(spec=module, config=cfg, constants=defs or {}, refuted=kind, wall_s=round(r.wall, 1)))
    log("  [mc] %s/%s: refuted as it should be (%s), %.1fs" % (module, cfg, kind, r.wall))


def validate(ctx, module, traces, what, cfg=None, chunk=None, timeout=800, defs=None, heap="6g", workers=None):
    """Check recorded traces (list of JSON-able dicts) against a trace
    specification. Every trace must be consumed to its end. Raises Violation
    with the offending trace otherwise."""
    if not traces:
        return
    chunks = [traces] if not chunk else [traces[i:i + chunk] for i in range(0, len(traces), chunk)]
    for ch in chunks:
        tf = os.path.join(WORK, "traces_%s_%d.json" % (module, random.getrandbits(40)))
        with open(tf, "w") as f:
            # a leading dummy keeps JsonDeserialize happy with empty nested arrays
            json.dump([{k: v for k, v in t.items() if not k.startswith("_")} for t in ch], f)
        r = tlc(module, cfg, env={"TRACES": tf}, timeout=timeout, defs=defs, heap=heap, workers=workers)
        ctx.states += r.distinct
        ctx.transitions += r.generated
        if r.ok:
            ctx.traces += len(ch)
            log("  [trace] %s: %d traces accepted, %d states, %.1fs" % (module, len(ch), r.distinct, r.wall))
            os.remove(tf)
            continue
        if r.kind is None and re.search(r"(out of (bounds|domain)|outside (of )?(its )?(the )?domain|non-existent|which is not in the domain|is not in the domain)", r.out) \
                and re.search(r"(?m)^/\\ tr = (\d+)", r.out):
            # the trace refers to something that isn't there (a stream too short, a symbol unknown)
            r.kind = "evaluation outside a domain"
        if r.kind is None:
            # which evaluation error? still a tool problem
            raise ToolError("TLC failed on %s:\n%s" % (module, r.out[-5000:]))
        ts = re.findall(r"(?m)/\\ tr = (\d+)", r.out)
        if not ts:
            raise ToolError("cannot tell which trace of %s was rejected:\n%s" % (module, r.out[-5000:]))
        k = int(ts[-1]) - 1
        states = re.split(r"(?m)^State \d+:", r.out)
        last = states[-1].strip()
        raise Violation("%s: trace rejected by %s (%s)" % (what, module, r.kind),
                        dict(spec=module, kind=r.kind, trace=ch[k], last_state=last[:4000],
                             tlc=[l for l in r.out.splitlines() if l.startswith("Error:")][:5]))


def generate(ctx, module, cfg=None, defs=None, simulate=None, depth=60, seed=1, timeout=600, limit=None):
    """Have TLC print behaviours (PrintT of JSON strings prefixed by @@)."""
    extra = []
    workers = 1
    if simulate:
        extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed)]
    r = tlc(module, cfg, defs=defs, extra=extra, workers=workers, timeout=timeout)
    if not r.ok:
        raise ToolError("behaviour generation with %s failed:\n%s" % (module, r.out[-4000:]))
    out = []
    for l in r.out.splitlines():
        i = l.find("@@")
        if i >= 0:
            s = l[i + 2:]
            if s.endswith('"'):
                s = s[:-1]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            out.append(json.loads(s))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.generated_behaviours += len(out)
    ctx.models.append(dict(spec=module, config=cfg or module, constants=defs or {}, behaviours=len(out),
                           states_generated=r.generated, mode="simulate" if simulate else "exhaustive",
                           wall_s=round(r.wall, 1)))
    log("  [gen] %s: %d behaviours, %.1fs" % (module, len(out), r.wall))
    return out


# ---------------------------------------------------------------- context

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s-%s-%d" % (prop, tier, seed))
        self.states = self.transitions = self.traces = self.generated_behaviours = 0
        self.models = []
        self.samples = []
        self.notes = {}
        self.known = []
        self.t0 = time.time()
        self.drv = None
        self.binary = None
        self.parts = []

    def has(self, part):
        """Does the driver reach the internal operations of this part?"""
        if part not in self.parts:
            self.notes["driver_without_" + part] = 1
        return part in self.parts

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def note(self, k, v=1):
        self.notes[k] = self.notes.get(k, 0) + v


def known_findings():
    """Lines of known-findings.txt: 'known: property=<id> key=<key> <text>'."""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res.append(m.groups())
    return res


WORK = None


def setup_work(prop):
    global WORK
    WORK = os.path.join(VERIF, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    return WORK


def write_evidence(ctx, level, violations, assumptions):
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               samples=ctx.samples or ["none"], models=ctx.models, driver_jobs=ctx.drv.count if ctx.drv else 0)
    if ctx.generated_behaviours:
        cov["behaviours_generated_from_spec"] = ctx.generated_behaviours
    cov.update(ctx.notes)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ctx.prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", ctx.prop + ".json"))


def short(o, n=400):
    s = json.dumps(o)
    return s if len(s) <= n else s[:n] + "..."


ASSUMPTIONS = ["TLC evaluates the specifications correctly",
               "the driver (verif/driver) records what the crate's functions returned",
               "outside the bounds of the model and the recorded traces the property is not decided"]
