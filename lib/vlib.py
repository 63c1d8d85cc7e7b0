"""Shared machinery of the checks: build a harness from /repo's working tree, run it,
run TLC on a design model, validate recorded traces with TLC, write evidence, report."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, atexit, random, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BAD = 2000000001          # what a harness prints for a number that is not exactly representable


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


def sh(cmd, timeout, cwd=None, env=None, stdin=None):
    """Run, return (rc, out, err); rc is None on timeout. Kills the whole process group."""
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, er = p.communicate(stdin, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
        rc = None
    return rc, o.decode("utf8", "replace"), er.decode("utf8", "replace")


class TlcResult:
    def __init__(self):
        self.generated = self.distinct = self.diameter = 0
        self.ok = False
        self.kind = None          # None | invariant | deadlock | property | postcondition | error
        self.name = None
        self.out = ""
        self.coverage = {}
        self.trace_state = ""
        self.prints = []


def parse_tlc(rc, out):
    r = TlcResult()
    r.out = out
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"The depth of the complete state graph search is (\d+)", out)
    if m:
        r.diameter = int(m.group(1))
    for m in re.finditer(r"^<(\w+) line [^>]*>: ([\d,]+):([\d,]+)", out, re.M):
        r.coverage[m.group(1)] = max(r.coverage.get(m.group(1), 0), int(m.group(3).replace(",", "")))
    if "Model checking completed. No error has been found." in out or re.search(r"^Finished in", out, re.M) and "Error:" not in out:
        r.ok = True
    m = re.search(r"Error: Invariant (\w+) is violated", out)
    if m:
        r.kind, r.name = "invariant", m.group(1)
    elif "Error: Deadlock reached" in out:
        r.kind = "deadlock"
    elif re.search(r"Error: Temporal properties were violated|Action property (\w+) .*is violated|Error: Property \w+ is violated", out):
        r.kind = "property"
    elif re.search(r"Error:.*(POSTCONDITION|[Pp]ostcondition)", out):
        r.kind = "postcondition"
    elif not r.ok:
        r.kind = "error"
    if r.kind:
        r.ok = False
    st = re.findall(r"^State \d+:.*?(?=^State \d+:|^\d+ states generated|\Z)", out, re.M | re.S)
    r.trace_state = st[-1] if st else ""
    return r


# TLC could not evaluate the specification on recorded values (too large, of another shape, ...)
EVALUATION = re.compile(r"Overflow when computing|no element of S satisf|Attempted to |In applying the function|Attempted to apply|Invalid function domain|non-enumerable|not in the domain|TLC encountered the following error|The exception was a")


class Ctx:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.rng = random.Random(f"{pid}/{seed}")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"vf_{pid}_")
        atexit.register(shutil.rmtree, self.scratch, True)
        self.outdir = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.outdir, ignore_errors=True)
        os.makedirs(self.outdir)
        self.states = self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.models = []
        self.assumptions = []
        self.violations = []
        self.extra = {}
        self.lock = threading.Lock()
        self.known = load_known(pid)
        self.known_hit = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- build and run
    def build(self, src, name=None, flags=(), opt="-O1", libs=()):
        name = name or os.path.splitext(os.path.basename(src))[0]
        exe = os.path.join(self.scratch, name)
        cmd = ["g++", "-std=c++17", opt, "-w", "-pthread", f"-I{REPO}/src", f"-I{HARN}", *flags,
               os.path.join(HARN, src), "-o", exe, *libs]
        rc, o, e = sh(cmd, 600)
        if rc != 0:
            raise CheckError(f"harness {src} does not build against the tree:\n{e[-4000:]}")
        return exe

    def build_many(self, specs):
        """specs: list of kwargs for build, built in parallel."""
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda s: self.build(**s), specs))

    def run(self, exe, args=(), timeout=120, env=None, stdin=None, what="harness", ok=(0,)):
        """Run real code. A crash or a hang of it is a violation, once it repeats."""
        cwd = tempfile.mkdtemp(dir=self.scratch)
        rc, o, e = sh([exe, *map(str, args)], timeout, cwd=cwd, env=env, stdin=stdin)
        if rc not in ok:
            rc2, o2, e2 = sh([exe, *map(str, args)], timeout, cwd=cwd, env=env, stdin=stdin)
            if rc2 in ok:
                return o2
            how = "does not terminate (killed after %ss)" % timeout if rc2 is None else f"exits with {rc2}"
            raise Violation(f"{what}: the code under test {how}",
                            dict(cmd=[os.path.basename(exe), *map(str, args)], stdout_tail=o2[-3000:], stderr_tail=e2[-3000:]))
        return o

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, timeout=600, workers=4, coverage=False, simulate=None, mem="3g", dfs=False,
            extra=(), javaopts=()):
        cfg = cfg or module + ".cfg"
        meta = tempfile.mkdtemp(dir=self.scratch)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m", "-XX:ParallelGCThreads=2", *javaopts]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", TLAJARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg]
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd += [*extra, module + ".tla"]
        rc, o, e = sh(cmd, timeout, cwd=SPEC, env=env)
        shutil.rmtree(meta, ignore_errors=True)
        if rc is None:
            raise CheckError(f"TLC on {module}/{cfg} did not finish in {timeout}s")
        r = parse_tlc(rc, o + e)
        r.rc = rc
        return r

    def model(self, module, cfg=None, required=(), expect=None, **kw):
        """Exhaustively check a design model. A failure here is independent of /repo: a check error.
        required: actions that must have been taken (no vacuity). expect: a model that must FAIL
        this way (a mutated design, shows the invariants have teeth)."""
        t = time.time()
        r = self.tlc(module, cfg, coverage=bool(required), **kw)
        if expect:
            if r.kind is None or (r.kind, r.name) != expect and r.kind != expect:
                raise CheckError(f"negative model {module}/{cfg} was expected to fail with {expect}: {r.out[-1500:]}")
        elif not r.ok:
            raise CheckError(f"design model {module}/{cfg} fails: {r.kind} {r.name}\n{r.out[-4000:]}")
        for a in required:
            if r.coverage.get(a, 0) == 0:
                raise CheckError(f"design model {module}/{cfg}: action {a} is never taken\n{r.coverage}")
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.models.append(dict(module=module, cfg=cfg or module + ".cfg", distinct=r.distinct, generated=r.generated,
                                    depth=r.diameter, wall_s=round(time.time() - t, 2),
                                    **({"expected_failure": r.kind} if expect else {}),
                                    **({"actions": r.coverage} if required else {})))
        return r

    def write_traces(self, name, traces):
        path = os.path.join(self.scratch, name + ".ndjson")
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        return path

    def validate(self, module, traces, cfg=None, name=None, chunk=None, env=None, count=None, timeout=600,
                 workers=1, dfs=False, accept="deadlock", key=None, par=6, mem="2g", sample=True):
        """Check recorded traces (list of JSON objects, one trace each) against a trace spec.
        accept="deadlock": the spec is deterministic; a trace that cannot be followed to its end deadlocks.
        accept="post": the spec branches; the POSTCONDITION prints the ids of the accepted traces.
        Raises Violation with the first rejected trace."""
        if not traces:
            raise CheckError(f"no traces for {module}")
        name = name or module
        key = key or (lambda t: None)
        skipped = []
        if chunk is None:
            chunk = max(1, (len(traces) + par - 1) // par)
        chunks = [traces[i:i + chunk] for i in range(0, len(traces), chunk)]

        def one(ci):
            part = list(chunks[ci])
            bad = []

            def probe(p):    # does the evaluation fail on these traces?
                path = self.write_traces(f"{name}_{ci}p", p)
                r = self.tlc(module, cfg, env={**(env or {}), "TRACE_FILE": path}, timeout=timeout, workers=workers, dfs=dfs, mem=mem)
                return bool(EVALUATION.search(r.out))
            while part:
                path = self.write_traces(f"{name}_{ci}", part)
                r = self.tlc(module, cfg, env={**(env or {}), "TRACE_FILE": path}, timeout=timeout, workers=workers, dfs=dfs, mem=mem)
                with self.lock:
                    self.states += r.distinct
                    self.transitions += r.generated
                if accept == "deadlock":
                    if r.ok:
                        break
                    if r.kind == "error" and EVALUATION.search(r.out) and "OutOfMemory" not in r.out:
                        # a recorded value on which the specification has no value at all: nothing it accepts
                        if not re.search(r"\bt?r? ?= \d+", r.trace_state or ""):
                            if len(part) > 1:
                                part = part[:len(part) // 2] if probe(part[:len(part) // 2]) else part[len(part) // 2:]
                                continue
                            r.trace_state = "/\\ tr = 1\n/\\ l = 1"
                    elif r.kind not in ("deadlock", "invariant", "property"):
                        raise CheckError(f"trace spec {module} failed to evaluate: {r.out[r.out.find("Error:"):][:1500]} ... {r.out[-1500:]}")
                    m = re.search(r"\btr = (\d+)", r.trace_state) or re.search(r"\bt = (\d+)", r.trace_state)
                    if not m:
                        raise CheckError(f"{module}: cannot find the rejected trace: {r.out[-3000:]}")
                    ti = int(m.group(1)) - 1
                    m = re.search(r"\bl = (\d+)", r.trace_state)
                    lpos = int(m.group(1)) if m else None
                    bad.append((part[ti], lpos, r))
                    part.pop(ti)
                    if len(bad) >= 1 and not self.known:
                        break
                    if len(bad) > 20:
                        break
                else:
                    m = re.search(r'"ACCEPTED",\s*\{([^}]*)\}', r.out)
                    if not m and EVALUATION.search(r.out) and "OutOfMemory" not in r.out:
                        if len(part) > 1:
                            part = part[:len(part) // 2] if probe(part[:len(part) // 2]) else part[len(part) // 2:]
                            continue
                        bad.append((part[0], None, r))
                        break
                    if not m:
                        raise CheckError(f"trace spec {module} gave no verdict: {r.out[-6000:]}")
                    acc = set(int(x) for x in re.findall(r"\d+", m.group(1)))
                    for i in range(len(part)):
                        if i + 1 not in acc:
                            bad.append((part[i], None, r))
                    break
            return bad

        with ThreadPoolExecutor(par) as ex:
            res = list(ex.map(one, range(len(chunks))))
        bad = [b for x in res for b in x]
        for t, lpos, r in bad:
            k = key(t)
            if k is not None and k in self.known:
                self.known_hit.add(k)
                continue
            detail = dict(spec=module, rejected_at_event=lpos, trace=t, key=k, reason=r.kind, invariant=r.name,
                          last_spec_state=r.trace_state[:4000])
            if lpos is not None and "ev" in t and 0 < lpos <= len(t["ev"]):
                detail["event"] = t["ev"][lpos - 1]
            raise Violation(f"{module} rejects a recorded trace" + (f" at event {lpos}" if lpos else ""), detail)
        self.traces += len(traces)
        self.events += sum(len(t.get("ev", ())) or 1 for t in traces)
        if sample and len(self.samples) < 6:
            s = json.dumps(traces[self.rng.randrange(len(traces))], separators=(",", ":"))
            self.samples.append({"spec": module, "trace": s[:1500]})
        return True

    def generate(self, module, cfg=None, env=None, timeout=600, workers=1, simulate=None, mem="3g"):
        """Run a generator spec that prints one JSON value per behaviour as <<"GEN", "...">>; returns them."""
        r = self.tlc(module, cfg, env=env, timeout=timeout, workers=workers, simulate=simulate, mem=mem)
        if not r.ok:
            raise CheckError(f"generator {module}/{cfg} fails: {r.out[-4000:]}")
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.models.append(dict(module=module, cfg=cfg or module + ".cfg", distinct=r.distinct, generated=r.generated,
                                    depth=r.diameter, role="generator"))
        res = []
        for m in re.finditer(r'^<<"GEN", "(.*)">>$', r.out, re.M):
            res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        if not res:
            raise CheckError(f"generator {module} produced nothing: {r.out[-2000:]}")
        return res

    # ---------------------------------------------------------------- reporting
    def violation(self, what, detail):
        path = os.path.join(self.outdir, f"violation_{len(self.violations)}.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=what, tier=self.tier, seed=self.seed, **detail), f, indent=1, default=str)
        self.violations.append(what)
        print(f"{self.pid}: {what}")
        ev = detail.get("event")
        if ev is not None:
            print("  event:", json.dumps(ev)[:600])
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)

    def evidence(self):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   trace_events=self.events, models=self.models, samples=self.samples or ["(no trace was recorded)"], **self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                           assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                           violations=len(self.violations)), f, indent=1, default=str)


def load_known(pid):
    """known_findings.txt: lines 'finding: property=<id> key=<key> <text>' (and 'fixed: ...', which suppress nothing)."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3).strip()
    return res


def lines(out):
    return [json.loads(x) for x in out.splitlines() if x.startswith("{")]


def main(pid, fn, level="model_checking"):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed, level)
    try:
        try:
            fn(ctx)
        except Violation as v:
            ctx.violation(v.what, v.detail)
        ctx.evidence()
    except CheckError as e:
        print(f"{pid}: check error: {e}", file=sys.stderr)
        ctx.evidence()
        sys.exit(2)
    for k, txt in ctx.known.items():
        if k in ctx.known_hit:
            print(f"KNOWN-FINDING: property={pid} {txt}")
    if ctx.violations:
        sys.exit(1)
    print(f"{pid}: ok ({tier}): {ctx.traces} traces, {ctx.events} events, {ctx.states} states, {time.time() - ctx.t0:.1f}s")
    sys.exit(0)
