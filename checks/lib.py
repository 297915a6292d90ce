"""Shared machinery of the checks: build, TLC, replay, evidence, verdict."""
import fcntl, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TARGET = os.path.join(VERIF, "target")
BIN = os.path.join(TARGET, "debug", "coffer-harness")


class ToolError(Exception):
    pass


class Abort(Exception):
    """The code under test made further checking impossible; a violation has been noted."""


class Tlc:
    def __init__(self):
        self.generated = self.distinct = self.open = 0
        self.cases, self.rejects, self.error, self.out = [], [], None, ""


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.parts = [], [], []
        self.known = load_known(pid)
        self.known_hit = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- building ---------------------------------------------------------
    def build(self):
        os.makedirs(TARGET, exist_ok=True)
        with open(os.path.join(TARGET, ".verif-lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never")
            p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "harness"),
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if p.returncode != 0:
            raise ToolError("harness build failed:\n" + p.stdout[-6000:])

    # -- the real code ------------------------------------------------------
    def harness(self, *args, timeout=600, ok=(0, 1), stdin=None, mem_gb=None):
        """Runs the harness. Returns (rc, stdout). A rc outside `ok` is returned as is."""
        pre = None
        if mem_gb:
            def pre():
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        try:
            p = subprocess.run([BIN, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=timeout, cwd=self.work, preexec_fn=pre)
        except subprocess.TimeoutExpired:
            return -999, ""
        if p.returncode == 64:
            raise ToolError(f"harness {args}: usage error {p.stderr[-500:]}")
        if p.returncode not in ok:
            return p.returncode, p.stdout + "\nSTDERR " + p.stderr[-2000:]
        return p.returncode, p.stdout

    def replay(self, what, cmd, cases, *extra, timeout=600):
        """Replays specification cases (json strings) in the real code; mismatches are violations."""
        f = os.path.join(self.work, what + ".ndjson")
        with open(f, "w") as h:
            h.write("\n".join(cases) + "\n")
        return self.replay_file(what, cmd, f, len(cases), *extra, timeout=timeout)

    def replay_file(self, what, cmd, f, n, *extra, timeout=600):
        rc, out = self.harness(cmd, f, *extra, timeout=timeout)
        m = re.search(r"^REPLAYED (\d+) MISMATCHES (\d+)", out, re.M)
        if not m:
            self.violation(what, {"what": "the code under test ended the replay process", "command": [cmd, f],
                                  "exit": rc, "output": out[-3000:]}, key=f"{what}:crash")
            return
        if n is not None and int(m.group(1)) != n:
            raise ToolError(f"{what}: {n} cases given, {m.group(1)} replayed")
        self.traces += int(m.group(1))
        self.parts.append({"part": what, "cases_replayed_into_code": int(m.group(1)), "mismatches": int(m.group(2))})
        for l in out.splitlines():
            if l.startswith("MISMATCH "):
                d = json.loads(l[9:])
                self.violation(what, d, key=what + ":" + json.dumps(d.get("case", d), sort_keys=True))
        if int(m.group(2)) and not any(l.startswith("MISMATCH ") for l in out.splitlines()):
            self.violation(what, {"output": out[-3000:]})

    def record(self, cmd, *args, timeout=600, **kw):
        rc, out = self.harness(cmd, *args, timeout=timeout, ok=(0,), **kw)
        if rc != 0:
            v = {"what": "the code under test did not end in time" if rc == -999 else "the code under test ended the recording process",
                 "args": list(map(str, args)), "exit": rc, "output": out[-3000:]}
            for a in args:
                if os.path.isfile(str(a) + ".cur"):
                    with open(str(a) + ".cur") as h:
                        v["case"] = h.read(20000)
            self.violation(cmd, v, key=cmd + ":crash")
            raise Abort()
        return out

    # -- TLC ------------------------------------------------------------------
    def tlc(self, module, cfg=None, consts=None, env=None, workers=8, timeout=780, heap="10g", stack="512m",
            trace=None, name=None, depth=None, simulate=None):
        cfg = cfg or module
        name = name or cfg
        d = os.path.join(self.work, "tlc_" + name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        spec = os.path.join(VERIF, "spec")
        for f in os.listdir(spec):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(spec, f), d)
        with open(os.path.join(spec, cfg + ".cfg")) as h:
            text = h.read()
        for k, v in (consts or {}).items():
            text, n = re.subn(r"(?m)^(\s*%s\s*(?:=|<-)\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), text)
            if n != 1:
                raise ToolError(f"constant {k} not in {cfg}.cfg")
        with open(os.path.join(d, cfg + ".cfg"), "w") as h:
            h.write(text)
        cmd = ["java", "-Xss" + stack, "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-config", cfg + ".cfg", "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", simulate, "-seed", str(self.seed)]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        if trace:
            e["TRACE"] = trace
        out = os.path.join(d, "out.txt")
        t = time.time()
        with open(out, "w") as h:
            try:
                rc = subprocess.run(cmd, cwd=d, env=e, stdout=h, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC timed out on {name}")
        r = Tlc()
        other = []
        with open(out) as h:
            for line in h:
                if line.startswith('"CASE '):
                    r.cases.append(json.loads(line)[5:])
                elif line.startswith('"OPEN '):
                    r.open += 1
                elif line.startswith('"REJECT '):
                    r.rejects.append(json.loads(line)[7:])
                else:
                    other.append(line)
        r.out = "".join(other)
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", r.out)
        if m:
            r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
        r.rc = rc
        if rc != 0 or "No error has been found" not in r.out and not simulate:
            r.error = r.out[-4000:]
            if not trace or re.search(r"StackOverflow|OutOfMemory|ran out of|Parse Error|Semantic error|ConfigFile|Java heap", r.out):
                raise ToolError(f"TLC failed on {name}:\n{r.error}")
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append({"part": "TLC " + name, "distinct_states": r.distinct, "states_generated": r.generated,
                           "cases_emitted": len(r.cases), "seconds": round(time.time() - t, 1)})
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return r

    def trace_check(self, module, trace, what, cfg=None, consts=None, count=None, env=None, **kw):
        """Validates a recorded ndjson trace against the specification."""
        with open(trace) as h:
            lines = h.read().splitlines()
        if not lines:
            raise ToolError(f"{what}: empty trace")
        r = self.tlc(module, cfg, consts, env=env, trace=trace, name=(cfg or module) + "_" + what, **kw)
        self.traces += len(lines)
        self.parts[-1]["trace_lines_validated"] = len(lines)
        if r.open:
            self.parts[-1]["left_open_by_the_properties"] = r.open
        bad = []
        for x in r.rejects:
            n = int(x.split()[0])
            bad.append((n, x))
        if r.error:
            m = re.findall(r"/\\ (?:l|t) = (\d+)", r.error)
            n = int(m[-1]) if m else 0
            bad.append((n, "specification cannot interpret the event: " + r.error[-1500:]))
        for n, x in sorted(set(bad)):
            ev = json.loads(lines[n - 1]) if 1 <= n <= len(lines) else None
            self.violation(what, {"event": n, "reject": x, "line": ev}, key=f"{what}:" + (lines[n - 1] if ev else x))
        return r

    def cut(self, what, r, expect_min):
        """Vacuity guard: the model must have produced at least this many cases."""
        if len(r.cases) < expect_min:
            raise ToolError(f"{what}: only {len(r.cases)} cases emitted, expected at least {expect_min}")

    # -- verdict -----------------------------------------------------------------
    def sample(self, *xs):
        for x in xs:
            if len(self.samples) < 12:
                s = x if isinstance(x, str) else json.dumps(x)
                self.samples.append(s[:600])

    def violation(self, what, data, key=None):
        key = key or what
        for k in self.known:
            if k["key"] == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.violations.append((what, data))

    def finish(self, level="model_checking", assumptions=()):
        if not self.violations and (self.states == 0 or self.traces == 0):
            raise ToolError("nothing explored")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples or ["-"],
                           "parts": self.parts},
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}.json")
            with open(path, "w") as h:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "rerun": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3 checks/run.py {self.pid}",
                           "violations": [{"part": w, "case": c} for w, c in self.violations[:50]]}, h, indent=1)
            for w, c in self.violations[:5]:
                print(f"  {w}: {json.dumps(c)[:700]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"OK property={self.pid} states={self.states} transitions={self.transitions} "
              f"traces={self.traces} wall={time.time() - self.t0:.1f}s")
        shutil.rmtree(self.work, ignore_errors=True)
        return 0


def load_known(pid):
    """known: property=<id> key=<json string> <what>   (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\"(?:[^\"\\]|\\.)*\") (.*)", l)
            if m and m.group(1) == pid:
                out.append({"key": json.loads(m.group(2)), "what": m.group(3).strip()})
    return out


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: run.py " + "|".join(sorted(checks)))
        return 2
    pid = sys.argv[1]
    try:
        c = Check(pid)
        c.build()
        try:
            r = checks[pid](c)
        except Abort:
            r = ()
        return c.finish(assumptions=r or ())
    except ToolError as e:
        print(f"ERROR property={pid}: {e}", file=sys.stderr)
        return 2
