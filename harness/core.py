"""Shared machinery: running TLC, replaying cases into the real code, verdicts."""
import contextlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("SPECFILE_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    pass


# --------------------------------------------------------------------------
# scratch space
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="specfile-verif-")
    return _scratch


def cleanup():
    global _scratch
    if _scratch is not None:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


# --------------------------------------------------------------------------
# strings that are not valid UTF-8 (surrogate escapes) travel as private-use
# characters
def enc_text(s):
    return "".join(chr(ord(c) - 0xD800 + 0xE000) if 0xD800 <= ord(c) <= 0xDFFF else c for c in s)


def dec_text(s):
    return "".join(chr(ord(c) - 0xE000 + 0xD800) if 0xE000 <= ord(c) <= 0xE7FF else c for c in s)


def S(x):
    """Observed scalar as a string; anything but a plain string is marked."""
    if isinstance(x, str):
        return enc_text(x)
    return "!" + repr(x)


def dumps(o):
    return json.dumps(o, ensure_ascii=False)


# --------------------------------------------------------------------------
class TLCResult:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.cases = []
        self.mismatches = []
        self.specbugs = []
        self.violated = None
        self.error = None
        self.wall = 0.0


_classes = None


def overrides():
    """Compiles the evaluation accelerator; without it TLC uses the TLA+ text."""
    global _classes
    if _classes is None:
        _classes = ""
        d = os.path.join(scratch(), "classes")
        os.makedirs(d, exist_ok=True)
        if not os.environ.get("VERIF_NO_OVERRIDES"):
            with contextlib.suppress(OSError, subprocess.SubprocessError):
                subprocess.run(
                    ["javac", "-nowarn", "-cp", JARS, "-d", d,
                     os.path.join(SPEC, "java", "SpecfileOverrides.java")],
                    check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                _classes = d
    return _classes


def run_tlc(module, cfg, trace=None, timeout=600, env=None, workers=None, extra=(), deque=False):
    """Runs TLC on spec/<module>.tla with the given configuration text."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cfgp = os.path.join(d, "m.cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if trace:
        e["TRACE"] = trace
    e.update(env or {})
    cmd = [
        "java", "-XX:+UseParallelGC", "-Xmx12g", "-Xss512m",
        "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Dsun.jnu.encoding=UTF-8",
        "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + d,
        # the disk queue mangles non-ASCII text in states
        *(["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if trace or deque else []),
        *(["-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:SpecfileOverrides"] if overrides() else []),
        "-cp", (overrides() + ":" if overrides() else "") + JARS, "tlc2.TLC", "-workers", str(workers or WORKERS),
        "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", cfgp, *extra,
        os.path.join(SPEC, module + ".tla"),
    ]
    r = TLCResult()
    t0 = time.time()
    outp = os.path.join(d, "out")
    with open(outp, "wb") as out:
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=e, cwd=d,
                             start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -9
    r.wall = time.time() - t0
    tail = []
    finished = False
    with open(outp, encoding="utf-8", errors="replace") as f:
        for line in f:
            if line.startswith('"@@'):
                try:
                    s = json.loads(line.rstrip("\n"))
                    kind, _, body = s.partition(" ")
                    o = json.loads(body)
                except ValueError:
                    tail.append(line)
                    continue
                {"@@CASE": r.cases, "@@MISMATCH": r.mismatches, "@@SPECBUG": r.specbugs}[kind].append(o)
                continue
            if line[:1].isdigit() and "states generated" in line and "distinct states found" in line:
                w = line.replace(",", "").split()
                r.states, r.distinct = int(w[0]), int(w[3])
            if line.startswith(("Parsing file", "Semantic processing", "Linting of")):
                continue
            if "is violated" in line:
                r.violated = line.strip()
            if "No error has been found" in line:
                finished = True
            tail.append(line)
            if len(tail) > 400:
                del tail[:100]
    text = "".join(tail)
    if not finished and r.violated is None:
        r.error = f"TLC on {module} ended with {rc}:\n" + text[-6000:]
    elif r.violated:
        r.violated += "\n" + text[-6000:]
    r.text = text
    shutil.rmtree(d, ignore_errors=True)
    return r


MC_CFG = """SPECIFICATION MCSpec
VIEW MCView
CHECK_DEADLOCK FALSE
CONSTANTS
"""
MC_LAST = MC_CFG.replace("VIEW MCView", "VIEW MCViewLast")


def path_case(e):
    """Case emitted by MC.tla: init and path of [ev, exp]."""
    ev = []
    for p in e["path"]:
        d = dict(p["ev"])
        d["exp"] = p["exp"]
        ev.append(d)
    return {"init": e["init"], "ev": ev}


TRACE_CFG = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n"


def write_trace(cases, name="trace"):
    p = os.path.join(scratch(), f"{name}-{os.getpid()}-{random.getrandbits(32):x}.ndjson")
    with open(p, "w", encoding="utf-8") as f:
        for c in cases:
            f.write(dumps(c) + "\n")
    return p


# --------------------------------------------------------------------------
# replaying into the real code, in worker processes with a watchdog
class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def _worker(fn, cases, idxs, path, limit):
    sys.setrecursionlimit(3000)
    signal.signal(signal.SIGALRM, _alarm)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    with open(path, "w", encoding="utf-8") as out:
        for i in idxs:
            out.write(f"S {i}\n")
            out.flush()
            try:
                signal.setitimer(signal.ITIMER_REAL, limit)
                try:
                    res = fn(cases[i])
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                line = dumps(res)
            except CaseTimeout:
                line = dumps({"!hang": limit})
            except Exception:
                line = dumps({"!error": traceback.format_exc()})
            out.write(f"R {i} {line}\n")
            out.flush()


def replay(fn, cases, limit=20.0, workers=None):
    """Runs fn on every case; returns the list of results in order.

    A result {"!hang": s} means the code did not return, {"!error": tb} that the
    driver itself failed."""
    n = len(cases)
    if n == 0:
        return []
    workers = min(workers or WORKERS, n)
    results = [None] * n
    d = tempfile.mkdtemp(prefix="replay-", dir=scratch())
    chunks = [list(range(k, n, workers)) for k in range(workers)]
    running = {}
    seq = 0

    def spawn(idxs):
        nonlocal seq
        if not idxs:
            return
        path = os.path.join(d, f"out{seq}")
        seq += 1
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                fd = os.open(path + ".err", os.O_RDWR | os.O_CREAT, 0o600)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                _worker(fn, cases, idxs, path, limit)
                code = 0
            finally:
                os._exit(code)
        running[pid] = (idxs, path, [time.time(), -1])

    def collect(path, idxs):
        done, current = set(), None
        if not os.path.exists(path):
            return done, current
        with open(path, encoding="utf-8", newline="\n") as f:
            for line in f.read().split("\n"):
                if line.startswith("S "):
                    current = int(line[2:])
                elif line.startswith("R "):
                    k, _, body = line[2:].partition(" ")
                    try:
                        results[int(k)] = json.loads(body)
                    except ValueError:
                        continue
                    done.add(int(k))
                    current = None
        return done, current

    for ch in chunks:
        spawn(ch)
    crashes = 0
    while running:
        with contextlib.suppress(ChildProcessError):
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid and pid in running:
                idxs, path, _ = running.pop(pid)
                done, current = collect(path, idxs)
                rest = [i for i in idxs if i not in done]
                if rest:
                    bad = current if current is not None else rest[0]
                    results[bad] = {"!hang": "process died, status %d" % status}
                    crashes += 1
                    if crashes > 200:
                        raise MachineryError("replay workers keep dying")
                    spawn([i for i in rest if i != bad])
                continue
        now = time.time()
        for pid, (idxs, path, mark) in list(running.items()):
            try:
                size = os.stat(path).st_size
            except OSError:
                size = -1
            if size != mark[1]:
                mark[0], mark[1] = now, size
            elif now - mark[0] > 3 * limit + 5:
                os.kill(pid, signal.SIGKILL)
        time.sleep(0.01)
    shutil.rmtree(d, ignore_errors=True)
    return results


def rpm_crashes(case):
    """Whether RPM itself dies of a signal when it parses the document of a case,
    without any code under test: such a document is outside of every property."""
    lines = case.get("init", {}).get("lines")
    if not isinstance(lines, list) or not all(isinstance(x, str) for x in lines):
        return False
    text = "\n".join(dec_text(x) for x in lines) + "\n"
    for flags in ("rpm.RPMSPEC_ANYARCH | rpm.RPMSPEC_FORCE", "rpm.RPMSPEC_ANYARCH"):
        with tempfile.NamedTemporaryFile(dir=scratch(), suffix=".spec") as f:
            f.write(text.encode("utf-8", "surrogateescape"))
            f.flush()
            p = subprocess.run([sys.executable, "-B", "-c", f"import rpm, sys\nrpm.spec(sys.argv[1], {flags})", f.name],
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode < 0:
                return True
    return False


# --------------------------------------------------------------------------
def compare(exp, obs):
    """Fields of exp that differ in obs (exp may be partial)."""
    return [f for f in exp if f not in obs or exp[f] != obs[f]]


def exc(fn, *a, **k):
    """(True, value) or (False, exception)."""
    try:
        return True, fn(*a, **k)
    except CaseTimeout:
        raise
    except Exception as e:
        return False, e


class Check:
    """One property's check; subclasses define `prop` and the three hooks."""

    prop = "?"
    module = None  # Trace_<prop>
    case_limit = 20.0
    assumptions = ()

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{self.prop}-{seed}")
        self.states = self.transitions = 0
        self.validated = 0
        self.samples = []
        self.violations = []  # (title, payload)
        self.known = []
        self.mc_runs = []
        self.notes = {}
        self.t0 = time.time()
        self.findings = load_findings(self.prop)

    # hooks -----------------------------------------------------------------
    def models(self):
        """Yields (module, cfg) for exhaustive model checking runs."""
        return []

    def model_case(self, case):
        """Turns a case emitted by a model into a trace case (init, ev with exp)."""
        return path_case(case)

    def cases(self):
        """Yields trace cases (dicts with id, init, ev)."""
        return []

    def run(self, case):
        """Executes the case against the real code; returns the list of obs."""
        raise NotImplementedError

    # driver ----------------------------------------------------------------
    def violate(self, title, payload):
        self.violations.append((title, payload))

    def do_models(self):
        for item in self.models():
            module, cfg = item[0], item[1]
            r = run_tlc(module, cfg, timeout=800, **(item[2] if len(item) > 2 else {}))
            if r.error or r.violated:
                raise MachineryError(
                    f"the specification itself failed ({module}): {r.violated or r.error}")
            self.states += r.distinct
            self.transitions += r.states
            self.mc_runs.append({"module": module, "distinct_states": r.distinct,
                                 "states_generated": r.states, "emitted": len(r.cases),
                                 "wall_s": round(r.wall, 1)})
            if r.cases:
                self.replay_model_cases(module, r.cases)

    def replay_model_cases(self, module, emitted):
        cases = []
        for k, e in enumerate(emitted):
            c = self.model_case(e)
            c.setdefault("id", f"{module}#{k}")
            cases.append(c)
        self.judge_expected(cases)

    def judge_expected(self, cases):
        """Cases whose events carry `exp`: compared directly."""
        results = replay(self.run, cases, self.case_limit)
        ok = 0
        for c, r in zip(cases, results):
            bad = self.bad_result(c, r)
            if bad:
                continue
            for k, (ev, obs) in enumerate(zip(c["ev"], r)):
                d = compare(ev["exp"], obs)
                if d:
                    self.mismatch(c, k + 1, d[0], {f: ev["exp"][f] for f in d},
                                  {f: obs.get(f, "missing") for f in d})
                    break
            else:
                ok += 1
        self.validated += ok
        if cases:
            self.sample(cases[len(cases) // 2])

    def bad_result(self, c, r):
        if isinstance(r, dict):
            if "!hang" in r:
                if "process died" in str(r["!hang"]) and rpm_crashes(c):
                    self.skipped = getattr(self, "skipped", 0) + 1
                    return True
                self.mismatch(c, 0, "terminates", {"returns": True}, r)
                return True
            # the driver failed: the code under test behaved in a way the
            # projection cannot even express
            self.mismatch(c, 0, "observable", {"observable": True}, r)
            return True
        return False

    def sample(self, c):
        if len(self.samples) < 6:
            self.samples.append(json.loads(dumps(c)[:4000]) if len(dumps(c)) <= 4000
                                else {"id": c.get("id"), "text": dumps(c)[:3000]})

    def mismatch(self, case, step, clause, expected, got):
        kf = case.get("kf")
        if kf and kf in self.findings:
            self.known.append((kf, self.findings[kf]))
            return
        self.violate(f"{clause} at step {step} of {case.get('id')}",
                     {"case": case, "step": step, "clause": clause,
                      "expected": expected, "got": got})

    def do_traces(self):
        cases = []
        for k, c in enumerate(self.cases()):
            c.setdefault("id", f"case{k}")
            cases.append(c)
        self.judge_traces(cases)

    def judge_traces(self, cases):
        """Cases without expectations: recorded and validated by TLC."""
        if not cases:
            return
        results = replay(self.run, cases, self.case_limit)
        recorded = []
        for c, r in zip(cases, results):
            if self.bad_result(c, r):
                continue
            evs = []
            for ev, obs in zip(c["ev"], r):
                e = dict(ev)
                e["obs"] = obs
                evs.append(e)
            recorded.append({"id": c["id"], "init": c["init"], "ev": evs})
        byid = {c["id"]: c for c in cases}
        self.validate(recorded, byid)
        for c in recorded[:: max(1, len(recorded) // 3)][:3]:
            self.sample(c)

    def validate(self, recorded, byid, depth=0):
        if not recorded:
            return
        path = write_trace(recorded)
        r = run_tlc(self.module or "Trace_" + self.prop, TRACE_CFG, trace=path, timeout=840)
        os.unlink(path)
        if r.error or r.violated:
            if depth == 0:
                # is the machinery at fault, or can the trace not be interpreted?
                self.bisect(recorded, byid, r)
                return
            raise MachineryError(r.violated or r.error)
        self.states += r.distinct
        self.transitions += r.states
        bad = set()
        if r.specbugs and not r.mismatches:
            raise MachineryError("property fails on the specification: " + dumps(r.specbugs[:3]))
        for m in r.mismatches:
            if m["id"] in bad:
                continue
            bad.add(m["id"])
            self.mismatch(byid[m["id"]], m["step"], m["clause"], m["expected"], m["got"])
        self.validated += len(recorded) - len(bad)
        self.mc_runs.append({"module": self.module or "Trace_" + self.prop,
                             "histories": len(recorded), "distinct_states": r.distinct,
                             "wall_s": round(r.wall, 1)})

    def bisect(self, recorded, byid, r):
        """TLC could not evaluate the specification on some recorded history."""
        msg = (r.violated or r.error or "")[-3000:]
        if len(recorded) == 1:
            c = recorded[0]
            self.mismatch(byid[c["id"]], 0, "interpretable",
                          {"interpretable": True}, {"tlc": msg, "recorded": c})
            return
        if getattr(self, "_bisects", 0) > 12:
            raise MachineryError(msg)
        self._bisects = getattr(self, "_bisects", 0) + 1
        h = len(recorded) // 2
        for part in (recorded[:h], recorded[h:]):
            path = write_trace(part)
            q = run_tlc(self.module or "Trace_" + self.prop, TRACE_CFG, trace=path, timeout=840)
            os.unlink(path)
            if q.error or q.violated:
                self.bisect(part, byid, q)
                return
        raise MachineryError("TLC failure not reproducible:\n" + msg)

    def extra(self):
        """Further parts of the check."""

    def replay_file(self, path):
        """Runs the cases of a violation file once more and judges them again."""
        with open(path, encoding="utf-8") as f:
            cases = [v["case"] for v in json.load(f)]
        for k, c in enumerate(cases):
            c["id"] = f"{c.get('id', 'case')}@{k}"
        try:
            self.judge_expected([c for c in cases if c["ev"] and all("exp" in e for e in c["ev"])])
            self.judge_traces([c for c in cases if not (c["ev"] and all("exp" in e for e in c["ev"]))])
        finally:
            cleanup()
        for t, p in self.violations:
            print(f"# {t}")
            print("#   expected: " + dumps(p["expected"]))
            print("#   observed: " + dumps(p["got"]))
        print(f"{len(self.violations)} of {len(cases)} cases still fail")
        return 1 if self.violations else 0

    def execute(self):
        code = 0
        with contextlib.suppress(OSError):
            os.unlink(os.path.join(VERIF, "evidence", f"{self.prop}.violation.json"))
        try:
            self.do_models()
            self.do_traces()
            self.extra()
        except Exception as e:
            if not isinstance(e, MachineryError):
                e = traceback.format_exc()
            if not self.violations:
                print(f"ERROR: {e}", file=sys.stderr)
                code = 2
        finally:
            cleanup()
        shown = set()
        for kf, text in self.known:
            if kf not in shown:
                shown.add(kf)
                print(f"KNOWN-FINDING: property={self.prop} {text}")
        replay_path = None
        if self.violations:
            code = 1
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            replay_path = os.path.join(VERIF, "evidence", f"{self.prop}.violation.json")
            with open(replay_path, "w", encoding="utf-8") as f:
                json.dump([{"title": t, **p} for t, p in self.violations[:20]], f,
                          ensure_ascii=False, indent=1)
            for t, p in self.violations[:3]:
                print(f"# {t}")
                print("#   expected: " + dumps(p["expected"])[:1500])
                print("#   observed: " + dumps(p["got"])[:1500])
            print(f"VIOLATION property={self.prop} replay={replay_path}")
        self.evidence()
        sys.stdout.flush()
        return code

    def evidence(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w", encoding="utf-8") as f:
            json.dump({
                "property": self.prop, "tier": self.tier, "seed": self.seed,
                "level": "model_checking",
                "coverage": {
                    "states": self.states, "transitions": self.transitions,
                    "traces_validated_against_impl": self.validated,
                    "samples": self.samples or ["none"],
                    "runs": self.mc_runs, **self.notes,
                },
                "assumptions": list(self.assumptions),
                "wall_s": round(time.time() - self.t0, 2),
                "violations": len(self.violations),
            }, f, ensure_ascii=False, indent=1)


def load_findings(prop):
    """known-findings.txt: `KNOWN property=<id> case=<key> <text>' lines."""
    res = {}
    try:
        with open(os.path.join(VERIF, "known-findings.txt"), encoding="utf-8") as f:
            for line in f:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == "KNOWN" and w[1] == f"property={prop}":
                    res[w[2].partition("=")[2]] = w[3].strip()
    except FileNotFoundError:
        pass
    return res
