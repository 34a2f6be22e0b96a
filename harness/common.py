"""Shared plumbing of the checks: TLC runs, parallel replay, evidence and verdicts."""

import atexit
import concurrent.futures
import faulthandler
import json
import multiprocessing
import os
import pathlib
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
EVID = VERIF / "evidence"
REPO = pathlib.Path(os.environ.get("PSRPVERIF_REPO", "/repo"))  # elsewhere only while developing the checks
SRC = REPO / "src"

sys.dont_write_bytecode = True
sys.path.insert(0, str(SRC))

JAVA = [
    "java",
    "-XX:+UseParallelGC",
    "-Xss256m",
    "-cp",
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
]

_scratch = None


def scratch() -> pathlib.Path:
    global _scratch
    if _scratch is None:
        _scratch = pathlib.Path(tempfile.mkdtemp(prefix="psrpverif-"))
        owner = os.getpid()

        def clean(p=_scratch):
            if os.getpid() == owner:
                shutil.rmtree(p, ignore_errors=True)

        atexit.register(clean)
    return _scratch


class MachineryError(Exception):
    """The checking machinery itself failed (never a verdict about psrpcore)."""


class TLCResult:
    def __init__(self, lines, states, distinct, text, rc):
        self.lines = lines  # decoded JSON values printed by the specification
        self.states = states
        self.distinct = distinct
        self.text = text
        self.rc = rc


def _cfg_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("{") or v.startswith("<<") else '"%s"' % v
    raise TypeError(v)


def tlc(
    module,
    constants=None,
    spec="Spec",
    invariants=(),
    properties=(),
    view=None,
    constraint=None,
    action_constraint=None,
    env=None,
    workers=4,
    timeout=800,
    simulate=None,
    seed=1,
    expect_ok=True,
    heap="4g",
):
    """Run TLC on spec/<module>.tla and return what the specification printed as JSON."""
    wd = pathlib.Path(tempfile.mkdtemp(prefix=module + "-", dir=scratch()))
    cfg = ["SPECIFICATION " + spec]
    if constants:
        cfg.append("CONSTANTS")
        cfg += ["  %s = %s" % (k, _cfg_value(v)) for k, v in constants.items()]
    cfg += ["INVARIANT " + i for i in invariants]
    cfg += ["PROPERTY " + i for i in properties]
    if view:
        cfg.append("VIEW " + view)
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    if action_constraint:
        cfg.append("ACTION_CONSTRAINT " + action_constraint)
    cfg.append("CHECK_DEADLOCK FALSE")
    (wd / "m.cfg").write_text("\n".join(cfg) + "\n")
    cmd = JAVA[:1] + ["-Xmx" + heap] + JAVA[1:] + ["tlc2.TLC", "-metadir", str(wd / "meta"), "-noGenerateSpecTE"]
    cmd += ["-workers", str(workers), "-config", str(wd / "m.cfg")]
    cmd += ["-seed", str(seed)]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd.append(module + ".tla")
    e = dict(os.environ)
    e.update(env or {})
    out = wd / "out.txt"
    for attempt in range(3):
        with open(out, "wb") as fd:
            p = subprocess.Popen(cmd, cwd=str(SPEC), stdout=fd, stderr=subprocess.STDOUT, env=e, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise MachineryError("TLC timed out on %s %s" % (module, constants))
        if rc != -signal.SIGKILL:
            break
        time.sleep(5)  # ended from outside, when memory ran out: not an answer
        shutil.rmtree(wd / "meta", ignore_errors=True)
    text = []
    lines = []
    states = distinct = 0
    with open(out, "r", encoding="utf-8", errors="replace") as fd:
        for line in fd:
            if line.startswith('"'):
                line = line.rstrip("\n")
                try:
                    lines.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            text.append(line)
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if m:
                states, distinct = (int(x.replace(",", "")) for x in m.groups())
    text = "".join(text)
    shutil.rmtree(wd, ignore_errors=True)
    if expect_ok and rc != 0:
        raise MachineryError("TLC failed on %s %s\n%s" % (module, constants, text[:300] + "\n...\n" + "\n".join(l for l in text.splitlines() if "rror" in l or "Attempted" in l) + text[-3000:]))
    return TLCResult(lines, states, distinct, text, rc)


def parallel_tlc(jobs, max_par=4):
    """jobs: list of kwargs dicts for tlc(); results in order."""
    with concurrent.futures.ThreadPoolExecutor(max_par) as ex:
        futs = [ex.submit(lambda kw: tlc(**kw), j) for j in jobs]
        return [f.result() for f in futs]


def judge(chk, module, cases, drop=(), constants=None, par=6, env=None, timeout=800):
    """Let TLC decide recorded cases: yields (case, verdict) for those the specification refuses."""
    cases = list(cases)
    parts = [cases[i::par] for i in range(par) if cases[i::par]]

    def one(part):
        f = tempfile.NamedTemporaryFile("w", suffix=".json", dir=scratch(), delete=False, encoding="utf-8")
        json.dump([{k: v for k, v in c.items() if k not in drop} for c in part], f)
        f.close()
        try:
            return tlc(module, constants, invariants=["Report"], env=dict(env or {}, TRACE=f.name), workers=1, timeout=timeout)
        finally:
            os.unlink(f.name)

    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        res = list(ex.map(one, parts))
    out = []
    for part, r in zip(parts, res):
        chk.add_tlc(r)
        done = [x for x in r.lines if x.get("done")]
        if not done or done[0]["n"] != len(part):
            raise MachineryError("%s did not judge every case\n%s" % (module, r.text[-3000:]))
        chk.traces += len(part)
        out += [(part[b["trace"] - 1], b) for b in r.lines if b.get("bad")]
    return out


# ---------------------------------------------------------------------------------------------
# running code under test in worker processes


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def _init_worker():
    signal.signal(signal.SIGALRM, _alarm)
    import logging

    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(3000)


def _call(args):
    fn, arg, limit = args
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return fn(arg)
    except Hang:
        return [{"what": "no answer within %d s" % limit, "case": _short(arg)}]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _short(v, n=4000):
    try:
        s = json.dumps(v, default=repr)
    except Exception:
        s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def pmap(fn, items, procs=8, limit=60, chunk=1):
    """Run fn(item) in worker processes; fn returns anything picklable."""
    items = list(items)
    if not items:
        return []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(procs, len(items)), initializer=_init_worker) as pool:
        return pool.map(_call, [(fn, i, limit) for i in items], chunksize=chunk)


# ---------------------------------------------------------------------------------------------


def known_findings():
    out = {}
    for line in (VERIF / "KNOWN_FINDINGS.txt").read_text().splitlines():
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m:
            out[m.group(1), m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.violations = []
        self.known = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.rng = random.Random(seed * 1000003 + sum(map(ord, pid)))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.states

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def violation(self, what, key=None, **detail):
        """key names the one input, call site or history a known finding is about."""
        known = known_findings().get((self.pid, key))
        if known:
            self.known[key] = known
        else:
            self.violations.append(dict(what=what, **detail))

    def finish(self):
        EVID.mkdir(exist_ok=True)
        cov = dict(
            states=self.states,
            transitions=self.transitions,
            traces_validated_against_impl=self.traces,
            samples=self.samples or ["none"],
        )
        cov.update(self.cov)
        ev = dict(
            property=self.pid,
            tier=self.tier,
            seed=self.seed,
            level=self.level,
            coverage=cov,
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(self.violations),
        )
        if self.known:
            ev["known_findings"] = sorted(self.known.values())
        for w in sorted(self.known.values()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        (EVID / (self.pid + ".json")).write_text(json.dumps(ev, indent=1, default=repr) + "\n")
        if self.violations:
            rp = EVID / (self.pid + ".replay.json")
            rp.write_text(json.dumps(self.violations[:50], indent=1, default=repr) + "\n")
            for v in self.violations[:3]:
                print("  " + _short(v["what"], 400))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.stdout.flush()
            return 1
        print(
            "OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs"
            % (self.pid, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0)
        )
        return 0
