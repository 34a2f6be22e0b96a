"""Long random sessions of the real library, recorded and validated by TLC against Session.tla."""

import json
import random
import tempfile

import common
import session_drv as D
import wire


def op(o, p=0, ci=0, n=0, t="", x=""):
    return dict(o=o, p=p, ci=ci, n=n, t=t, x=x)


STREAMS = ["PipelineOutput", "ErrorRecord", "DebugRecord", "VerboseRecord", "WarningRecord", "ProgressRecord", "InformationRecord"]


class Recorder(D.World):
    """A world with a byte transport: payloads of limited size, delivered in arbitrary pieces."""

    def __init__(self, rng, bytewise, **kw):
        super().__init__(**kw)
        self.rng, self.bytewise = rng, bytewise
        self.buf = {"c": bytearray(), "s": bytearray()}
        self.seen = {"c": bytearray(), "s": bytearray()}
        self.join = {"c": wire.Joiner(), "s": wire.Joiner()}
        self.frag_stream = {"c": {}, "s": {}}
        self.pend_s, self.pend_c = [], []  # call ids the applications were told about

    def note(self, obs):
        for e in obs["evs"]:
            m = e["m"]
            if m["t"] in ("SetMaxRunspaces", "SetMinRunspaces", "GetAvailableRunspaces", "ResetRunspaceState"):
                self.pend_s.append((m["ci"], "int" if m["t"].startswith("Get") else "bool"))
            elif m["t"].endswith("HostCall") and m["ci"] != -100:
                self.pend_c.append(m["ci"])

    def pull(self, k, amount):
        """Ask side k for a payload and put its bytes on the transport."""
        src = self.c if k == "c" else self.s
        pay = src.data_to_send(amount)
        if pay is None:
            return False
        for f in wire.fragments(pay.data):
            if f.start:  # a server that accepts a new client numbers its messages from 1 again
                st = {"default": "d", "prompt_response": "p"}.get(pay.stream_type.name, "?")
                self.frag_stream[k].setdefault(f.oid, []).append(st)
        self.buf[k] += pay.data
        return True

    def deliver(self, k, n):
        """Deliver up to n bytes; the operation and the observation as the specification sees them."""
        dst = self.s if k == "c" else self.c
        data = bytes(self.buf[k][:n])
        del self.buf[k][:n]
        msgs, err, out = [], "", "ok"
        try:
            if data:
                dst.receive_data(D.psrpcore.PSRPPayload(data, D.psrpcore.StreamType.default, None))
        except Exception as e:
            out, err = D.outcome(e), repr(e)
        self.seen[k] += data
        while len(self.seen[k]) >= 21:
            ln = int.from_bytes(self.seen[k][17:21], "big")
            if len(self.seen[k]) < 21 + ln:
                break
            f = wire.fragments(bytes(self.seen[k][: 21 + ln]))[0]
            del self.seen[k][: 21 + ln]
            raw = self.join[k].add(f)
            if raw is not None:
                msgs.append(D.wire_msg(raw, self.frag_stream[k][f.oid].pop(0)))
        cv, sv = self.views()
        o = op(k + ".dlv", n=len(msgs), ci=1 if data else 0)
        return o, {"out": out, "n": 0, "evs": [], "pays": [[D.typed(m) for m in msgs]], "c": cv, "s": sv}, err


def pick(rng, w, focus):
    """A random operation, biased to ones that do something in the current situation."""
    r = rng.random
    cst, sst = w.c.state.name, w.s.state.name
    if r() < 0.55:
        return rng.choice([op("c.move"), op("s.move"), op("c.next"), op("s.next"), op("c.next"), op("s.next")])
    cand = []
    if cst == "BeforeOpen":
        cand += [op("c.open")] * 30
    q = rng.choice([1, 2])
    cp, sp = w.cp.get(q), w.sp.get(q)
    if cst == "Opened":
        if cp is None:
            cand += [op("cp.new", p=q, x="script%d" % q if focus != "gcm" else "gcm")] * 6
    if sst == "Opened" and sp is None:
        cand += [op("sp.new", p=q)] * 4
    if cp is not None:
        cand += [op("cp.start", p=q)] * (6 if cp.state.name == "NotStarted" else 1)
        cand += [op("cp.send", p=q, x=rng.choice(["a", "b", "\u00e9\U0001f600", "x" * 300, "plain"]))] * 3 + [op("cp.eof", p=q)]
        cand += [op("cp.begin_stop", p=q), op("cp.close", p=q)] if r() < 0.3 else []
        cand += [op("cp.host_response", p=q, ci=rng.randint(1, 6), x=rng.choice(["", "a", "!err", "long" * 40]))] * 2
    if sp is not None:
        cand += [op("sp.start", p=q)] * (6 if sp.state.name == "NotStarted" else 1)
        for _ in range(4):
            t = rng.choice(STREAMS)
            cand.append(op("sp.write", p=q, t=t, x=rng.choice(["m1", "m2", "\u2603" * 30, "m" * 500])))
        cand += [op("sp.host_call", p=q, n=rng.choice([11, 16, 18, 22, 41, 1, 42]), x=rng.choice(["", "hp"]))] * 2
        if r() < 0.25:
            cand += [op("sp.complete", p=q), op("sp.begin_stop", p=q), op("sp.stop", p=q), op("sp.close", p=q)]
    cand += [op("c.get_avail"), op("c.reset"), op("c.set_max", n=rng.randint(1, 5)), op("c.set_min", n=rng.randint(1, 5))]
    for ci, kind in rng.sample(w.pend_s, min(3, len(w.pend_s))):
        cand.append(op("s.avail_resp", ci=ci, n=rng.randint(0, 1) if kind == "bool" else rng.randint(0, 9), x=kind))
    for ci in rng.sample(w.pend_c, min(2, len(w.pend_c))):
        x = rng.choice(["", "a", "!err", "long" * 40])
        cand.append(op("c.host_response", ci=ci, x=x))
        if cp is not None:
            cand.append(op("cp.host_response", p=q, ci=ci, x=x))
    for _ in range(1):
        kind = rng.choice(["bool", "bool", "int"])
        cand.append(op("s.avail_resp", ci=rng.randint(1, 8), n=rng.randint(0, 1) if kind == "bool" else rng.randint(0, 9), x=kind))
    cand += [op("s.host_call", n=rng.choice([11, 16, 1, 41]), x=rng.choice(["", "hp"])), op("c.host_response", ci=rng.randint(1, 6), x="r")]
    cand += [op("s.send_event", n=rng.randint(0, 99), x="src")]
    if focus == "key":
        cand += [op("c.exchange_key"), op("s.request_key")]
        if cp is not None:
            if w.pend_c:
                cand += [op("cp.host_response", p=q, ci=rng.choice(w.pend_c), x="secret1")] * 2
            cand += [op("cp.send", p=q, x="secret1")] * 3 + [op("cp.host_response", p=q, ci=rng.randint(1, 4), x="secret2")] * 2
        if sp is not None:
            cand += [op("sp.write", p=q, t="PipelineOutput", x="secret2")] * 3
    if focus == "counts":
        cand = [o for o in cand if o["p"] == 0 and "host" not in o["o"]]
    if focus == "life" or r() < 0.04:
        cand += [
            op(o)
            for o in (
                "c.open c.connect c.begin_close c.close c.begin_disconnect c.disconnect c.reconnect s.connect s.begin_close "
                "s.close s.begin_disconnect s.disconnect s.reconnect s.set_broken"
            ).split()
        ]
    if focus == "disc":
        cand += [op(o) for o in "c.disconnect c.reconnect c.connect s.disconnect s.reconnect s.connect".split()] * 2
        if cst in ("Disconnected", "Closed", "Broken") and r() < 0.4 and not w.bytewise:
            cand += [op("c.new", x=rng.choice(["A", "A", "B"]))] * 10
    return rng.choice(cand)


def record(task):
    seed, focus, steps, bytewise, world = task
    rng = random.Random(seed)
    w = Recorder(rng, bytewise, **world)
    out = []
    # most sessions start with an opened pool, many with running pipelines
    script = []
    if rng.random() < 0.8:
        script = [op("c.open")] + [op(x) for x in ["c.move", "s.next", "s.next", "s.move", "c.next", "c.next", "c.next"]]
        if bytewise:
            script = [op("c.open")]
        for q in (1, 2):
            if not bytewise and focus != "life" and rng.random() < 0.7:
                script += [op("cp.new", p=q, x="gcm" if focus == "gcm" else "script%d" % q), op("cp.start", p=q), op("sp.new", p=q)]
                script += [op("c.move"), op("s.next"), op("sp.start", p=q), op("s.move"), op("c.next")]
    try:
        for i in range(steps):
            o = script[i] if i < len(script) else pick(rng, w, focus)
            if o["o"] in ("c.move", "s.move"):
                k = o["o"][0]
                if not bytewise:
                    o = op(k + ".xfer")
                    obs, err = w.do(o)
                else:
                    if not w.buf[k] or rng.random() < 0.3:
                        w.pull(k, rng.choice([None, None, 22, 61, 62, 100, 128, 500, 4096, 32768]))
                    o, obs, err = w.deliver(k, rng.choice([1, 21, 60, 300, 2000, 100000, 100000, 100000]))
            elif o["o"] == "c.new":
                # the server has dealt with the old client; what it still had to say to it is lost
                while True:
                    obs, err = w.do(op("s.next"))
                    out.append({"op": op("s.next"), "obs": obs, "err": err})
                    if not obs["evs"]:
                        break
                while True:
                    lost, err = w.do(op("s.drop"))
                    out.append({"op": op("s.drop"), "obs": lost, "err": err})
                    if not lost["pays"]:
                        break
                obs, err = w.do(o)
            else:
                obs, err = w.do(o)
            out.append({"op": o, "obs": obs, "err": err})
            w.note(obs)
    except Exception as e:
        return {"world": world, "steps": out, "crash": repr(e), "seed": seed}
    return {"world": world, "steps": out, "seed": seed}


def crowd(w, rng, focus):
    """The operations of a session with a great many pipelines, calls or messages under way at a time."""

    def pump(k, events=10**6):
        """Side k sends what it has and the other side reads it."""
        while k in w.had:
            w.had.discard(k)
            for _ in range(400):
                yield op(k + ".xfer")
                if not w.last["pays"]:
                    break
        other = "s" if k == "c" else "c"
        for _ in range(events):
            yield op(other + ".next")
            if not w.last["evs"]:
                break

    def both():
        for k in "csc":
            w.had.add(k)
            yield from pump(k)

    yield op("c.open")
    yield from both()
    if focus == "pipes":
        qs = list(w.pipes)
        rng.shuffle(qs)
        going = []
        for q in qs:
            yield op("cp.new", p=q, x=rng.choice(["gcm", "script%d" % q, "script1"]))
            yield op("cp.start", p=q)
            yield op("sp.new", p=q)
            if rng.random() < 0.3:
                yield from both()
            # some have come to their end, perhaps not yet closed, before others begin
            going.append(q)
            if rng.random() < 0.3:
                yield from both()
                o = rng.choice(going)
                yield op("sp.start", p=o)
                yield op(rng.choice(["sp.complete", "sp.stop", "sp.write", "cp.begin_stop"]), p=o, t="PipelineOutput", x="m1")
        yield from both()
        todo = []
        for q in qs:
            todo += [op("sp.start", p=q)]
        yield from todo
        for _ in range(3):
            todo = []
            for q in qs:
                end = rng.choice([["sp.complete"], ["sp.stop"], ["sp.close"], ["sp.complete", "sp.close"], ["cp.begin_stop"], ["cp.close"], [], []])
                todo.append([op("sp.write", p=q, t=rng.choice(STREAMS), x=rng.choice(["m1", "m2"])) for _ in range(rng.randint(0, 3))] + [op(o, p=q) for o in end])
            while any(todo):
                mine = rng.choice([t for t in todo if t])
                yield mine.pop(0)
                if rng.random() < 0.03:
                    yield from both()
            yield from both()
            if rng.random() < 0.5:
                yield op("s.disconnect")
                yield op("c.disconnect")
                yield op("c.reconnect")
                yield op("s.reconnect")
                yield from both()
        for o in rng.choice([["c.begin_close", "s.begin_close", "s.close"], ["c.close", "s.close"], ["s.set_broken"], ["s.close", "s.begin_close"]]):
            yield op(o)
            yield from both()
        for q in qs:
            yield op("sp.close", p=q)
        yield from both()
        yield op("s.close")
        yield from both()
    elif focus == "calls":
        q = rng.choice(w.pipes)
        yield op("cp.new", p=q, x="script1")
        yield op("cp.start", p=q)
        yield op("sp.new", p=q)
        yield from both()
        yield op("sp.start", p=q)
        asked = []
        for _ in range(rng.choice([40, 100, 160, 300])):
            to = rng.choice(["s", "sp"])
            yield op(to + ".host_call", p=q if to == "sp" else 0, n=rng.choice([11, 11, 41, 16, 1, 42]), x=rng.choice(["", "hp"]))
            if w.last["n"] > 0:
                asked.append((w.last["n"], to))
        yield from both()
        rng.shuffle(asked)
        for ci, to in asked:
            yield op("c.host_response" if to == "s" else "cp.host_response", p=q if to == "sp" else 0, ci=ci, x=rng.choice(["", "a", "!err"]))
            if rng.random() < 0.02:
                yield from both()
        yield from both()
        yield op("c.host_response", ci=asked[0][0], x="a")
    elif focus == "asks":
        asked = []
        for i in range(rng.choice([20, 40, 150, 300])):
            what = rng.choice(["c.get_avail", "c.reset", "c.set_max", "c.set_min"])
            yield op(what, n=rng.randint(1, 9) if what[2] == "s" else 0)
            if w.last["n"] > 0:
                asked.append((w.last["n"], "int" if what == "c.get_avail" else "bool"))
        yield from both()
        rng.shuffle(asked)
        for ci, kind in asked:
            yield op("s.avail_resp", ci=ci, n=rng.randint(0, 1) if kind == "bool" else rng.randint(0, 9), x=kind)
            if rng.random() < 0.02:
                yield from both()
        yield from both()
    else:
        q = rng.choice(w.pipes)
        yield op("cp.new", p=q, x="script1")
        yield op("cp.start", p=q)
        yield op("sp.new", p=q)
        yield from both()
        yield op("sp.start", p=q)
        for _ in range(rng.choice([70, 140, 300])):
            yield rng.choice(
                [
                    op("sp.write", p=q, t=rng.choice(STREAMS), x=rng.choice(["m1", "m2"])),
                    op("sp.write", p=q, t=rng.choice(STREAMS), x=rng.choice(["m1", "m2"])),
                    op("s.send_event", n=rng.randint(0, 99), x="src"),
                    op("cp.send", p=q, x=rng.choice(["a", "b"])),
                ]
            )
        for k in "cs":  # all of it is under way before any is read
            for _ in range(400):
                yield op(k + ".xfer")
                if not w.last["pays"]:
                    break
        yield from both()


def record_crowd(task):
    seed, focus, npipes = task
    rng = random.Random(seed)
    w = Recorder(rng, False, pipes=tuple(range(1, npipes + 1)))
    w.had, w.last = set(), None
    world = dict(cv="2.3", sv="2.3", mn=1, mx=1, set="S0")
    out = []
    try:
        for o in crowd(w, rng, focus):
            obs, err = w.do(o)
            w.last = obs
            out.append({"op": o, "obs": obs, "err": err})
    except Exception as e:
        return {"world": world, "steps": out, "crash": repr(e), "seed": seed}
    return {"world": world, "steps": out, "seed": seed}


def run_crowds(chk, plan):
    """plan: list of (focus, number of pipelines, count): sessions with very much under way at a time."""
    for npipes in sorted({n for _, n, _ in plan}):
        tasks = [(chk.rng.randrange(1 << 40), f, n) for f, n, count in plan if n == npipes for _ in range(count)]
        traces = common.pmap(record_crowd, tasks, limit=120)
        for b in [t for t in traces if isinstance(t, list)]:
            chk.violation(b[0]["what"], case=b[0]["case"])
        traces = [t for t in traces if not isinstance(t, list)]
        n = sum(len(t["steps"]) for t in traces)
        chk.cov["crowded_steps"] = chk.cov.get("crowded_steps", 0) + n
        validate(chk, traces, "crowded session", npipes)


def validate(chk, traces, label, npipes=2):
    """Let TLC decide whether the recorded traces are behaviours of the specification."""
    import concurrent.futures as cf

    for t in traces:
        if t.get("crash"):
            chk.violation("%s: the library handed out something that is not a PSRP payload: %s" % (label, t["crash"]), seed=t["seed"])
    good = [t for t in traces if not t.get("crash")]
    if not good:
        return
    parts = [good[i::4] for i in range(4) if good[i::4]]

    def one(part):
        f = tempfile.NamedTemporaryFile("w", suffix=".json", dir=common.scratch(), delete=False, encoding="utf-8")
        json.dump([{"world": t["world"], "steps": [{"op": s["op"], "obs": s["obs"]} for s in t["steps"]]} for t in part], f)
        f.close()
        return common.tlc("SessionTrace", dict(Pipes="{%s}" % ", ".join(map(str, range(1, npipes + 1)))), invariants=["Report"], env={"TRACE": f.name}, workers=1)

    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, parts))
    for part, r in zip(parts, res):
        chk.add_tlc(r)
        done = [x for x in r.lines if x.get("done")]
        if not done or done[0]["n"] != len(part):
            raise common.MachineryError("trace validation did not finish\n" + r.text[-3000:])
        chk.traces += len(part)
        for b in [x for x in r.lines if x.get("bad")]:
            t = part[b["trace"] - 1]
            st = t["steps"][b["line"] - 1]
            chk.violation(
                "%s: %s after %d operations: %s differs (%s)"
                % (label, b["op"]["o"], b["line"], b["clause"], D.diff(b["expected"], st["obs"])),
                seed=t["seed"],
                raised=st["err"],
                ops=[s["op"] for s in t["steps"][: b["line"]]],
            )


def run_traces(chk, plan):
    """plan: list of (focus, count, steps, bytewise, world)"""
    tasks = []
    for focus, count, steps, bytewise, world in plan:
        for i in range(count):
            tasks.append((chk.rng.randrange(1 << 40), focus, steps, bytewise, world))
    traces = common.pmap(record, tasks, limit=120)
    bad = [t for t in traces if isinstance(t, list)]
    for b in bad:
        chk.violation(b[0]["what"], case=b[0]["case"])
    traces = [t for t in traces if not isinstance(t, list)]
    n = sum(len(t["steps"]) for t in traces)
    chk.cov["recorded_steps"] = chk.cov.get("recorded_steps", 0) + n
    if traces:
        t = traces[0]
        chk.sample(dict(recorded_trace=[s["op"]["o"] + ":" + s["obs"]["out"] for s in t["steps"][:25] if s["obs"]], seed=t["seed"]))
    validate(chk, traces, "recorded session")
