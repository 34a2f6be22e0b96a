"""Checks decided with Wire.tla: the bytes of outgoing payloads and the events of incoming bytes."""

import random
import uuid
from xml.etree import ElementTree as ET

import common
import psrpcore
import wire
from psrpcore import types as T

RPID = uuid.UUID(bytes=bytes(range(160, 176)))
PIDS = [
    uuid.UUID(bytes=bytes([15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 16, 1])),
    uuid.UUID(bytes=bytes([31, 30, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 32, 2])),
]
STREAM = {"d": psrpcore.StreamType.default, "p": psrpcore.StreamType.prompt_response}
ENV = dict(rpid=list(RPID.bytes), pids=[list(p.bytes) for p in PIDS])


def text_of(body):
    """What a message says, for comparing; independent of how the XML is laid out."""
    if body == b"":
        return "<none>"
    try:
        el = ET.fromstring(body)
        return el.text or "" if el.tag == "S" and not len(el) else "<xml>" + body.decode()
    except ET.ParseError:
        return "<bad>"


def make_pool(client):
    if client:
        return psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
    s = psrpcore.ServerRunspacePool()
    s.runspace_pool_id = RPID
    return s


# ---------------------------------------------------------------------------------------------
# sending

KINDS = ["PipelineOutput", "PipelineInput", "ErrorRecord", "SessionCapability", "PipelineHostCall"]


def send_trace(args):
    """Queue messages and ask for payloads; what happened, for Wire.tla."""
    client, ops = args
    pool = make_pool(client)
    steps = []
    part = {}

    def pull(limit):
        st = dict(k="pull", limit=limit, out="ok", p=0, s="d", b=[], texts=[])
        try:
            pay = pool.data_to_send(limit or None) if limit else pool.data_to_send()
        except ValueError:
            st["out"] = "error"
            return st
        if pay is None:
            st["out"] = "none"
            return st
        st["p"] = 0 if pay.pipeline_id is None else PIDS.index(pay.pipeline_id) + 1 if pay.pipeline_id in PIDS else -1
        st["s"] = next((k for k, v in STREAM.items() if v == pay.stream_type), "?")
        st["b"] = list(bytes(pay.data))
        try:
            for f in wire.fragments(pay.data):
                part.setdefault(f.oid, []).append(f.data)
                if f.end:
                    st["texts"].append(text_of(wire.Raw(b"".join(part.pop(f.oid))).body))
        except wire.Bad as e:
            st["texts"].append("<%s>" % e)
        return st

    n = 0
    for o in ops:
        if o["k"] == "q":
            n += 1
            t = o.get("t") or "PipelineOutput"
            pid = PIDS[o["p"] - 1] if o["p"] else None
            if o.get("x") == "none":
                pool.prepare_message(None, pipeline_id=pid, stream_type=STREAM[o["s"]])
                x = "<none>"
            elif o.get("x") == "end":
                pool.prepare_message(T.EndOfPipelineInput(), pipeline_id=pid, stream_type=STREAM[o["s"]])
                x, t = "<none>", "EndOfPipelineInput"
            else:
                x = o["x"] if "x" in o else chr(96 + n % 26) * o["n"]
                pool.prepare_message(T.PSString(x), message_type=getattr(T.PSRPMessageType, t), pipeline_id=pid, stream_type=STREAM[o["s"]])
            steps.append(dict(k="q", p=o["p"], s=o["s"], t=wire.CODES[t], x=x))
        elif o["k"] == "drain":
            for _ in range(200000):
                steps.append(pull(o["limit"]))
                if steps[-1]["out"] != "ok":
                    break
        else:
            steps.append(pull(o["limit"]))
    for _ in range(10000):
        st = pull(0)
        steps.append(st)
        if st["out"] != "ok":
            break
    return dict(kind="send", env=dict(ENV, dest=2 if client else 1), steps=steps, case=[client, ops])


def rand_schedule(seed):
    rng = random.Random(seed)
    ops = []
    base = rng.choice([22, 30, 64, 68, 200, 1000, 5000])
    left = 24000
    for _ in range(rng.randrange(5, 40)):
        if rng.random() < 0.5:
            n = rng.choice([0, 1, 2, base, base + rng.randrange(-22, 22), rng.randrange(0, 40 * base), rng.randrange(0, 100)])
            n = max(0, min(n, left, 9000))
            left -= n
            o = dict(k="q", p=rng.choice([0, 1, 1, 2]), s=rng.choice("dddp"), n=n, t=rng.choice(KINDS))
            r = rng.random()
            if r < 0.1:
                o.update(x="none", t="PipelineOutput")
            elif r < 0.2:
                o.update(x="end", t="EndOfPipelineInput")
            elif r < 0.3:
                o["x"] = "".join(rng.choice("a\u00e9\u4e2d ") for _ in range(n % 200))
            ops.append(o)
        else:
            for _ in range(rng.choice([1, 1, 2, 6])):
                ops.append(dict(k="pull", limit=rng.choice([base, base + 21, base + 47, rng.randrange(22, 10 * base), 32768, 0, 0, rng.randrange(1, 22)])))
    return ops


def long_schedules(rng):
    """Messages whose fragments number more than 2^15 and 2^16, and one of several 64 KB blocks."""
    a = dict(k="q", p=1, s="d", n=rng.randrange(66000, 67000), t="PipelineOutput")
    b = dict(k="q", p=0, s="d", n=rng.randrange(33000, 34000), t="SessionCapability")
    c = dict(k="q", p=2, s="p", n=rng.randrange(140000, 150000), t="PipelineHostCall")
    one = dict(k="q", p=1, s="d", n=3, t="PipelineInput")
    return [[a, one, dict(k="drain", limit=22)], [b, one, dict(k="drain", limit=22)], [c, one, dict(k="drain", limit=rng.choice([65536, 65535, 70000, 32768]))]]


# ---------------------------------------------------------------------------------------------
# receiving


def drain(pool):
    evs, bad = [], 0
    for _ in range(10000):
        try:
            e = pool.next_event()
        except psrpcore.PSRPCoreError:
            bad += 1
            continue
        if e is None:
            break
        data = getattr(e, "data", None)
        body = b"" if data is None else ("<S>%s</S>" % data).encode("utf-8")
        pid = e.pipeline_id.bytes if e.pipeline_id else bytes(16)
        evs.append(dict(code=wire.CODES.get(e.message_type.name, -1), rpid=list(e.runspace_pool_id.bytes), pid=list(pid), body=list(body)))
    return evs, bad


def replay_recv(scs):
    out = []
    for sc in scs:
        pool = make_pool(True)
        for i, st in enumerate(sc["steps"]):
            pool.receive_data(psrpcore.PSRPPayload(bytes(st["b"]), psrpcore.StreamType.default, None))
            evs, bad = drain(pool)
            if evs != st["evs"] or bad != st["bad"]:
                out.append(
                    dict(
                        what="after piece %d of %d: %d events and %d refused fragments, expected %d and %d%s"
                        % (i + 1, len(sc["steps"]), len(evs), bad, len(st["evs"]), st["bad"], "" if len(evs) != len(st["evs"]) else " (or other contents)"),
                        pieces=[bytes(s["b"]).hex() for s in sc["steps"][: i + 1]],
                        got=evs,
                        want=st["evs"],
                    )
                )
                break
    return out


def recv_trace(seed):
    """Messages of several targets as interleaved fragments, delivered in random pieces."""
    rng = random.Random(seed)
    lists = []
    for i in range(rng.randrange(1, 7)):
        n = rng.choice([0, 1, 5, 100, 1000, rng.randrange(0, 4000)])
        x = "".join(rng.choice("ab\u00e9\u4e2d") for _ in range(n))
        body = (b"\xef\xbb\xbf" if rng.random() < 0.5 else b"") + ("<S>%s</S>" % x).encode()
        if rng.random() < 0.1:
            body = b""
        blob = wire.build(False, "PipelineOutput", RPID, rng.choice(PIDS), body)
        oid = rng.choice([i + 1, (1 << 32) + i, (1 << 64) - 1 - i])
        size = rng.choice([len(blob), rng.randrange(1, len(blob) + 1), rng.randrange(20, 300)])
        size = max(size, len(blob) // 40 + 1)
        parts = [blob[j : j + size] for j in range(0, len(blob), size)]
        if rng.random() < 0.2:
            for _ in range(rng.choice([1, 1, 3])):
                parts.insert(rng.choice([0, len(parts), rng.randrange(len(parts) + 1)]), b"")
        lists.append([wire.Frag(oid, j, (1 if j == 0 else 0) | (2 if j == len(parts) - 1 else 0), p) for j, p in enumerate(parts)])
    fs = []
    while any(lists):
        src = rng.choice([a for a in lists if a])
        for _ in range(rng.choice([1, 1, 3])):
            if src:
                fs.append(src.pop(0))
    if fs and rng.random() < 0.4:
        i = rng.randrange(len(fs))
        r = rng.random()
        if r < 0.4:
            del fs[i]
        elif r < 0.7:
            fs.insert(rng.randrange(len(fs) + 1), fs[i])
        else:
            f = fs[i]
            fs[i] = wire.Frag(f.oid, f.fid + rng.choice([1, 2, 1 << 31, 1 << 40]), f.flags, f.data)
    data = b"".join(f.raw() for f in fs)
    steps = []
    pool = make_pool(True)
    avg = rng.choice([1 << 20, 3000, 400, 60]) if len(data) > 2000 else rng.choice([1 << 20, 300, 40, 21])
    while data:
        n = rng.randrange(1, 2 * avg)
        pool.receive_data(psrpcore.PSRPPayload(data[:n], psrpcore.StreamType.default, None))
        evs, bad = drain(pool)
        steps.append(dict(k="recv", b=list(data[:n]), evs=evs, bad=bad))
        data = data[n:]
    return dict(kind="recv", env=dict(ENV, dest=1), steps=steps, case=seed)


def long_recv(args):
    """A message in more than 2^16 fragments of one byte, with a second one between its fragments."""
    n, per = args
    blob = wire.build(False, "PipelineOutput", RPID, PIDS[0], b"<S>" + b"a" * n + b"</S>")
    other = wire.build(False, "PipelineOutput", RPID, PIDS[1], b"<S>b</S>")
    fs = [wire.Frag(5, j, (1 if j == 0 else 0) | (2 if j == len(blob) - 1 else 0), blob[j : j + 1]) for j in range(len(blob))]
    fs.insert(len(fs) - 7, wire.Frag(6, 0, 3, other))
    pool = make_pool(True)
    steps = []
    for i in range(0, len(fs), per):
        data = b"".join(f.raw() for f in fs[i : i + per])
        pool.receive_data(psrpcore.PSRPPayload(data, psrpcore.StreamType.default, None))
        evs, bad = drain(pool)
        steps.append(dict(k="recv", b=list(data), evs=evs, bad=bad))
    return dict(kind="recv", env=dict(ENV, dest=1), steps=steps, case=[n, per])


def big_recv(seed):
    """Messages in fragments larger than 64 KiB, cut anywhere."""
    rng = random.Random(seed)
    fs = []
    for i in range(rng.randrange(1, 3)):
        blob = wire.build(False, "PipelineOutput", RPID, rng.choice(PIDS), b"<S>" + b"ab" * rng.randrange(33000, 70000) + b"</S>")
        cut = rng.choice([len(blob), rng.randrange(65536, len(blob))])
        parts = [p for p in (blob[:cut], blob[cut:]) if p]
        fs += [wire.Frag(i + 1, j, (1 if j == 0 else 0) | (2 if j == len(parts) - 1 else 0), p) for j, p in enumerate(parts)]
    return pieces(b"".join(f.raw() for f in fs), rng, rng.choice([1 << 20, 60000, 20000]), seed)


def many_recv(seed):
    """A great many short messages, most of them begun before the first is complete."""
    rng = random.Random(seed)
    lists = []
    for i in range(rng.choice([40, 150, 300])):
        blob = wire.build(False, "PipelineOutput", RPID, rng.choice(PIDS), b"<S>%d</S>" % i)
        cut = rng.randrange(1, len(blob) + 1)
        parts = [p for p in (blob[:cut], blob[cut:]) if p]
        lists.append([wire.Frag(i + 1, j, (1 if j == 0 else 0) | (2 if j == len(parts) - 1 else 0), p) for j, p in enumerate(parts)])
    late = rng.random()
    fs = [a.pop(0) for a in lists if len(a) == 1 or rng.random() < late]
    rest = [a for a in lists if a]
    while rest:
        a = rng.choice(rest)
        fs.append(a.pop(0))
        rest = [a for a in rest if a]
    return pieces(b"".join(f.raw() for f in fs), rng, rng.choice([1 << 20, 1 << 20, 4000]), seed)


def pieces(data, rng, avg, seed):
    steps = []
    pool = make_pool(True)
    while data:
        n = rng.randrange(avg // 2, 2 * avg)
        pool.receive_data(psrpcore.PSRPPayload(data[:n], psrpcore.StreamType.default, None))
        evs, bad = drain(pool)
        steps.append(dict(k="recv", b=list(data[:n]), evs=evs, bad=bad))
        data = data[n:]
    return dict(kind="recv", env=dict(ENV, dest=1), steps=steps, case=seed)


def _batch(args):
    fn, items = args
    return [fn(i) for i in items]


def run_all(fn, items, size=50):
    items = list(items)
    out = []
    for r in common.pmap(_batch, [(fn, items[i : i + size]) for i in range(0, len(items), size)], limit=300):
        out += r
    return out


def report(chk, label, traces):
    hangs = [t for t in traces if "what" in t]
    for h in hangs:
        chk.violation(h["what"], case=h["case"])
    traces = [t for t in traces if "what" not in t]
    for t, b in common.judge(chk, "WireTrace", traces, drop=("case",)):
        chk.violation("%s: %s (step %d)" % (label, b["why"], b["line"]), case=t["case"], steps=t["steps"][max(0, b["line"] - 3) : b["line"]])


def design(chk):
    chk.add_tlc(common.tlc("WireDesign", dict(MaxMsgs=2, MaxChunk=40), invariants=["ExactlyOnce", "Complete"], constraint="Bound", workers=4))


def run_C01(chk):
    design(chk)
    depth = dict(targets=5, sizes=5, small=6) if chk.thorough else dict(targets=4, sizes=4, small=5)
    res = common.parallel_tlc([dict(module="WireSched", constants=dict(Depth=d, Set=s), invariants=["Emit"], workers=2) for s, d in depth.items()])
    items = []
    for (s, d), r in zip(depth.items(), res):
        chk.add_tlc(r)
        hs = [x["h"] for x in r.lines]
        hs.sort(key=repr)
        cap = 40000 if chk.thorough else 3000
        chk.cov.setdefault("schedules", {})[s] = dict(length=d, enumerated=len(hs), replayed=min(cap, len(hs)))
        if len(hs) > cap:
            hs = chk.rng.sample(hs, cap)
        chk.sample(dict(schedule=[(o["k"], o["p"], o["s"], o["n"], o["limit"]) for o in hs[0]]))
        items += [(chk.rng.random() < 0.5, h) for h in hs]
    for _ in range(3000 if chk.thorough else 150):
        items.append((chk.rng.random() < 0.5, rand_schedule(chk.rng.randrange(1 << 40))))
    report(chk, "sending", run_all(send_trace, items))
    long = long_schedules(chk.rng)
    report(chk, "sending a long message", run_all(send_trace, [(chk.rng.random() < 0.5, h) for h in long], size=1))
    chk.cov["long_messages"] = dict(characters=[h[0]["n"] for h in long], limits=[h[-1]["limit"] for h in long])
    chk.assumptions.append("messages are queued with prepare_message, which every operation of the pools uses; message bodies are compared by their text")


def run_C02(chk):
    design(chk)
    modes = ["clean", "three", "faulty"]
    res = common.parallel_tlc([dict(module="WireGen", constants=dict(Mode=m), invariants=["Emit"], workers=2) for m in modes])
    for m, r in zip(modes, res):
        chk.add_tlc(r)
        sc = sorted(r.lines, key=repr)
        chk.cov.setdefault("scenarios", {})[m] = len(sc)
        chk.traces += len(sc)
        chk.sample(dict(mode=m, pieces=[len(s["b"]) for s in sc[0]["steps"]], events=[len(s["evs"]) for s in sc[0]["steps"]]))
        for b in common.pmap(replay_recv, [sc[i : i + 100] for i in range(0, len(sc), 100)], limit=300):
            for v in b:
                chk.violation(**v)
    seeds = [chk.rng.randrange(1 << 40) for _ in range(6000 if chk.thorough else 300)]
    report(chk, "receiving", run_all(recv_trace, seeds))
    sizes = [chk.rng.randrange(65600, 66000), chk.rng.randrange(32800, 33000)]
    report(chk, "receiving a long message", run_all(long_recv, [(n, 400) for n in sizes], size=1))
    chk.cov["long_messages"] = sizes
    k = 60 if chk.thorough else 4
    report(chk, "receiving large fragments", run_all(big_recv, [chk.rng.randrange(1 << 40) for _ in range(k)], size=1))
    report(chk, "receiving many messages", run_all(many_recv, [chk.rng.randrange(1 << 40) for _ in range(4 * k)], size=1))
    chk.assumptions.append("pipeline output of plain strings stands for every message; contents of other messages are decided by C03 to C24")
