"""Values of every shape carried through a session: what is on the wire and what arrives, judged with Clixml.tla."""

import copy
import random
from xml.etree import ElementTree as ET

import clixml as X
import common
import psrpcore
import wire
from p_checks_clixml import Maker
from psrpcore import types as T

# where a value can be put by an application, and where the peer's application finds it
ROUTES = ["input", "output", "param", "result", "pool_param", "pool_result", "sender", "source_arg", "event_data", "information", "target", "argument", "named", "app_args", "app_data"]


class Conn:
    def __init__(self, app_args=None, app_data=None):
        kw = {} if app_args is None else dict(application_arguments=app_args)
        self.c = psrpcore.ClientRunspacePool(**kw)
        self.s = psrpcore.ServerRunspacePool(**({} if app_data is None else dict(application_private_data=app_data)))
        self.join = {"c": wire.Joiner(), "s": wire.Joiner()}
        self.raw, self.evs = [], []

    def pump(self):
        """Everything both sides have to say; the messages and the events."""
        self.raw, self.evs = [], []
        busy = True
        while busy:
            busy = False
            for k, a, b in (("c", self.c, self.s), ("s", self.s, self.c)):
                d = a.data_to_send()
                while d is not None:
                    busy = True
                    for f in wire.fragments(d.data):
                        m = self.join[k].add(f)
                        if m is not None:
                            self.raw.append(m)
                    b.receive_data(d)
                    d = a.data_to_send()
                e = b.next_event()
                while e is not None:
                    self.evs.append(e)
                    e = b.next_event()

    def start(self):
        self.c.open()
        self.pump()
        first = self.raw, self.evs
        self.cp = psrpcore.ClientPowerShell(self.c, no_input=False)
        self.cp.add_script("x")
        self.cp.start()
        self.sp = psrpcore.ServerPipeline(self.s, self.cp.pipeline_id)
        self.pump()
        self.sp.start()
        self.pump()
        return first

    def msg(self, t):
        got = [m for m in self.raw if m.t == t], [e for e in self.evs if e.message_type.name == t]
        if len(got[0]) != 1 or len(got[1]) != 1:
            raise wire.Bad("%d messages and %d events %s" % (len(got[0]), len(got[1]), t))
        return wire.tree(got[0][0].body), got[1][0]


def child(el, name):
    r = [p for c in el if c.tag in ("MS", "Props") for p in c if p.get("N") == name]
    return r[0]


def entry(el, key):
    for c in el:
        if c.tag == "DCT":
            return [en[1] for en in c if en[0].text == key][0]


def items(el):
    return [x for c in el if c.tag in ("LST", "IE", "STK", "QUE") for x in c]


def alone(root, el):
    """The element as a document of its own: what it refers to is put in place of the first reference."""
    have = {(x.tag, x.get("RefId")): x for x in root.iter() if x.tag in ("TN", "Obj") and x.get("RefId") is not None}
    el = copy.deepcopy(el)
    el.attrib.pop("N", None)
    seen = set()

    def walk(p):
        if p.tag in ("TN", "Obj") and p.get("RefId") is not None:
            seen.add((p.tag, p.get("RefId")))
        for i, x in enumerate(list(p)):
            kind = {"TNRef": "TN", "Ref": "Obj"}.get(x.tag)
            if kind and (kind, x.get("RefId")) not in seen and (kind, x.get("RefId")) in have:
                y = copy.deepcopy(have[kind, x.get("RefId")])
                y.attrib.pop("N", None)
                if x.get("N") is not None:
                    y.set("N", x.get("N"))
                p[i] = x = y
            if x.tag == "TN" and ("TN", x.get("RefId")) in seen:
                p[i] = x = ET.Element("TNRef", RefId=x.get("RefId"))
            walk(x)

    box = ET.Element("box")
    box.append(el)
    walk(box)
    return box[0]


def send(route, v):
    """Send v, return (message, its element on the wire, what the other application gets)."""
    if route in ("app_args", "app_data"):
        w = Conn(**{route: {"first": 1, "k": v}})
        w.raw, w.evs = w.start()
        if route == "app_args":
            root, ev = w.msg("InitRunspacePool")
            return root, entry(child(root, "ApplicationArguments"), "k"), ev.application_arguments["k"]
        root, ev = w.msg("ApplicationPrivateData")
        return root, entry(child(root, "ApplicationPrivateData"), "k"), ev.data["k"]
    w = Conn()
    w.start()
    c, s, cp, sp = w.c, w.s, w.cp, w.sp
    if route == "input":
        cp.send(v)
        w.pump()
        root, ev = w.msg("PipelineInput")
        return root, root, ev.data
    if route == "output":
        sp.write_output(v)
        w.pump()
        root, ev = w.msg("PipelineOutput")
        return root, root, ev.data
    if route in ("param", "pool_param", "result", "pool_result"):
        a, b = (sp, cp) if route in ("param", "result") else (s, c)
        t = "Pipeline" if route in ("param", "result") else "RunspacePool"
        ci = a.host_call(T.HostMethodIdentifier.ReadLine, ["first", v] if "param" in route else None)
        w.pump()
        if "param" in route:
            root, ev = w.msg(t + "HostCall")
            return root, items(child(root, "mp"))[1], ev.method_parameters[1]
        b.host_response(ci, v)
        w.pump()
        root, ev = w.msg(t + "HostResponse")
        return root, child(root, "mr"), ev.result
    if route in ("sender", "source_arg", "event_data"):
        s.send_event(1, "src", sender=v if route == "sender" else 5, source_args=[1, v] if route == "source_arg" else [], message_data=v if route == "event_data" else "x")
        w.pump()
        root, ev = w.msg("UserEvent")
        if route == "sender":
            return root, child(root, "PSEventArgs.Sender"), ev.event.Sender
        if route == "event_data":
            return root, child(root, "PSEventArgs.MessageData"), ev.event.MessageData
        return root, items(child(root, "PSEventArgs.SourceArgs"))[1], ev.event.SourceArgs[1]
    if route == "information":
        sp.write_information(v, "src")
        w.pump()
        root, ev = w.msg("InformationRecord")
        return root, child(root, "MessageData"), ev.record.MessageData
    if route == "target":
        sp.write_error(T.NETException(Message="m"), target_object=v)
        w.pump()
        root, ev = w.msg("ErrorRecord")
        return root, child(root, "TargetObject"), ev.record.TargetObject
    p = psrpcore.ClientPowerShell(c)
    p.add_command("one").add_argument(1)
    p.add_command("cmd")
    p.add_parameter("name", v) if route == "named" else p.add_argument(v)
    p.start()
    psrpcore.ServerPipeline(s, p.pipeline_id)
    w.pump()
    root, ev = w.msg("CreatePipeline")
    cmd = items(child(child(root, "PowerShell"), "Cmds"))[1]
    return root, child(items(child(cmd, "Args"))[0], "V"), ev.pipeline.commands[1].parameters[0][1]


EDGES = [
    X.node("prim", "S", []),
    X.node("prim", "S", [], py="str"),
    X.node("prim", "B", [0]),
    X.node("prim", "B", [1]),
    X.node("prim", "I32", X.units("0"), py="int"),
    X.node("prim", "I32", X.units("-1")),
    X.node("prim", "I64", X.units("0")),
    X.node("prim", "Sg", [0, 0]),
    X.node("prim", "BA", [], py="bytes"),
    X.node("prim", "TS", [0, 0, 0, 0]),
    X.node("prim", "G", X.units("00000000-0000-0000-0000-000000000000")),
    X.node(py="PSList", c="LST", dtn=True),
    X.node(py="list", c="LST", dtn=True),
    X.node(py="PSDict", c="DCT", dtn=True),
    X.node(py="dict", c="DCT", dtn=True),
    X.node(py="PSQueue", c="QUE", dtn=True),
    X.node(py="PSStack", c="STK", dtn=True),
    X.node(py="PSIEnumerable", c="IE", dtn=True),
    X.node(py="PSCustomObject", dtn=True),
    X.node(py="object", dtn=True),
    X.node("enum", py="PSThreadOptions", s=X.units("0")),
    X.node("Nil"),
]


def case(task):
    route, seed = task
    if isinstance(seed, int):
        r = random.Random(seed)
        val = Maker(r, r.choice([1, 3, 10, 30]), share=0.25).graph(1, r.choice([1, 2, 4]))
    else:
        val = dict(nodes=[seed], roots=[1])
    if route in ("result", "pool_result") and val["nodes"][val["roots"][0] - 1]["k"] == "Nil":
        return []  # a response without a result
    w = dict(kind="w", ok=True, doc=[], val=val, err="", text="", route=route)
    try:
        root, el, got = send(route, X.build(val)[0])
        el = ET.Element("Nil") if root is None else alone(root, el)  # a message without data is null
        w["text"] = ET.tostring(el, encoding="utf-8").decode()
        w["doc"] = [X.tree(el)]
    except Exception as e:
        w["ok"], w["err"] = False, repr(e)
        return [w]
    r = dict(w, kind="r", val=X.proj([got]))
    return [w, r]


def batch(tasks):
    out = []
    for t in tasks:
        out += case(t)
    return out


def run(chk, n):
    tasks = [(r, e) for r in ROUTES for e in EDGES]
    tasks += [(ROUTES[i % len(ROUTES)], chk.rng.randrange(1 << 40)) for i in range(n)]
    out = []
    for b in common.pmap(batch, [tasks[i : i + 20] for i in range(0, len(tasks), 20)], limit=120):
        out += b
    for h in [c for c in out if "what" in c]:
        chk.violation(h["what"], case=h["case"])
    out = [c for c in out if "what" not in c]
    chk.cov["values_carried"] = dict(routes=ROUTES, edge_values=len(EDGES), random_values=n)
    for c in out[:: max(1, len(out) // 3)]:
        chk.sample(dict(route=c["route"], kind=c["kind"], text=c["text"][:300]))
    for c, b in common.judge(chk, "ClixmlJudge", out, constants=dict(AppTypes=False), drop=("err", "text", "route")):
        chk.violation("a value sent as %s, %s: %s%s" % (c["route"], "on the wire" if c["kind"] == "w" else "on arrival", b["why"], " (%s)" % c["err"] if c["err"] else ""), document=c["text"], value=c["val"])
