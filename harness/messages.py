"""What applications give and get in messages, as trees (for Messages.tla), and a client and a server to do it with."""

import datetime
import enum
import uuid
from xml.etree import ElementTree as ET

import clixml as X
import common  # noqa: F401
import wire
import psrpcore
from psrpcore import types as T


def A(t, s=(), c=(), n=0):
    return dict(t=t, s=list(s), c=list(c), n=n)


NIL, STAR, ABSENT = A("Nil"), A("*"), A("absent")


def astr(u):
    return A("str", X.units(u) if isinstance(u, str) else u)


def aint(n):
    return A("int", X.units(str(n)))


def abool(b):
    return A("bool", [1 if b else 0])


def aenum(c, n):
    return A("enum " + c, X.units(str(n)))


def alist(c):
    return A("list", c=c)


def arec(name, c):
    return A("rec " + name, c=c)


# ---------------------------------------------------------------------------------------------
# what is given, as Python values


FIELDS = dict(
    Coordinates="X Y", Size="Width Height", Rectangle="Left Top Right Bottom", BufferCell="Character ForegroundColor BackgroundColor BufferCellType",
    KeyInfo="VirtualKeyCode Character ControlKeyState KeyDown", ChoiceDescription="Label HelpMessage",
    FieldDescription="Name Label ParameterTypeName ParameterTypeFullName ParameterAssemblyFullName HelpMessage IsMandatory",
    PSCredential="UserName Password", ErrorDetails="Message RecommendedAction", CommandMetadataCount="Count",
    HostDefaultData="ForegroundColor BackgroundColor CursorPosition WindowPosition CursorSize BufferSize WindowSize MaxWindowSize MaxPhysicalWindowSize WindowTitle",
    HostInfo="IsHostNull IsHostUINull IsHostRawUINull UseRunspaceHost HostDefaultData",
    ProgressRecord="Activity ActivityId StatusDescription CurrentOperation ParentActivityId PercentComplete RecordType SecondsRemaining",
    InvocationInfo="BoundParameters CommandOrigin ExpectingInput HistoryId InvocationName Line DisplayScriptPosition MyCommand OffsetInLine PipelineLength PipelinePosition PositionMessage ScriptLineNumber "
    "ScriptName PSCommandPath PSScriptRoot UnboundArguments",
    InformationRecord="MessageData Source TimeGenerated Tags User Computer ProcessId NativeThreadId ManagedThreadId",
    UserEvent="EventIdentifier SourceIdentifier TimeGenerated Sender SourceArgs MessageData ComputerName RunspaceId",
)  # fmt: skip
FIELDS = {k: v.split() for k, v in FIELDS.items()}


class Giver:
    """Turns trees into the Python values of an application."""

    def __init__(self, graph):
        self.roots = X.build(graph)
        self.secrets = []

    def py(self, a):
        t, s = a["t"], a["s"]
        if t == "Nil":
            return None
        if t == "str":
            return X.text(s)
        if t == "int":
            return int(X.text(s))
        if t == "bool":
            return bool(s[0])
        if t == "char":
            return T.PSChar(int(X.text(s)))
        if t == "dt":
            return X.prim("DT", s)
        if t == "guid":
            return uuid.UUID(X.text(s))
        if t == "version":
            return T.PSVersion(X.text(s))
        if t == "secret":
            self.secrets.append(list(s))
            return T.PSSecureString(X.text(s))
        if t == "any":
            return self.roots[a["n"] - 1]
        if t == "list":
            return [self.py(x) for x in a["c"]]
        kind, name = t.split(" ")
        if kind == "enum":
            return getattr(T, name)(int(X.text(s)))
        if name == "ErrorCategoryInfo":
            names = "Category Activity Reason TargetName TargetType".split()
            return T.ErrorCategoryInfo(**dict(zip(names, map(self.py, a["c"]))))
        if name == "ErrorRecord":
            names = "Exception TargetObject FullyQualifiedErrorId CategoryInfo ErrorDetails ScriptStackTrace".split()
            kw = dict(zip(names, map(self.py, a["c"])))
            er = T.ErrorRecord(InvocationInfo=self.py(a["c"][8]), PipelineIterationInfo=self.py(a["c"][9]), **kw)
            er.serialize_extended_info = self.py(a["c"][6])
            return er
        if name == "ScriptExtent":
            f, sl, sc, el, ec = map(self.py, a["c"])
            return T.ScriptExtent(T.ScriptPosition(f, sl, sc, ""), T.ScriptPosition(f, el, ec, ""))
        if name == "CommandInfo":
            return T.PSCustomObject(**dict(zip("CommandType Name Definition Visibility".split(), map(self.py, a["c"]))))
        return getattr(T, name)(**dict(zip(FIELDS[name], map(self.py, a["c"]))))


# ---------------------------------------------------------------------------------------------
# what is seen, as trees


class Seer:
    def __init__(self):
        self.roots = []
        self.secrets = []

    def any(self, v):
        self.roots.append(v)
        return A("any", n=len(self.roots))

    def graph(self):
        return X.proj(self.roots, skip=("SerializedRemoteInvocationInfo",))

    def leaf(self, v):
        if v is None:
            return NIL
        if isinstance(v, bool):
            return abool(v)
        if isinstance(v, enum.Enum):
            return aenum(type(v).__name__, int(v.value))
        if isinstance(v, T.PSSecureString):
            self.secrets.append(X.units(v.decrypt()))
            return A("secret")
        if isinstance(v, T.PSChar):
            return A("char", X.units(str(int(v))))
        if isinstance(v, T.PSVersion):
            return A("version", X.canon("Version", v))
        if isinstance(v, uuid.UUID):
            return A("guid", X.canon("G", v))
        if isinstance(v, datetime.datetime):
            return A("dt", X.canon("DT", v))
        if isinstance(v, int):
            return aint(int(v))
        if isinstance(v, str):
            return astr(X.units(v))
        if isinstance(v, list):
            return alist([self.leaf(x) for x in v])
        name = type(v).__name__
        if name in FIELDS and name not in ("InvocationInfo", "InformationRecord", "UserEvent"):
            return arec(name, [self.leaf(getattr(v, f)) for f in FIELDS[name]])
        return A("a Python " + name)

    def invocation(self, v):
        if v is None:
            return NIL
        x = v.DisplayScriptPosition
        if x is not None:
            x = arec("ScriptExtent", [self.leaf(y) for y in (x.File, x.StartLineNumber, x.StartColumnNumber, x.EndLineNumber, x.EndColumnNumber)])
        m = v.MyCommand
        if m is not None:
            m = arec("CommandInfo", [self.leaf(y) for y in (m.CommandType, m.Name, m.Definition, m.Visibility)])
        c = []
        for f in FIELDS["InvocationInfo"]:
            if f in ("BoundParameters", "UnboundArguments"):
                c.append(self.any(getattr(v, f)))
            elif f in ("PositionMessage", "PSCommandPath", "PSScriptRoot"):
                c.append(STAR)
            elif f in ("DisplayScriptPosition", "MyCommand"):
                w = x if f[0] == "D" else m
                c.append(NIL if w is None else w)
            else:
                c.append(self.leaf(getattr(v, f)))
        return arec("InvocationInfo", c)

    def error(self, r):
        if r is None:
            return NIL
        e, d, k = r.Exception, r.ErrorDetails, r.CategoryInfo
        try:
            carried = e.SerializedRemoteInvocationInfo is not None
        except AttributeError:
            carried = False
        cat = [self.leaf(x) for x in (k.Category, k.Activity, k.Reason, k.TargetName, k.TargetType, k.PSObject.to_string)]
        return arec("ErrorRecord", [
            self.any(e), self.any(r.TargetObject), self.leaf(r.FullyQualifiedErrorId), arec("ErrorCategoryInfo", cat),
            NIL if d is None else arec("ErrorDetails", [self.leaf(d.Message), self.leaf(d.RecommendedAction)]),
            self.leaf(r.ScriptStackTrace), abool(r.serialize_extended_info), abool(carried), self.invocation(r.InvocationInfo), self.leaf(r.PipelineIterationInfo),
        ])  # fmt: skip

    def message(self, r):
        return arec("InformationalRecord", [self.leaf(r.Message), abool(r.serialize_extended_info), self.invocation(r.InvocationInfo), self.leaf(r.PipelineIterationInfo)])

    def information(self, r):
        return arec("InformationRecord", [self.any(r.MessageData)] + [self.leaf(getattr(r, f)) for f in FIELDS["InformationRecord"][1:]])

    def user(self, r):
        c = []
        for f in FIELDS["UserEvent"]:
            v = getattr(r, f)
            if f == "SourceArgs":
                c.append(alist([self.any(x) for x in v]))
            elif f in ("Sender", "MessageData"):
                c.append(self.any(v))
            else:
                c.append(self.leaf(v))
        return arec("UserEvent", c)

    def call(self, e):
        return arec("HostCall", [aint(int(e.ci)), self.leaf(e.method_identifier), alist([self.leaf(p) for p in e.method_parameters])])

    def answer(self, e):
        r = e.result
        if r is None:
            res = NIL
        elif int(e.method_identifier) in KNOWN_RESULTS:
            res = self.leaf(r)
        else:
            res = self.any(r)
        return arec("HostResponse", [aint(int(e.ci)), self.leaf(e.method_identifier), res, self.error(e.error)])

    def pipeline(self, p):
        stmts = [[]]
        for c in p.commands:
            stmts[-1].append(self.command(c))
            if c.end_of_statement:
                stmts.append([])
        if not stmts[-1]:
            stmts.pop()
        return arec("PowerShell", [
            self.leaf(p.no_input), self.leaf(p.apartment_state), self.leaf(p.remote_stream_options), self.leaf(p.add_to_history), self.leaf(p.host), self.leaf(p.is_nested), self.leaf(p.is_nested),
            self.leaf(p.history), self.leaf(p.redirect_shell_error_to_out), alist([alist(s) for s in stmts]),
        ])  # fmt: skip

    def command(self, c):
        R = T.PipelineResultTypes
        return arec("Command", [
            self.leaf(c.command_text), alist([arec("Argument", [self.leaf(n), self.any(v)]) for n, v in c.parameters]), self.leaf(c.is_script), self.leaf(c.use_local_scope),
            self.leaf(c.merge_my), self.leaf(c.merge_to), self.leaf(R(3) if c.merge_unclaimed else R(0)),
            self.leaf(c.merge_error), self.leaf(c.merge_warning), self.leaf(c.merge_verbose), self.leaf(c.merge_debug), self.leaf(c.merge_information),
        ])  # fmt: skip

    def metadata(self, m):
        args = NIL if m.arguments is None else alist([self.any(x) for x in m.arguments])
        return arec("GetMetadata", [self.leaf(m.name), self.leaf(m.command_type), self.leaf(m.namespace), args])


KNOWN_RESULTS = {1, 2, 3, 4, 5, 11, 12, 24, 25, 26, 27, 29, 31, 33, 35, 37, 39, 41, 43, 44, 45, 46, 50, 54, 56}

# ---------------------------------------------------------------------------------------------
# a client and a server


class Link:
    """A client and a server pool that have opened, with the documents that went between them."""

    def __init__(self, cv="2.3", sv="2.3", apartment=2, keys=False, client=None, server=None):
        self.c = psrpcore.ClientRunspacePool(**(dict(apartment_state=T.ApartmentState(apartment)) if client is None else client))
        self.s = psrpcore.ServerRunspacePool(**(server or {}))
        self.run = None
        self.joiners = {"c": wire.Joiner(), "s": wire.Joiner()}
        if client is not None:
            return
        for pool, v in ((self.c, cv), (self.s, sv)):
            pool.our_capability.protocolversion = T.PSVersion(v)
        self.c.open()
        self.pump()
        if keys:
            self.c.exchange_key()
            self.pump()

    def pump(self):
        """Deliver everything: the messages sent by each side and the events at the other."""
        sent, seen = {"c": [], "s": []}, {"c": [], "s": []}
        busy = True
        while busy:
            busy = False
            for a, b, me, other in ((self.c, self.s, "c", "s"), (self.s, self.c, "s", "c")):
                while True:
                    p = a.data_to_send()
                    if p is None:
                        break
                    busy = True
                    for f in wire.fragments(bytes(p.data)):
                        m = self.joiners[me].add(f)
                        if m:
                            sent[me].append(m)
                    b.receive_data(p)
                while True:
                    e = b.next_event()
                    if e is None:
                        break
                    seen[other].append(e)
        return sent, seen

    def pipeline(self):
        """A running pipeline: the client's and the server's side of it."""
        if self.run is None:
            p = psrpcore.ClientPowerShell(self.c)
            p.add_script("x")
            p.start()
            q = psrpcore.ServerPipeline(self.s, p.pipeline_id)
            self.pump()
            q.start()
            self.pump()
            self.run = (p, q)
        return self.run


TYPE = dict(error="ErrorRecord", information="InformationRecord", progress="ProgressRecord", event="UserEvent", pipeline="CreatePipeline", metadata="GetCommandMetadata", count="PipelineOutput")


def build_pipeline(link, op, g, args):
    """Do the operations of a builder; which of them were refused."""
    p = psrpcore.ClientPowerShell(link.c, **args)
    refused = []
    have = False
    for b in op["b"]:
        try:
            o = b["o"]
            cs = p.metadata.commands
            vals = [g.py(v) for v in b["v"]]
            on = cs[-1] if b["via"] and cs else p
            if o in ("cmd", "script"):
                if b["via"]:
                    p.add_command(psrpcore.Command(X.text(b["u"]), o == "script", use_local_scope=vals[0]))
                else:
                    (p.add_command if o == "cmd" else p.add_script)(X.text(b["u"]), use_local_scope=vals[0])
            elif o == "badscope":
                p.add_command(psrpcore.Command(X.text(b["u"])), use_local_scope=True)
            elif o == "statement":
                p.add_statement()
            elif o == "arg":
                on.add_argument(vals[0])
            elif o == "param":
                on.add_parameter(X.text(b["us"][0]), *([] if b["st"] == "switch" else vals))
            elif o == "params":
                on.add_parameters(**{X.text(k): v for k, v in zip(b["us"], vals)})
            elif o == "redirect" and cs:
                name = dict(e="error", w="warning", v="verbose", d="debug", i="information", all="all")[b["st"]]
                getattr(cs[-1], "redirect_" + name)(T.PipelineResultTypes(b["to"]))
            elif o == "unclaimed" and cs:
                cs[-1].merge_unclaimed = not cs[-1].merge_unclaimed
            refused.append(False)
        except (ValueError, TypeError):
            refused.append(True)
    return p, refused


def do(link, case):
    """Carry out one operation; the case as MsgJudge.tla wants it."""
    op = case["op"]
    kind = case["kind"]
    out = dict(kind=kind, relay=False, given=NIL, op=op, mi=0, ver=case["ver"], refused=[], doc=[], gg=case["gg"], ge=dict(nodes=[], roots=[]), ev=NIL, sgiven=[], sseen=[], err="", text="")
    g, seer = Giver(case["gg"]), Seer()
    try:
        args = {x["k"]: g.py(x["v"]) for x in op["a"] if x["k"] not in ("runspace_id",)}
        at_pipe = case.get("at") == "pipe"
        if kind in ("call", "answer"):
            cp, sp = link.pipeline() if at_pipe else (link.c, link.s)
        elif kind not in ("event", "init"):
            cp, sp = link.pipeline()
        g.secrets.clear()
        if kind == "init":
            opening(op, out, g, seer, args)
            return out
        sender, t, want = "s", TYPE.get(kind), None
        if kind == "call":
            getattr(psrpcore.ServerHostRequestor(sp), op["h"])(**args)
            t, want = ("PipelineHostCall" if at_pipe else "RunspacePoolHostCall"), seer.call
        elif kind == "answer":
            sender, t, want = "c", ("PipelineHostResponse" if at_pipe else "RunspacePoolHostResponse"), seer.answer
            ci = sp.host_call(T.HostMethodIdentifier(case["mi"]), case_params(case["mi"]))
            link.pump()
            args = {x["k"]: g.py(x["v"]) for x in op["a"]}
            g.secrets = [list(x["s"]) for x in secrets_of(op)]
            out["mi"] = case["mi"]
            if "error" in args:
                cp.host_response(ci, error_record=args["error"])
            elif op["h"] == "raw":
                cp.host_response(ci, args.get("value"))
            else:
                getattr(psrpcore.ClientHostResponder(cp), op["h"])(ci, **args)
        elif kind == "error":
            sp.write_error(**args)
            want = lambda e: seer.error(e.record)  # noqa: E731
        elif kind == "message":
            getattr(sp, op["h"])(**args)
            t = dict(write_debug="DebugRecord", write_verbose="VerboseRecord", write_warning="WarningRecord")[op["h"]]
            want = lambda e: seer.message(e.record)  # noqa: E731
        elif kind == "information":
            sp.write_information(**args)
            want = lambda e: seer.information(e.record)  # noqa: E731
        elif kind == "progress":
            sp.write_progress(**args)
            want = lambda e: seer.leaf(e.record)  # noqa: E731
        elif kind == "event":
            link.s.send_event(**args)
            op["a"].append(dict(k="runspace_id", v=A("guid", X.units(str(link.c.runspace_pool_id)))))
            want = lambda e: seer.user(e.event)  # noqa: E731
        elif kind == "count":
            sp.write_output(T.CommandMetadataCount(Count=args["count"]))
            want = lambda e: seer.leaf(e.data)  # noqa: E731
        elif kind == "value":
            t, sender = ("PipelineOutput", "s") if op["h"] == "output" else ("PipelineInput", "c")
            (sp.write_output if sender == "s" else cp.send)(args["value"])
            want = lambda e: seer.any(e.data)  # noqa: E731
        elif kind == "pipeline":
            sender = "c"
            p, out["refused"] = build_pipeline(link, op, g, args)
            try:
                p.start()
                psrpcore.ServerPipeline(link.s, p.pipeline_id)
            except ValueError:
                out["err"] = "refused"
            want = lambda e: seer.pipeline(e.pipeline)  # noqa: E731
        elif kind == "metadata":
            sender = "c"
            p = psrpcore.ClientGetCommandMetadata(link.c, **args)
            p.start()
            psrpcore.ServerPipeline(link.s, p.pipeline_id)
            want = lambda e: seer.metadata(e.pipeline)  # noqa: E731
        if not out["err"]:
            finish(link, out, sender, t, want, seer, g)
        elif any(link.pump()[0].values()):
            out["err"] = "refused, but sent"
    except Exception as e:
        out["err"] = "%s failed: %r" % (op["h"] or kind, e)
    return out


def opening(op, out, g, seer, args):
    """Open a pool: what it asks for, and what the server answers about itself."""
    link = Link(client=args if op["h"] == "ask" else {}, server={} if op["h"] == "ask" else args)
    link.c.open()
    sent, seen = link.pump()
    if op["h"] == "ask":
        m = [x for x in sent["c"] if x.t == "InitRunspacePool"]
        e = [x for x in seen["s"] if type(x).__name__ == "InitRunspacePoolEvent"]
    else:
        m = [x for x in sent["s"] if x.t == "ApplicationPrivateData"]
        e = [x for x in seen["c"] if type(x).__name__ == "ApplicationPrivateDataEvent"]
    if len(m) != 1 or len(e) != 1:
        out["err"] = "opening a pool sent %s, seen %s" % (sent, seen)
        return
    e = e[0]
    out["text"] = m[0].body.decode("utf-8", "replace")
    out["doc"] = [X.tree(ET.fromstring(m[0].body))]
    if op["h"] == "tell":
        out["ev"] = arec("ApplicationPrivateData", [seer.any(link.c.application_private_data)])
    else:
        s = link.s
        out["ev"] = arec("InitRunspacePool", [seer.leaf(s.min_runspaces), seer.leaf(s.max_runspaces), seer.leaf(s.thread_options), seer.leaf(s.apartment_state), seer.leaf(s.host), seer.any(s.application_arguments)])
        other = Seer()
        also = arec("InitRunspacePool", [other.leaf(e.min_runspaces), other.leaf(e.max_runspaces), other.leaf(e.ps_thread_options), other.leaf(e.apartment_state), other.leaf(e.host_info), other.any(e.application_arguments)])
        if also != out["ev"] or other.graph() != seer.graph():
            out["err"] = "the event and the pool differ: %s and %s" % (also, out["ev"])
    out["ge"] = seer.graph()


def secrets_of(op):
    def walk(a):
        if a["t"] == "secret":
            yield a
        for x in a["c"]:
            yield from walk(x)

    return [y for x in op["a"] for y in walk(x["v"])]


def finish(link, out, sender, t, want, seer, g):
    sent, seen = link.pump()
    other = "s" if sender == "c" else "c"
    if [m.t for m in sent[sender]] != [t] or sent[other] or len(seen[other]) != 1 or seen[sender]:
        out["err"] = "sent %s, seen %s" % ([m.t for m in sent[sender] + sent[other]], seen)
        return None
    out["text"] = sent[sender][0].body.decode("utf-8", "replace")
    out["doc"] = [X.tree(ET.fromstring(sent[sender][0].body))]
    e = seen[other][0]
    if type(e).__name__ != t + "Event":
        out["err"] = "the event is %s" % type(e).__name__
        return None
    out["ev"] = want(e)
    out["ge"] = seer.graph()
    out["sgiven"], out["sseen"] = g.secrets, seer.secrets
    return e


def regive(graph):
    """A graph that was seen, as one that is given."""
    for n in graph["nodes"]:
        if n["g"] and n["k"] == "Obj":
            n["k"], n["py"] = "prim", ""
        if n["c"]:
            n["hts"], n["ts"] = False, []
        if n["c"] == "LST" and n["py"] == "PSIEnumerable":
            n["c"] = "IE"
    return graph


def relay(link, case):
    """A record written, and what was read of it written again."""
    kind = case["kind"]
    out = do(link, case)
    if out["err"] or kind not in ("error", "message", "information"):
        return [out]
    # do it once more to have the event itself
    g = Giver(case["gg"])
    args = {x["k"]: g.py(x["v"]) for x in case["op"]["a"]}
    _, sp = link.pipeline()
    h = dict(error="write_error", information="write_information").get(kind, case["op"]["h"])
    second = dict(out, relay=True, refused=[], doc=[], ev=NIL, ge=dict(nodes=[], roots=[]), err="", text="")
    try:
        getattr(sp, h)(**args)
        e = link.pump()[1]["c"][0]
        first = Seer()
        if kind == "error":
            second["given"] = first.error(e.record)
            second["given"]["c"][3]["c"][5] = STAR
            kw = dict(exception=e.record.Exception, category_info=e.record.CategoryInfo, target_object=e.record.TargetObject, fully_qualified_error_id=e.record.FullyQualifiedErrorId,
                      error_details=e.record.ErrorDetails, invocation_info=e.record.InvocationInfo, pipeline_iteration_info=e.record.PipelineIterationInfo, script_stack_trace=e.record.ScriptStackTrace)  # fmt: skip
        elif kind == "message":
            second["given"] = first.message(e.record)
            kw = dict(message=e.record.Message, invocation_info=e.record.InvocationInfo, pipeline_iteration_info=e.record.PipelineIterationInfo)
        else:
            second["given"] = first.information(e.record)
            r = e.record
            kw = dict(message_data=r.MessageData, source=r.Source, time_generated=r.TimeGenerated, tags=r.Tags, user=r.User, computer=r.Computer, process_id=r.ProcessId, native_thread_id=r.NativeThreadId, managed_thread_id=r.ManagedThreadId)
        second["gg"] = regive(first.graph())
        seer = Seer()
        getattr(sp, h)(**kw)
        t = TYPE.get(kind) or dict(write_debug="DebugRecord", write_verbose="VerboseRecord", write_warning="WarningRecord")[h]
        finish(link, second, "s", t, dict(error=lambda e: seer.error(e.record), message=lambda e: seer.message(e.record), information=lambda e: seer.information(e.record))[kind], seer, g)
    except Exception as x:
        second["err"] = "relaying failed: %r" % x
    return [out, second]


def case_params(mi):
    """Parameters with which a method can be called when only its answer matters."""
    return None


def prune(op, graph):
    """The operation and the part of the graph it uses."""
    keep, nodes = {}, []

    def take(i):
        if i in keep:
            return keep[i]
        nodes.append(None)
        keep[i] = n = len(nodes)
        x = graph["nodes"][i - 1]
        nodes[n - 1] = dict(x, ad=[dict(p, v=take(p["v"])) for p in x["ad"]], ex=[dict(p, v=take(p["v"])) for p in x["ex"]], it=[take(y) for y in x["it"]])
        return n

    roots = []

    def walk(a):
        if a["t"] == "any":
            roots.append(take(graph["roots"][a["n"] - 1]))
            return dict(a, n=len(roots))
        return dict(a, c=[walk(x) for x in a["c"]])

    op = dict(op, a=[dict(x, v=walk(x["v"])) for x in op["a"]], b=[dict(b, v=[walk(v) for v in b["v"]]) for b in op["b"]])
    return op, dict(nodes=nodes, roots=roots)


def run(batch):
    """Carry out cases, on links opened as they are needed."""
    links, out = {}, []
    for case in batch:
        keys = bool(secrets_of(case["op"]))
        k = (case["own"], case["ver"], int(X.text(case["op"]["pool"]["s"])), keys)
        if k not in links:
            links[k] = Link(case["own"], case["ver"], k[2], keys)
        got = relay(links[k], case)
        if any(c["err"] for c in got):
            del links[k]
        out += got
    return out


FREE = {"target_object", "message_data", "sender", "source_args", "value", "arguments"}


def havoc(r, case, text, graph):
    """The same operation with other texts, numbers and values; text(r) a random text, graph(r) a random graph with one root."""
    gg = case["gg"]

    def any_(a, free):
        if not free or r.random() < 0.3:
            return a
        g = graph(r)
        if g["nodes"][g["roots"][0] - 1]["k"] == "Nil":
            return a
        off = len(gg["nodes"])
        sh = lambda ps: [dict(p, v=p["v"] + off) for p in ps]  # noqa: E731
        gg["nodes"] += [dict(n, ad=sh(n["ad"]), ex=sh(n["ex"]), it=[i + off for i in n["it"]]) for n in g["nodes"]]
        gg["roots"].append(g["roots"][0] + off)
        return dict(a, n=len(gg["roots"]))

    def walk(a, free):
        t = a["t"]
        if t == "any":
            return any_(a, free)
        if t != "rec ErrorRecord" and r.random() < 0.4 or not (a["s"] or a["c"] or t == "str"):
            return a if t == "str" else dict(a, c=[walk(x, free) for x in a["c"]])
        if t in ("str", "secret"):
            return dict(a, s=text(r))
        if t == "int":
            n = int(X.text(a["s"]))
            top = 1 << r.choice([4, 8, 16, 31])
            return dict(a, s=X.units(str(-1 - r.randrange(top - 1) if n < 0 else r.randrange(top))))
        if t == "char":
            return dict(a, s=X.units(str(r.randrange(1 << 16))))
        if t == "bool":
            return dict(a, s=[r.randrange(2)])
        if t == "guid":
            return dict(a, s=X.units(str(uuid.UUID(int=r.getrandbits(128)))))
        if t == "rec ErrorRecord":
            return dict(a, c=[x if i in (6, 7) else walk(x, free) for i, x in enumerate(a["c"])])
        return dict(a, c=[walk(x, free) for x in a["c"]])

    op = case["op"]
    op = dict(op, a=[dict(x, v=walk(x["v"], x["k"] in FREE)) for x in op["a"]])
    bs = []
    for b in op["b"]:
        b = dict(b, v=b["v"] if b["st"] == "switch" else [walk(v, b["o"] in ("arg", "param", "params")) for v in b["v"]])
        if b["o"] in ("cmd", "script") and r.random() < 0.5:
            b["u"] = text(r)
        elif b["o"] in ("param", "params"):
            names = [text(r) or [65] for _ in b["us"]]
            if len({tuple(n) for n in names}) == len(names):
                b["us"] = names
        bs.append(b)
    case = dict(case, op=dict(op, b=bs))
    case["op"], case["gg"] = prune(case["op"], gg)
    return case


STATEMENT = [dict(o="statement", v=[], u=[], us=[], st="", to=0, via=False)]


def swell(r, case, others):
    """The same operation with very much of what it has: long texts and lists, and the steps of other builders."""
    gg = case["gg"]

    def longer(a, n, mark=""):
        if not a["c"]:
            return a
        m = r.choice([3, 20])
        out = []
        for i in range(n):
            x = a["c"][i % len(a["c"])]
            if x["t"] == "list":
                x = longer(x, m)
            elif x["t"] == "str":
                x = dict(x, s=x["s"] + X.units(str(i)))
            elif x["t"].startswith("rec ") and x["c"] and x["c"][0]["t"] == "str":
                x = dict(x, c=[dict(x["c"][0], s=x["c"][0]["s"] + X.units(str(i)))] + x["c"][1:])
            out.append(x)
        return dict(a, c=out)

    def more(a):
        if a["t"] == "list":
            return longer(a, r.choice([17, 40, 130]))
        if a["t"] == "str" and a["s"] and r.random() < 0.5:
            return dict(a, s=(a["s"] * 3000)[: r.choice([130, 300, 1100])])
        return a

    def adopt(case2, b):
        off, roots = len(gg["nodes"]), len(gg["roots"])

        def sh(ps):
            return [dict(p, v=p["v"] + off) for p in ps]

        def walk(a):
            return dict(a, n=a["n"] + roots) if a["t"] == "any" else dict(a, c=[walk(x) for x in a["c"]])

        g = case2["gg"]
        gg["nodes"] += [dict(n, ad=sh(n["ad"]), ex=sh(n["ex"]), it=[i + off for i in n["it"]]) for n in g["nodes"]]
        gg["roots"] += [i + off for i in g["roots"]]
        return dict(b, v=[walk(v) for v in b["v"]])

    op = dict(case["op"], a=[dict(x, v=more(x["v"])) for x in case["op"]["a"]])
    if op["b"]:
        kind = r.choice(["any", "any", "arg", "arg", "statement"])
        firsts = [(c, b) for c in others for b in c["op"]["b"][:1] if b["o"] in ("cmd", "script")]
        bs = [adopt(*r.choice(firsts))] + list(op["b"])
        n = len(bs) + r.choice([20, 45, 90])
        while len(bs) < n:
            c2 = r.choice(others)
            b = r.choice(c2["op"]["b"])
            if kind == "any" or b["o"] in ("arg", "param", "params") or (kind == "statement" and b["o"] in ("cmd", "script")):
                bs.append(adopt(c2, b))
                if kind == "statement" and b["o"] in ("cmd", "script"):
                    bs += [s for s in STATEMENT if r.random() < 0.8]
        op["b"] = bs
    case = dict(case, op=op)
    case["op"], case["gg"] = prune(case["op"], gg)
    return case
