"""Drives one client pool and one server pool of the real library with the operations of Session.tla."""

import uuid

import common  # noqa: F401  (puts /repo/src first on the path)
import wire

import psrpcore
from psrpcore import types as T
from psrpcore import (
    ClientGetCommandMetadata,
    ClientPowerShell,
    ClientRunspacePool,
    ServerPipeline,
    ServerRunspacePool,
)

assert psrpcore.__file__.startswith(str(common.SRC)), psrpcore.__file__

IDS = {"A": uuid.UUID(int=0xA0A1A2A3A4A5A6A7A8A9AAABACADAEAF), "B": uuid.UUID(int=0xB0B1B2B3B4B5B6B7B8B9BABBBCBDBEBF)}
NAMES = {v: k for k, v in IDS.items()}
NAMES[uuid.UUID(int=0)] = "none"
PID = {q: uuid.UUID(int=0x1000 * q + 0x0F0E0D0C0B0A09080706050403020000) for q in range(1, 33)}
QID = {v: k for k, v in PID.items()}
SECRETS = {"secret1": "s3cr\u00e9t one", "secret2": "\U0001f511 two"}
UNSECRET = {v: k for k, v in SECRETS.items()}


# what each side says about itself, besides the protocol version
CAPS = {"c": ("2.0", "1.1.0.1"), "s": ("5.1", "1.1.0.7")}


def _host(null, ui, raw, use, data):
    if data:
        i = data
        C, Z = T.Coordinates, T.Size
        data = T.HostDefaultData(
            ForegroundColor=T.ConsoleColor(i % 16),
            BackgroundColor=T.ConsoleColor((i + 5) % 16),
            CursorPosition=C(X=i + 1, Y=i + 2),
            WindowPosition=C(X=i + 3, Y=i + 4),
            CursorSize=i + 5,
            BufferSize=Z(Width=i + 6, Height=i + 7),
            WindowSize=Z(Width=i + 8, Height=i + 9),
            MaxWindowSize=Z(Width=i + 10, Height=i + 11),
            MaxPhysicalWindowSize=Z(Width=i + 12, Height=i + 13),
            WindowTitle="title %d" % i,
        )
    return T.HostInfo(IsHostNull=null, IsHostUINull=ui, IsHostRawUINull=raw, UseRunspaceHost=use, HostDefaultData=data)


def host_proj(h):
    """A host description as plain values."""
    if h is None:
        h = T.HostInfo()
    d = h.HostDefaultData
    if d is not None:
        co = lambda v: (int(v.X), int(v.Y))  # noqa: E731
        si = lambda v: (int(v.Width), int(v.Height))  # noqa: E731
        d = (int(d.ForegroundColor), int(d.BackgroundColor), co(d.CursorPosition), co(d.WindowPosition), int(d.CursorSize))
        d += tuple(si(getattr(h.HostDefaultData, n)) for n in ("BufferSize", "WindowSize", "MaxWindowSize", "MaxPhysicalWindowSize"))
        d += (str(h.HostDefaultData.WindowTitle),)
    return (bool(h.IsHostNull), bool(h.IsHostUINull), bool(h.IsHostRawUINull), bool(h.UseRunspaceHost), d)


def settings(tag):
    """Constructor arguments of a client pool for a settings tag."""
    A, O = T.ApartmentState, T.PSThreadOptions
    if tag == "S1":
        return dict(
            application_arguments={"a": 1, "b": "x", "n": {"k": "v", "z": 2}},
            apartment_state=A.STA,
            thread_options=O.ReuseThread,
            host=_host(False, False, False, False, 1),
        )
    if tag == "S2":
        return dict(application_arguments={"only": "\u2603"}, apartment_state=A.MTA, thread_options=O.UseNewThread, host=_host(False, True, False, True, None))
    if tag == "S3":
        return dict(apartment_state=A.Unknown, thread_options=O.UseCurrentThread, host=_host(True, False, True, False, 7))
    if tag == "Ssec":
        return dict(application_arguments={"p": T.PSSecureString(SECRETS["secret1"])})
    return {}


def settings_proj(args, apartment, thread, host):
    plain = lambda v: {str(k): plain(x) for k, x in v.items()} if isinstance(v, dict) else v  # noqa: E731
    return (plain(args), int(apartment), int(thread), host_proj(host))


_want = {}


def settings_want(tag):
    if tag not in _want:
        kw = settings(tag)
        _want[tag] = settings_proj(
            kw.get("application_arguments", {}),
            kw.get("apartment_state", T.ApartmentState.Unknown),
            kw.get("thread_options", T.PSThreadOptions.Default),
            kw.get("host"),
        )
    return _want[tag]


def settings_tag(args, apartment, thread, host):
    if any(isinstance(v, T.PSSecureString) for v in args.values()):
        return "Ssec"
    got = settings_proj(args, apartment, thread, host)
    for tag in ("S0", "S1", "S2", "S3"):
        if got == settings_want(tag):
            return tag
    return "?" + repr(got)


APD = {"tag": "apd", "num": 7, "sub": {"k": "v"}}


def apd_tag(d):
    if not d:
        return ""
    return "apd" if all(d.get(k) == v for k, v in APD.items()) and set(d) <= set(APD) | {"PSVersionTable"} else "?" + repr(d)


def cap_tag(ps, proto, ser, peer):
    return str(proto) if (str(ps), str(ser)) == CAPS[peer] else "?%s %s %s" % (ps, proto, ser)


def rname(u):
    return NAMES.get(u, str(u))


def qname(u):
    return 0 if u is None else QID.get(u, -1)


def msg(t="", p=0, ci=0, n=0, m=0, x="", st="", r=""):
    return {"t": t, "p": p, "ci": ci, "n": n, "m": m, "x": x, "str": st, "r": r}


def typed(m):
    """Make sure every field has the type the specification compares it with."""
    o = {}
    for k, v in m.items():
        if k in ("p", "ci", "n", "m"):
            ok = isinstance(v, int) and not isinstance(v, bool) and -(2**31) < v < 2**31
            o[k] = int(v) if ok else -999
        else:
            o[k] = str(v) if isinstance(v, str) else "?" + repr(v)
    return o


def outcome(e):
    if isinstance(e, psrpcore.InvalidRunspacePoolState):
        return "invalid_pool_state"
    if isinstance(e, psrpcore.InvalidPipelineState):
        return "invalid_pipeline_state"
    if isinstance(e, psrpcore.InvalidProtocolVersion):
        return "protocol_version"
    if isinstance(e, psrpcore.MissingCipherError):
        return "missing_cipher"
    if isinstance(e, psrpcore.PSRPCoreError):
        return "psrp_error"
    return "error"


# tags of values that are false in Python
FALSY = {"=0": 0, "=false": False, "=empty": "", "=list": [], "=dict": {}, "=null": None}


def val(x):
    """The Python value an operation's tag stands for."""
    if x in FALSY:
        return type(FALSY[x])() if x != "=null" else None
    return T.PSSecureString(SECRETS[x]) if x in SECRETS else x


def wire_val(el):
    """The tag of a value on the wire."""
    if el is None or wire.local(el.tag) == "Nil":
        return "=null"
    t = wire.local(el.tag)
    if t == "SS":
        return "SS"
    if t == "Obj":
        for c in el:
            if wire.local(c.tag) in ("LST", "DCT") and not len(c):
                return "=list" if wire.local(c.tag) == "LST" else "=dict"
        return "?object"
    v = wire.value(el)
    if t == "S":
        return v if v else "=empty"
    return {("I32", 0): "=0", ("B", False): "=false"}.get((t, v), "?%s %r" % (t, v))


def unval(v):
    if isinstance(v, T.PSSecureString):
        try:
            s = str(v.decrypt())
        except psrpcore.MissingCipherError:
            return "locked"
        return UNSECRET.get(s, "?" + s)
    if isinstance(v, str):
        return str(v) or "=empty"
    for tag, kind in (("=null", type(None)), ("=false", bool), ("=0", int), ("=list", list), ("=dict", dict)):
        if isinstance(v, kind):
            return repr(v) if v else tag
    return repr(v)


# -- what is on the wire ------------------------------------------------------------------------


def _find(el, name):
    for e in el.iter():
        if e.get("N") == name:
            return e
    return None


def _dict_get(el, key):
    for en in el.iter():
        if wire.local(en.tag) == "En" and len(en) == 2 and (en[0].text or "") == key:
            return en[1]
    return None


def _wire_error(el, want):
    """0: no error, 1: the error with the wanted message, 2: some other error"""
    if el is None:
        return 0
    e = _find(el, "Message")
    return 1 if e is not None and wire.value(e) == want else 2


def _wire_settings(root):
    """Which of the settings an INIT_RUNSPACEPOOL message asks for."""
    V = lambda el, n: wire.value(wire.prop(el, n))  # noqa: E731
    args = {}

    def dct(el):
        out = {}
        for d in el:
            if wire.local(d.tag) == "DCT":
                for en in d:
                    v = en[1]
                    out[wire.value(en[0])] = dct(v) if wire.local(v.tag) == "Obj" else wire.value(v)
        return out

    a = wire.prop(root, "ApplicationArguments")
    args = {} if a is None else dct(a)
    hi = wire.prop(root, "HostInfo")
    data = wire.prop(hi, "_hostDefaultData")
    if data is not None:
        d = {}
        for en in wire.prop(data, "data")[1 if wire.local(wire.prop(data, "data")[0].tag) != "DCT" else 0]:
            v = wire.prop(en[1], "V")
            if wire.local(v.tag) == "Obj":
                x = [wire.value(p) for c in v for p in c]
                names = [p.get("N") for c in v for p in c]
                x = tuple(x) if names in (["x", "y"], ["width", "height"]) else ("?", names)
            else:
                x = wire.value(v)
            d[wire.value(en[0])] = x
        data = tuple(d[i] for i in range(10))
    host = tuple(V(hi, n) for n in ("_isHostNull", "_isHostUINull", "_isHostRawUINull", "_useRunspaceHost")) + (data,)
    got = (args, V(root, "ApartmentState"), V(root, "PSThreadOptions"), host)
    for tag in ("S0", "S1", "S2", "S3"):
        if got == settings_want(tag):
            return tag
    return "?" + repr(got)


def _count_tag(mi, count):
    return "~" if count == len(host_params(mi)) else "?%d parameters" % count


def _rec_error(rec, want):
    if rec is None:
        return 0
    return 1 if str(rec.Exception.Message) == want else 2


def wire_msg(raw, stream):
    """Abstract one message seen on the wire."""
    t = raw.t
    o = msg(t, qname(raw.pid), 0, 0, 0, "", stream, rname(raw.rpid))
    if any(v.encode("utf-8") in raw.body or v.encode("utf-16-le") in raw.body for v in SECRETS.values()):
        o["x"] = "?secret in clear"
        return o
    if t == "EndOfPipelineInput":
        if raw.body:
            o["x"] = "?body"
        return o
    root = wire.tree(raw.body)
    if root is not None and wire.local(root.tag) == "Objs":
        root = root[0]
    P = lambda name: wire.value(wire.prop(root, name))  # noqa: E731
    if t == "SessionCapability":
        o["x"] = cap_tag(P("PSVersion"), P("protocolversion"), P("SerializationVersion"), "c" if raw.dest == 2 else "s")
    elif t in ("InitRunspacePool", "RunspacePoolInitData"):
        o["n"], o["m"] = P("MinRunspaces"), P("MaxRunspaces")
        if t == "InitRunspacePool":
            o["x"] = _wire_settings(root)
    elif t == "ConnectRunspacePool":
        o["n"], o["m"] = P("MinRunspaces") or 0, P("MaxRunspaces") or 0
    elif t == "ApplicationPrivateData":
        o["x"] = wire.value(_dict_get(root, "tag"))
    elif t == "RunspacePoolState":
        o["x"] = wire.POOL_STATES[P("RunspaceState")]
        o["n"] = _wire_error(wire.prop(root, "ExceptionAsErrorRecord"), "broken")
    elif t == "PipelineState":
        o["x"] = wire.PIPE_STATES[P("PipelineState")]
        o["n"] = _wire_error(wire.prop(root, "ExceptionAsErrorRecord"), "The pipeline has been stopped.")
    elif t in ("SetMaxRunspaces", "SetMinRunspaces"):
        o["ci"], o["n"] = P("ci"), P("MaxRunspaces" if "Max" in t else "MinRunspaces")
    elif t in ("GetAvailableRunspaces", "ResetRunspaceState"):
        o["ci"] = P("ci")
    elif t == "RunspaceAvailability":
        v = P("SetMinMaxRunspacesResponse")
        o["ci"], o["n"], o["x"] = P("ci"), int(v), "bool" if isinstance(v, bool) else "int"
    elif t == "CreatePipeline":
        o["x"] = wire.value(_find(root, "Cmd"))
        if (o["x"] == "secarg") != any(wire.local(e.tag) == "SS" for e in root.iter()):
            o["x"] = "?secret"
    elif t == "GetCommandMetadata":
        o["x"] = "gcm"
    elif t in ("RunspacePoolHostCall", "PipelineHostCall"):
        o["ci"], o["n"] = P("ci"), P("mi")
        mp = wire.prop(root, "mp")
        strs = [e.text or "" for e in mp.iter() if wire.local(e.tag) == "S"]
        o["x"] = strs[0] if strs else ""
        if o["n"] not in PLAIN_MI:
            o["x"] = _count_tag(o["n"], len([c for c in mp if wire.local(c.tag) == "LST"][0]))
    elif t in ("RunspacePoolHostResponse", "PipelineHostResponse"):
        o["ci"], o["n"] = P("ci"), P("mi")
        mr, me = wire.prop(root, "mr"), wire.prop(root, "me")
        if me is not None:
            o["x"] = "!err" if _wire_error(me, "h") == 1 else "?error"
        elif mr is not None:
            o["x"] = wire_val(mr)
    elif t == "UserEvent":
        o["n"], o["x"] = P("PSEventArgs.EventIdentifier"), P("PSEventArgs.SourceIdentifier")
    elif t in ("PipelineInput", "PipelineOutput"):
        o["x"] = wire_val(root)
    elif t == "ErrorRecord":
        o["x"] = wire.value(_find(root, "Message"))
    elif t in ("DebugRecord", "VerboseRecord", "WarningRecord"):
        o["x"] = P("InformationalRecord_Message")
    elif t == "ProgressRecord":
        o["x"] = P("Activity")
    elif t == "InformationRecord":
        o["x"] = P("MessageData")
    return o


# -- what the application sees --------------------------------------------------------------------


# methods whose result is not just handed on but converted to a type of its own (see HostCall.tla for those)
CONVERTED_MI = {27, 29, 31, 33, 37, 39, 43, 44, 46, 50}
SENT = {}  # call id -> what the last response with that id looked like on the wire


def _result(ev):
    if ev.method_identifier.value in CONVERTED_MI:
        return SENT.get(int(ev.ci), "")
    return "" if ev.result is None else unval(ev.result)


def event_msg(ev, peer):
    t = ev.message_type.name
    o = msg(t, qname(ev.pipeline_id), 0, 0, 0, "", "", rname(ev.runspace_pool_id))
    cls = type(ev).__name__
    want = {"RunspaceAvailability": ("SetRunspaceAvailabilityEvent", "GetRunspaceAvailabilityEvent")}.get(t, (t + "Event",))
    if cls not in want:
        o["x"] = "?class " + cls
        return o
    if t == "SessionCapability":
        o["x"] = cap_tag(ev.ps_version, ev.protocol_version, ev.serialization_version, peer)
    elif t in ("InitRunspacePool", "RunspacePoolInitData"):
        o["n"], o["m"] = int(ev.min_runspaces), int(ev.max_runspaces)
        if t == "InitRunspacePool":
            o["x"] = settings_tag(ev.application_arguments, ev.apartment_state, ev.ps_thread_options, ev.host_info)
    elif t == "ConnectRunspacePool":
        o["n"], o["m"] = int(ev.min_runspaces or 0), int(ev.max_runspaces or 0)
    elif t == "ApplicationPrivateData":
        o["x"] = apd_tag(ev.data)
    elif t in ("RunspacePoolState", "PipelineState"):
        o["x"] = ev.state.name
        o["n"] = _rec_error(ev.reason, "broken" if t == "RunspacePoolState" else "The pipeline has been stopped.")
    elif t in ("SetMaxRunspaces", "SetMinRunspaces"):
        o["ci"], o["n"] = int(ev.ci), int(ev.count)
    elif t in ("GetAvailableRunspaces", "ResetRunspaceState"):
        o["ci"] = int(ev.ci)
    elif t == "RunspaceAvailability":
        o["ci"] = int(ev.ci)
        if cls.startswith("Set"):
            o["n"], o["x"] = int(bool(ev.success)), "bool"
        else:
            o["n"], o["x"] = ev.count, "int"
    elif t == "CreatePipeline":
        o["x"] = ev.pipeline.commands[0].command_text
    elif t == "GetCommandMetadata":
        o["x"] = "gcm"
    elif t in ("RunspacePoolHostCall", "PipelineHostCall"):
        o["ci"], o["n"] = int(ev.ci), ev.method_identifier.value
        p = ev.method_parameters
        o["x"] = str(p[0]) if p else ""
        if o["n"] not in PLAIN_MI:
            o["x"] = _count_tag(o["n"], len(p))
    elif t in ("RunspacePoolHostResponse", "PipelineHostResponse"):
        o["ci"], o["n"] = int(ev.ci), ev.method_identifier.value
        if ev.error is not None:
            o["x"] = "!err" if _rec_error(ev.error, "h") == 1 else "?error"
        else:
            o["x"] = _result(ev)
    elif t == "UserEvent":
        o["n"], o["x"] = int(ev.event.EventIdentifier), str(ev.event.SourceIdentifier)
    elif t in ("PipelineInput", "PipelineOutput"):
        o["x"] = unval(ev.data)
    elif t == "ErrorRecord":
        o["x"] = str(ev.record.Exception.Message)
    elif t in ("DebugRecord", "VerboseRecord", "WarningRecord"):
        o["x"] = str(ev.record.Message)
    elif t == "ProgressRecord":
        o["x"] = str(ev.record.Activity)
    elif t == "InformationRecord":
        o["x"] = str(ev.record.MessageData)
    return o


PLAIN_MI = {1, 11, 12, 16, 18, 22, 41, 42}


def host_params(mi):
    """Suitable parameters for a host method, in the form host_call takes them."""
    co = T.Coordinates.ToPSObjectForRemoting(T.Coordinates(3, 4), for_host=True)
    sz = T.Size.ToPSObjectForRemoting(T.Size(5, 6), for_host=True)
    re = T.Rectangle.ToPSObjectForRemoting(T.Rectangle(1, 2, 3, 4), for_host=True)
    ce = T.BufferCell.ToPSObjectForRemoting(
        T.BufferCell("c", T.ConsoleColor.Red, T.ConsoleColor.Blue, T.BufferCellType.Complete), for_host=True
    )
    arr = T.PSObject()
    T.add_note_property(arr, "mae", [ce, ce])
    T.add_note_property(arr, "mal", [1, 2])
    pr = T.ProgressRecordMsg(
        ActivityId=1, Activity="a", StatusDescription="s", ParentActivityId=-1, PercentComplete=-1, Type=T.ProgressRecordType.Processing, SecondsRemaining=-1
    )
    return {
        6: [3],
        13: ["t"],
        14: [1, 2, "t"],
        17: [1, 2, "t"],
        19: ["t"],
        20: [1, pr],
        21: ["t"],
        23: ["c", "m", []],
        24: ["c", "m", "u", "t"],
        25: ["c", "m", "u", "t", 1, 1],
        26: ["c", "m", [], 0],
        28: [1],
        30: [2],
        32: [co],
        34: [co],
        36: [9],
        38: [sz],
        40: [sz],
        46: [4],
        48: [re, ce],
        49: [co, arr],
        50: [re],
        51: [re, co, re, ce],
        56: ["c", "m", [], [0]],
    }.get(mi, [])


class World:
    def __init__(self, cv="2.3", sv="2.3", mn=1, mx=1, set="S0", pipes=(1, 2)):
        self.cv, self.sv, self.pipes = cv, sv, pipes
        self.quiet = False  # do not look at what happens (while setting the scene)
        self.c = ClientRunspacePool(runspace_pool_id=IDS["A"], min_runspaces=mn, max_runspaces=mx, **settings(set))
        self._caps(self.c, "c", cv)
        self.s = ServerRunspacePool(application_private_data=dict(APD))
        self._caps(self.s, "s", sv)
        self.cp, self.sp = {}, {}
        self.j = {"c": wire.Joiner(), "s": wire.Joiner()}

    def _caps(self, pool, k, ver):
        cap = pool.our_capability
        cap.PSVersion, cap.protocolversion, cap.SerializationVersion = T.PSVersion(CAPS[k][0]), T.PSVersion(ver), T.PSVersion(CAPS[k][1])

    # -- views ------------------------------------------------------------------------------
    def _pool_view(self, pool, pipes):
        their = pool.their_capability
        pv = []
        for q in self.pipes:
            p = pipes.get(q)
            if p is None:
                pv.append({"ex": False, "st": "NotStarted", "tab": PID[q] in pool.pipeline_table, "meta": ""})
                continue
            if isinstance(p, ClientPowerShell):
                meta = p.metadata.commands[0].command_text
            elif isinstance(p, ClientGetCommandMetadata):
                meta = "gcm"
            elif p.metadata is None:
                meta = ""
            else:
                meta = p.metadata.commands[0].command_text if hasattr(p.metadata, "commands") else "gcm"
            pv.append({"ex": True, "st": p.state.name, "tab": pool.pipeline_table.get(PID[q]) is p, "meta": meta})
        return {
            "st": pool.state.name,
            "min": int(pool.min_runspaces),
            "max": int(pool.max_runspaces),
            "their": "none"
            if their is None
            else cap_tag(their.PSVersion, their.protocolversion, their.SerializationVersion, "s" if pool is self.c else "c"),
            "set": settings_tag(pool.application_arguments, pool.apartment_state, pool.thread_options, pool.host),
            "rpid": rname(pool.runspace_pool_id),
            "apd": apd_tag(pool.application_private_data),
            "pipes": pv,
        }

    def views(self):
        return self._pool_view(self.c, self.cp), self._pool_view(self.s, self.sp)

    # -- transport --------------------------------------------------------------------------
    def _xfer(self, k, deliver):
        src, dst = (self.c, self.s) if k == "c" else (self.s, self.c)
        pay = src.data_to_send()
        if pay is None:
            return []
        msgs = []
        if self.quiet:
            for f in wire.fragments(pay.data):
                self.j[k].add(f)
            if deliver:
                dst.receive_data(pay)
            return [msgs]
        st = {"default": "d", "prompt_response": "p"}.get(pay.stream_type.name, "?")
        for f in wire.fragments(pay.data):
            raw = self.j[k].add(f)
            if raw is not None:
                m = wire_msg(raw, st)
                if m["p"] != qname(pay.pipeline_id):
                    m["x"] = "?message for %s in a payload for %s" % (m["p"], qname(pay.pipeline_id))
                if raw.dest != (2 if k == "c" else 1):
                    m["x"] = "?destination %d" % raw.dest
                msgs.append(m)
                if m["t"].endswith("HostResponse"):
                    SENT[m["ci"]] = m["x"]
        if deliver:
            dst.receive_data(pay)
        return [msgs]

    def _next(self, k):
        pool = self.c if k == "c" else self.s
        try:
            ev = pool.next_event()
        except Exception as e:
            o = outcome(e)
            return o, [{"o": o, "m": msg()}], repr(e)
        if ev is None:
            return "ok", [], ""
        if self.quiet:
            return "ok", [None], ""
        return "ok", [{"o": "ok", "m": event_msg(ev, "s" if k == "c" else "c")}], ""

    # -- operations ---------------------------------------------------------------------------
    def do(self, op):
        """Perform one operation; returns the observation in the shape of Session!Obs."""
        n, evs, pays, err = 0, [], [], ""
        name = op["o"]
        try:
            if name in ("c.xfer", "s.xfer"):
                pays = self._xfer(name[0], True)
                out = "ok"
            elif name in ("c.drop", "s.drop"):
                pays = self._xfer(name[0], False)
                out = "ok"
            elif name in ("c.next", "s.next"):
                out, evs, err = self._next(name[0])
            elif name in ("c.inject", "s.inject"):
                k = name[0]
                pool = self.c if k == "c" else self.s
                rpid = IDS[op["r"]] if k == "s" else self.c.runspace_pool_id
                body = wire.craft(op["t"], op, CAPS["s" if k == "c" else "c"], APD)
                raw = wire.build(k == "s", op["t"], rpid, PID[op["p"]] if op["p"] else None, body)
                self.oid = getattr(self, "oid", 10**6) + 1
                pool.receive_data(
                    psrpcore.PSRPPayload(wire.Frag(self.oid, 0, 3, raw).raw(), psrpcore.StreamType.default, None)
                )
                out = "ok"
            elif name in ("c.flush", "s.flush"):
                k = name[0]
                while True:
                    p = self._xfer(k, True)
                    if not p:
                        break
                    pays += p
                other = "s" if k == "c" else "c"
                while True:
                    _, e, er = self._next(other)
                    if not e:
                        break
                    evs += e
                    err = err or er
                out = "ok"
            else:
                n = self._app(name, op) or 0
                out = "ok"
        except Exception as e:
            out, err = outcome(e), repr(e)
        if self.quiet:
            return None, err
        cv, sv = self.views()
        evs = [{"o": e["o"], "m": typed(e["m"])} for e in evs]
        pays = [[typed(m) for m in p] for p in pays]
        return {"out": out, "n": n if type(n) is int else -999, "evs": evs, "pays": pays, "c": cv, "s": sv}, err

    def _app(self, name, op):
        c, s, q, x, n, ci = self.c, self.s, op["p"], op["x"], op["n"], op["ci"]
        if name == "c.new":
            self.c = ClientRunspacePool(runspace_pool_id=IDS[x])
            self._caps(self.c, "c", self.cv)
            self.cp = {}
            self.j["c"] = wire.Joiner()
            return
        if name == "c.get_avail":
            return c.get_available_runspaces()
        if name == "c.reset":
            return c.reset_runspace_state()
        if name == "c.set_max":
            return c.set_max_runspaces(n)
        if name == "c.set_min":
            return c.set_min_runspaces(n)
        if name == "c.host_response":
            return self._resp(c, ci, x)
        if name == "cp.new":
            if x == "gcm":
                self.cp[q] = ClientGetCommandMetadata(c, "*", pipeline_id=PID[q])
            else:
                self.cp[q] = ClientPowerShell(c, pipeline_id=PID[q], no_input=False)
                self.cp[q].add_script(x)
                if x == "secarg":
                    self.cp[q].add_argument(T.PSSecureString(SECRETS["secret1"]))
            return
        if name == "cp.send":
            return self.cp[q].send(val(x))
        if name == "cp.eof":
            return self.cp[q].send_eof()
        if name == "cp.host_response":
            return self._resp(self.cp[q], ci, x)
        if name in ("cp.start", "cp.begin_stop", "cp.close"):
            return getattr(self.cp[q], name[3:])()
        if name == "s.set_broken":
            return s.set_broken(T.ErrorRecord(Exception=T.NETException(Message="broken"), CategoryInfo=T.ErrorCategoryInfo()))
        if name == "s.host_call":
            return s.host_call(T.HostMethodIdentifier(n), host_params(n) if x == "~" else [x] if x else None)
        if name == "s.send_event":
            return s.send_event(n, x)
        if name == "s.avail_resp":
            return s.runspace_availability_response(ci, {"bool": bool(n), "int": n, "str": "str"}[x])
        if name == "sp.new":
            self.sp[q] = ServerPipeline(s, PID[q])
            return
        if name == "sp.host_call":
            return self.sp[q].host_call(T.HostMethodIdentifier(n), host_params(n) if x == "~" else [x] if x else None)
        if name == "sp.write":
            return self._write(self.sp[q], op["t"], x)
        if name.startswith("sp."):
            return getattr(self.sp[q], name[3:])()
        return getattr(c if name[0] == "c" else s, name[2:])()

    def _resp(self, obj, ci, x):
        if x == "!err":
            return obj.host_response(
                ci, error_record=T.ErrorRecord(Exception=T.NETException(Message="h"), CategoryInfo=T.ErrorCategoryInfo())
            )
        if x == "":
            return obj.host_response(ci)
        return obj.host_response(ci, val(x))

    def _write(self, p, t, x):
        if t == "PipelineOutput":
            p.write_output(val(x))
        elif t == "ErrorRecord":
            p.write_error(T.NETException(Message=x))
        elif t == "ProgressRecord":
            p.write_progress(x, 1, "status")
        elif t == "InformationRecord":
            p.write_information(x, "source")
        else:
            getattr(p, "write_" + t[: -len("Record")].lower())(x)


def diff(a, b, path=""):
    """First difference between an expected and an observed value, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return path + "." + k + " missing"
            d = diff(a[k], b[k], path + "." + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: expected %d entries, got %d: %r / %r" % (path, len(a), len(b), a, b)
        for i, (p, q) in enumerate(zip(a, b)):
            d = diff(p, q, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if type(a) is bool or type(b) is bool:
        return None if a is b else "%s: expected %r, got %r" % (path, a, b)
    return None if a == b else "%s: expected %r, got %r" % (path, a, b)
