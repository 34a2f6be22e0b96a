"""An independent reading of the PSRP wire format (MS-PSRP 2.2.1 and 2.2.4), with no code shared with psrpcore."""

import re
import struct
import uuid
from xml.etree import ElementTree as ET

TYPES = {
    0x00010002: "SessionCapability",
    0x00010004: "InitRunspacePool",
    0x00010005: "PublicKey",
    0x00010006: "EncryptedSessionKey",
    0x00010007: "PublicKeyRequest",
    0x00010008: "ConnectRunspacePool",
    0x0002100B: "RunspacePoolInitData",
    0x0002100C: "ResetRunspaceState",
    0x00021002: "SetMaxRunspaces",
    0x00021003: "SetMinRunspaces",
    0x00021004: "RunspaceAvailability",
    0x00021005: "RunspacePoolState",
    0x00021006: "CreatePipeline",
    0x00021007: "GetAvailableRunspaces",
    0x00021008: "UserEvent",
    0x00021009: "ApplicationPrivateData",
    0x0002100A: "GetCommandMetadata",
    0x00021100: "RunspacePoolHostCall",
    0x00021101: "RunspacePoolHostResponse",
    0x00041002: "PipelineInput",
    0x00041003: "EndOfPipelineInput",
    0x00041004: "PipelineOutput",
    0x00041005: "ErrorRecord",
    0x00041006: "PipelineState",
    0x00041007: "DebugRecord",
    0x00041008: "VerboseRecord",
    0x00041009: "WarningRecord",
    0x00041010: "ProgressRecord",
    0x00041011: "InformationRecord",
    0x00041100: "PipelineHostCall",
    0x00041101: "PipelineHostResponse",
}
CODES = {v: k for k, v in TYPES.items()}
POOL_STATES = ["BeforeOpen", "Opening", "Opened", "Closed", "Closing", "Broken", "Disconnecting", "Disconnected", "Connecting"]
PIPE_STATES = ["NotStarted", "Running", "Stopping", "Stopped", "Completed", "Failed", "Disconnected"]


class Bad(Exception):
    pass


class Frag:
    __slots__ = ("oid", "fid", "flags", "data")

    def __init__(self, oid, fid, flags, data):
        self.oid, self.fid, self.flags, self.data = oid, fid, flags, data

    @property
    def start(self):
        return bool(self.flags & 1)

    @property
    def end(self):
        return bool(self.flags & 2)

    def raw(self):
        return struct.pack(">QQBI", self.oid, self.fid, self.flags, len(self.data)) + self.data


def fragments(data):
    """Split bytes into whole fragments; raises Bad when they do not fit exactly."""
    out = []
    pos = 0
    while pos < len(data):
        if len(data) - pos < 21:
            raise Bad("trailing %d bytes are not a fragment header" % (len(data) - pos))
        oid, fid, flags, ln = struct.unpack_from(">QQBI", data, pos)
        pos += 21
        if len(data) - pos < ln:
            raise Bad("fragment of %d bytes has only %d" % (ln, len(data) - pos))
        out.append(Frag(oid, fid, flags, bytes(data[pos : pos + ln])))
        pos += ln
    return out


class Raw:
    """A decoded message."""

    __slots__ = ("dest", "code", "t", "rpid", "pid", "body")

    def __init__(self, blob):
        if len(blob) < 40:
            raise Bad("message of %d bytes" % len(blob))
        self.dest, self.code = struct.unpack_from("<II", blob)
        self.t = TYPES.get(self.code, hex(self.code))
        self.rpid = uuid.UUID(bytes_le=bytes(blob[8:24]))
        pid = uuid.UUID(bytes_le=bytes(blob[24:40]))
        self.pid = None if pid.int == 0 else pid
        body = bytes(blob[40:])
        self.body = body[3:] if body.startswith(b"\xef\xbb\xbf") else body


def build(to_server, t, rpid, pid, body):
    return (
        struct.pack("<II", 2 if to_server else 1, CODES[t] if isinstance(t, str) else t)
        + rpid.bytes_le
        + (pid.bytes_le if pid else bytes(16))
        + body
    )


class Joiner:
    """Puts fragments back together, strictly."""

    def __init__(self):
        self.part = {}

    def add(self, frag):
        have = self.part.setdefault(frag.oid, [])
        if frag.fid != len(have):
            raise Bad("object %d: fragment %d after %d" % (frag.oid, frag.fid, len(have)))
        if frag.start != (frag.fid == 0):
            raise Bad("object %d fragment %d: start flag %s" % (frag.oid, frag.fid, frag.start))
        have.append(frag.data)
        if frag.end:
            del self.part[frag.oid]
            return Raw(b"".join(have))
        return None


# -- a small CLIXML reader for message bodies ----------------------------------------------------


def local(tag):
    return tag.rsplit("}", 1)[-1]


def tree(body):
    return ET.fromstring(body) if body else None


def prop(obj, name):
    """The property element called name of an Obj element (MS or Props)."""
    for child in obj:
        if local(child.tag) in ("MS", "Props"):
            for p in child:
                if p.get("N") == name:
                    return p
    return None


def value(el):
    """A scalar of an element; enums are read as their number."""
    if el is None:
        return None
    t = local(el.tag)
    if t == "Nil":
        return None
    if t in ("I32", "I64", "By", "U32", "U64", "I16", "U16", "SB"):
        return int(el.text)
    if t == "B":
        return el.text == "true"
    if t == "Obj":
        for c in el:
            if local(c.tag) in ("I32", "By", "S", "I64", "U32"):
                return value(c)
        return el
    return unescape(el.text or "")


def unescape(s):
    """CLIXML text: _xHHHH_ is one UTF-16 code unit (MS-PSRP 2.2.5.3.2)."""
    units = re.sub("_x([0-9A-Fa-f]{4})_", lambda m: chr(int(m.group(1), 16)), s)
    return units.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")


# -- messages as a peer other than psrpcore words them -----------------------------------------------

ERR = (
    '<Obj N="ExceptionAsErrorRecord" RefId="9"><TN RefId="1"><T>System.Management.Automation.ErrorRecord</T><T>System.Object</T></TN>'
    '<ToString>%s</ToString><MS><Obj N="Exception" RefId="10"><TN RefId="2"><T>System.Exception</T><T>System.Object</T></TN>'
    "<ToString>System.Exception: %s</ToString><Props><S N=\"Message\">%s</S><Obj N=\"Data\" RefId=\"11\"><TN RefId=\"3\">"
    "<T>System.Collections.ListDictionaryInternal</T><T>System.Object</T></TN><DCT/></Obj><Nil N=\"InnerException\"/>"
    '<Nil N="TargetSite"/><Nil N="StackTrace"/><Nil N="HelpLink"/><Nil N="Source"/><I32 N="HResult">-2146233088</I32></Props></Obj>'
    '<Nil N="TargetObject"/><S N="FullyQualifiedErrorId">Err</S><Nil N="InvocationInfo"/><I32 N="ErrorCategory_Category">7</I32>'
    '<S N="ErrorCategory_Activity"/><S N="ErrorCategory_Reason">R</S><S N="ErrorCategory_TargetName"/><S N="ErrorCategory_TargetType"/>'
    '<S N="ErrorCategory_Message">M</S><B N="SerializeExtendedInfo">false</B></MS></Obj>'
)


def craft(t, op, caps, apd):
    """The XML of a message of type t; op has the numbers and text of the specification's message."""
    n, m, x = op["n"], op["m"], op["x"]
    if t == "SessionCapability":
        return (
            '<Obj RefId="0"><MS><Version N="protocolversion">%s</Version><Version N="PSVersion">%s</Version>'
            '<Version N="SerializationVersion">%s</Version></MS></Obj>' % (x, caps[0], caps[1])
        ).encode()
    if t in ("RunspacePoolState", "PipelineState"):
        name = "RunspaceState" if t == "RunspacePoolState" else "PipelineState"
        num = (POOL_STATES if t == "RunspacePoolState" else PIPE_STATES).index(x)
        why = "broken" if t == "RunspacePoolState" else "The pipeline has been stopped."
        return ('<Obj RefId="0"><MS><I32 N="%s">%d</I32>%s</MS></Obj>' % (name, num, ERR % (why, why, why) if n else "")).encode()
    if t == "RunspacePoolInitData":
        return ('<Obj RefId="0"><MS><I32 N="MinRunspaces">%d</I32><I32 N="MaxRunspaces">%d</I32></MS></Obj>' % (n, m)).encode()
    if t == "ConnectRunspacePool":
        if not n and not m:
            return b"<S></S>"
        return (
            '<Obj RefId="0"><MS>%s%s</MS></Obj>'
            % ('<I32 N="MinRunspaces">%d</I32>' % n if n else "", '<I32 N="MaxRunspaces">%d</I32>' % m if m else "")
        ).encode()
    if t == "RunspaceAvailability":
        v = "<B N=\"SetMinMaxRunspacesResponse\">%s</B>" % ("true" if n else "false") if x == "bool" else '<I64 N="SetMinMaxRunspacesResponse">%d</I64>' % n
        return ('<Obj RefId="0"><MS>%s<I64 N="ci">%d</I64></MS></Obj>' % (v, op["ci"])).encode()
    if t == "ApplicationPrivateData":
        tn = '<TN RefId="%d"><T>System.Management.Automation.PSPrimitiveDictionary</T><T>System.Collections.Hashtable</T><T>System.Object</T></TN>'
        return (
            '<Obj RefId="0"><MS><Obj N="ApplicationPrivateData" RefId="1">' + tn % 0 + "<DCT>"
            '<En><S N="Key">tag</S><S N="Value">apd</S></En><En><S N="Key">num</S><I32 N="Value">7</I32></En>'
            '<En><S N="Key">sub</S><Obj N="Value" RefId="2"><TNRef RefId="0"/><DCT><En><S N="Key">k</S><S N="Value">v</S></En></DCT></Obj></En>'
            "</DCT></Obj></MS></Obj>"
        ).encode()
    raise ValueError(t)
