"""Values as graphs, documents as trees, and what the library makes of them (for Clixml.tla)."""

import datetime
import decimal
import enum
import queue
import struct
import uuid
from xml.etree import ElementTree as ET

import common  # noqa: F401  (puts /repo/src on the path)
from psrpcore import types as T

NOCRYPT = T.PSCryptoProvider()


def units(s):
    b = str.__str__(s).encode("utf-16-le", "surrogatepass") if isinstance(s, str) else str(s).encode("utf-16-le", "surrogatepass")
    return list(struct.unpack("<%dH" % (len(b) // 2), b))


def text(u):
    return struct.pack("<%dH" % len(u), *u).decode("utf-16-le", "surrogatepass")


# ---------------------------------------------------------------------------------------------
# documents


def tree(el):
    """An element as the specification sees it."""
    txt = (el.text or "") + "".join(c.tail or "" for c in el)
    return dict(
        g=el.tag,
        x=[] if el.tag in ("Obj", "LST", "STK", "QUE", "DCT", "IE", "En", "MS", "Props", "TN", "PR") else units(txt),
        hn="N" in el.attrib,
        n=units(el.attrib.get("N", "")),
        r=el.attrib.get("RefId", ""),
        c=[tree(c) for c in el],
    )


def elem(t):
    el = ET.Element(t["g"])
    if t["r"] != "":
        el.attrib["RefId"] = t["r"]
    if t["hn"]:
        el.attrib["N"] = text(t["n"])
    if t["x"]:
        el.text = text(t["x"])
    for c in t["c"]:
        el.append(elem(c))
    return el


def E(g, x="", n=None, r="", c=()):
    """Shorthand for an element."""
    return dict(g=g, x=units(x), hn=n is not None, n=units(n or ""), r=r, c=list(c))


# ---------------------------------------------------------------------------------------------
# primitive values

CLS = dict(
    S="PSString", C="PSChar", DT="PSDateTime", TS="PSDuration", By="PSByte", SB="PSSByte", U16="PSUInt16", I16="PSInt16", U32="PSUInt",
    I32="PSInt", U64="PSUInt64", I64="PSInt64", Sg="PSSingle", Db="PSDouble", D="PSDecimal", BA="PSByteArray", G="PSGuid", URI="PSUri",
    Version="PSVersion", XD="PSXml", SBK="PSScriptBlock",
)  # fmt: skip
TAG = {getattr(T, v): k for k, v in CLS.items()}
INTS = "C By SB U16 I16 U32 I32 U64 I64".split()
TEXTS = "S URI XD SBK".split()


def canon_float(v):
    if isinstance(v, float):
        if v != v:
            return [-3]
        if v in (float("inf"), float("-inf")):
            return [-4] if v > 0 else [-5]
        d = decimal.Decimal(float.__repr__(v))
    else:
        d = decimal.Decimal(v)
    sign, digits, exp = d.as_tuple()
    digits = list(digits)
    while digits and digits[0] == 0:
        digits.pop(0)
    if not digits:
        return [sign, 0]
    while digits[-1] == 0:
        digits.pop()
        exp += 1
    return [sign, exp] + [48 + x for x in digits]


def duration_ns(v):
    return ((v.days * 86400 + v.seconds) * 1000000 + v.microseconds) * 1000 + getattr(v, "nanoseconds", 0)


def canon(g, v):
    """The value of a primitive, as Lex gives it."""
    if g in TEXTS:
        return units(v)
    if g in INTS:
        return units(str(int(v)))
    if g == "B":
        return [1 if v else 0]
    if g in ("Sg", "Db", "D"):
        return canon_float(v)
    if g == "BA":
        return list(bytes(v))
    if g == "G":
        return units(str(uuid.UUID(int=v.int)))
    if g == "Version":
        return units(".".join(str(x) for x in (v.major, v.minor, v.build, v.revision) if x is not None and int(x) >= 0))
    if g == "DT":
        off = v.utcoffset()
        return [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond * 10 + getattr(v, "nanosecond", 0) // 100,
                0 if off is None else 1, 0 if off is None else int(off.total_seconds()) // 60]  # fmt: skip
    if g == "TS":
        ns = duration_ns(v)
        neg, ticks = ns < 0, abs(ns) // 100
        days, ticks = divmod(ticks, 864000000000)
        secs, ticks = divmod(ticks, 10000000)
        return [1 if neg else 0, days, secs, ticks]
    raise ValueError(g)


def prim(g, s, py=""):
    """A Python value for a primitive element and value; py names a plain Python type."""
    cls = getattr(T, CLS[g]) if g != "B" else None
    if g in TEXTS:
        return text(s) if py == "str" else cls(text(s))
    if g in INTS:
        return int(text(s)) if py == "int" else cls(int(text(s)))
    if g == "B":
        return bool(s[0])
    if g in ("Sg", "Db", "D"):
        if len(s) == 1:
            v = {-3: "nan", -4: "inf", -5: "-inf"}[s[0]]
        else:
            v = decimal.Decimal((s[0], [x - 48 for x in s[2:]] or [0], s[1]))
        if g == "D":
            return decimal.Decimal(v) if py == "Decimal" else cls(v)
        return float(v) if py == "float" else cls(float(v))
    if g == "BA":
        return bytes(s) if py == "bytes" else cls(bytes(s))
    if g == "G":
        return uuid.UUID(text(s)) if py == "UUID" else cls(text(s))
    if g == "Version":
        return cls(text(s))
    if g == "DT":
        tz = datetime.timezone(datetime.timedelta(minutes=s[8])) if s[7] else None
        us, ns = divmod(s[6], 10)
        if py == "datetime" and ns == 0:
            return datetime.datetime(*s[:6], us, tzinfo=tz)
        return cls(*s[:6], us, tzinfo=tz, nanosecond=ns * 100)
    if g == "TS":
        ns = ((s[1] * 86400 + s[2]) * 10000000 + s[3]) * 100 * (-1 if s[0] else 1)
        if py == "timedelta" and ns % 1000 == 0:
            return datetime.timedelta(microseconds=ns // 1000)
        return cls(nanoseconds=ns)
    raise ValueError(g)


# ---------------------------------------------------------------------------------------------
# graphs


def node(k="Obj", g="", s=(), py="", dtn=False, tn=(), ad=(), ex=(), hts=False, ts=(), c="", it=()):
    return dict(k=k, g=g, s=list(s), py=py, dtn=dtn, tn=list(tn), ad=list(ad), ex=list(ex), hts=hts, ts=list(ts), c=c, it=list(it))


# types an application registers; the specification knows them too

APP = {}


def register_app():
    """Once, in a process of its own."""
    if APP:
        return

    @T.PSType(["My.Type"], adapted_properties=[T.PSNoteProperty("Id", ps_type=T.PSInt), T.PSNoteProperty("Label", ps_type=T.PSString), T.PSNoteProperty("Else")])
    class AppRec(T.PSObject):
        pass

    @T.PSType(["My.Sub"], adapted_properties=[T.PSNoteProperty("Own", ps_type=T.PSString)])
    class AppSub(AppRec):
        pass

    @T.PSType(["My.Dict", "System.Collections.Hashtable"])
    class AppDict(T.PSDictBase):
        pass

    @T.PSType(["My.List"])
    class AppList(T.PSListBase):
        pass

    @T.PSType(["My.Stack"])
    class AppStack(T.PSStackBase):
        pass

    @T.PSType(["My.Queue"])
    class AppQueue(T.PSQueueBase):
        pass

    @T.PSType(["My.Enum"])
    class AppEnum(T.PSEnumBase):
        One = 1
        Two = 2
        Nine = 9

    @T.PSType(["My.Flag"])
    class AppFlag(T.PSFlagBase):
        A = 1
        B = 2
        C = 4

    for c in (AppRec, AppSub, AppDict, AppList, AppStack, AppQueue, AppEnum, AppFlag):
        APP[c.__name__] = c


def cls_of(py):
    return APP[py] if py in APP else getattr(T, py)


CONT = {"LST": T.PSList, "STK": T.PSStack, "QUE": T.PSQueue, "DCT": T.PSDict, "IE": T.PSIEnumerable}


class Plain:
    """An ordinary Python object."""


def build(val):
    """The Python values a graph stands for."""
    nodes = val["nodes"]
    made = {}

    def get(i):
        if i in made and nodes[i - 1]["k"] == "Obj":
            return made[i]
        x = nodes[i - 1]
        k = x["k"]
        if k == "Nil":
            return None
        if k == "prim":
            return prim(x["g"], x["s"], x["py"])
        if k == "enum":
            return cls_of(x["py"])(int(text(x["s"])))
        if k == "PR":
            names = ["Activity", "ActivityId", "CurrentOperation", "ParentActivityId", "PercentComplete", "RecordType", "SecondsRemaining", "StatusDescription"]
            kw = {}
            for n, j in zip(names, x["it"]):
                f = nodes[j - 1]
                if f["k"] != "Nil":
                    v = text(f["s"])
                    kw[n] = T.ProgressRecordType[v] if n == "RecordType" else int(v) if n in ("ActivityId", "ParentActivityId", "PercentComplete", "SecondsRemaining") else v
            return T.ProgressRecord(**kw)
        py = x["py"]
        if x["g"]:
            v = prim(x["g"], x["s"])
        elif py == "list":
            v = []
        elif py == "dict":
            v = {}
        elif py == "queue":
            v = queue.Queue()
        elif py == "object":
            v = Plain()
        elif x["c"]:
            v = cls_of(py)()
        elif py in ("PSCustomObject", "PSObject"):
            v = cls_of(py)()
        else:
            cls = cls_of(py)
            v = cls.__new__(cls)
        made[i] = v
        if not x["dtn"] and not x["g"]:
            v.PSObject.type_names = [text(t) for t in x["tn"]]
        if x["hts"]:
            v.PSObject.to_string = text(x["ts"])
        if py == "object":
            for p in x["ex"]:
                setattr(v, text(p["n"]), get(p["v"]))
        else:
            for p in x["ad"]:
                nm, pv = text(p["n"]), get(p["v"])
                old = [q for q in v.PSObject.adapted_properties if q.name == nm]
                if old:
                    old[0].set_value(pv, v)
                else:
                    v.PSObject.adapted_properties.append(T.PSNoteProperty(nm, pv))
            for p in x["ex"]:
                v.PSObject.extended_properties.append(T.PSNoteProperty(text(p["n"]), get(p["v"])))
        if x["c"] == "DCT":
            for a, b in zip(x["it"][::2], x["it"][1::2]):
                dict.__setitem__(v, get(a), get(b))
        elif x["c"] == "QUE":
            for a in x["it"]:
                v.put(get(a))
        elif x["c"]:
            for a in x["it"]:
                v.append(get(a))
        return v

    return [get(i) for i in val["roots"]]


PLAIN = {str: "S", float: "Sg", decimal.Decimal: "D", bytes: "BA", uuid.UUID: "G", datetime.datetime: "DT", datetime.timedelta: "TS"}


def proj(values, skip=(), plain=False, objs=None):
    """The graph of Python values as an application sees them, without the properties with the names in skip.

    With plain, ordinary Python values are part of it, and descriptions only where one can be set."""
    nodes = []
    seen = {}

    def add(n):
        nodes.append(n)
        return len(nodes)

    def props(v, ps):
        return [dict(n=units(p.name), v=get(p.get_value(v))) for p in ps if p.name not in skip]

    def get(v):
        if v is None:
            return add(node("Nil"))
        if isinstance(v, bool):
            return add(node("prim", "B", canon("B", v)))
        if isinstance(v, enum.Enum):
            return add(node("enum", py=type(v).__name__, s=units(str(int(v.value)))))
        if isinstance(v, T.ProgressRecord):
            f = [v.Activity, v.ActivityId, v.CurrentOperation, v.ParentActivityId, v.PercentComplete, v.RecordType and v.RecordType.name, v.SecondsRemaining, v.StatusDescription]
            return add(node("PR", it=[add(node("Nil") if a is None else node("prim", "S", units(str(a)))) for a in f]))
        if id(v) in seen:
            return seen[id(v)][0]
        n = node(py=type(v).__name__)
        i = add(n)
        seen[id(v)] = (i, v)
        if objs is not None:
            objs[i] = v
        if not isinstance(v, T.PSObject) and plain:
            del seen[id(v)]
            if isinstance(v, (list, dict, queue.Queue)):
                seen[id(v)] = (i, v)
                n["dtn"], n["py"] = True, {"Queue": "queue"}.get(type(v).__name__, type(v).__name__)
                n["c"] = "LST" if isinstance(v, list) else "DCT" if isinstance(v, dict) else "QUE"
                items = [y for kv in v.items() for y in kv] if n["c"] == "DCT" else list(v.queue) if n["c"] == "QUE" else list(v)
                n["it"] = [get(y) for y in items]
            elif type(v) is Plain:
                seen[id(v)] = (i, v)
                n["dtn"], n["py"] = True, "object"
                n["ex"] = [dict(n=units(k), v=get(y)) for k, y in sorted(vars(v).items())]
            else:
                n["k"] = "prim"
                n["g"] = "I32" if type(v) is int and -(1 << 31) <= v < 1 << 31 else "I64" if type(v) is int else PLAIN.get(type(v), "?")
                n["s"] = canon(n["g"], v) if n["g"] != "?" else []
            return i
        if not isinstance(v, T.PSObject):
            n["k"], n["g"] = "prim", "a plain Python " + type(v).__name__
            return i
        n["tn"] = [units(t) for t in v.PSObject.type_names]
        if type(v) in TAG:
            n["g"] = TAG[type(v)]
            n["s"] = canon(n["g"], v)
        n["ad"] = props(v, v.PSObject.adapted_properties)
        n["ex"] = props(v, v.PSObject.extended_properties)
        for tag, base in (("IE", T.PSIEnumerable), ("STK", T.PSStackBase), ("LST", list), ("QUE", queue.Queue), ("DCT", dict)):
            if isinstance(v, base):
                n["c"] = tag
                items = [y for kv in v.items() for y in kv] if tag == "DCT" else list(v.queue) if tag == "QUE" else list(v)
                n["it"] = [get(y) for y in items]
                break
        if plain and not n["c"] and not n["g"]:
            known = {p.name for p in v.PSObject.adapted_properties + v.PSObject.extended_properties}
            for k, y in sorted(vars(v).items()):
                if k not in known and k != "PSObject" and not k.startswith("_"):
                    n["ex"].append(dict(n=units("attribute " + k), v=get(y)))
        try:
            ts = v.PSObject.to_string
        except Exception:  # a container in itself, or a record whose fields are not what its text needs
            ts = None
        if ts is not None and not (plain and (n["c"] or type(v) not in (T.PSObject, T.PSCustomObject))):
            n["hts"], n["ts"] = True, units(ts)
        return i

    roots = [get(v) for v in values]
    return dict(nodes=nodes, roots=roots)


# ---------------------------------------------------------------------------------------------
# the two directions


def write_case(val, how="each"):
    """Build the values of a graph and write them; how "each": one value with serialize, "all": in one CLIXML text."""
    values = build(val)
    return record_write(val, values, how)


def record_write(val, values, how):
    c = dict(kind="w", ok=True, doc=[], val=val, err="", text="")
    try:
        if how == "each":
            c["text"] = ET.tostring(T.serialize(values[0], NOCRYPT), encoding="utf-8").decode()
            c["doc"] = [tree(ET.fromstring(c["text"].encode()))]
        else:
            c["text"] = T.serialize_clixml(values, NOCRYPT)
            root = ET.fromstring(c["text"].replace(' xmlns="http://schemas.microsoft.com/powershell/2004/04"', "", 1))
            c["doc"] = [tree(x) for x in root]
    except Exception as e:
        c["ok"], c["err"] = False, repr(e)
    return c


def read_case(doc, how="each"):
    """Read a document given as trees."""
    c = dict(kind="r", ok=True, doc=doc, val=dict(nodes=[], roots=[]), err="", text="")
    els = [elem(t) for t in doc]
    if how == "each":
        c["text"] = ET.tostring(els[0], encoding="utf-8").decode()
    else:
        objs = ET.Element("Objs", {"Version": "1.1.0.1", "xmlns": "http://schemas.microsoft.com/powershell/2004/04"})
        objs.extend(els)
        c["text"] = ET.tostring(objs, encoding="unicode")
    try:
        if how == "each":
            vals = [T.deserialize(ET.fromstring(c["text"].encode()), NOCRYPT)]
        else:
            vals = T.deserialize_clixml(c["text"], NOCRYPT)
    except Exception as e:
        c["ok"], c["err"] = False, repr(e)
        return c
    c["val"] = proj(vals)
    return c
