"""Documents with references to things of every kind, decided with Refs.tla."""

import copy
import json
import random
import xml.etree.ElementTree as ET

import clixml as X
import common
import psrpcore.types as T

NS = "http://schemas.microsoft.com/powershell/2004/04"
HELD = dict(err_of="TargetObject", info_of="MessageData", obj_of="held")


def extended(v, **props):
    for k, x in props.items():
        T.add_note_property(v, k, x)
    return v


def error(j, **k):
    return T.ErrorRecord(Exception=T.NETException(Message="m%d" % j), CategoryInfo=T.ErrorCategoryInfo(Reason="r%d" % j), FullyQualifiedErrorId="id%d" % j, **k)


def full(j):
    e = error(j, TargetObject="t", ErrorDetails=T.ErrorDetails(Message="d", RecommendedAction="r"), ScriptStackTrace="st")
    e.serialize_extended_info = True
    e.InvocationInfo = T.InvocationInfo(MyCommand=None, Line="line %d" % j, ScriptLineNumber=j)
    return e


def warning(j):
    return T.WarningRecord(Message="w%d" % j, InvocationInfo=None, PipelineIterationInfo=None)


def named(j):
    v = extended(T.PSObject(), a=j, b="x")
    v.PSObject.type_names = ["My.Type", "My.Base"]
    return v


def queue(j):
    q = T.PSQueue()
    q.put(j)
    return q


MAKE = dict(
    error=error, error_full=full, information=lambda j: T.InformationRecord(MessageData=j, Source="s", Tags=["t"]), exception=lambda j: T.NETException(Message="m%d" % j), warning=warning,
    object=lambda j: extended(T.PSObject(), p=j), named=named, custom=lambda j: extended(T.PSCustomObject(), p=j), enum=lambda j: T.ConsoleColor(j), flags=lambda j: T.ControlKeyStates(j),
    list=lambda j: T.PSList([j]), dict=lambda j: T.PSDict({"k": j}), stack=lambda j: T.PSStack([j, 2]), queue=queue, listed=lambda j: T.PSIEnumerable([j]), arguments=lambda j: T.PSPrimitiveDictionary({"k": j}),
    text=lambda j: extended(T.PSString("t%d" % j), p=1), number=lambda j: extended(T.PSInt(j), p=1), category=lambda j: T.ErrorCategoryInfo(Activity="a%d" % j), coordinates=lambda j: T.Coordinates(j, 2),
    err_of=error, info_of=lambda j: T.InformationRecord(MessageData=None, Source="s%d" % j), obj_of=lambda j: extended(T.PSObject(), p=j, held=None), list_of=lambda j: T.PSList([j, None]),
)  # fmt: skip


def element(kind, j):
    """The element of a value of the kind, with reference ids of its own."""
    root = ET.fromstring(T.serialize_clixml([MAKE[kind](j)], X.NOCRYPT))
    for x in root.iter():
        x.tag = x.tag.rpartition("}")[2]
        if "RefId" in x.attrib:
            x.attrib["RefId"] = str(int(x.attrib["RefId"]) + 100 * j)
    return root[0]


def hole(el, kind):
    """Where the value that an element holds stands."""
    return next(x for x in el.iter("Nil") if x.attrib.get("N") == HELD.get(kind))


def places(d, share):
    els, names = [], {}
    for j, p in enumerate(d, 1):
        if p["kind"] == "ref":
            target = els[p["to"] - 1]
            els.append(ET.Element("Ref", RefId=target.attrib["RefId"]))
            continue
        el = element(p["kind"], j)
        if p["of"]:
            x = hole(el, p["kind"])
            x.tag = "Ref"
            x.attrib["RefId"] = els[p["of"] - 1].attrib["RefId"]
        if share:
            for x in el.iter("TN"):
                ns = tuple(t.text for t in x)
                if ns in names:
                    x.tag, x[:] = "TNRef", []
                    x.attrib["RefId"] = names[ns]
                else:
                    names[ns] = x.attrib["RefId"]
        els.append(el)
    return els


def sub(parent, tag, *children, **at):
    x = ET.SubElement(parent, tag, at)
    x.extend(children)
    return x


def document(els, layout):
    root = ET.Element("Objs", Version="1.1.0.1", xmlns=NS)
    if layout == "roots":
        root.extend(els)
    elif layout == "deep":
        for j, el in enumerate(els):
            sub(sub(sub(sub(root, "Obj", RefId=str(9000 + 2 * j)), "MS"), "Obj", RefId=str(9001 + 2 * j), N="in"), "LST", el)
    else:
        o = sub(root, "Obj", RefId="9000")
        if layout == "list":
            sub(o, "LST", *els)
        elif layout == "queue":
            sub(o, "QUE", *els)
        elif layout == "values":
            dct = sub(o, "DCT")
            for j, el in enumerate(els):
                el.attrib["N"] = "Value"
                en = sub(dct, "En")
                sub(en, "S", N="Key").text = "k%d" % j
                en.append(el)
        else:
            sub(o, "MS" if layout == "props" else "Props", *els)
            for j, el in enumerate(els):
                el.attrib["N"] = "p%d" % j
    return ET.tostring(root, encoding="unicode")


def values(text, layout):
    out = T.deserialize_clixml(text, X.NOCRYPT)
    if layout == "roots":
        return out
    if layout == "deep":
        return [v["in"][0] if isinstance(v, dict) else getattr(v, "in")[0] for v in out]
    (v,) = out
    if layout == "list":
        return list(v)
    if layout == "queue":
        return list(v.queue)
    if layout == "values":
        return list(v.values())
    ps = v.PSObject.extended_properties if layout == "props" else v.PSObject.adapted_properties
    return [p.get_value(v) for p in ps]


def held(v, kind):
    return v[-1] if kind == "list_of" else getattr(v, HELD[kind])


def shows(v, kind):
    """What is seen of a value, apart from what it holds."""
    skip = ()
    if kind == "list_of":
        v = v[:-1]
    elif kind in HELD:
        skip = (HELD[kind],)
    g = X.proj([v], skip)
    for n in g["nodes"]:
        if n["c"] == "QUE":  # its description is one of Python
            n["hts"], n["ts"] = False, []
    return json.dumps(g)


def case(x):
    d, layout = x["d"], x["layout"]
    kinds = []
    for p in d:
        kinds.append(p["kind"] if p["kind"] != "ref" else kinds[p["to"] - 1])
    text = document(copy.deepcopy(places(d, x["share"])), layout)
    out = dict(x, ok=True, got=[], alone=[], text=text, err="")
    for j, p in enumerate(d, 1):
        out["alone"].append("" if p["kind"] == "ref" else shows(T.deserialize_clixml(document([element(p["kind"], j)], "roots"), X.NOCRYPT)[0], p["kind"]))
    try:
        vs = values(text, layout)
        where = lambda v: next((i for i, w in enumerate(vs, 1) if w is v), 99)  # noqa: E731
        for k, v in zip(kinds, vs):
            out["got"].append({"class": type(v).__name__, "same": where(v), "holds": where(held(v, k)) if k in HELD or k == "list_of" else 0, "shows": shows(v, k)})
        out["got"] += [{"class": "", "same": 0, "holds": 0, "shows": ""}] * (len(vs) - len(kinds))
    except Exception as e:
        out["ok"], out["err"] = False, repr(e)
    return out


def run(batch):
    return [case(x) for x in batch]


def some(r):
    """A document of random places."""
    plain = sorted(set(MAKE) - {"err_of", "info_of", "obj_of", "list_of"})
    d = []
    for j in range(1, r.choice([3, 5, 8, 15]) + 1):
        k = r.random()
        if j > 1 and k < 0.4:
            d.append(dict(kind="ref", to=r.randrange(1, j), of=0))
        elif j > 1 and k < 0.6:
            d.append(dict(kind=r.choice(["err_of", "info_of", "obj_of", "list_of"]), to=0, of=r.randrange(1, j)))
        else:
            d.append(dict(kind=r.choice(plain), to=0, of=0))
    return dict(d=d, layout=r.choice(["roots", "list", "props", "adapted", "values", "deep", "queue"]), share=r.random() < 0.5)


def references(chk):
    """What references of every kind denote (for C18 and C22)."""
    sets = [(2, 0), (3, 0), (4, 3)] if chk.thorough else [(2, 0), (3, 5), (4, 1)]
    jobs = [dict(module="RefGen", constants=dict(Size=n, Cap=c), invariants=["Emit", "Sound"], workers=2, seed=chk.seed) for n, c in sets]
    todo = []
    for (n, c), r in zip(sets, common.parallel_tlc(jobs, 4)):
        chk.add_tlc(r)
        got = sorted(r.lines, key=repr)
        chk.cov.setdefault("enumerated", {})["references:%d" % n] = len(got)
        todo += got
    n = 8000 if chk.thorough else 600
    chk.cov.setdefault("random", {})["references"] = n
    r = random.Random(chk.rng.randrange(1 << 40))
    todo += [some(r) for _ in range(n)]
    out = [c for b in common.pmap(run, [todo[i : i + 100] for i in range(0, len(todo), 100)], limit=120) for c in b]
    for h in out:
        if "what" in h:
            chk.violation(h["what"], case=h["case"])
    out = [c for c in out if "what" not in c]
    for c in out[:: max(1, len(out) // 2)]:
        chk.sample(dict(kind="references", text=c["text"][:300]))
    for c, b in common.judge(chk, "RefJudge", out, drop=("text", "err", "layout", "share")):
        chk.violation("references: " + b["why"] + (" (%s)" % c["err"] if c["err"] else ""), document=c["text"])
