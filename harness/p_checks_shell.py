"""Checks decided with Shell.tla: CLIXML shells and reading CLIXML output."""

import random
from xml.etree import ElementTree as ET
from xml.sax.saxutils import escape

import clixml as X
import common
import p_checks_clixml as K
import psrpcore
from clixml import E, node, units
from psrpcore import types as T

NS = "http://schemas.microsoft.com/powershell/2004/04"
STREAMS = "output error debug verbose warning progress information".split()
FREE = ("output", "information")
RECORDS = (T.ErrorRecord, T.InformationRecord, T.ProgressRecord)


def field(v):
    return [-1] if v is None else units(str(int(v)) if isinstance(v, (int, T.PSEnumBase)) else str(v))


def fields(v):
    if isinstance(v, T.ErrorRecord):
        c = v.CategoryInfo
        return [field(x) for x in (v.Exception.Message, c.Category, c.Activity, c.Reason, c.TargetName, c.TargetType, v.FullyQualifiedErrorId)]
    if isinstance(v, T.InformationRecord):
        return [field(x) for x in (v.MessageData, v.Source, v.User, v.Computer, v.ProcessId, len(v.Tags or []))] + [field(x) for x in v.Tags or []]
    return [field(x) for x in (v.Activity, v.ActivityId, v.StatusDescription, v.CurrentOperation, v.ParentActivityId, v.PercentComplete, v.SecondsRemaining, v.RecordType)]


def record(r, stream):
    def s():
        return X.text(K.rtext(r, r.choice([0, 1, 4]))) if r.random() < 0.3 else r.choice(["a", "two words", "l1\r\nl2", "<&>", "_x0041_"])

    def m():
        return r.choice([None, s()])

    if stream in ("error", "output") and (stream == "error" or r.random() < 0.5):
        return T.ErrorRecord(
            Exception=T.NETException(Message=s()),
            CategoryInfo=T.ErrorCategoryInfo(Category=r.choice(list(T.ErrorCategory)), Activity=m(), Reason=m(), TargetName=m(), TargetType=m()),
            FullyQualifiedErrorId=r.choice([None, "id", "My,Id"]),
        )
    if stream == "progress":
        return T.ProgressRecord(
            Activity=s(), ActivityId=r.choice([0, 1, 2147483647]), StatusDescription=s(), CurrentOperation=m(), ParentActivityId=r.choice([-1, 0, 5]),
            PercentComplete=r.choice([-1, 0, 100]), SecondsRemaining=r.choice([-1, 3]), RecordType=r.choice(list(T.ProgressRecordType)),
        )  # fmt: skip
    return T.InformationRecord(MessageData=s(), Source=m(), Tags=r.choice([[], ["t"], ["t", "PSHOST"]]), User=m(), Computer=m(), ProcessId=r.choice([0, 7]))


def seen(stream, v):
    """What a value that was read is, in the stream it was found in."""
    if isinstance(v, T.PSSecureString):
        return dict(t="secret", u=units(v.decrypt()), f=[])
    if stream in FREE:
        return dict(t="rec", u=[], f=fields(v)) if isinstance(v, RECORDS) else dict(t="graph", u=[], f=[])
    if stream == "error":
        if not isinstance(v, T.ErrorRecord):
            return dict(t="not an error record", u=[], f=[])
        if v.FullyQualifiedErrorId == "NativeCommandError" and v.CategoryInfo.Category == T.ErrorCategory.NotSpecified:
            return dict(t="text", u=units(v.Exception.Message), f=[])
        return dict(t="rec", u=[], f=fields(v))
    if stream in ("debug", "verbose", "warning"):
        want = dict(debug=T.DebugRecord, verbose=T.VerboseRecord, warning=T.WarningRecord)[stream]
        return dict(t="text" if type(v) is want else "another record", u=units(v.Message), f=[])
    return dict(t="rec" if isinstance(v, T.ProgressRecord) else "not a progress record", u=[], f=fields(v))


def bare(el):
    """An element without the namespaces."""
    for x in el.iter():
        x.tag = x.tag.rpartition("}")[2]
    return el


def parse(text):
    """The documents of a text taken from a shell."""
    mark = text.startswith("#< CLIXML\n") or text.startswith("#< CLIXML\r\n")
    root = ET.fromstring("<All>" + (text.split("\n", 1)[1] if mark else text) + "</All>")
    if (root.text or "").strip() or any((d.tail or "").strip() or (d.text or "").strip() for d in root) or not len(root):
        raise ValueError("text outside of the documents")
    docs = []
    for d in root:
        if d.tag not in ("Objs", "{%s}Objs" % NS):
            raise ValueError("a document with root " + d.tag)
        docs.append([dict(l=units(x.attrib.get("S", "")), e=X.tree(bare(x))) for x in d])
    return mark, docs


def read(step, texts):
    """Read the texts and write down what is in the streams."""
    step.update(o="read", ok=True, err="", got={s: [] for s in STREAMS}, graph={s: dict(nodes=[], roots=[]) for s in FREE})
    try:
        out = psrpcore.ClixmlOutput.from_clixml(texts)
        step["got"] = {s: [seen(s, v) for v in getattr(out, s)] for s in STREAMS}
        step["graph"] = {s: X.proj([v for v in getattr(out, s) if not isinstance(v, RECORDS + (T.PSSecureString,))]) for s in FREE}
    except Exception as e:
        step["ok"], step["err"] = False, repr(e)
    return step


class Trip(Exception):
    pass


def history(r, ops):
    """Carries out writes and takes on two shells, and reads what came out in several ways."""
    maker = K.Maker(r, r.choice([3, 10, 30]), share=r.choice([0.1, 0.5]))
    roots = []
    for op in ops:
        if op["o"] == "write" and op["k"] == "graph":
            maker.left = r.choice([1, 3, 10])
            roots.append(maker.value(r.choice([0, 1, 3])))
    armed = []
    for op in ops:
        if op["o"] == "trip":
            maker.nodes.append(node("prim", "S", units("fine"), py="str"))
            v = len(maker.nodes)
            maker.nodes.append(node(py="PSCustomObject", dtn=True, ex=[dict(n=units("trip"), v=v)]))
            roots.append(len(maker.nodes))
    graph = dict(nodes=maker.nodes, roots=roots)
    values = X.build(graph)
    trips = []
    for v in values[len(values) - sum(op["o"] == "trip" for op in ops) :]:
        new = T.PSCustomObject()

        def get(o):
            if armed:
                raise Trip()
            return "fine"

        T.add_script_property(new, "trip", get)
        trips.append(new)
    todo = list(zip(roots, values))
    rtrips = roots[len(roots) - len(trips) :]
    steps, texts, have = [], {1: [], 2: []}, {1: 0, 2: 0}
    shells = {1: psrpcore.ClixmlShell(), 2: psrpcore.ClixmlShell()}

    def put(sh, item, fn, *a):
        step = dict(o="write", sh=sh, ok=True, err="", item=item)
        try:
            fn(*a)
            have[sh] += 1
        except Exception as e:
            step["ok"], step["err"] = False, repr(e)
        steps.append(step)

    def take(sh, stumbles=False):
        step = dict(o="take", sh=sh, ok=True, err="", stumbles=stumbles, empty=False, mark=False, docs=[])
        try:
            text = shells[sh].data_to_send()
        except Exception as e:
            step["ok"], step["err"] = False, repr(e)
        else:
            if stumbles:
                pass
            elif text == "":
                step["empty"] = True
            else:
                have[sh] = 0
                try:
                    step["mark"], step["docs"] = parse(text)
                except Exception as e:
                    step["err"] = repr(e)
                texts[sh].append((len(texts[1]) + len(texts[2]) + 1, text))
        steps.append(step)

    for op in ops:
        sh = op["sh"]
        shell = shells[sh]
        item = dict(s=op["s"], k=op["k"], u=[], f=[], root=0)
        if op["o"] == "take":
            take(sh)
        elif op["o"] == "trip":
            item.update(s="output", k="graph", root=rtrips.pop(0))
            put(sh, item, shell.write_output, trips.pop(0))
            armed.append(1)
            take(sh, True)
            armed.clear()
        elif op["k"] == "graph":
            root, v = todo.pop(0)
            item["root"] = root
            put(sh, item, getattr(shell, "write_" + op["s"]), v)
        elif op["k"] == "text":
            item["u"] = K.rtext(r, r.choice([0, 1, 5])) if r.random() < 0.5 else units(r.choice(["a", "two\nlines\r\n", "<Objs>", "#< CLIXML\n", "]]>", " "]))
            put(sh, item, getattr(shell, "write_" + op["s"]), r.choice([str, T.PSString])(X.text(item["u"])))
        elif op["k"] == "secret":
            item["u"] = K.rtext(r, r.choice([0, 1, 5]))
            put(sh, item, shell.write_output, T.PSSecureString(X.text(item["u"])))
        else:
            v = record(r, op["s"])
            item["f"] = fields(v)
            if op["s"] == "progress":
                n = r.choice([0, 1, -1, 1 << 40])
                item["u"] = units(str(n))
                put(sh, item, shell.write_progress, n, v)
            else:
                put(sh, item, getattr(shell, "write_" + op["s"]), v)
    for sh in (1, 2):
        if have[sh]:
            take(sh)
        take(sh)

    def piece(i):
        return dict(piece=i, els=[])

    for sh in (1, 2):
        if texts[sh]:
            steps.append(read(dict(docs=[piece(i) for i, _ in texts[sh]]), "".join(t for _, t in texts[sh])))
            steps.append(read(dict(docs=[piece(i) for i, _ in texts[sh]]), [t for _, t in texts[sh]]))
    both = texts[1] + texts[2]
    if texts[1] and texts[2]:
        steps.append(read(dict(docs=[piece(i) for i, _ in both]), "".join(t for _, t in both)))
        both.sort()
        steps.append(read(dict(docs=[piece(i) for i, _ in both]), ["".join(t for _, t in both[:-1]), both[-1][1]]))
    if both:
        r.shuffle(both)
        both = both[: r.randrange(1, 4)] * r.choice([1, 1, 2])
        join = r.choice(["", "\n", "\r\n"])
        steps.append(read(dict(docs=[piece(i) for i, _ in both]), r.choice([lambda x: x, lambda x: [join.join(x)]])([t for _, t in both])))
    return dict(nodes=graph["nodes"], steps=steps)


# ---------------------------------------------------------------------------------------------
# texts made for the occasion

BEFORE = dict(
    marklf="#< CLIXML\n", markcrlf="#< CLIXML\r\n", mark="#< CLIXML", marktwice="#< CLIXML\r\n#< CLIXML\r\n", comment="<!-- a > b -->", pi="<?target <Objs> ?>",
    decl='<?xml version="1.0" encoding="utf-8"?>', decl16="<?xml version='1.0' encoding='utf-16' standalone='yes'?>\r\n", blank=" \r\n\t", bom="\ufeff",
)  # fmt: skip


def label(lb):
    how, _, s = lb.rpartition(" ")
    return {"none": None, "bogus": "bogus"}.get(s, s.upper() if how == "Upper" else s.title() if how == "Title" else s)


def wrapped(v):
    o = T.PSObject()
    T.add_note_property(o, "SourceId", T.PSInt64(3))
    T.add_note_property(o, "Record", v)
    return o


def elements(r, spec):
    """The elements of a document: what is said about them, and the trees."""
    els, written = [], []
    for i, (lb, k) in enumerate(spec):
        l = label(lb)
        stream = lb.rpartition(" ")[2]
        stream = stream if stream in STREAMS else "output"
        el = dict(l=units(l or ""), s="", k=k, u=[], f=[], e=None)
        if k == "text":
            x = r.choice(["plain", "a_x000A_b_xD83D__xDE00_", "", " sp ace ", "a & <b> ]]>", "_x0041", "line\nline"])
            el["e"] = E("S", x)
            el["u"] = unescape(units(x))
        elif k == "mark":
            el["u"] = units(r.choice(["its text", "a", "a & b"]))
            el["e"] = E("Obj", r="m%d" % i, c=[E("TN", r="m%d" % i, c=[E("T", "My.Thing"), E("T", "System.Object")]), E("ToString", X.text(el["u"])), E("MS", c=[E("I32", "5", n="P")])])
        elif k == "secret":
            el["u"] = K.rtext(r, 3)
            el["e"] = E("SS", "".join(r.choice(["%02x", "%02X"]) % b for b in X.text(el["u"]).encode("utf-16-le", "surrogatepass")))
        elif k == "bare":
            v = record(r, "progress")
            el["k"], el["f"] = "rec", fields(v)
            written.append((el, v))
        elif k == "rec":
            v = record(r, stream)
            el["f"] = fields(v)
            written.append((el, wrapped(v) if isinstance(v, T.ProgressRecord) else v))
        else:
            written.append((el, X.build(K.Maker(r, 6, share=0.3).graph(1, 3))[0]))
        els.append(el)
    if written:
        root = ET.fromstring(T.serialize_clixml([v for _, v in written], X.NOCRYPT))
        for (el, _), x in zip(written, root):
            el["e"] = X.tree(bare(x))
    return els


def unescape(u):
    out, i = [], 0
    while i < len(u):
        s = X.text(u[i : i + 7])
        if len(s) == 7 and s[:2] == "_x" and s[6] == "_" and all(c in "0123456789abcdefABCDEF" for c in s[2:6]):
            out.append(int(s[2:6], 16))
            i += 7
        else:
            out.append(u[i])
            i += 1
    return out


def document(r, style, els):
    def write(el, lb=""):
        p = "p:" if style == "prefix" else ""
        q = "'" if style == "quotes" else '"'
        at = [("RefId", el["r"])] * (el["r"] != "") + [("N", X.text(el["n"]))] * el["hn"] + [("S", lb)] * (lb != "")
        if style in ("quotes", "inner"):
            at.reverse()
        at = "".join(" %s=%s%s%s" % (k, q, escape(v, {q: "&#%d;" % ord(q), "\n": "&#10;"}), q) for k, v in at)
        inner = escape(X.text(el["x"])) + "".join((gap() if el["g"] != "ToString" else "") + write(c) for c in el["c"])
        return "<%s%s%s%s" % (p, el["g"], at, "/>" if not inner and r.random() < 0.7 else ">%s</%s%s>" % (inner, p, el["g"]))

    def gap():
        return r.choice(["", "\r\n  ", "<!-- <S>not this</S> -->", "<?pi this?>", " "]) if style == "inner" else "\n" if style == "wide" else ""

    body = "".join(gap() + write(el["e"], X.text(el["l"])) for el in els) + gap()
    head = dict(
        xmlns='Objs Version="1.1.0.1" xmlns="%s"' % NS, plain="Objs", prefix='p:Objs Version="1.1.0.1" xmlns:p="%s"' % NS, quotes="Objs xmlns='%s' Version='1.1.0.1'" % NS,
        wide='Objs\n    Version = "1.1.0.1"\r\n    xmlns = "%s" ' % NS, inner='Objs Version="1.1.0.1" xmlns="%s"' % NS,
    )[style]  # fmt: skip
    if not body and r.random() < 0.5:
        return "<%s%s/>" % (head, r.choice(["", " "]))
    return "<%s>%s</%s>" % (head, body, ("p:Objs" if style == "prefix" else "Objs") + (" " if style == "wide" else ""))


def text_case(r, spec):
    docs, texts = [], []
    for t in spec:
        s = ""
        for d in t:
            els = elements(r, d["els"])
            s += "".join(BEFORE[b] for b in d["before"].split())
            if d["style"] != "none":
                docs.append(dict(piece=0, els=els))
                s += document(r, d["style"], els)
        texts.append(s + (r.choice(["", "\n", "\r\n", " "]) if s else ""))
    return dict(nodes=[], steps=[read(dict(docs=docs), texts[0] if len(texts) == 1 and r.random() < 0.7 else texts)], texts=texts)


# ---------------------------------------------------------------------------------------------


def run_batch(batch):
    out = []
    for seed, kind, x in batch:
        r = random.Random(seed)
        c = history(r, x or random_ops(r)) if kind == "ops" else text_case(r, x or random_texts(r))
        out.append(dict(c, seed=seed))
    return out


KINDS = [("output", "graph")] * 5 + [("information", "graph")] * 2 + [(s, "text") for s in STREAMS if s not in ("output", "progress")] + [(s, "rec") for s in ("output", "error", "progress", "information")] + [("output", "secret")]


def random_ops(r):
    ops = []
    two = r.random() < 0.4
    long = r.random() < 0.03
    for _ in range(r.choice([70, 140, 270]) if long else r.choice([3, 8, 20, 40])):
        s, k = r.choice(KINDS)
        ops.append(dict(o="write" if long and r.random() < 0.98 else r.choice(["write"] * 6 + ["take", "take", "trip"]), sh=r.choice([1, 2]) if two else 1, s=s, k=k))
    return ops


def random_texts(r):
    def els():
        out = []
        for _ in range(r.choice([0, 1, 2, 5])):
            s, k = r.choice(KINDS + [("none", "graph"), ("bogus", "graph"), ("none", "text"), ("debug", "mark"), ("error", "mark"), ("progress", "bare"), ("none", "mark")])
            out.append((r.choice(["", "Upper ", "Title "]) + s if s in STREAMS else s, k))
        return out

    def doc(first):
        b = r.choice([x for x in ["", "", "marklf", "markcrlf", "marktwice", "mark", "marklf decl", "decl", "decl16", "comment", "pi", "blank", "blank marklf", "bom"] if first or x != "bom"])
        return dict(before=b, style=r.choice(["xmlns", "xmlns", "plain", "prefix", "quotes", "wide", "inner"]), els=els())

    return [[doc(i == 0) for i in range(r.choice([0, 1, 1, 2, 3]))] for _ in range(r.choice([1, 1, 2, 3]))]


def run_C23(chk):
    if chk.thorough:
        sets = [("one", 4, 0), ("two", 4, 0), ("one", 6, 5), ("texts", 0, 0)]
        rnd = 6000
    else:
        sets = [("one", 3, 0), ("two", 3, 0), ("one", 5, 4), ("texts", 0, 0)]
        rnd = 600
    jobs = [dict(module="ShellGen", constants=dict(Set=s, Depth=n, Cap=c, AppTypes=False), invariants=["Emit", "NothingLost"], workers=2, seed=chk.seed) for s, n, c in sets]
    todo = []
    for (s, n, c), r in zip(sets, common.parallel_tlc(jobs, 4)):
        chk.add_tlc(r)
        got = sorted(r.lines, key=repr)
        chk.cov.setdefault("enumerated", {})["%s:%d" % (s, n)] = len(got)
        todo += [(chk.rng.randrange(1 << 40), "ops" if "ops" in x else "texts", x.get("ops") or x.get("texts")) for x in got]
    for kind in ("ops", "texts"):
        chk.cov.setdefault("random", {})[kind] = rnd
        todo += [(chk.rng.randrange(1 << 40), kind, None) for _ in range(rnd)]
    for i in range(0, len(todo), 6000):
        settle(chk, todo[i : i + 6000])


def settle(chk, todo):
    out = [c for b in common.pmap(run_batch, [todo[i : i + 50] for i in range(0, len(todo), 50)], limit=120) for c in b]
    for c in out:
        if "what" in c:
            chk.violation(c["what"], case=c["case"])
    out = [c for c in out if "what" not in c]
    for c in out[:: max(1, len(out) // 3)]:
        chk.sample(dict(steps=[s["o"] for s in c["steps"]], texts=c.get("texts")))
    for c, b in common.judge(chk, "ShellJudge", out, constants=dict(AppTypes=False), drop=("seed", "texts"), par=8):
        chk.violation("step %d (%s): %s" % (b["line"], c["steps"][b["line"] - 1]["o"], b["why"]), steps=c["steps"][: b["line"]], texts=c.get("texts"))
