"""Checks decided with History.tla: a program that holds, changes, writes and reads values."""

import datetime
import random
import sys
import threading
import uuid
from xml.etree import ElementTree as ET

import clixml as X
import common
import p_checks_clixml as K
import psrpcore
from clixml import node
from psrpcore import types as T

KEEP = ("o", "at", "part", "j", "nm", "ref", "node", "rs", "how", "d")


def blank(o, **kw):
    return dict(dict(o=o, at=0, part="ex", j=0, nm=[], ref=0, node=node(), rs=[], how="", d=0), **kw)


def typed(r, some):
    """A value of one of the types of the protocol, holding some others."""
    k = r.randrange(11)
    if k == 0:
        e = T.ErrorRecord(
            Exception=T.NETException(Message="bad", HResult=-1, InnerException=T.NETException(Message="inner")),
            CategoryInfo=T.ErrorCategoryInfo(Category=T.ErrorCategory.CloseError, Activity="act", Reason="because"),
            TargetObject=some(),
            FullyQualifiedErrorId="id",
            ErrorDetails=T.ErrorDetails(Message="m") if r.random() < 0.5 else None,
        )
        e.serialize_extended = False
        return e
    if k == 1:
        return T.InformationRecord(MessageData=some(), Source="src", TimeGenerated=T.PSDateTime(2020, 1, 2), Tags=["a", "b"], User="u", Computer="c", ProcessId=1, NativeThreadId=2, ManagedThreadId=3)
    if k == 2:
        return r.choice([T.WarningRecord, T.VerboseRecord, T.DebugRecord])(Message="text", InvocationInfo=None, PipelineIterationInfo=None)
    if k == 3:
        return r.choice([T.Coordinates(X=1, Y=2), T.Size(Width=3, Height=4), T.Rectangle(Left=1, Top=2, Right=3, Bottom=4)])
    if k == 4:
        return T.KeyInfo(VirtualKeyCode=65, Character=T.PSChar("A"), ControlKeyState=T.ControlKeyStates.ShiftPressed, KeyDown=True)
    if k == 5:
        return T.ChoiceDescription(Label="l", HelpMessage="h")
    if k == 6:
        return T.PSPrimitiveDictionary({"a": 1, "b": {"c": some()}})
    if k == 7:
        return T.ProgressRecord(Activity="a", ActivityId=1, StatusDescription="s", PercentComplete=3)
    if k == 8:
        return [datetime.datetime(2020, 1, 2, 3, 4, 5, 6), datetime.timedelta(seconds=3.5), uuid.UUID(int=r.getrandbits(128)), b"abc", 1.5, None, True, 1 << 40, "text"]
    if k == 9:
        return r.choice([T.PSThreadOptions.ReuseThread, T.ConsoleColor.Red, T.PSVersion("1.2.3"), T.PSString("a"), T.PSByteArray(b"ab")])
    return T.NETException(Message="m", Data={"k": some()}, StackTrace="s")


class Program:
    """Holds values and does as it is told, writing down what happened."""

    def __init__(self, r, values=None):
        self.r, self.templates = r, values
        self.values, self.known = [], []
        self.texts, self.text_known = [], []
        self.steps = []
        self.seen = dict(nodes=[], roots=[])
        self.objs = {}

    def look(self):
        self.objs = {}
        self.seen = X.proj(self.values, plain=True, objs=self.objs)
        return self.seen

    def note(self, op, looked=True, ok=True, err="", known=True, doc=(), val=None):
        self.steps.append(dict(op={k: op[k] for k in KEEP}, ok=ok, err=err, known=known, doc=list(doc), val=val or dict(nodes=[], roots=[]), looked=looked, look=self.look() if looked else dict(nodes=[], roots=[])))
        return ok

    # what takes no change of the values
    def make(self, val=None, thing=None, op=None):
        made = X.build(val) if val else [thing]
        self.values += made
        self.known += [val is not None] * len(made)
        return self.note(op or blank("make"), val=X.proj(made, plain=True))

    def text_of(self, op):
        vals = [self.values[i - 1] for i in op["rs"]]
        if op["how"] == "each":
            return ET.tostring(T.serialize(vals[0], X.NOCRYPT), encoding="utf-8").decode()
        return T.serialize_clixml(vals if len(vals) > 1 or isinstance(vals[0], list) or self.r.random() < 0.5 else vals[0], X.NOCRYPT)

    def write_end(self, op, text, err, looked):
        known = all(self.known[i - 1] for i in op["rs"])
        doc = []
        if not err:
            try:
                if op["how"] == "each":
                    doc = [X.tree(ET.fromstring(text.encode()))]
                else:
                    doc = [X.tree(x) for x in ET.fromstring(text.replace(' xmlns="http://schemas.microsoft.com/powershell/2004/04"', "", 1))]
            except Exception as e:
                err = repr(e)
        self.texts.append((op["how"], text))
        self.text_known.append(known)
        return self.note(op, looked, not err, err, known, doc)

    def values_of(self, op):
        how, text = self.texts[op["d"] - 1]
        if how == "each":
            return [T.deserialize(ET.fromstring(text.encode()), X.NOCRYPT)]
        return T.deserialize_clixml(text, X.NOCRYPT)

    def read_end(self, op, vals, err, looked):
        val = dict(nodes=[], roots=[])
        known = self.text_known[op["d"] - 1]
        if not err:
            self.values += vals
            self.known += [known] * len(vals)
            val = X.proj(vals, plain=True)
        return self.note(op, looked, not err, err, known, val=val)

    def attempt(self, f, op):
        try:
            return f(op), ""
        except Exception as e:
            return None, repr(e)[:300]

    def one(self, op):
        """One operation; whether to go on."""
        o = op["o"]
        if o == "make":
            return self.make(self.templates[op["value"]], op=op)
        if o == "write":
            return self.write_end(op, *self.attempt(self.text_of, op), True)
        if o == "read":
            return self.read_end(op, *self.attempt(self.values_of, op), True)
        if o in ("badread", "badwrite", "session", "newtype"):
            getattr(self, o)(self.values[op["rs"][0] - 1])
            return self.note(op)
        res, err = self.attempt(self.change, op)
        return self.note(op, ok=not err, err=err)

    def together(self, ops):
        """Writing and reading at the same time."""
        res = [None] * len(ops)
        gate = threading.Barrier(len(ops))

        def go(i, op):
            gate.wait()
            res[i] = self.attempt(self.text_of if op["o"] == "write" else self.values_of, op)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ths = [threading.Thread(target=go, args=x) for x in enumerate(ops)]
            [t.start() for t in ths]
            [t.join() for t in ths]
        finally:
            sys.setswitchinterval(old)
        for i, (op, (v, err)) in enumerate(zip(ops, res)):
            end = self.write_end if op["o"] == "write" else self.read_end
            if not end(op, v, err, i == len(ops) - 1):
                return False
        return True

    # the rest of the library, used in between
    def badread(self, value):
        for text in ('<Obj RefId="0"><TN RefId="0"><T>A</T></TN><MS><Obj N="x" RefId="1"><TNRef RefId="0"/></Obj><Bad N="y"/></MS></Obj>', '<Obj RefId="0"><LST><S>a</S><Ref RefId="7"/></LST></Obj>', '<I32 RefId="0">x</I32>'):
            try:
                T.deserialize(ET.fromstring(text), X.NOCRYPT)
            except Exception:
                pass

    def badwrite(self, value):
        def fails(o):
            raise ValueError("no value")

        o = T.PSCustomObject(a=value)
        T.add_script_property(o, "b", fails)
        for v in (o, [value, o], {"k": value, "l": o}):
            try:
                T.serialize(v, X.NOCRYPT)
            except ValueError:
                pass
            try:
                T.serialize_clixml([value, v, value], X.NOCRYPT)
            except ValueError:
                pass

    def session(self, value):
        c = psrpcore.ClientRunspacePool(application_arguments={"x": value})
        s = psrpcore.ServerRunspacePool(application_private_data={"y": value})

        def pump():
            busy = True
            while busy:
                busy = False
                for a, b in ((c, s), (s, c)):
                    d = a.data_to_send()
                    while d is not None:
                        busy = True
                        b.receive_data(d)
                        d = a.data_to_send()
                    while b.next_event() is not None:
                        pass

        c.open()
        pump()
        p = psrpcore.ClientPowerShell(c)
        p.add_script("x").add_argument(value).add_parameter("p", value)
        p.start()
        q = psrpcore.ServerPipeline(s, p.pipeline_id)
        pump()
        q.start()
        p.send(value)
        q.write_output(value)
        pump()

    def newtype(self, value):
        name = "My.New%d" % self.r.randrange(1 << 30)

        @T.PSType([name], adapted_properties=[T.PSNoteProperty("a")])
        class New(T.PSObject):
            pass

        T.serialize([New(a=value), value], X.NOCRYPT)

    def change(self, op):
        o = op["o"]
        v = self.objs[op["at"]]
        name = X.text(op["nm"])
        if o in ("set", "prop", "item"):
            new = self.objs[op["ref"]] if op["ref"] else X.build(dict(nodes=[op["node"]], roots=[1]))[0]
            if not op["ref"]:
                op["node"] = X.proj([new], plain=True)["nodes"][0]  # as it is seen
        if o == "set":
            if type(v) is X.Plain:
                setattr(v, sorted(vars(v))[op["j"] - 1], new)
            else:
                ps = v.PSObject
                p = (ps.adapted_properties if op["part"] == "ad" else ps.extended_properties)[op["j"] - 1]
                clash = sum(q.name == p.name for q in ps.adapted_properties + ps.extended_properties)
                if clash == 1 and p.name not in object.__getattribute__(v, "__dict__") and not hasattr(type(v), p.name) and self.r.random() < 0.5:
                    setattr(v, p.name, new)
                else:
                    p.set_value(new, v)
        elif o == "prop":
            if self.r.random() < 0.5:
                T.add_note_property(v, name, new)
            else:
                v.PSObject.extended_properties.append(T.PSNoteProperty(name, new))
        elif o == "item":
            if isinstance(v, dict):
                v[name] = new
            elif hasattr(v, "put"):
                v.put(new)
            else:
                v.append(new)
        elif o == "drop":
            if isinstance(v, dict):
                v.popitem()
            elif hasattr(v, "put"):
                v.get()
            else:
                v.pop()
        elif o == "name":
            v.PSTypeNames.insert(0, name)
        elif o == "text":
            v.PSObject.to_string = name
        else:
            raise ValueError(o)

    def resolve(self, op):
        """The place a path leads to, in what was last seen."""
        i = self.seen["roots"][op["rs"][0] - 1]
        for s in op["path"]:
            n = self.seen["nodes"][i - 1]
            i = n["it"][s["j"] - 1] if s["p"] == "it" else n[s["p"]][s["j"] - 1]["v"]
        op = dict(op, at=i)
        if op["ref"]:
            op["ref"] = self.seen["roots"][op["j"] - 1]
        return op


def run_gen(batch):
    values, todo = batch
    out = []
    for seed, ops in todo:
        p = Program(random.Random(seed), values)
        for op in ops:
            if op["o"] in CHANGES:
                op = p.resolve(op)
            if not p.one(op):
                break
        out.append(dict(seed=seed, steps=p.steps))
    return out


CHANGES = "set prop item drop name text".split()


def run_random(batch):
    seeds, length, threads = batch
    return [random_history(random.Random(s), s, length, threads) for s in seeds]


def random_history(r, seed, length, threads):
    p = Program(r)
    made = []

    def some():
        return X.build(K.Maker(r, 4, share=0.3).graph(1, 2))[0]

    def graph():
        if made and r.random() < 0.3:
            return r.choice(made)
        made.append(K.Maker(r, r.choice([3, 8, 14]), share=r.choice([0.1, 0.4])).graph(r.choice([1, 1, 2]), 4))
        return made[-1]

    def write():
        rs = [r.randint(1, len(p.values)) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        return blank("write", rs=rs, how="all" if len(rs) > 1 else r.choice(["each", "all"]))

    def read():
        return blank("read", d=r.randint(1, len(p.texts)))

    names = [0]
    go = p.make(graph())
    while go and len(p.steps) < length and len(p.seen["nodes"]) < 150:
        k = r.random()
        if k < 0.12:
            go = p.make(graph())
        elif k < 0.17:
            go = p.make(thing=typed(r, some))
        elif k < 0.4:
            go = p.one(write())
        elif k < 0.55 and p.texts:
            go = p.one(read())
        elif k < 0.62:
            go = p.one(blank(r.choice(["badread", "badwrite", "session", "newtype"]), rs=[r.randint(1, len(p.values))]))
        elif k < 0.7 and threads:
            go = p.together([read() if p.texts and r.random() < 0.4 else write() for _ in range(r.choice([2, 3, 5]))])
        else:
            op = some_change(r, p, names)
            if op:
                go = p.one(op)
    return dict(seed=seed, steps=p.steps)


def some_change(r, p, names):
    ns = p.seen["nodes"]
    cand = [i for i in range(1, len(ns) + 1) if ns[i - 1]["k"] == "Obj" and i in p.objs]
    if not cand:
        return None
    i = r.choice(cand)
    n = ns[i - 1]
    generic = n["py"] in ("PSCustomObject", "PSObject")
    names[0] += 1
    op = blank("", at=i, nm=X.units("z%03d" % names[0]), node=K.rprim(r))
    objs = [j for j in cand if ns[j - 1]["py"] in ("PSCustomObject", "PSObject", "object")]
    if objs and r.random() < 0.4:
        op["ref"] = r.choice(objs)
    kinds = []
    if generic or n["py"] == "object":
        places = [(part, j + 1) for part in ("ad", "ex") for j in range(len(n[part]))]
        if places:
            kinds += ["set"] * 2
    if generic:
        kinds += ["prop", "name", "text"]
    elif n["py"].startswith("PS"):
        kinds += ["prop"]
    if n["c"]:
        kinds += ["item", "item"] + (["drop"] if n["it"] else [])
    if not kinds:
        return None
    op["o"] = r.choice(kinds)
    if op["o"] == "set":
        op["part"], op["j"] = r.choice(places)
    return op


def run_C21(chk):
    if chk.thorough:
        sets = [("names", 3, 0), ("circle", 3, 12), ("kinds", 3, 12), ("plain", 3, 0), ("twice", 3, 12), ("", 4, 5), ("", 6, 3)]
        rnd, length = 2000, 20
    else:
        sets = [("names", 2, 0), ("circle", 2, 0), ("kinds", 2, 0), ("plain", 2, 0), ("twice", 2, 0), ("", 4, 4)]
        rnd, length = 300, 16
    jobs = [dict(module="HistGen", constants=dict(Start=s, Depth=n, Cap=c, AppTypes=False), properties=["Apart"], view="View", workers=2, seed=chk.seed) for s, n, c in sets]
    todo, values = [], None
    for (s, n, c), r in zip(sets, common.parallel_tlc(jobs, 4)):
        chk.add_tlc(r)
        values = [x["values"] for x in r.lines if "values" in x][0]
        got = sorted((x["ops"] for x in r.lines if "ops" in x), key=repr)
        # the histories that are not the beginning of another one
        begun = {repr(o[:-1]) for o in got}
        got = [o for o in got if repr(o) not in begun]
        chk.cov.setdefault("enumerated", {})["%s:%d" % (s or "any", n)] = len(got)
        todo += [(chk.rng.randrange(1 << 40), ops) for ops in got]
    chk.cov["random"] = dict(histories=rnd)
    seeds = [chk.rng.randrange(1 << 40) for _ in range(rnd)]
    # a part at a time, what the programs saw takes space
    for i in range(0, len(todo), 3500):
        part = todo[i : i + 3500]
        settle(chk, common.pmap(run_gen, [(values, part[j : j + 60]) for j in range(0, len(part), 60)], limit=120))
    for i in range(0, rnd, 400):
        part = seeds[i : i + 400]
        settle(chk, common.pmap(run_random, [(part[j : j + 10], length, j % 20 == 0) for j in range(0, len(part), 10)], limit=120))


def settle(chk, batches):
    out = [h for b in batches for h in b]
    for h in out:
        if "what" in h:
            chk.violation(h["what"], case=h["case"])
    out = [c for c in out if "what" not in c]
    chk.cov["steps"] = chk.cov.get("steps", 0) + sum(len(c["steps"]) for c in out)
    for c in out[:: max(1, len(out) // 3)]:
        chk.sample(dict(ops=[s["op"]["o"] for s in c["steps"]]))
    for c, b in common.judge(chk, "HistJudge", out, constants=dict(AppTypes=False), drop=("seed",), par=8):
        chk.violation("step %d (%s): %s" % (b["line"], c["steps"][b["line"] - 1]["op"]["o"], b["why"]), steps=c["steps"][: b["line"]])
