"""Checks decided with Objects.tla: members of classes and objects."""

import random

import common
from psrpcore import types as T

TYPES = {"PSInt": T.PSInt, "PSString": T.PSString, "": None}


def getter(name, i=0):
    if i % 3 == 0:
        return lambda o: getattr(o, name)
    if i % 3 == 1:
        return lambda o: o[name]
    return lambda o, *more: o[name]


def setter(name, i=0):
    if not name:
        return None
    if i % 2:
        return lambda o, v: setattr(o, name, v)

    def put(o, v, extra=None):
        o[name] = v

    return put


class World:
    """The classes and objects of one history."""

    def __init__(self, classes, names, marks, rnd, mine):
        self.r, self.names, self.marks = rnd, names, marks
        self.classes, self.objs = {}, []
        base = {"": T.PSObject}
        for c in classes:
            ad, ex = ([self.member(p) for p in c[part]] for part in ("ad", "ex"))
            if c["name"] == "Bag" and not mine:
                k = T.PSCustomObject
            else:
                sup = T.PSCustomObject if c["name"] == "Bag" else self.classes.get(c["sup"], T.PSObject)
                k = type(c["name"], (sup,), {})
                if c["kind"] != "same":
                    k = T.PSType(list(c["tn"]), ad, ex, skip_inheritance=c["kind"] == "alone" or c["name"] == "Bag", rehydrate=False)(k)
                    if c["name"] == "Bag":
                        k.PSObject.type_names.append("System.Object")
            self.classes[c["name"]] = k

    def value(self, x):
        t = x["t"]
        if t == "Nil":
            return None
        if t == "object":
            return self.objs[x["n"] - 1]
        return {"int": int, "str": str, "PSInt": lambda v: T.PSInt(int(v)), "PSString": T.PSString}[t](x["v"])

    def seen(self, v):
        if v is None:
            return dict(t="Nil", v="", n=0)
        for i, o in enumerate(self.objs):
            if v is o:
                return dict(t="object", v="", n=i + 1)
        if type(v) in (int, str, T.PSInt, T.PSString):
            return dict(t=type(v).__name__, v=str(v) if isinstance(v, str) else int.__repr__(v), n=0)
        return dict(t="other", v=type(v).__name__, n=0)

    def member(self, p):
        ty = TYPES[p["ty"]]
        i = self.r.randrange(60)
        if p["k"] == "note":
            val = self.value(p["val"])
            if val is None and i % 2:
                return T.PSNoteProperty(p["name"], mandatory=p["man"], ps_type=ty)
            return T.PSNoteProperty(p["name"], val, p["man"], ty)
        if p["k"] == "script":
            return T.PSScriptProperty(p["name"], getter(p["get"], i), setter(p["set"], i), mandatory=p["man"], ps_type=ty)
        return T.PSAliasProperty(p["name"], p["get"], ps_type=ty)

    def add(self, to, p, force):
        ty = TYPES[p["ty"]]
        if p["man"] or self.r.random() < 0.5:
            T.add_member(to, self.member(p), force=force)
        elif p["k"] == "note":
            T.add_note_property(to, p["name"], self.value(p["val"]), ps_type=ty, force=force)
        elif p["k"] == "script":
            T.add_script_property(to, p["name"], getter(p["get"], self.r.randrange(9)), setter(p["set"], self.r.randrange(9)), ps_type=ty, force=force)
        else:
            T.add_alias_property(to, p["name"], p["get"], ps_type=ty, force=force)

    def do(self, op):
        what = op["o"]
        o = self.objs[op["i"] - 1] if op["i"] else None
        if what == "new":
            made = self.classes[op["c"]](*[self.value(x) for x in op["pos"]], **{k["name"]: self.value(k["val"]) for k in op["kw"]})
            self.objs.append(made)
        elif what == "set":
            if self.r.random() < 0.5:
                setattr(o, op["nm"], self.value(op["x"]))
            else:
                o[op["nm"]] = self.value(op["x"])
        elif what == "add":
            self.add(o, op["p"], op["force"])
        elif what == "cadd":
            self.add(self.classes[op["c"]], op["p"], op["force"])
        elif what == "tn":
            (o.PSTypeNames if self.r.random() < 0.5 else o.PSObject.type_names).insert(0, op["nm"])
        elif what == "untn":
            o.PSObject.type_names.pop(0)
        elif what == "ts":
            o.PSObject.to_string = op["nm"]

    def read(self, f):
        try:
            return self.seen(f())
        except RecursionError:
            raise
        except Exception:
            return dict(t="refused", v="", n=0)

    def look(self):
        out = []
        for o in self.objs:
            every = [self.read(lambda: getattr(o, n)) for n in self.names]
            if every != [self.read(lambda: o[n]) for n in self.names]:
                raise AssertionError("o[name] and o.name differ")
            try:
                v = vars(o)
            except Exception:
                v = None
            for n, x in zip(self.names, every):
                if v is not None and (n in v) != (x["t"] != "refused"):
                    raise AssertionError("vars() has other members than there are")
                if v is not None and n in v and self.seen(v[n]) != x:
                    raise AssertionError("vars() shows another value of " + n)
                if v is not None and hasattr(o, n) != (x["t"] != "refused"):
                    raise AssertionError("hasattr() disagrees")
            ts = o.PSObject.to_string
            if ts is not None and str(o) != ts:
                raise AssertionError("str() is not the text set")
            isa = []
            for m in self.marks:
                pair = [T.ps_isinstance(o, m), T.ps_isinstance(o, m, ignore_deserialized=True)]
                forms = [("Nobody", m)]
                for k in ("Base", "Derived"):
                    if m == "My." + k:
                        forms += [self.classes[k], (T.PSDateTime, self.classes[k])]
                for f in forms:
                    if [T.ps_isinstance(o, f), T.ps_isinstance(o, f, ignore_deserialized=True)] != pair:
                        raise AssertionError("ps_isinstance depends on how the type is named")
                isa.append(pair)
            part = lambda ps: [dict(name=p.name, val=self.read(lambda: p.get_value(o))) for p in ps]
            out.append(dict(ad=part(o.PSObject.adapted_properties), ex=part(o.PSObject.extended_properties), all=every, tn=list(o.PSTypeNames), hts=ts is not None, ts=ts or "", isa=isa))
        return out


def run(batch):
    info, todo = batch
    out = []
    for seed, ops in todo:
        w = World(info["classes"], info["names"], info["marks"], random.Random(seed), any(op["o"] == "cadd" for op in ops))
        steps = []
        for op in ops:
            step = dict(op=op, ok=True, err="", look=[])
            try:
                w.do(op)
            except RecursionError:
                step["err"] = "never ends"
            except Exception:
                step["ok"] = False
            if not step["err"]:
                try:
                    step["look"] = w.look()
                except Exception as e:
                    step["err"] = "%s: %s" % (type(e).__name__, str(e)[:200])
            steps.append(step)
        out.append(dict(seed=seed, steps=steps))
    return out


# ---------------------------------------------------------------------------------------------
# histories nobody enumerated


def val(t, v="", n=0):
    return dict(t=t, v=v, n=n)


def some_value(r, n):
    k = r.random()
    if k < 0.12 and n:
        return val("object", "", r.randint(1, n))
    if k < 0.25:
        return val("Nil")
    if k < 0.55:
        return val(r.choice(["int", "PSInt"]), r.choice(["0", "5", "7", "-1", "2147483647", "-2147483648"]))
    if k < 0.62:
        return val("int", r.choice(["2147483648", "-2147483649"]))
    return val(r.choice(["str", "PSString"]), r.choice(["", "x", "7", "-1", "value", "2147483648"]))


def some_member(r, names, n):
    nm = r.choice(names)
    k = r.random()
    p = dict(k="note", name=nm, ty=r.choice(["", "", "PSInt", "PSString"]), man=False, val=val("Nil"), get="", set="")
    if k < 0.5:
        p["val"] = some_value(r, n)
    elif k < 0.8:
        p.update(k="script", get=r.choice(names), set=r.choice(["", r.choice(names)]))
    else:
        p.update(k="alias", get=r.choice(names))
    return p


def some_ops(r, info, length):
    """A random history; what the specification does not define ends it there."""
    names, cs = info["names"], [c["name"] for c in info["classes"]]
    mine = r.sample(cs, r.randint(1, 3))
    n, ops, made = 0, [], []
    for _ in range(length):
        op = dict(o="new", i=0, c="", nm="", x=val("Nil"), p=some_member(r, names, 0), force=r.random() < 0.6, pos=[], kw=[])
        what = "new" if n == 0 else r.choice("new set set set set add add add cadd tn untn ts".split())
        op["o"] = what
        if what == "new":
            op["c"] = r.choice(mine)
            need = {"Base": ["A"], "Bare": ["A"], "Derived": [], "Must": ["W"], "Alone": [], "Bag": [], "Named": ["A"]}[op["c"]]
            bag = op["c"] in ("Bag", "Named")
            full = n == 0 or r.random() < 0.8
            kw = [dict(name=m, val=val("int", "7")) for m in need if full]
            if not bag and not need and r.random() < 0.3:
                op["pos"] = [some_value(r, n) for _ in range(r.randint(0, 3))]
            elif r.random() < 0.5:
                for m in r.sample(names, r.randint(0, 3)):
                    if m not in need and (bag or r.random() < 0.5):
                        kw.append(dict(name=m, val=some_value(r, n)))
            if bag and r.random() < 0.3:
                kw.append(dict(name="PSTypeName", val=val("str", r.choice(["Own", "My.Base", "Deserialized.My.Derived"]))))
            r.shuffle(kw)
            op["kw"] = kw
            if full and not op["pos"]:
                n += 1  # at least probably
        elif what == "cadd":
            op["c"] = r.choice([c for c in mine if c != "Bare"] or ["Base"])
        else:
            op["i"] = r.randint(1, n)
            if what == "set":
                op["nm"], op["x"] = r.choice(names), some_value(r, n)
            elif what == "add":
                op["p"] = some_member(r, names, n)
            elif what == "tn":
                op["nm"] = r.choice(["My.Base", "Deserialized.My.Base", "My.Derived", "System.Object", "Deserialized.My.Derived"])
            elif what == "ts":
                op["nm"] = r.choice(["", "text"])
        ops.append(op)
    return ops


def run_random(batch):
    info, seeds, length = batch
    out = []
    for s in seeds:
        r = random.Random(s)
        ops = some_ops(r, info, length)
        good, n = [], 0
        # histories refer only to objects that were made
        w = World(info["classes"], info["names"], info["marks"], random.Random(s), True)
        for op in ops:
            ref = [op["i"], op["x"]["n"], op["p"]["val"]["n"]] + [x["n"] for x in op["pos"]] + [k["val"]["n"] for k in op["kw"]]
            if max(ref) > len(w.objs):
                continue
            try:
                w.do(op)
            except Exception:
                pass
            good.append(op)
        out += run((info, [(s, good)]))
    return out


def run_C20(chk):
    info = common.tlc("ObjJudge", env=dict(TRACE=empty()), spec="Spec", workers=1).lines[0]
    if chk.thorough:
        sets = [("new", 1, 0), ("new", 2, 150), ("one", 1, 0), ("one", 2, 60), ("two", 1, 0), ("two", 2, 40), ("two", 3, 8)]
    else:
        sets = [("new", 1, 0), ("one", 1, 0), ("one", 2, 4), ("two", 1, 0), ("two", 2, 6)]
    jobs = [dict(module="ObjGen", constants=dict(Set=s, Depth=n, Cap=c), properties=["Isolated"], view="View", workers=2, seed=chk.seed, heap="6g") for s, n, c in sets]
    todo = []
    for (s, n, c), r in zip(sets, common.parallel_tlc(jobs, 4)):
        chk.add_tlc(r)
        got = sorted((x["ops"] for x in r.lines), key=repr)
        chk.cov.setdefault("enumerated", {})["%s:%d" % (s, n)] = len(got)
        todo += [(chk.rng.randrange(1 << 40), ops) for ops in got]
    rnd = 6000 if chk.thorough else 500
    chk.cov["random"] = dict(histories=rnd)
    seeds = [chk.rng.randrange(1 << 40) for _ in range(rnd)]
    out = []
    for b in common.pmap(run, [(info, todo[i : i + 100]) for i in range(0, len(todo), 100)], limit=120):
        out += b
    for b in common.pmap(run_random, [(info, seeds[i : i + 25], 14) for i in range(0, rnd, 25)], limit=120):
        out += b
    for h in out:
        if "what" in h:
            chk.violation(h["what"], case=h["case"])
    out = [c for c in out if "what" not in c]
    for c in out[:: max(1, len(out) // 6)]:
        chk.sample(dict(ops=[s["op"]["o"] for s in c["steps"]], last=c["steps"][-1]["op"], shown=c["steps"][-1]["look"]))
    for c, b in common.judge(chk, "ObjJudge", out, drop=("seed",), par=8):
        chk.violation("after %d operations: %s" % (b["line"], b["why"]), ops=[s["op"] for s in c["steps"][: b["line"]]], ok=[s["ok"] for s in c["steps"][: b["line"]]])


def empty():
    f = common.scratch() / "none.json"
    f.write_text("[]")
    return str(f)
