"""Checks decided with Numbers.tla: numbers, characters, versions, enumerations, durations and dates."""

import datetime
import operator
import random
import re

import clixml as X
import common
from clixml import text, units
from psrpcore import types as T

TAGS = "By SB U16 I16 U32 I32 U64 I64".split()
CMP = [("eq", operator.eq), ("ne", operator.ne), ("lt", operator.lt), ("le", operator.le), ("gt", operator.gt), ("ge", operator.ge)]
EPOCH = datetime.datetime(1, 1, 1)
NAMES = {"None": "none"}  # not a name in Python
ZONE = datetime.timezone(datetime.timedelta(hours=-7, minutes=-30))


def written(v):
    el = T.serialize(v, X.NOCRYPT)
    return el.tag, units(el.text or "")


def compare(a, b):
    return {n: bool(f(a, b)) for n, f in CMP}


def digits(v):
    return units(int.__str__(int(v)))


UNARY = dict(neg=operator.neg, pos=operator.pos, abs=abs, inv=operator.invert)
BINARY = dict(add=operator.add, sub=operator.sub, mul=operator.mul, div=operator.floordiv, mod=operator.mod, divmod=divmod, pow=operator.pow, lsh=operator.lshift, rsh=operator.rshift, xor=operator.xor)
BINARY.update({"and": operator.and_, "or": operator.or_})
NONE = 99999  # an end that is not given


def declare(g, vs, flag):
    base = T.PSFlagBase if flag else T.PSEnumBase
    name = "Some"
    meta = type(base)
    ns = meta.__prepare__(name, (base,))
    ns["__module__"] = __name__
    ns["__qualname__"] = name
    for i, v in enumerate(vs):
        ns["M%d" % i] = v
    return meta(name, (base,), ns, base_type=getattr(T, X.CLS[g]))


def joined(ps):
    return [x for i, p in enumerate(ps) for x in ([46] if i else []) + list(p)]


def parts_of(v):
    return [digits(x) for x in (v.major, v.minor, v.build, v.revision) if x is not None]


def version(ps):
    return T.PSVersion(**{n: int(text(x)) for n, x in zip("major minor build revision".split(), ps)})


def span(x, plain=False):
    if plain:
        return datetime.timedelta(days=x[0], seconds=x[1], microseconds=x[2] // 1000)
    return T.PSDuration(days=x[0], seconds=x[1], nanoseconds=x[2])


def span_of(v):
    ns = getattr(v, "nanoseconds", 0)
    return [v.days, v.seconds, v.microseconds * 1000 + ns]


def date(x, zone, plain=False):
    d = EPOCH + datetime.timedelta(days=x[0], seconds=x[1], microseconds=x[2] // 1000)
    d = d.replace(tzinfo=(None, ZONE, datetime.timezone.utc)[zone])
    return d if plain else T.PSDateTime(d, nanosecond=x[2] % 1000)


def date_of(v, zone):
    if type(v) is not T.PSDateTime or (v.tzinfo is not None) != bool(zone):
        return ["another kind of date"]
    d = datetime.datetime(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond) - EPOCH
    return [d.days, d.seconds, d.microseconds * 1000 + v.nanosecond]


def name_of(v):
    """The names an enumeration value is shown under, in the order of the members."""
    n = v.name
    m = re.match(r"<[\w.]+\.([\w|]+): ", repr(v))
    shown = m.group(1) if m else repr(v)
    if n is not None and n != shown:
        return units(n + " shown as " + shown)
    order = list(type(v).__members__)
    shown = {v: k for k, v in NAMES.items()}.get(shown, shown)
    return units("|".join(sorted(shown.split("|"), key=lambda x: order.index(x) if x in order else -1)))


def made(c, what):
    k, how = c["k"], c.get("how")
    if k == "int":
        cls, n = getattr(T, X.CLS[c["g"]]), int(text(c["s"]))
        if how == "enum":
            v = cls(what)
        elif how == "other":
            v = cls(what)
        else:
            v = cls(text(c["s"]) if how == "text" else n)
        tag, tx = written(v)
        return dict(own=type(v) is cls, v=digits(v), shown=units(str(v)), tag=tag, text=tx)
    if k == "op":
        a, op = getattr(T, X.CLS[c["g"]])(int(text(c["a"]))), c["op"]
        v = UNARY[op](a) if op in UNARY else BINARY[op](a, what)
        if op == "divmod":
            v, rem = v
        r = dict(v=digits(v), own=type(v) is type(a))
        return dict(r, rem=digits(rem)) if op == "divmod" else r
    if k == "char":
        v = T.PSChar(what)
        tag, tx = written(v)
        return dict(own=type(v) is T.PSChar, v=digits(v), shown=units(str(v)), tag=tag, text=tx)
    if k == "version":
        v = T.PSVersion(text(c["u"])) if how == "text" else version(c["parts"])
        tag, tx = written(v)
        return dict(v=parts_of(v), shown=units(str(v)), text=tx if tag == "Version" else units("as " + tag))
    if k == "enum":
        cls = X.cls_of(c["c"])
        v = cls(what)
        name = name_of(v)
        back = T.deserialize(T.serialize(v, X.NOCRYPT), X.NOCRYPT)
        same = back == v and type(back) is cls and (type(v).__members__.get(v.name, v) is v) and cls(int(v)) is v
        return dict(own=type(v) is cls, v=int(v), name=name, same=same)
    if k == "member":
        return dict(v=int(X.cls_of(c["c"])[NAMES.get(text(c["u"]), text(c["u"]))]))
    if k == "flags":
        cls = X.cls_of(c["c"])
        a = cls(c["a"])
        b = T.PSInt(c["b"]) if how == "int" else cls(c["b"])
        v = ~a if c["op"] == "not" else dict(**{"or": operator.or_}, **{"and": operator.and_}, xor=operator.xor)[c["op"]](a, b)
        return dict(v=int(v), own=type(v) is cls, holds=cls(c["b"]) in a)
    if k == "declare":
        cls = declare(c["g"], [int(text(x)) for x in c["vs"]], c["flag"])
        ms = list(cls.__members__.values())
        own = all(type(m) is cls and cls(int(m)) is m and cls[m.name] is m for m in ms)
        tags = {g for g in TAGS if all(type(m.value) is getattr(T, X.CLS[g]) for m in ms)}
        return dict(v=[digits(m) for m in ms], tag=min(tags) if tags else "none", own=own)


def hashed(a, b):
    return hash(a) == hash(b) and len({a, b}) == 1 and {a: 1}.get(b) == 1


def observed(c):
    k, how = c["k"], c.get("how")
    if k == "order":
        a, b = (T.PSVersion(text(t)) for t in (joined(c["a"]), joined(c["b"])))
        res = dict(text=lambda: compare(a, str(b)), rtext=lambda: compare(str(a), b)).get(how, lambda: compare(a, b))()
        return dict(res=res, hash=hashed(a, b))
    if k == "compare":
        cls = getattr(T, X.CLS[c["g"]])
        a, b = cls(int(text(c["a"]))), int(text(c["b"]))
        if c["h"] != "int":
            b = getattr(T, X.CLS[c["g"] if c["h"] == "same" else c["h"]])(b)
        return dict(res=compare(a, b), truth=bool(a), hash=hashed(a, b))
    if k in ("slice", "item"):
        cls = getattr(T, X.CLS[c["t"]])
        raw = c["t"] == "BA"
        v = cls(bytes(x % 256 for x in c["u"])) if raw else cls(text(c["u"]))
        if k == "item":
            w = v[c["i"]]
            return dict(v=([w] if type(w) is int else [-1]) if raw else units(w), own=type(w) is (int if raw else cls))
        i, j = (None if x == NONE else x for x in (c["i"], c["j"]))
        w = v[i:j:c["s"]] if c["s"] != 1 else v[i:j]
        return dict(v=list(w) if raw else units(w), own=type(w) is cls)
    if k == "shown":
        d = c["d"]
        if c["t"] == "TS":
            return dict(v=units(str(T.PSDuration(days=d[0], seconds=d[1], nanoseconds=d[2]))))
        tz = None if c["off"] == NONE else datetime.timezone(datetime.timedelta(minutes=c["off"]))
        return dict(v=units(str(T.PSDateTime(*d[:6], d[6] // 1000, tzinfo=tz, nanosecond=d[6] % 1000))))
    if k == "span":
        a, b = span(c["a"], how == "rtimedelta"), span(c["b"], how == "timedelta")
        own = T.PSDuration
        r = dict(a1=span_of(a), sum=a + b, diff=a - b, rdiff=b - a, neg=-a)
        if how != "rtimedelta":
            r["neg"] = r["neg"] if type(r["neg"]) is own else None
        for f in ("sum", "diff", "rdiff", "neg"):
            r[f] = span_of(r[f]) if type(r[f]) is own or (f == "neg" and how == "rtimedelta") else ["another type"]
        return dict(r, res=compare(a, b), hash=hashed(a, b), copied=[span_of(T.PSDuration(a)), span_of(T.PSDuration(b)), span_of(+a)])
    if k == "dates":
        a, b = date(c["a"], c["zone"], how == "rdatetime"), date(c["b"], c["zb"], how == "datetime")
        between = a - b
        return dict(res=compare(a, b), hash=hashed(a, b), between=span_of(between) if type(between) is T.PSDuration else ["another type"])
    if k == "date":
        a, b = date(c["a"], c["zone"]), span(c["b"], how == "timedelta")
        later = a + b
        back = later - a
        kept = [date_of(x, 1) for x in (a.replace(tzinfo=ZONE), a.replace(tzinfo=None).replace(tzinfo=ZONE))]
        moved = date_of(a.astimezone(datetime.timezone.utc) if c["zone"] else a, c["zone"])
        return dict(later=date_of(later, c["zone"]), earlier=date_of(a - b, c["zone"]), back=span_of(back) if type(back) is T.PSDuration else ["another type"], added=date_of(b + a, c["zone"]), kept=kept, moved=moved, copied=date_of(T.PSDateTime(a), c["zone"]))


def subject(c):
    """What to make the value from; None when there is no such thing."""
    k, how = c["k"], c.get("how")
    if k == "int" and how == "enum":
        g = next((g for g in TAGS if within(g, int(text(c["s"])))), None)
        return declare(g, [int(text(c["s"]))], False).M0 if g else None
    if k == "int" and how == "other":
        g = next((g for g in reversed(TAGS) if within(g, int(text(c["s"])))), None)
        return getattr(T, X.CLS[g])(int(text(c["s"]))) if g else None
    if k == "op":
        n = int(text(c["b"]))
        g = next((g for g in reversed(TAGS) if within(g, n)), None)
        return n if how == "int" or c["op"] in UNARY else getattr(T, X.CLS[g])(n) if g else None
    if k in ("slice", "item") and c["t"] == "BA":
        return dict(c, u=[x % 256 for x in c["u"]])
    if k == "char":
        if how == "bytes":
            try:
                return text(c["u"]).encode("utf-8")
            except UnicodeEncodeError:
                return None
        if how == "char":
            return T.PSChar(c["u"][0]) if len(c["u"]) == 1 else None
        return T.PSString(text(c["u"])) if how == "PSString" else text(c["u"])
    if k == "enum":
        return c["n"] if how == "int" else T.PSInt(c["n"]) if how == "PSInt" else T.PSInt64(c["n"])
    if k == "span":
        x = c["a"] if how == "rtimedelta" else c["b"]
        return x if how == "duration" or x[2] % 1000 == 0 else None
    if k == "dates":
        x = c["a"] if how == "rdatetime" else c["b"]
        return c["b"] if how == "date" or x[2] % 1000 == 0 else None
    if k == "date":
        return c["b"] if how == "duration" or c["b"][2] % 1000 == 0 else None
    return c


def within(g, n):
    w = dict(By=8, U16=16, U32=32, U64=64).get(g)
    if w:
        return 0 <= n < 1 << w
    w = dict(SB=7, I16=15, I32=31, I64=63)[g]
    return -(1 << w) <= n < 1 << w


def run(batch):
    app, cases = batch
    if app:
        X.register_app()
    out = []
    for c in cases:
        try:
            what = subject(c)
            if what is None:
                continue
            c = what if isinstance(what, dict) else c
            r = made(c, what) if c["k"] in ("int", "op", "char", "version", "enum", "member", "flags", "declare") else observed(c)
            out.append(dict(c, ok=True, **r))
        except Exception as e:
            out.append(dict(c, ok=False, err=repr(e)[:200]))
    return out


# ---------------------------------------------------------------------------------------------


def some_int(r):
    n = r.choice([r.randrange(1 << r.choice([3, 8, 16, 32, 64, 70])), (1 << r.choice([7, 8, 15, 16, 31, 32, 63, 64])) + r.randint(-3, 3)])
    return -n if r.random() < 0.5 else n


def some_span(r, days=10000000):
    n = r.choice([r.randrange(1000), r.randrange(10**9), r.randrange(10**6) * 1000, 0])
    return [r.choice([0, r.randint(-3, 3), r.randint(-days, days)]), r.choice([0, r.randrange(86400), 86399]), n]


def some(r, enums):
    k = r.choice("int op op compare slice shown char version order enum flags declare span date dates".split())
    if k == "op":
        g = r.choice(TAGS)
        a = next(n for n in (some_int(r) >> r.choice([0, 0, 8, 24, 40, 56]) for _ in range(1000)) if within(g, n))
        op = r.choice(sorted(UNARY) + sorted(BINARY) * 3)
        b = 0 if op in UNARY else r.randrange(6) if op == "pow" else r.randrange(-1, 70) if op in ("lsh", "rsh") else some_int(r) >> r.choice([0, 8, 24, 40, 60])
        return dict(k=k, g=g, op=op, a=units(str(a)), b=units(str(b)), how=r.choice(["int", "other"]))
    if k == "compare":
        g, h = r.choice(TAGS), r.choice(TAGS + ["int"])
        a = next(n for n in (some_int(r) >> r.choice([0, 0, 8, 24, 40, 56]) for _ in range(1000)) if within(g, n))
        b = a if r.random() < 0.3 else some_int(r) >> r.choice([0, 0, 8, 24, 40, 56])
        return dict(k=k, g=g, h=h if h == "int" or within(h, b) else "int", a=units(str(a)), b=units(str(b)))
    if k == "slice":
        u = [r.choice([r.randrange(1, 0xD800), r.randrange(0xE000, 0x10000)]) for _ in range(r.randrange(12))]
        return dict(k=k, t=r.choice(X.TEXTS + ["BA"]), u=u, i=r.choice([NONE, r.randrange(-15, 15)]), j=r.choice([NONE, r.randrange(-15, 15)]), s=r.choice([1, 1, 2, 3, -1, -2, -4]))
    if k == "shown":
        n = r.choice([0, r.randrange(10**9), r.randrange(10**6) * 1000, r.randrange(1000)])
        if r.random() < 0.5:
            return dict(k=k, t="TS", d=[r.choice([0, 1, -1, r.randint(-10000000, 10000000)]), r.randrange(86400), n], off=NONE)
        return dict(k=k, t="DT", d=[r.randrange(1, 10000), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60), n], off=r.choice([NONE, r.randrange(-840, 841)]))
    if k == "int":
        n = some_int(r)
        how = r.choice(["int", "text", "enum", "other"])
        return dict(k=k, g=r.choice(TAGS + ["C"] if how == "int" else TAGS), s=units(str(n)), how=how)
    if k == "char":
        return dict(k=k, u=[r.randrange(65536) for _ in range(r.choice([1, 1, 1, 2]))], how=r.choice(["text", "PSString", "bytes", "char"]))
    if k == "version":
        ps = [units(str(abs(r.choice([some_int(r), r.randrange(20)])))) for _ in range(r.randint(2, 4))]
        how = r.choice(["text", "parts"])
        if how == "text" and r.random() < 0.4:
            p = r.choice(ps)
            p.insert(r.randint(0, len(p)), r.choice([32, 9, 10, 43, 45, 48, 95, 46, 1632, 178, 0]))
        return dict(k=k, how=how, parts=ps, u=joined(ps))
    if k == "order":
        a = [units(str(r.choice([r.randrange(4), r.randrange(200), r.randrange(1 << 31)]))) for _ in range(r.randint(2, 4))]
        b = list(a)
        for _ in range(r.choice([0, 1, 2])):
            i = r.randrange(len(b))
            b[i] = units(str(r.choice([r.randrange(4), r.randrange(200), r.randrange(1 << 31)])))
        return dict(k=k, a=a, b=b[: r.randint(2, len(b))] if r.random() < 0.3 else b, how=r.choice(["version", "text", "rtext"]))
    if k == "enum":
        return dict(k=k, c=r.choice(sorted(enums)), n=r.choice([r.randrange(64), r.randrange(1024), r.randrange(-4, 1 << 20)]), how=r.choice(["int", "PSInt", "PSInt64"]))
    if k == "flags":
        c = r.choice(sorted(x for x in enums if enums[x]["flag"]))
        mask = 0
        for m in enums[c]["m"]:
            mask |= m["v"]
        return dict(k=k, c=c, op=r.choice(["or", "and", "xor", "not"]), a=r.randrange(mask + 1) & mask, b=r.randrange(mask + 1) & mask, how=r.choice(["flags", "int"]))
    if k == "declare":
        ns = sorted({some_int(r) >> r.choice([0, 30]) for _ in range(r.randint(1, 3))})
        return dict(k=k, g=r.choice(TAGS), vs=[units(str(n)) for n in ns], flag=False)
    if k == "span":
        a = some_span(r)
        return dict(k=k, a=a, b=r.choice([a, some_span(r), [a[0], a[1], (a[2] + r.choice([1, 1000])) % 10**9]]), how=r.choice(["duration", "timedelta", "rtimedelta"]))
    a = [r.randint(300000, 1000000), r.randrange(86400), r.choice([r.randrange(10**9), 999999999, r.randrange(10**6) * 1000, 0])]
    if k == "dates":
        z, zb = r.choice([(0, 0), (1, 1), (1, 2)])
        n = (a[0] * 86400 + a[1] + (27000 if zb == 2 else 0)) * 10**9 + a[2] + r.choice([0, 0, 1, -1, 100, -100, 1000, -1000, 999, 10**9, r.randrange(-(10**15), 10**15)])
        return dict(k=k, a=a, b=[n // 86400 // 10**9, n // 10**9 % 86400, n % 10**9], zone=z, zb=zb, how=r.choice(["date", "datetime", "rdatetime"]))
    return dict(k=k, a=a, b=some_span(r, 100000), zone=r.randint(0, 1), how=r.choice(["duration", "timedelta"]))


QUICK = dict(ops=14000, compares=4000, slices=8000)
SETS = "ints ops compares slices chars versions orders enums flags declares spans".split()


def run_C24(chk):
    jobs = [dict(module="NumGen", constants=dict(Set=s, AppTypes=s in ("enums", "flags")), invariants=["Sound"], workers=1, heap="6g") for s in SETS]
    cases = []
    for s, r in zip(SETS, common.parallel_tlc(jobs, 6)):
        chk.add_tlc(r)
        got = [x["c"] for x in r.lines]
        chk.cov.setdefault("enumerated", {})[s] = len(got)
        if s in QUICK and not chk.thorough:
            got = chk.rng.sample(sorted(got, key=repr), min(QUICK[s], len(got)))
        cases += got
    enums = {c["c"]: dict(flag=c["k"] == "flags", m=[]) for c in cases if c["k"] == "enum"}
    for c in cases:
        if c["k"] == "flags":
            enums[c["c"]]["flag"] = True
            enums[c["c"]]["m"].append(dict(v=c["a"]))
    rnd = 400000 if chk.thorough else 20000
    r = random.Random(chk.rng.randrange(1 << 40))
    cases += [some(r, enums) for _ in range(rnd)]
    chk.cov["random"] = rnd
    out = []
    for b in common.pmap(run, [(True, cases[i : i + 500]) for i in range(0, len(cases), 500)], limit=120):
        out += b
    for h in out:
        if "what" in h:
            chk.violation(h["what"], case=h["case"])
    out = [c for c in out if "what" not in c]
    chk.cov["executed"] = len(out)
    for c in out[:: max(1, len(out) // 7)]:
        chk.sample(c)
    step = 120000
    for i in range(0, len(out), step):
        for c, b in common.judge(chk, "NumJudge", out[i : i + step], drop=("err",), constants=dict(AppTypes=True), par=8):
            chk.violation("%s: %s" % (c["k"], b["why"]), case=c)
