"""Checks decided with Clixml.tla: what is written for a value and what is read from a document."""

import random

import clixml as X
import common
from clixml import E, node
from p_checks_refs import references


def how(n):
    return "each" if n == 1 else "all"


def run_gen(batch):
    """Cases enumerated by ClixmlGen: write the value or read the document, and read what was written."""
    app, cases = batch
    if app:
        X.register_app()
    out = []
    for c in cases:
        if c["d"]:
            out.append(X.read_case(c["d"], how(len(c["d"]))))
        else:
            out += both(c["w"])
    return out


def both(val):
    w = X.write_case(val, how(len(val["roots"])))
    return [w] + ([X.read_case(w["doc"], how(len(val["roots"])))] if w["ok"] else [])


def run_rand(batch):
    app, todo = batch
    if app:
        X.register_app()
    out = []
    for kind, seed in todo:
        r = random.Random(seed)
        c = RANDOM[kind](r)
        out += [X.read_case(c, how(len(c)))] if isinstance(c, list) else both(c)
    return out


# ---------------------------------------------------------------------------------------------
# random values and documents; what they mean is for the specification to say


def rtext(r, n=None):
    n = r.choice([0, 1, 2, 5, 12]) if n is None else n
    u = []
    while len(u) < n:
        k = r.random()
        if k < 0.25:
            u += X.units(r.choice(["_x0041_", "_x", "_X00e9_", "_xD83D_", "_xDE00_", "_x000A_", "_x005F_", "x0041_", "_x00"]))
        elif k < 0.5:
            u.append(r.randrange(0x20, 0x7F))
        elif k < 0.6:
            u.append(r.randrange(0, 0x20))
        elif k < 0.7:
            u.append(r.randrange(0xD800, 0xE000))
        elif k < 0.75:
            u += [r.randrange(0xD800, 0xDC00), r.randrange(0xDC00, 0xE000)]
        elif k < 0.85:
            u.append(r.choice([0x5F, 0x78, 0x58, 0x30, 0x41, 0x3C, 0x26, 0x3E, 0x22, 0x27, 0xA0, 0x85, 0xFEFF, 0xFFFE, 0xFFFF, 0x7F]))
        else:
            u.append(r.randrange(0, 0x10000))
    return u


def rname(r):
    return rtext(r, r.choice([1, 1, 3])) if r.random() < 0.15 else X.units(r.choice("abcdefgh") + r.choice(["", "1", " x", "\u00e9"]))


BITS = dict(By=(0, 8), SB=(1, 8), U16=(0, 16), I16=(1, 16), U32=(0, 32), I32=(1, 32), U64=(0, 64), I64=(1, 64), C=(0, 16))


def rprim(r, g=None):
    g = g or r.choice(list(X.CLS) + ["B"])
    py = ""
    if g in BITS:
        signed, b = BITS[g]
        n = r.choice([r.randrange(0, 1 << b), r.randrange(0, 1 << r.randrange(1, b + 1))]) - (1 << (b - 1) if signed and r.random() < 0.5 else 0)
        n = max(-(1 << (b - 1)) if signed else 0, min(n, (1 << (b - signed)) - 1))
        if g == "I32" or (g == "I64" and not -(1 << 31) <= n < 1 << 31):
            py = r.choice(["", "int"])
        s = X.units(str(n))
    elif g in X.TEXTS:
        s = rtext(r)
        py = r.choice(["", "str"]) if g == "S" else ""
    elif g == "B":
        s = [r.randrange(2)]
    elif g == "D":
        digits = [r.randrange(10) for _ in range(r.randrange(1, 29))]
        import decimal

        s = X.canon_float(decimal.Decimal((r.randrange(2), digits, -r.randrange(0, 28))))
        if s[1:] == [0]:
            s = [0, 0]
        py = r.choice(["", "Decimal"])
    elif g in ("Sg", "Db"):
        v = r.choice([r.uniform(-1, 1), r.uniform(-1e6, 1e6), r.random() * 10 ** r.randrange(-300, 300), float(r.randrange(-(1 << 60), 1 << 60)), 5e-324, 1.7976931348623157e308])
        s = X.canon_float(v)
        py = r.choice(["", "float"]) if g == "Sg" else ""
    elif g == "BA":
        s = [r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 7, 40]))]
        py = r.choice(["", "bytes"])
    elif g == "G":
        import uuid

        s = X.units(str(uuid.UUID(int=r.getrandbits(128))))
        py = r.choice(["", "UUID"])
    elif g == "Version":
        s = X.units(".".join(str(r.choice([0, 1, r.randrange(1 << 31)])) for _ in range(r.randrange(2, 5))))
    elif g == "DT":
        y, m = r.choice([1, 999, 1000, 2024, 9999, r.randrange(1, 10000)]), r.randrange(1, 13)
        day = r.randrange(1, 29)
        k = r.choice([0, r.randrange(10**7), r.randrange(10**6) * 10, r.randrange(100), r.randrange(10) * 10**6])
        z = [0, 0] if r.random() < 0.4 else [1, r.choice([0, r.randrange(-840, 841)])]
        s = [y, m, day, r.randrange(24), r.randrange(60), r.randrange(60), k] + z
        py = r.choice(["", "datetime"])
    else:
        s = [r.randrange(2), r.choice([0, 0, r.randrange(400), r.randrange(10675199)]), r.choice([0, r.randrange(86400), r.randrange(60)]), r.choice([0, r.randrange(10**7), r.randrange(10**6) * 10])]
        if s[1:] == [0, 0, 0]:
            s[0] = 0
        py = r.choice(["", "timedelta"])
    return node("prim", g, s, py=py)


class Maker:
    """Random graphs: nodes may refer to any object made before, or to one being made."""

    def __init__(self, r, size, share=0.2, conts=True, enums=True):
        self.r, self.left, self.share, self.conts, self.enums = r, size, share, conts, enums
        self.nodes, self.objs, self.open = [], [], []

    def add(self, n):
        self.nodes.append(n)
        return len(self.nodes)

    def value(self, depth):
        r = self.r
        self.left -= 1
        known = [i for i in self.objs]
        if known and r.random() < self.share:
            return r.choice(known)
        if depth <= 0 or self.left <= 0 or r.random() < 0.35:
            k = r.random()
            if k < 0.15:
                return self.add(node("Nil"))
            if k < 0.25 and self.enums:
                c, v = r.choice([("ConsoleColor", 12), ("ErrorCategory", 3), ("PSThreadOptions", 2), ("ApartmentState", 1), ("ReadKeyOptions", 9)])
                return self.add(node("enum", py=c, s=X.units(str(v))))
            return self.add(rprim(r))
        return self.cont(depth) if self.conts and r.random() < 0.5 else self.obj(depth)

    def props(self, depth, used):
        out = []
        for _ in range(self.r.choice([0, 0, 1, 2, 3])):
            n = rname(self.r)
            if n in used:
                continue
            used.append(n)
            out.append(dict(n=n, v=self.value(depth - 1)))
        return out

    def cont(self, depth):
        r = self.r
        c, py = r.choice([("LST", "PSList"), ("LST", "list"), ("STK", "PSStack"), ("QUE", "PSQueue"), ("QUE", "queue"), ("IE", "PSIEnumerable"), ("DCT", "PSDict"), ("DCT", "dict")])
        it = []
        keys = set()
        for k in range(r.choice([0, 1, 2, 3, 6])):
            if c == "DCT":
                q = r.random()
                if q < 0.1 and self.enums:
                    key = node("enum", py="PSThreadOptions", s=X.units(str(r.randrange(4))))
                elif q < 0.8:
                    key = node("prim", "S", rtext(r), py=r.choice(["", "str"]))
                else:
                    key = rprim(r, r.choice(["I32", "U64", "G", "Version", "TS", "DT", "C"]))
                if tuple(key["s"]) in keys:
                    continue
                keys.add(tuple(key["s"]))
                it.append(self.add(key))
            it.append(self.value(depth - 1))
        ex = self.props(depth, []) if py.startswith("PS") and r.random() < 0.3 else []
        return self.add(node(py=py, c=c, it=it, dtn=True, ex=ex))

    def obj(self, depth):
        r = self.r
        py = r.choice(["PSCustomObject", "PSCustomObject", "PSObject", "object"])
        n = node(py=py, dtn=True)
        i = self.add(n)
        self.objs.append(i)
        if py == "object":
            # attributes in the order of their names, those that begin with two underscores are private
            names = {k for k in (X.text(rname(r)) for _ in range(r.randrange(4))) if k and k[:2] != "__" and k != "PSObject"}
            n["ex"] = [dict(n=X.units(k), v=self.value(depth - 1)) for k in sorted(names)]
            return i
        t = r.random()
        if t < 0.5:
            n["dtn"] = False
            n["tn"] = [X.units(x) for x in r.choice([["A"], ["A", "B"], ["A", "C"], ["My.Type", "System.Object"], ["a\u00e9"], ["Deserialized.A"], ["A", "", "A"], [""]])]
            if r.random() < 0.1:
                n["tn"] = [rtext(r, 3), rtext(r, 1)]
        if r.random() < 0.2:
            n["ts"] = rtext(r, r.choice([1, 4]))
            n["hts"] = True
        used = []
        n["ad"] = self.props(depth, used)
        n["ex"] = self.props(depth, used)
        return i

    def graph(self, roots, depth):
        return dict(nodes=self.nodes, roots=[self.value(depth) for _ in range(roots)])


def one(n):
    return dict(nodes=[n], roots=[1])


def r_prims(r):
    return one(rprim(r, r.choice([g for g in X.CLS if g not in ("S", "DT", "TS")])))


def r_text(r):
    m = Maker(r, 20, share=0, conts=True)
    k = r.randrange(5)
    u = rtext(r, r.choice([1, 2, 3, 8, 30]))
    if k == 0:
        return one(node("prim", "S", u, py=r.choice(["", "str"])))
    if k == 1:
        return one(node("prim", r.choice(["URI", "XD", "SBK"]), u))
    if k == 2:
        return [E("S")] if not u else [dict(E("S"), x=X.units(r.choice(["_x0041_", "_xd800_", "\u00e9_x00e9_", "_xZZZZ_", "_x_x0041_"]) + r.choice(["", "b", "_", "\U0001f600"])))]
    if k == 3:
        m.nodes = [node("prim", "S", u), node("Nil"), node(py="PSDict", c="DCT", dtn=True, it=[1, 2])]
        return dict(nodes=m.nodes, roots=[3])
    m.nodes = [node("Nil"), node(py="PSCustomObject", tn=[u, rtext(r, 2)], hts=bool(u), ts=u, ex=[dict(n=u, v=1)] if u else [])]
    return dict(nodes=m.nodes, roots=[2])


def r_times(r):
    if r.random() < 0.7:
        return one(rprim(r, r.choice(["DT", "TS"])))
    if r.random() < 0.5:
        f = "".join(r.choice("0123456789") for _ in range(r.randrange(0, 10)))
        z = r.choice(["", "Z", "%s%02d:%02d" % (r.choice("+-"), r.randrange(14), r.randrange(60))])
        t = "%04d-%02d-%02dT%02d:%02d:%02d" % (r.randrange(1, 10000), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60))
        return [E("DT", t + ("." + f if f else "") + z)]
    f = "".join(r.choice("0123456789") for _ in range(r.randrange(0, 8)))
    t = "".join(str(r.randrange(200)) + c for c in "HM" if r.random() < 0.5) + ("%d%sS" % (r.randrange(200), "." + f if f else "") if r.random() < 0.7 else "")
    d = "%dD" % r.randrange(1000) if r.random() < 0.5 or not t else ""
    return [E("TS", r.choice(["", "-"]) + "P" + d + ("T" + t if t else ""))]


def r_conts(r):
    return Maker(r, 40, share=0.1).graph(1, 5)


def r_graphs(r):
    return Maker(r, r.choice([10, 40, 80]), share=0.35, conts=r.random() < 0.5).graph(r.choice([1, 1, 2, 3]), 6)


# values of sizes that seldom occur: nothing may depend on how much there is of anything


def r_big_prims(r):
    b = [r.randrange(256) for _ in range(r.choice([57, 58, 300, 1000, 3000]))]
    return one(node("prim", "BA", b))


def r_big_text(r):
    n = r.choice([130, 300, 600, 1200])
    k = r.randrange(5)
    if k == 0:  # very many characters that are escaped
        u = [r.choice([1, 9, 10, 13, 0x7F, 0x9F, 0xFFFE]) for _ in range(n)]
    elif k == 1:
        u = X.units("".join(r.choice("\U0001f600\U0001f601a") for _ in range(n)))
    elif k == 2:  # very few of them, far into the text
        u = [0x61] * n * 2 + X.units(r.choice(["_x0041_", "\n", "\U0001f600", "\ud83d", "_X"])) + [0x62] * r.choice([0, 1, 70])
    elif k == 3:
        u = X.units("_x" * (n // 2))
    else:
        u = rtext(r, n)
    c = one(node("prim", "S", u, py=r.choice(["", "str"])))
    if r.random() < 0.3:  # as a type name, as what it looks like and as the name of a member
        c = dict(nodes=[node("Nil"), node(py="PSCustomObject", tn=[u], hts=True, ts=u, ex=[dict(n=u, v=1)])], roots=[2])
    return c


def r_big_conts(r):
    m = Maker(r, 0)
    n = r.choice([33, 65, 130, 260, 520, 1030])
    c, py = r.choice([("LST", "PSList"), ("LST", "list"), ("STK", "PSStack"), ("QUE", "PSQueue"), ("QUE", "queue"), ("IE", "PSIEnumerable"), ("DCT", "PSDict"), ("DCT", "dict")])
    if r.random() < 0.2:  # deep
        v = m.add(rprim(r, "I32"))
        for _ in range(r.choice([10, 20, 40])):
            v = m.add(node(py="PSList", c="LST", it=[v], dtn=True) if r.random() < 0.5 else node(py="PSDict", c="DCT", it=[m.add(node("prim", "S", X.units("k"))), v], dtn=True))
        return dict(nodes=m.nodes, roots=[v])
    it = []
    for i in range(n):
        if c == "DCT":
            it.append(m.add(node("prim", "S", X.units("k%d" % i)) if i % 3 else node("prim", "I32", X.units(str(i)))))
        it.append(m.add(r.choice([lambda: node("prim", "I32", X.units(str(r.randrange(-9, 10000)))), lambda: node("Nil"), lambda: node("prim", "S", X.units("s%d" % r.randrange(99)))])()))
    return dict(nodes=m.nodes, roots=[m.add(node(py=py, c=c, it=it, dtn=True))])


def r_big_graphs(r):
    m = Maker(r, 0)

    def prop(i):
        return dict(n=X.units("p%d" % i), v=m.add(node("prim", "I32", X.units(str(i)))))

    k = r.randrange(4)
    if k == 0:  # one object with a great many members and type names
        a, b = r.choice([(40, 0), (0, 40), (120, 120), (300, 0)])
        t = r.choice([1, 10, 20, 40])
        return dict(nodes=m.nodes, roots=[m.add(node(py="PSCustomObject", tn=[X.units("T%d" % i) for i in range(t)], ex=[prop(i) for i in range(a)], ad=[prop(a + i) for i in range(b)]))])
    if k == 1:  # deep
        v = m.add(rprim(r, "I32"))
        for i in range(r.choice([10, 20, 40])):
            v = m.add(node(py="PSCustomObject", tn=[X.units("T%d" % (i % 7))], ex=[dict(n=X.units("p"), v=v)]))
        return dict(nodes=m.nodes, roots=[v])
    # a great many objects of many types, some of them more than once
    n = r.choice([40, 140, 420])
    types = r.choice([1, 35, 70, 140])
    objs, it = [], []
    for i in range(n):
        if objs and r.random() < 0.2:
            it.append(r.choice(objs + objs[:3] * 20))
            continue
        j = r.randrange(types) if r.random() < 0.5 else i % types
        o = m.add(node(py="PSCustomObject", tn=[X.units("T%d" % j), X.units("U")], ex=[prop(i)] if r.random() < 0.7 else [], hts=True, ts=X.units("o%d" % i)))
        objs.append(o)
        it.append(o)
    it += r.sample(objs, min(5, len(objs))) + objs[:1]
    return dict(nodes=m.nodes, roots=[m.add(node(py="PSList", c="LST", it=it, dtn=True))])


RANDOM = dict(big_prims=r_big_prims, big_text=r_big_text, big_conts=r_big_conts, big_graphs=r_big_graphs, prims=r_prims, text=r_text, times=r_times, conts=r_conts, graphs=r_graphs)


# ---------------------------------------------------------------------------------------------


def decide(chk, sets, rand, par=8, app=False):
    """sets: [(name of the set, size, cap)], rand: {kind: number of random cases}"""
    jobs = [dict(module="ClixmlGen", constants=dict(Set=s, Size=n, Cap=c, AppTypes=app), invariants=["Emit"], workers=2, seed=chk.seed) for s, n, c in sets]
    cases = []
    for (s, n, c), r in zip(sets, common.parallel_tlc(jobs, 4)):
        chk.add_tlc(r)
        got = sorted(r.lines, key=repr)
        chk.cov.setdefault("enumerated", {})["%s:%d%s" % (s, n, "+app" if app else "")] = len(got)
        cases += got
    out = []
    for b in common.pmap(run_gen, [(app, cases[i : i + 100]) for i in range(0, len(cases), 100)], limit=120):
        out += b
    for kind, n in rand.items():
        seeds = [(kind, chk.rng.randrange(1 << 40)) for _ in range(n)]
        chk.cov.setdefault("random", {})[kind] = n
        for b in common.pmap(run_rand, [(app, seeds[i : i + 25]) for i in range(0, n, 25)], limit=120):
            out += b
    bad = [c for c in out if "what" in c]
    for h in bad:
        chk.violation(h["what"], case=h["case"])
    out = [c for c in out if "what" not in c]
    for c in out[:: max(1, len(out) // 6)]:
        chk.sample(dict(kind=c["kind"], text=c["text"][:300]))
    for c, b in common.judge(chk, "ClixmlJudge", out, constants=dict(AppTypes=app), drop=("err", "text"), par=par):
        chk.violation(("writing: " if c["kind"] == "w" else "reading: ") + b["why"] + (" (%s)" % c["err"] if c["err"] else ""), document=c["text"], value=c["val"])


def run_C14(chk):
    decide(chk, [("ints", 1, 0), ("reals", 1, 0), ("others", 1, 0)], dict(prims=40000 if chk.thorough else 6000, big_prims=200 if chk.thorough else 10))


def run_C15(chk):
    n = 4 if chk.thorough else 3
    decide(chk, [("text_w", 3, 0), ("text_p", n, 0), ("text_r", n, 0), ("units", 1, 0)], dict(text=40000 if chk.thorough else 2000, big_text=600 if chk.thorough else 40))


def run_C16(chk):
    decide(chk, [("dates", 1, 0), ("spans", 1, 0)], dict(times=60000 if chk.thorough else 8000))


def run_C17(chk):
    if chk.thorough:
        sets = [("conts", 1, 0), ("conts", 2, 0), ("conts", 3, 0), ("conts_r", 1, 0), ("conts_r", 3, 0), ("bare", 1, 0)]
    else:
        sets = [("conts", 1, 0), ("conts", 2, 1500), ("conts", 3, 400), ("conts_r", 1, 0), ("conts_r", 3, 0), ("bare", 1, 0)]
    decide(chk, sets, dict(conts=6000 if chk.thorough else 400, big_conts=600 if chk.thorough else 40))
    # with containers of the application's own
    decide(chk, [("conts", 1, 0), ("conts", 2, 0 if chk.thorough else 700), ("conts", 3, 0 if chk.thorough else 300), ("conts_r", 1, 0), ("app", 1, 0)], {}, app=True)


def run_C18(chk):
    if chk.thorough:
        sets = [("graphs", 2, 0), ("graphs", 3, 0), ("graphs_r", 2, 1500), ("graphs_r", 3, 1500), ("shared_r", 1, 0), ("bare", 1, 0)]
    else:
        sets = [("graphs", 2, 2000), ("graphs", 3, 1000), ("graphs_r", 2, 150), ("graphs_r", 3, 150), ("shared_r", 1, 0), ("bare", 1, 0)]
    decide(chk, sets, dict(graphs=6000 if chk.thorough else 400, big_graphs=600 if chk.thorough else 40))
    references(chk)


def run_C22(chk):
    for app in (False, True):
        decide(chk, [("enums", 1, 0), ("structs", 1, 0), ("bare", 1, 0), ("app", 1, 0), ("derived", 1, 0), ("graphs_r", 3, 100), ("shared_r", 1, 0)], dict(graphs=3000 if chk.thorough else 100, big_graphs=100 if chk.thorough else 16), app=app)
