"""Checks decided with Messages.tla: what messages say about what applications give and get."""

import copy
import random

import common
import messages as M
import p_checks_clixml as K


def enumerate_sets(chk, sets):
    """The operations of the sets [(name, depth, cap)]."""
    jobs = [dict(module="MsgGen", constants=dict(Set=s, Depth=n, Cap=c, AppTypes=False), invariants=["Emit"], workers=2, seed=chk.seed) for s, n, c in sets]
    todo = []
    for (s, n, c), r in zip(sets, common.parallel_tlc(jobs, 4)):
        chk.add_tlc(r)
        graph = [x["graph"] for x in r.lines if "graph" in x][0]
        got = sorted((x for x in r.lines if "graph" not in x), key=repr)
        chk.cov.setdefault("enumerated", {})["%s:%d" % (s, n)] = len(got)
        for case in got:
            case["op"], case["gg"] = M.prune(case["op"], graph)
            todo.append(case)
    return todo


def small_graph(r):
    return K.Maker(r, r.choice([3, 10, 25]), share=0.2).graph(1, 4)


def decide(chk, sets, extra=0, par=8, big=0):
    """Carry out the operations of the sets, and extra random variants of them, big ones with very much in them."""
    todo = enumerate_sets(chk, sets)
    swollen = []
    if big:
        r = random.Random(chk.rng.randrange(1 << 40))
        builders = [c for c in todo if c["op"]["b"]]
        for i in range(big):
            base = r.choice(builders if builders and i % 2 else todo)
            swollen.append(M.swell(r, copy.deepcopy(base), builders))
        chk.cov.setdefault("random", {})["big"] = big
    if extra:
        chk.cov.setdefault("random", {})["variants"] = extra
        r = random.Random(chk.rng.randrange(1 << 40))
        todo += [M.havoc(r, copy.deepcopy(r.choice(todo)), K.rtext, small_graph) for _ in range(extra)]
    todo += swollen
    out = []
    for b in common.pmap(M.run, [todo[i : i + 80] for i in range(0, len(todo), 80)], limit=120):
        out += b
    for h in out:
        if "what" in h:
            chk.violation(h["what"], case=h["case"])
    out = [c for c in out if "what" not in c]
    for c in out[:: max(1, len(out) // 6)]:
        chk.sample(dict(kind=c["kind"], text=c["text"][:300]))
    for c, b in common.judge(chk, "MsgJudge", out, constants=dict(AppTypes=False), drop=("text",), par=par):
        chk.violation("%s%s %s: %s" % ("relayed " if c["relay"] else "", c["kind"], c["op"]["h"], b["why"]), document=c["text"], op=c["op"], graph=c["gg"], event=c["ev"])


def run_C09(chk):
    if chk.thorough:
        decide(chk, [("calls", 1, 0), ("answers", 1, 0), ("calls", 2, 400), ("answers", 2, 400)], 20000, big=1000)
    else:
        decide(chk, [("calls", 1, 0), ("answers", 1, 0)], 1200, big=60)


def run_C13(chk):
    if chk.thorough:
        decide(chk, [("options", 2, 3000), ("build", 1, 0), ("build", 2, 0), ("build", 3, 0), ("build_more", 2, 0), ("build_more", 3, 2500), ("args", 1, 0), ("metadata", 2, 2000), ("values", 1, 0)], 20000, big=1000)
    else:
        decide(chk, [("options", 1, 0), ("build", 1, 0), ("build", 2, 0), ("build", 3, 400), ("build_more", 2, 150), ("args", 1, 0), ("metadata", 1, 0), ("values", 1, 0)], 1500, big=80)


def run_C19(chk):
    if chk.thorough:
        decide(chk, [("errors", 2, 2000), ("messages", 2, 1500), ("information", 2, 2000), ("progress", 2, 2000), ("events", 2, 2000), ("values", 1, 0)], 15000, big=1000)
    else:
        decide(chk, [("errors", 1, 0), ("messages", 1, 0), ("information", 1, 0), ("progress", 1, 0), ("events", 1, 0), ("values", 1, 0)], 1000, big=40)


def opened(chk):
    """What opening a pool asks for and tells (for C04)."""
    decide(chk, [("init", 2 if chk.thorough else 1, 1500)], 3000 if chk.thorough else 300)


def redirects(chk):
    """Pipelines for peers of every version (for C12)."""
    decide(chk, [("redirects", 1, 0 if chk.thorough else 60)], 0)
