"""Exhaustive model exploration of Session.tla, every transition replayed in the real pools."""

import common
import session_drv as D


def _norm(obs):
    # TLC prints an empty sequence and an empty function alike
    return obs


def _replay(task):
    """task: (world, setup ops, path ops, [(op, obs)...]); the last group is checked step by step.

    A path may have calls in it that change nothing according to the specification."""
    world, setup, path, checks, fam = task
    w = D.World(**world)
    done = []
    w.quiet = True
    for op in setup + path:
        w.do(op)
        done.append(op)
    w.quiet = False
    for op, want in checks:
        got, err = w.do(op)
        done.append(op)
        d = D.diff(want, got)
        if d:
            return [{"what": "%s: %s after %s" % (op["o"], d, fam), "raised": err, "ops": done, "expected": want, "observed": got}]
    return []


def _batch(tasks):
    out = []
    for t in tasks:
        try:
            out += _replay(t)
        except Exception as e:  # an operation that must work blew up while setting the scene
            out.append({"what": "%s: %r" % (t[4], e), "ops": t[1] + t[2] + [c[0] for c in t[3]]})
        if len(out) > 5:
            break
    return out


def run_families(chk, fams, depth_extra=0):
    """fams: list of (family, depth)."""
    jobs = [
        dict(
            module="SessionMC",
            constants=dict(Pipes="{1, 2}", Fam=f, Depth=d + depth_extra, Emit=True),
            invariants=["Inv"],
            properties=["RejectedIsNoop"],
            view="WView",
            workers=2,
        )
        for f, d in fams
    ]
    res = common.parallel_tlc(jobs, 4)
    tasks = []
    for (f, d), r in zip(fams, res):
        chk.add_tlc(r)
        head = next(x for x in r.lines if "setup" in x)
        ops, setup, world = head["ops"], head["setup"], head["world"]
        trans = [x for x in r.lines if "h" in x]
        by = {}
        for t in trans:
            by.setdefault(tuple(t["h"]), []).append(t)
        idle = {hist: [ops[t["i"] - 1] for t in ts if t["same"]] for hist, ts in by.items()}

        def stuttering(hist):
            """The path with calls in between that change nothing, like refused ones."""
            out = []
            for j in range(len(hist) + 1):
                here = idle.get(hist[:j], [])
                out += chk.rng.sample(here, min(len(here), 8))
                if j < len(hist):
                    out.append(ops[hist[j] - 1])
            return out

        n = 0
        for hist, ts in by.items():
            path = [ops[i - 1] for i in hist]
            same = [(ops[t["i"] - 1], t["obs"]) for t in ts if t["same"]]
            eff = [(ops[t["i"] - 1], t["obs"]) for t in ts if not t["same"]]
            # operations without an effect are all tried on the way to the first one with an effect
            if eff:
                tasks.append((world, setup, path, same + eff[:1], f))
                tasks += [(world, setup, stuttering(hist) if k % 2 else path, [e], f) for k, e in enumerate(eff[1:])]
                tasks += [(world, setup, stuttering(hist), [e], f) for e in chk.rng.sample(eff, min(2, len(eff)))]
            else:
                tasks.append((world, setup, path, same, f))
            n += len(ts)
        chk.cov.setdefault("families", {})[f] = dict(depth=d + depth_extra, states=r.distinct, transitions_replayed=n)
        chk.traces += n
        if trans:
            t = chk.rng.choice(trans)
            chk.sample(dict(family=f, ops=[o["o"] for o in [ops[i - 1] for i in t["h"] + [t["i"]]]], outcome=t["obs"]["out"]))
    size = 40
    batches = [tasks[i : i + size] for i in range(0, len(tasks), size)]
    for r in common.pmap(_batch, batches, limit=300):
        for v in r:
            chk.violation(**v)


def run_walks(chk, fams, num, depth):
    """Random walks of the specification, every step checked in the real pools."""
    fams = sorted(set(fams) - {"host_all"})
    const = dict(Pipes="{1, 2}", Fams="{%s}" % ", ".join('"%s"' % f for f in fams), Depth=depth)
    r = common.tlc("SessionWalk", const, invariants=["Inv"], simulate="num=%d" % (num // 4), workers=4, seed=chk.rng.randrange(1, 1 << 30))
    chk.add_tlc(r)
    head = {x["fam"]: x for x in r.lines if "setup" in x}
    tasks, n = [], {}
    for x in r.lines:
        if "log" in x:
            f = head[x["fam"]]
            tasks.append((f["world"], f["setup"], [], [(f["ops"][e["i"] - 1], e["obs"]) for e in x["log"]], x["fam"] + " (walk)"))
            n[x["fam"]] = n.get(x["fam"], 0) + 1
    chk.cov["walks"] = dict(depth=depth, number=n)
    chk.traces += len(tasks)
    for b in common.pmap(_batch, [tasks[i : i + 20] for i in range(0, len(tasks), 20)], limit=300):
        for v in b:
            chk.violation(**v)
