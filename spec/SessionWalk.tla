---------------------------- MODULE SessionWalk ----------------------------
(* Random walks through Session, from the situations of SessionFam, with    *)
(* what both applications and the transport see at every step.  Unlike the  *)
(* shortest ways of SessionMC they come to a state by detours and go on     *)
(* after calls that were refused.                                           *)
EXTENDS SessionFam, TLC, Json

CONSTANTS Fams, Depth

VARIABLES fam, w, log

RECURSIVE Apply(_, _)
Apply(ww, ops) == IF ops = <<>> THEN ww ELSE Apply(Step(ww, Head(ops)).w, Tail(ops))
Start == [f \in Fams |-> Apply(FamWorld(f), FamSetup(f))]
Ops   == [f \in Fams |-> FamOps(f)]

Init == fam \in Fams /\ w = Start[fam] /\ log = <<>>
Next == /\ Len(log) < Depth
        /\ \E i \in { RandomElement({j \in DOMAIN Ops[fam] : Sensible(w, Ops[fam][j])}) } :   \* chosen once
              LET r == Step(w, Ops[fam][i]) IN w' = r.w /\ log' = Append(log, [i |-> i, obs |-> Obs(r)])
        /\ fam' = fam
        /\ Len(log') = Depth => PrintT(ToJson([fam |-> fam, log |-> log']))
Spec == Init /\ [][Next]_<< fam, w, log >>

\* the properties of the design that hold in every situation
CiUnique == \A e, f \in w.c.pend : e.ci = f.ci => e = f
SecretsNeedKey == \A i \in DOMAIN w.c.out : IsSecret(w.c.out[i].x) => w.c.key
KeyNeedsExch == w.c.key => w.c.exch /\ w.s.keyReq
CallsDistinct == \A a, b \in w.c.calls : a.ci = b.ci => a = b
NoVoidPending == \A a \in w.c.calls : a.ci # Void /\ a.mi \notin VoidMi
Inv == CiUnique /\ SecretsNeedKey /\ KeyNeedsExch /\ CallsDistinct /\ NoVoidPending

ASSUME \A f \in Fams : PrintT(ToJson([fam |-> f, setup |-> FamSetup(f), ops |-> Ops[f], world |-> [cv |-> FamWorld(f).c.our, sv |-> FamWorld(f).s.our,
                      mn |-> FamWorld(f).c.min, mx |-> FamWorld(f).c.max, set |-> FamWorld(f).c.set]]))
=============================================================================
