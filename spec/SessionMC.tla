----------------------------- MODULE SessionMC -----------------------------
(***************************************************************************)
(* Exhaustive exploration of Session.  A family picks a start situation    *)
(* (reached by its setup operations) and the operations the applications   *)
(* on both sides and the transport may do from there, in any order.        *)
(* TLC checks the properties in every state and prints every transition;   *)
(* the harness replays each of them in the real library.                   *)
(***************************************************************************)
EXTENDS SessionFam, TLC, Json

CONSTANTS Fam, Depth, Emit

VARIABLES w, h, last

OT == FamOps(Fam)
SU == FamSetup(Fam)

RECURSIVE Apply(_, _)
Apply(ww, ops) == IF ops = <<>> THEN ww ELSE Apply(Step(ww, Head(ops)).w, Tail(ops))

Init == /\ w = Apply(FamWorld(Fam), SU)
        /\ h = <<>>
        /\ last = [op |-> "init", out |-> "ok", same |-> TRUE]

Allowed(ww, op) ==
    CASE Fam = "host_all" /\ op.o \in {"s.host_call", "sp.host_call"} -> h = <<>>
      [] Fam = "host_all" /\ op.o = "s.flush" -> Len(h) = 1
      [] Fam = "host_all" /\ op.o \in {"c.host_response", "cp.host_response"} -> Len(h) = 2
      [] Fam = "host_all" /\ op.o = "c.flush" -> Len(h) = 3
      [] OTHER -> Sensible(ww, op)

Next == \E i \in DOMAIN OT :
          /\ Len(h) < Depth
          /\ Allowed(w, OT[i])
          /\ LET r == Step(w, OT[i]) IN
             /\ w' = r.w
             /\ h' = Append(h, i)
             /\ last' = [op |-> OT[i].o, out |-> r.out, same |-> r.w = w]
             /\ Emit => PrintT(ToJson([h |-> h, i |-> i, same |-> r.w = w, obs |-> Obs(r)]))

Spec == Init /\ [][Next]_<<w, h, last>>
WView == w

ASSUME PrintT(ToJson([setup |-> SU, ops |-> OT, world |-> [cv |-> FamWorld(Fam).c.our, sv |-> FamWorld(Fam).s.our,
                      mn |-> FamWorld(Fam).c.min, mx |-> FamWorld(Fam).c.max, set |-> FamWorld(Fam).c.set]]))

----------------------------------------------------------------------------
(* Properties of the design                                                *)

\* A call the library refuses leaves both sides as they were.
RejectedIsNoop == [][last'.out \in {"invalid_pool_state", "invalid_pipeline_state", "protocol_version", "missing_cipher"}
                      /\ last'.op \notin {"c.next", "s.next"} => w' = w]_<<w, h, last>>

\* The client only believes the pool is open once the server has opened it
ClientOpenImpliesServerOpened == "open" \in FamTags(Fam) =>
    (w.c.st = "Opened" => w.s.st \in {"Opened", "Closing", "Closed", "Broken", "Disconnecting", "Disconnected"}
                          /\ w.c.their = w.s.our /\ w.s.their = w.c.our /\ w.c.rpid = w.s.rpid)

Quiet == w.c.out = <<>> /\ w.c.inq = <<>> /\ w.s.out = <<>> /\ w.s.inq = <<>>

\* Once everything in flight has been handled both sides agree on the pool size
SizesAgree == "sizes" \in FamTags(Fam) => (Quiet => w.c.min = w.s.min /\ w.c.max = w.s.max)
\* ... and every request the server does not hold has been answered and forgotten
PendAgree  == "sizes" \in FamTags(Fam) => (Quiet => {e.ci : e \in w.c.pend} = {e.ci : e \in w.s.pend})
CiUnique   == \A e, f \in w.c.pend : e.ci = f.ci => e = f
CiBelow    == \A e \in w.c.pend : e.ci < w.c.ci

\* A quiet pipeline is in the same state on both sides unless the client began to stop it
PipesAgree == "pipes" \in FamTags(Fam) => (Quiet => \A q \in Pipes :
     (w.c.pipes[q].tab /\ w.s.pipes[q].ex /\ w.c.pipes[q].st # "NotStarted" /\ w.s.pipes[q].st # "NotStarted")
        => w.c.pipes[q].st = w.s.pipes[q].st \/ w.c.pipes[q].st = "Stopping" \/ w.c.pipes[q].st = "Running")
MetaAgree  == "pipes" \in FamTags(Fam) => \A q \in Pipes :
                 (w.s.pipes[q].meta # "" => w.s.pipes[q].meta = w.c.pipes[q].meta)

\* No secret leaves a side that has no session key; the client has the key only after an exchange
SecretsNeedKey == \A i \in DOMAIN w.c.out : IsSecret(w.c.out[i].x) => w.c.key
KeyNeedsExch   == w.c.key => w.c.exch /\ w.s.keyReq

\* Host calls that wait for an answer have distinct ids
CallsDistinct == \A a, b \in w.c.calls : a.ci = b.ci => a = b
NoVoidPending == \A a \in w.c.calls : a.ci # Void /\ a.mi \notin VoidMi

\* A peer older than protocol 2.3 is never sent an information record or a reset request
VersionGate == /\ \A i \in DOMAIN w.s.out : w.s.out[i].t = "InformationRecord" => Rank(w.s.their) >= 3
               /\ \A i \in DOMAIN w.c.out : w.c.out[i].t = "ResetRunspaceState" => Rank(w.c.their) >= 3

Inv == /\ ClientOpenImpliesServerOpened /\ SizesAgree /\ PendAgree /\ CiUnique /\ CiBelow
       /\ PipesAgree /\ MetaAgree /\ SecretsNeedKey /\ KeyNeedsExch /\ CallsDistinct /\ NoVoidPending /\ VersionGate
=============================================================================
