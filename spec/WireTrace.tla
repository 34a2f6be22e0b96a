----------------------------- MODULE WireTrace -----------------------------
(* Validates recorded sending (kind "send") and receiving ("recv") traces.  *)
EXTENDS Wire, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st, ok

Start(i) == IF Traces[i].kind = "send" THEN NewSender ELSE NewReceiver
Init == t = 1 /\ l = 1 /\ ok = TRUE /\ st = Start(1)

\* a step's verdict and the state after it
Judge(tr, e, cur) ==
    CASE e.k = "q"    -> [why |-> "", st |-> [cur EXCEPT !.q = Append(@, [p |-> e.p, s |-> e.s, t |-> e.t, x |-> e.x])]]
      [] e.k = "pull" -> LET r == Payload(tr.env, cur, e.limit, [out |-> e.out, p |-> e.p, s |-> e.s, b |-> e.b, texts |-> e.texts])
                         IN  [why |-> r.why, st |-> r.snd]
      [] e.k = "recv" -> LET r == Receive(cur, e.b)
                             want == [i \in DOMAIN r.done |-> Decode(r.done[i])]
                         IN  [why |-> CASE e.bad # r.bad -> "wrong number of refused fragments"
                                        [] Len(e.evs) # Len(want) -> "wrong number of events"
                                        [] \E i \in DOMAIN want : e.evs[i].code # want[i].code -> "event of another type"
                                        [] \E i \in DOMAIN want : e.evs[i].rpid # want[i].rpid -> "event of another pool"
                                        [] \E i \in DOMAIN want : e.evs[i].pid # want[i].pid -> "event of another pipeline"
                                        [] \E i \in DOMAIN want : e.evs[i].body # want[i].body -> "event with other contents"
                                        [] OTHER -> "",
                              st |-> r.rcv]

NextTrace == t' = t + 1 /\ l' = 1 /\ st' = IF t < Len(Traces) THEN Start(t + 1) ELSE st
Next == /\ t <= Len(Traces)
        /\ IF l > Len(Traces[t].steps) THEN NextTrace /\ ok' = ok
           ELSE LET e == Traces[t].steps[l]
                    j == Judge(Traces[t], e, st)
                IN  IF j.why = "" THEN st' = j.st /\ t' = t /\ l' = l + 1 /\ ok' = ok
                    ELSE PrintT(ToJson([bad |-> TRUE, trace |-> t, line |-> l, why |-> j.why])) /\ NextTrace /\ ok' = FALSE
Report == t > Len(Traces) => PrintT(ToJson([done |-> TRUE, n |-> t - 1]))
Spec == Init /\ [][Next]_<<t, l, st, ok>>
=============================================================================
