---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validates executions recorded from the real library against Session.    *)
(* The file named by the environment variable TRACE is an array of traces  *)
(* [world |-> ..., steps |-> << [op, obs] ... >>].  A trace that leaves    *)
(* the specification is reported with the clause that failed and skipped.  *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES w, t, l, ok

World0(i) == InitWorld(Traces[i].world.cv, Traces[i].world.sv, Traces[i].world.mn, Traces[i].world.mx, Traces[i].world.set)

Init == w = World0(1) /\ t = 1 /\ l = 1 /\ ok = TRUE

\* The transport delivered some more bytes of side k: op.n messages became
\* complete with them, which have to be the oldest ones not yet delivered.
Dlv(ww, k, op) ==
    LET src == PoolOf(ww, k)
        n   == IF op.n > Len(src.out) THEN Len(src.out) ELSE op.n
        pay == SubSeq(src.out, 1, n)
        w1  == IF k = "c" THEN [ww EXCEPT !.c.out = SubSeq(@, n + 1, Len(@)), !.s.inq = @ \o pay,
                                          !.s.st = IF @ = "BeforeOpen" /\ op.ci = 1 THEN "Opening" ELSE @]
               ELSE [ww EXCEPT !.s.out = SubSeq(@, n + 1, Len(@)), !.c.inq = @ \o pay]
    IN  [Ok(w1) EXCEPT !.pays = << [i \in DOMAIN pay |-> OnWire(pay[i])] >>]

TStep(ww, op) == CASE op.o = "c.dlv" -> Dlv(ww, "c", op)
                   [] op.o = "s.dlv" -> Dlv(ww, "s", op)
                   [] OTHER -> Step(ww, op)

\* the first clause in which expectation e and observation g differ
Clause(e, g) ==
    CASE e.out # g.out -> "outcome"
      [] e.n # g.n -> "returned id"
      [] e.pays # g.pays -> "messages handed to the transport"
      [] e.evs # g.evs -> "event"
      [] e.c.st # g.c.st -> "client pool state"
      [] e.s.st # g.s.st -> "server pool state"
      [] e.c # g.c -> "client view"
      [] e.s # g.s -> "server view"
      [] OTHER -> ""

NextTrace == IF t < Len(Traces) THEN /\ w' = World0(t + 1) /\ t' = t + 1 /\ l' = 1
             ELSE /\ w' = w /\ t' = t + 1 /\ l' = 1

Next == /\ t <= Len(Traces)
        /\ IF l > Len(Traces[t].steps) THEN NextTrace /\ ok' = ok
           ELSE LET st == Traces[t].steps[l]
                    r  == TStep(w, st.op)
                    e  == Obs(r)
                    cl == Clause(e, st.obs)
                IN  IF cl = "" THEN /\ w' = r.w /\ t' = t /\ l' = l + 1 /\ ok' = ok
                    ELSE /\ PrintT(ToJson([bad |-> TRUE, trace |-> t, line |-> l, clause |-> cl, op |-> st.op,
                                           expected |-> e, observed |-> st.obs]))
                         /\ NextTrace /\ ok' = FALSE

Done == t > Len(Traces)
Report == Done => PrintT(ToJson([done |-> TRUE, ok |-> ok, n |-> t - 1]))
Spec == Init /\ [][Next]_<<w, t, l, ok>>
=============================================================================
