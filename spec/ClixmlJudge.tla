---------------------------- MODULE ClixmlJudge ----------------------------
(* Judges recorded writings and readings of CLIXML.                         *)
(*  kind "w": val was written, giving doc; "r": doc was read, giving val.   *)
EXTENDS Clixml, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE)

Tell(want, got) ==
    LET i == FirstDiff(want, got)
        s(x) == IF i <= Len(x) THEN x[i].t \o " " \o ToString(x[i].s) ELSE "nothing"
    IN  "token " \o ToString(i) \o ": expected " \o s(want) \o ", found " \o s(got)

Verdict(c) ==
    IF c.kind = "w" THEN
       IF ~c.ok THEN "could not be written as a well-formed document"
       ELSE LET els == WithinAll(c.doc, 1)
                want == Says("w", c.val)
                got == Denotes("w", c.doc)
            IN  IF ~RefsOk(els) THEN "a reference that does not name exactly one earlier object or list of type names"
                ELSE IF Agree(want, got) THEN "" ELSE "the document says something else; " \o Tell(want, got)
    ELSE
       LET want == Denotes("r", c.doc)
           valid == \A i \in DOMAIN want : want[i].s # Bad
       IN  IF ~valid THEN IF c.ok THEN "a text that denotes no value was accepted" ELSE ""
           ELSE IF ~c.ok THEN "a valid document could not be read"
           ELSE LET got == Says("r", c.val) IN
                IF Agree(want, got) THEN "" ELSE "read as something else; " \o Tell(want, got)

VARIABLE t
Init == t = 1
Next == /\ t <= Len(Cases)
        /\ LET v == Verdict(Cases[t]) IN IF v = "" THEN TRUE ELSE PrintT(ToJson([bad |-> TRUE, trace |-> t, line |-> 1, why |-> v]))
        /\ t' = t + 1
Report == t > Len(Cases) => PrintT(ToJson([done |-> TRUE, n |-> t - 1]))
Spec == Init /\ [][Next]_t
=============================================================================
