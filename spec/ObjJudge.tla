------------------------------ MODULE ObjJudge ------------------------------
(* Judges recorded histories of operations on classes and objects: each     *)
(* step has the operation, whether it was refused and what could be seen    *)
(* afterwards.                                                              *)
EXTENDS Objects, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, world
Bad(why) == PrintT(ToJson([bad |-> TRUE, trace |-> t, line |-> l, why |-> why]))
Init == t = 1 /\ l = 1 /\ world = World0
Skip == t' = t + 1 /\ l' = 1 /\ world' = World0
Next == /\ t <= Len(Traces)
        /\ IF l > Len(Traces[t].steps) THEN Skip
           ELSE LET e == Traces[t].steps[l]
                    r == Do(world, e.op)
                    see == Look(r.w)
                    diff == { i \in DOMAIN see : i > Len(e.look) \/ see[i] # e.look[i] }
                    field(i) == CHOOSE f \in {"ad", "ex", "all", "tn", "hts", "ts", "isa"} : see[i][f] # e.look[i][f]
                IN  IF ~Fair(world, e.op) THEN Skip                 \* nothing is claimed about the rest
                    ELSE IF e.err # "" THEN Bad(e.err) /\ Skip
                    ELSE IF e.ok # r.ok THEN Bad(IF r.ok THEN "refused what should have been done" ELSE "done what should have been refused") /\ Skip
                    ELSE IF Len(e.look) # Len(see) THEN Bad("another number of objects") /\ Skip
                    ELSE IF diff # {} THEN LET i == CHOOSE j \in diff : TRUE IN
                         Bad("object " \o ToString(i) \o " shows " \o field(i) \o " " \o ToString(e.look[i][field(i)]) \o " instead of " \o ToString(see[i][field(i)])) /\ Skip
                    ELSE t' = t /\ l' = l + 1 /\ world' = r.w
Report == t > Len(Traces) => PrintT(ToJson([done |-> TRUE, n |-> t - 1]))
Spec == Init /\ [][Next]_<< t, l, world >>
ASSUME PrintT(ToJson([classes |-> Declared, names |-> Names, marks |-> Marks]))
=============================================================================
