------------------------------ MODULE RefJudge ------------------------------
(* Judges what was read from documents with references: at each place the    *)
(* earliest place with the same object (same), its class, what it shows, the *)
(* place whose object it holds, and what such an element shows when it is    *)
(* read alone (alone).                                                       *)
EXTENDS Refs, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE)

Odd(c) ==
    IF ~c.ok THEN "a valid document could not be read"
    ELSE IF Len(c.got) # Len(c.d) THEN "another number of values"
    ELSE LET m == Meaning(c.d)
             say(j, what, want, got) == "place " \o ToString(j) \o ": " \o what \o " is " \o ToString(got) \o " instead of " \o ToString(want)
             odd(j) == IF c.got[j].class # m[j].class THEN say(j, "the class", m[j].class, c.got[j].class)
                       ELSE IF c.got[j].same # m[j].same THEN say(j, "the place of the object", m[j].same, c.got[j].same)
                       ELSE IF c.got[j].holds # m[j].holds THEN say(j, "the place of the object it holds", m[j].holds, c.got[j].holds)
                       ELSE IF c.got[j].shows # c.alone[m[j].same] THEN say(j, "what it shows", c.alone[m[j].same], c.got[j].shows)
                       ELSE ""
             bad == { j \in DOMAIN c.d : odd(j) # "" }
         IN  IF bad = {} THEN "" ELSE odd(CHOOSE j \in bad : \A k \in bad : j <= k)

VARIABLE t
Init == t = 1
Next == /\ t <= Len(Cases)
        /\ LET x == Odd(Cases[t]) IN IF x = "" THEN TRUE ELSE PrintT(ToJson([bad |-> TRUE, trace |-> t, line |-> 1, why |-> x]))
        /\ t' = t + 1
Report == t > Len(Cases) => PrintT(ToJson([done |-> TRUE, n |-> t - 1]))
Spec == Init /\ [][Next]_t
=============================================================================
