------------------------------- MODULE RefGen -------------------------------
(* Documents with references, enumerated.                                    *)
EXTENDS Refs, Json, Randomization

CONSTANTS Size, Cap

Layouts == { "roots", "list", "props", "adapted", "values", "deep", "queue" }
Place(k, t, o) == [kind |-> k, to |-> t, of |-> o]
Plain == { Place(k, 0, 0) : k \in Kinds \ Holders }
Held(j) == { Place(k, 0, o) : k \in Holders, o \in 1..(j - 1) }
RefTo(j) == { Place("ref", t, 0) : t \in 1..(j - 1) }
Pick(S) == IF Cap = 0 \/ Cardinality(S) <= Cap THEN S ELSE RandomSubset(Cap, S)

VARIABLES d, layout, share
Init == d = <<>> /\ layout \in Layouts /\ share \in BOOLEAN
Next == /\ Len(d) < Size
        /\ LET j == Len(d) + 1 IN \E p \in (IF j = 1 THEN Plain ELSE IF j = Size THEN RefTo(j) ELSE Pick(Plain \cup Held(j)) \cup RefTo(j)) : d' = Append(d, p)
        /\ UNCHANGED << layout, share >>
Spec == Init /\ [][Next]_<< d, layout, share >>
Emit == Len(d) = Size => PrintT(ToJson([d |-> d, layout |-> layout, share |-> share]))

----------------------------------------------------------------------------
(* The design: the meaning of a place is never a reference, and only        *)
(* elements that stand before it matter.                                    *)
Sound == /\ Valid(d)
         /\ LET m == Meaning(d) IN \A j \in DOMAIN d :
              /\ m[j].same <= j /\ d[m[j].same].kind # "ref" /\ m[m[j].same] = m[j]
              /\ m[j].holds < j /\ (m[j].holds # 0 => m[m[j].holds].same = m[j].holds)
              /\ \A n \in j..Len(d) : Meaning(SubSeq(d, 1, n))[j] = m[j]
=============================================================================
