----------------------------- MODULE WireSched -----------------------------
(* Every schedule of queueing messages and asking for payloads up to a      *)
(* length, over message kinds and limits that sit on the boundaries of the  *)
(* format.  A message with n characters takes 47 + n bytes, 68 + n with the *)
(* head of a fragment.                                                      *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth, Set

Q(p, s, n) == [k |-> "q", p |-> p, s |-> s, n |-> n, limit |-> 0]
P(limit) == [k |-> "pull", p |-> 0, s |-> "d", n |-> 0, limit |-> limit]

Ops == CASE Set = "targets" -> { Q(0, "d", 1), Q(1, "d", 1), Q(1, "p", 1), Q(2, "d", 0) } \cup { P(l) : l \in {0, 45, 69, 138, 200} }
         [] Set = "sizes" -> { Q(1, "d", 0), Q(1, "d", 1), Q(1, "d", 22) } \cup { P(l) : l \in {21, 23, 68, 69, 70, 89, 90, 91, 92, 137, 138, 139, 0} }
         [] Set = "small" -> { Q(0, "d", 1), Q(2, "p", 2) } \cup { P(l) : l \in {22, 60, 61, 62, 63, 0} }

VARIABLE h
Init == h = <<>>
Next == Len(h) < Depth /\ \E o \in Ops : (h # <<>> \/ o.k = "q") /\ h' = Append(h, o)
Spec == Init /\ [][Next]_h
Emit == Len(h) = Depth => PrintT(ToJson([h |-> h]))
=============================================================================
