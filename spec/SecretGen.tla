----------------------------- MODULE SecretGen ------------------------------
(* Secrets and the places they can be in, enumerated.                        *)
EXTENDS Secret, Json, TLC

CONSTANT Size       \* of the texts over all classes of units

Units == { 0, 10, 97, 233, 8364, 55357, 56832, 65279, 65534 }
Texts == UNION { [1..k -> Units] : k \in 0..Size } \cup { [i \in 1..n |-> 96 + (i % 26)] : n \in 0..40 } \cup { [i \in 1..n |-> 55357] : n \in 7..9 } \cup { [i \in 1..600 |-> i * 101] }
                  \cup { U("_x0041_"), U("<a>&amp;"), U("IAA="), [i \in 1..8 |-> 2056], [i \in 1..16 |-> 4112] }
Places == { p \in [holder : Holders, route : ClientRoutes \cup ServerRoutes, exchanged : BOOLEAN] : ~(p.route \in Early /\ p.exchanged) }
Cases == { [k |-> "text", u |-> t] : t \in Texts } \cup { [k |-> "place", p |-> p, refused |-> Refused(p.route, p.exchanged)] : p \in Places }

VARIABLE c
Init == c \in Cases /\ PrintT(ToJson([c |-> c]))
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
\* no two texts have the same plain bytes: checked by reading them back
Sound == c.k = "text" =>
                         LET b == Plain(c.u)
                             n == Len(b) - b[Len(b)]
                         IN  Len(b) % 16 = 0 /\ [i \in 1..(n \div 2) |-> b[2 * i - 1] + 256 * b[2 * i]] = c.u
=============================================================================
