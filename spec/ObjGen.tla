------------------------------- MODULE ObjGen -------------------------------
(* Histories of operations on classes and objects, enumerated: every        *)
(* transition of the worlds reachable in Depth operations.                  *)
EXTENDS Objects, Json, TLC, Randomization

CONSTANTS Set, Depth, Cap

Op(o) == [o |-> o, i |-> 0, c |-> "", nm |-> "", x |-> Null, p |-> Note("A", "", FALSE, Null), force |-> FALSE, pos |-> <<>>, kw |-> <<>>]
Scalars == { Null, IntV("5"), IntV("2147483648"), StrV("7"), StrV("x"), StrV("") }
Values == Scalars \cup { Obj(1) }
NameSet == { Names[i] : i \in DOMAIN Names }
NewOp(c, pos, kw) == [Op("new") EXCEPT !.c = c, !.pos = pos, !.kw = kw]
K(nm, x) == [name |-> nm, val |-> x]
SetOps(i) == { [Op("set") EXCEPT !.i = i, !.nm = nm, !.x = x] : nm \in NameSet, x \in Values }
Members == { Note(nm, "", FALSE, x) : nm \in NameSet, x \in { Null, IntV("7"), Obj(1) } } \cup { Note(nm, ty, FALSE, x) : nm \in NameSet, ty \in {"PSInt", "PSString"}, x \in { StrV("5"), StrV("x") } }
           \cup { Script(nm, ty, FALSE, g, s) : nm \in NameSet, ty \in {"", "PSInt"}, g \in {"A", "E"}, s \in {"", "D"} } \cup { Alias(nm, ty, g) : nm \in NameSet, ty \in {"", "PSString"}, g \in {"A", "D", "N"} }
FewMembers == { Note("A", "PSInt", FALSE, StrV("5")), Note("N", "", FALSE, IntV("7")), Note("E", "", FALSE, StrV("x")), Script("D", "", FALSE, "E", "A"), Alias("N", "", "A"), Script("N", "PSInt", FALSE, "E", "") }
AddOps(i, M) == { [Op("add") EXCEPT !.i = i, !.p = p, !.force = f] : p \in M, f \in BOOLEAN }
ClassOps(C, M) == { [Op("cadd") EXCEPT !.c = c, !.p = p, !.force = f] : c \in C, p \in M, f \in BOOLEAN }
TypeOps(i) == { [Op("tn") EXCEPT !.i = i, !.nm = nm] : nm \in {"Deserialized.My.Base", "My.Derived", "New"} } \cup { [Op("untn") EXCEPT !.i = i], [Op("ts") EXCEPT !.i = i, !.nm = "text"], [Op("ts") EXCEPT !.i = i, !.nm = ""] }
Cs == { Declared[i].name : i \in DOMAIN Declared }
\* one way to make an object of each class
Usual(c) == IF c \in {"Base", "Bare"} THEN NewOp(c, << IntV("5") >>, <<>>) ELSE IF c = "Must" THEN NewOp(c, <<>>, << K("W", StrV("7")) >>) ELSE IF c = "Named" THEN NewOp(c, <<>>, << K("A", IntV("5")), K("N", StrV("x")) >>) ELSE NewOp(c, <<>>, <<>>)
KwSeqs(n) == UNION { [1..k -> { K(nm, x) : nm \in NameSet, x \in { IntV("5"), StrV("x") } }] : k \in 0..n }
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i].name # q[j].name
PosSeqs == UNION { [1..k -> { IntV("7"), StrV("x"), Null }] : k \in 0..3 } \cup { [i \in 1..7 |-> Null] }
\* ways to make objects
News == { NewOp(c, <<>>, q) : c \in Cs, q \in { r \in KwSeqs(2) : Distinct(r) } } \cup { NewOp(c, q, <<>>) : c \in Cs, q \in PosSeqs } \cup { NewOp(c, << IntV("7") >>, << K(nm, x) >>) : c \in Cs, nm \in NameSet, x \in { IntV("5"), StrV("x") } }
        \cup { NewOp(c, <<>>, << K("PSTypeName", StrV("Own")), K("A", IntV("7")), K("N", StrV("x")) >>) : c \in {"Bag", "Named"} } \cup { NewOp(c, <<>>, << K("N", IntV("7")), K("A", IntV("7")), K("PSTypeName", StrV("Own")) >>) : c \in {"Bag", "Named"} }

Start == CASE Set = "new" -> { <<>> }
           [] Set = "one" -> { << Usual(c) >> : c \in Cs }
           [] Set = "two" -> { << Usual(c), Usual(c) >> : c \in Cs \ {"Bare", "Bag"} } \cup { << Usual("Base"), Usual("Derived") >>, << Usual("Base"), Usual("Bare") >> }
RECURSIVE Fold(_, _, _)
Fold(w, q, j) == IF j > Len(q) THEN w ELSE Fold(Do(w, q[j]).w, q, j + 1)

VARIABLES world, hist, first
vars == << world, hist, first >>
Ops == CASE Set = "new" -> News
         [] Set = "one" -> SetOps(1) \cup AddOps(1, Members) \cup TypeOps(1)
         [] Set = "two" -> LET C == { world.objs[i].c : i \in DOMAIN world.objs }
                           IN  AddOps(2, FewMembers) \cup { [Op("set") EXCEPT !.i = 2, !.nm = nm, !.x = x] : nm \in {"A", "E", "N", "W"}, x \in { StrV("7"), Obj(1) } } \cup ClassOps(C, FewMembers) \cup { Usual(c) : c \in C }
                               \cup TypeOps(2)
Init == \E q \in Start : hist = q /\ world = Fold(World0, q, 1) /\ first = IF q = <<>> THEN "" ELSE q[1].c
Go(op) == LET r == Do(world, op) IN
          /\ PrintT(ToJson([ops |-> Append(hist, op)]))
          /\ world' = r.w /\ hist' = Append(hist, op) /\ UNCHANGED first
Pick(S) == IF Cap = 0 \/ Cardinality(S) <= Cap THEN S ELSE RandomSubset(Cap, S)
Next == /\ Len(hist) < Depth + (IF Set = "new" THEN 0 ELSE IF Set = "one" THEN 1 ELSE 2)
        /\ \E op \in Pick({ o \in Ops : Fair(world, o) }) : Go(op)
Spec == Init /\ [][Next]_vars
View == << world, first >>

----------------------------------------------------------------------------
(* The design: an operation on an object never shows on another one, an     *)
(* operation on a class only on objects made later, and one that is refused *)
(* nowhere.                                                                 *)
Isolated == [][LET op == hist'[Len(hist')]
                   a == world.objs
                   b == world'.objs
               IN  /\ Len(b) >= Len(a)
                   /\ \A i \in DOMAIN a : (op.o \in {"new", "cadd"} \/ op.i # i) => b[i] = a[i]
                   /\ op.o # "cadd" => world'.cls = world.cls
                   /\ ~Do(world, op).ok => world' = world]_vars
=============================================================================
