------------------------------ MODULE HistGen ------------------------------
(* Histories of writing, reading and changing a few values, enumerated.     *)
EXTENDS History, Json, Randomization, FiniteSets

CONSTANTS Start, Depth, Cap

Str(x) == [Node0 EXCEPT !.k = "prim", !.g = "S", !.py = "str", !.s = U(x)]
Num(x) == [Node0 EXCEPT !.k = "prim", !.g = "I32", !.py = "PSInt", !.s = U(x)]
O(tn, ad, ex) == [Node0 EXCEPT !.py = "PSCustomObject", !.dtn = tn = <<>>, !.tn = tn, !.ad = ad, !.ex = ex]
C(c, py, it) == [Node0 EXCEPT !.py = py, !.c = c, !.dtn = TRUE, !.it = it]
P(nm, v) == [n |-> U(nm), v |-> v]
V(nodes) == [nodes |-> nodes, roots |-> << 1 >>]
Values == [ \* objects with the same type names, one twice
    names |-> V(<< O(<< U("A"), U("B") >>, <<>>, << P("x", 2), P("y", 3), P("z", 2) >>), O(<< U("A"), U("B") >>, << P("v", 4) >>, <<>>), O(<<>>, <<>>, << P("v", 4) >>), Str("a") >>),
    \* objects in circles, through containers
    circle |-> V(<< O(<< U("A") >>, << P("me", 1) >>, << P("l", 2) >>), C("LST", "PSList", << 1, 3 >>), O(<<>>, <<>>, << P("up", 1), P("n", 4) >>), Num("7") >>),
    \* containers of each kind
    kinds |-> V(<< C("LST", "list", << 2, 3, 4, 5, 8 >>), C("STK", "PSStack", << 6, 7 >>), C("QUE", "PSQueue", << 7, 6 >>), C("DCT", "dict", << 6, 2, 9, 7 >>), C("IE", "PSIEnumerable", << 7 >>), Str("a"), Num("7"), C("DCT", "PSDict", <<>>), Str("") >>),
    \* ordinary Python values
    plain |-> V(<< [Node0 EXCEPT !.py = "object", !.dtn = TRUE, !.ex = << P("p", 2), P("q", 3) >>], C("LST", "list", << 4, 5 >>), C("QUE", "queue", << 5, 4 >>), O(<< U("System.Object") >>, <<>>, << P("o", 1) >>), Str("a") >>),
    \* a list held twice
    twice |-> V(<< O(<<>>, << P("a", 2) >>, << P("b", 2), P("c", 3) >>), C("LST", "PSList", << 4 >>), O(<< U("Deserialized.A") >>, <<>>, <<>>), Num("1") >>)]

Op(o) == [o |-> o, at |-> 0, part |-> "ex", j |-> 0, nm |-> <<>>, ref |-> 0, node |-> Node0, rs |-> <<>>, how |-> "", d |-> 0, path |-> <<>>, value |-> ""]

VARIABLES w, docs, hist
vars == << w, docs, hist >>
Init == \E s \in (IF Start = "" THEN DOMAIN Values ELSE {Start}) : w = Join(Empty, Values[s]) /\ docs = <<>> /\ hist = << [Op("make") EXCEPT !.value = s] >>

\* the ways from a value to what is in it
Step(n, s) == IF s.p = "it" THEN n.it[s.j] ELSE n[s.p][s.j].v
Steps(n) == UNION { { [p |-> p, j |-> j] : j \in DOMAIN n[p] } : p \in {"it", "ad", "ex"} }
RECURSIVE Ways(_, _)
Ways(i, n) == { [i |-> i, path |-> <<>>] } \cup (IF n = 0 THEN {} ELSE UNION { { [r EXCEPT !.path = << s >> \o @] : r \in Ways(Step(w.nodes[i], s), n - 1) } : s \in Steps(w.nodes[i]) })
Targets(r) == LET ws == Ways(w.roots[r], 2)
                  is == { x.i : x \in { y \in ws : w.nodes[y.i].k = "Obj" } }
              IN  { CHOOSE x \in ws : x.i = i /\ \A y \in ws : y.i = i => Len(x.path) <= Len(y.path) : i \in is }
Name == << 122, 48 + Len(hist) >>
ChangesOf(r, x) ==
    LET n == w.nodes[x.i]
        b == [Op("") EXCEPT !.at = x.i, !.rs = << r >>, !.path = x.path, !.nm = Name, !.node = Str("new")]
        gen == n.py \in {"PSCustomObject", "PSObject"}
        objs == { q \in DOMAIN w.roots : w.nodes[w.roots[q]].py = "PSCustomObject" }
    IN  (IF gen \/ n.py = "object" THEN UNION { { [b EXCEPT !.o = "set", !.part = p, !.j = j] : j \in DOMAIN n[p] } : p \in {"ad", "ex"} } ELSE {})
        \cup (IF gen THEN { [b EXCEPT !.o = "prop"], [b EXCEPT !.o = "name"], [b EXCEPT !.o = "text"] } \cup { [b EXCEPT !.o = "prop", !.j = q, !.ref = w.roots[q]] : q \in objs } ELSE {})
        \cup (IF n.c # "" THEN { [b EXCEPT !.o = "item"] } ELSE {})
        \cup (IF n.c # "" /\ ~(n.py \in DOMAIN PyKind) THEN { [b EXCEPT !.o = "prop"] } ELSE {})
        \cup (IF n.c # "" /\ n.it # <<>> THEN { [b EXCEPT !.o = "drop"] } ELSE {})
Ops == UNION { UNION { ChangesOf(r, x) : x \in Targets(r) } : r \in DOMAIN w.roots }
       \cup { [Op("write") EXCEPT !.rs = << r >>, !.how = h] : r \in DOMAIN w.roots, h \in {"each", "all"} }
       \cup { [Op("write") EXCEPT !.rs = [i \in DOMAIN w.roots |-> i], !.how = "all"] }
       \cup { [Op("read") EXCEPT !.d = d] : d \in DOMAIN docs }
       \cup { [Op(o) EXCEPT !.rs = << 1 >>] : o \in {"badread", "badwrite", "session", "newtype"} }
       \cup { [Op("make") EXCEPT !.value = hist[1].value] }
Do(op) ==
    /\ w' = (CASE op.o = "make" -> Join(w, Values[op.value])
               [] op.o = "read" -> Join(w, docs[op.d])
               [] op.o \in Changes -> Apply(w, op)
               [] OTHER -> w)
    /\ docs' = IF op.o = "write" THEN Append(docs, Held(w, op.rs)) ELSE docs
    /\ hist' = Append(hist, op)
    /\ PrintT(ToJson([ops |-> hist']))
Pick(S) == IF Cap = 0 \/ Cardinality(S) <= Cap THEN S ELSE RandomSubset(Cap, S)
Next == Len(hist) <= Depth /\ \E op \in Pick(Ops) : Do(op)
Spec == Init /\ [][Next]_vars
View == << w, docs, Len(hist) >>

----------------------------------------------------------------------------
(* The design: a change shows on the values that hold what was changed and  *)
(* nowhere else; nothing else changes any value; a document that was        *)
(* written stays what it is, and what is read shares nothing.               *)
RECURSIVE Reach(_, _, _)
Reach(N, todo, seen) == IF todo = {} THEN seen ELSE LET i == CHOOSE x \in todo : TRUE
                                                       new == { Step(N[i], s) : s \in Steps(N[i]) } \ (seen \cup {i})
                                                   IN  Reach(N, (todo \ {i}) \cup new, seen \cup {i})
From1(v, r) == Reach(v.nodes, { v.roots[r] }, {})
Apart == [][LET op == hist'[Len(hist')] IN
            /\ \A r \in DOMAIN w.roots : (op.o \in Changes => ~(op.at \in From1(w, r))) => All(Held(w, << r >>)) = All(Held(w', << r >>))
            /\ Len(w'.roots) > Len(w.roots) => LET n == Len(w'.roots) IN \A r \in 1..Len(w.roots) : From1(w', r) \cap From1(w', n) = {}
            /\ \A d \in DOMAIN docs : All(docs'[d]) = All(docs[d])]_vars
ASSUME PrintT(ToJson([values |-> Values]))
=============================================================================
