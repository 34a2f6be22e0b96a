------------------------------ MODULE ShellGen ------------------------------
(* Histories of shells, and CLIXML texts, enumerated.                        *)
EXTENDS Shell, Json, FiniteSets, Randomization

CONSTANTS Set, Depth, Cap

Kinds == { << "output", "graph" >>, << "output", "rec" >>, << "output", "secret" >>, << "error", "text" >>, << "error", "rec" >>, << "debug", "text" >>, << "verbose", "text" >>,
           << "warning", "text" >>, << "progress", "rec" >>, << "information", "text" >>, << "information", "rec" >>, << "information", "graph" >> }
FewKinds == { << "output", "graph" >>, << "error", "rec" >>, << "verbose", "text" >> }
Ops(K, S) == { [o |-> "write", sh |-> sh, s |-> k[1], k |-> k[2]] : sh \in S, k \in K } \cup { [o |-> o, sh |-> sh, s |-> "", k |-> ""] : sh \in S, o \in {"take", "trip"} }

\* texts: documents with what may stand around and in them
Before == { "", "marklf", "markcrlf", "mark", "marktwice", "decl", "decl16", "marklf decl", "comment", "pi", "blank", "blank marklf", "blank decl", "bom", "bom marklf", "marklf blank comment" }
Styles == { "xmlns", "plain", "prefix", "quotes", "wide", "inner" }
Labels == UNION { { s, "Upper " \o s, "Title " \o s } : s \in StreamSet } \cup { "none", "bogus" }
KindsOf(lb) == IF lb \in { "progress", "Upper progress", "Title progress" } THEN { "rec", "bare" }
               ELSE IF lb \in { "none", "bogus", "output", "Upper output", "Title output" } THEN { "text", "graph", "mark", "rec", "secret" }
               ELSE IF lb \in { "error", "Upper error", "Title error" } THEN { "text", "mark", "rec" }
               ELSE IF lb \in { "information", "Upper information", "Title information" } THEN { "text", "graph", "mark", "rec" }
               ELSE { "text", "mark" }
Els == UNION { { << lb, k >> : k \in KindsOf(lb) } : lb \in Labels }
Contents == { <<>>, << << "none", "text" >> >>, << << "Title error", "text" >>, << "output", "graph" >> >> }
Doc(b, s, c) == [before |-> b, style |-> s, els |-> c]
Texts == { << << Doc("", "xmlns", << x, y >>) >> >> : x \in Els, y \in { << "none", "graph" >>, << "Title verbose", "text" >> } }
         \cup { << << Doc(b, s, c) >> >> : b \in Before, s \in Styles, c \in Contents }
         \cup { << << Doc(b, "xmlns", c), Doc(d, s, k) >> >> : b \in { "", "marklf", "decl" }, c \in Contents, d \in Before \ { "bom", "bom marklf" }, s \in { "xmlns", "plain" }, k \in Contents }
         \cup { << << Doc(b, "xmlns", c) >>, << Doc(d, s, k) >> >> : b \in { "", "marklf" }, c \in Contents, d \in Before, s \in { "xmlns", "prefix" }, k \in Contents }
         \cup { << <<>>, << Doc("marklf", "xmlns", c) >>, <<>> >> : c \in Contents } \cup { << <<>> >>, << <<>>, <<>> >> }
         \cup { << << Doc("marklf", "none", <<>>) >>, << Doc("", "xmlns", c) >> >> : c \in Contents } \cup { << << Doc(b, "none", <<>>) >> >> : b \in { "marklf", "mark" } }

VARIABLES shells, gone, said, hist
vars == << shells, gone, said, hist >>
S0 == IF Set = "two" THEN {1, 2} ELSE {1}
Init == shells = << Shell0, Shell0 >> /\ gone = << <<>>, <<>> >> /\ said = << <<>>, <<>> >> /\ hist = <<>>
Item(op) == [s |-> op.s, k |-> op.k, n |-> Len(hist)]
Do(op) == /\ hist' = Append(hist, op)
          /\ shells' = (CASE op.o = "write" -> [shells EXCEPT ![op.sh] = Write(@, Item(op))] [] op.o = "take" -> [shells EXCEPT ![op.sh] = Take(@)] [] OTHER -> shells)
          /\ gone' = IF op.o = "take" THEN [gone EXCEPT ![op.sh] = Append(@, Taken(shells[op.sh]))] ELSE gone
          /\ said' = IF op.o = "write" THEN [said EXCEPT ![op.sh] = Append(@, Item(op))] ELSE said
          /\ Len(hist') = Depth => PrintT(ToJson([ops |-> hist']))
Pick(S) == IF Cap = 0 \/ Cardinality(S) <= Cap THEN S ELSE RandomSubset(Cap, S)
Next == Set # "texts" /\ Len(hist) < Depth /\ \E op \in Pick(Ops(IF Set = "two" THEN FewKinds ELSE Kinds, S0)) : Do(op)
Spec == Init /\ [][Next]_vars
Emit == Set = "texts" /\ hist = <<>> => \A x \in Texts : PrintT(ToJson([texts |-> x]))

----------------------------------------------------------------------------
(* The design: the texts taken and what is still there are all that was     *)
(* written, in order, and the marker stands once, before everything.        *)
RECURSIVE CatItems(_)
CatItems(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps).items \o CatItems(Tail(ps))
NothingLost == \A sh \in {1, 2} :
    /\ CatItems(gone[sh]) \o shells[sh].pend = said[sh]
    /\ \A s \in StreamSet : OfStream(CatItems(gone[sh]), s) \o OfStream(shells[sh].pend, s) = OfStream(said[sh], s)
    /\ LET real == { i \in DOMAIN gone[sh] : gone[sh][i].items # <<>> }
       IN  \A i \in DOMAIN gone[sh] : gone[sh][i].mark <=> i \in real /\ \A j \in real : i <= j
=============================================================================
