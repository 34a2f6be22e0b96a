------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Histories of a program that holds values, changes them, writes them as   *)
(* CLIXML and reads documents.  The values are one graph of nodes (see      *)
(* Clixml) with the values held as roots, so that it shows which of them    *)
(* share something.                                                         *)
(***************************************************************************)
EXTENDS Clixml

Node0 == [k |-> "Obj", g |-> "", s |-> <<>>, py |-> "", dtn |-> FALSE, tn |-> <<>>, ad |-> <<>>, ex |-> <<>>, hts |-> FALSE, ts |-> <<>>, c |-> "", it |-> <<>>]
Empty == [nodes |-> <<>>, roots |-> <<>>]
Shift(n, d) == [n EXCEPT !.ad = [i \in DOMAIN @ |-> [@[i] EXCEPT !.v = @ + d]], !.ex = [i \in DOMAIN @ |-> [@[i] EXCEPT !.v = @ + d]], !.it = [i \in DOMAIN @ |-> @[i] + d]]
\* another value, which has nothing to do with the ones there are
Join(w, v) == LET d == Len(w.nodes) IN [nodes |-> w.nodes \o [i \in DOMAIN v.nodes |-> Shift(v.nodes[i], d)], roots |-> w.roots \o [i \in DOMAIN v.roots |-> v.roots[i] + d]]

\* changes: op [o what, at node, part, j which property or entry, nm name, ref an object that is there or 0, node a new value]
Apply(w, op) ==
    LET n == w.nodes[op.at]
        new == op.ref = 0 /\ op.o \in {"set", "prop", "item"}
        v == IF new THEN Len(w.nodes) + 1 ELSE op.ref
        k == [Node0 EXCEPT !.k = "prim", !.g = "S", !.py = "str", !.s = op.nm]
        with(ns, x) == [w EXCEPT !.nodes = [ns EXCEPT ![op.at] = x]]
        ns == w.nodes \o (IF new THEN << op.node >> ELSE <<>>)
    IN  CASE op.o = "set" -> with(ns, [n EXCEPT ![op.part][op.j].v = v])
          [] op.o = "prop" -> with(ns, [n EXCEPT !.ex = Append(@, [n |-> op.nm, v |-> v])])
          [] op.o = "item" -> IF n.c # "DCT" THEN with(ns, [n EXCEPT !.it = Append(@, v)])
                              ELSE with(Append(ns, k), [n EXCEPT !.it = @ \o << Len(ns) + 1, v >>])
          [] op.o = "drop" -> with(ns, [n EXCEPT !.it = IF n.c = "QUE" THEN Tail(@) ELSE SubSeq(@, 1, Len(@) - (IF n.c = "DCT" THEN 2 ELSE 1))])
          [] op.o = "name" -> with(ns, [n EXCEPT !.tn = << op.nm >> \o (IF n.dtn THEN ClassNames(n.py) ELSE @), !.dtn = FALSE])
          [] op.o = "text" -> with(ns, [n EXCEPT !.hts = TRUE, !.ts = op.nm])
Changes == {"set", "prop", "item", "drop", "name", "text"}

\* the values as they are given to be written: containers and primitives are not described
Given(w) == [w EXCEPT !.nodes = [i \in DOMAIN @ |-> LET n == @[i] IN
                IF n.k = "Obj" /\ n.g # "" /\ n.ad = <<>> /\ n.ex = <<>> THEN [n EXCEPT !.k = "prim"]
                ELSE IF n.k = "Obj" /\ n.g # "" THEN [n EXCEPT !.hts = FALSE, !.dtn = TRUE]
                ELSE IF n.py = "PSIEnumerable" THEN [n EXCEPT !.hts = FALSE, !.c = "IE"]
                ELSE IF n.c # "" THEN [n EXCEPT !.hts = FALSE] ELSE n]]
Held(w, rs) == [w EXCEPT !.roots = [i \in DOMAIN rs |-> w.roots[rs[i]]]]
All(w) == Says("x", w)
=============================================================================
