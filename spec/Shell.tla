------------------------------- MODULE Shell -------------------------------
(***************************************************************************)
(* CLIXML shells: what is written to the seven streams of a shell, the      *)
(* texts taken from it, and what reading such texts gives.                  *)
(*                                                                          *)
(* An item is [s stream, k kind, u text, f fields, root]:                   *)
(*  k "graph"   any value, a root of the graph of all values (see Clixml)   *)
(*    "text"    a text                                                      *)
(*    "rec"     an error, information or progress record with fields f      *)
(*    "secret"  a secure string                                             *)
(*    "mark"    an object with a text of its own                            *)
(* An element of a document is [l label, k, u, f, e tree].                  *)
(***************************************************************************)
EXTENDS Clixml

StreamNames == << "output", "error", "debug", "verbose", "warning", "progress", "information" >>
StreamSet == { StreamNames[i] : i \in DOMAIN StreamNames }

\* what there is in a shell: what was written and not taken, and whether its marker was
Shell0 == [pend |-> <<>>, marked |-> FALSE]
Write(sh, item) == [sh EXCEPT !.pend = Append(@, item)]
\* taking gives no text when there is nothing, and otherwise a marker once and all that was written
Taken(sh) == [mark |-> sh.pend # <<>> /\ ~sh.marked, items |-> sh.pend]
Take(sh) == [pend |-> <<>>, marked |-> sh.marked \/ sh.pend # <<>>]

\* the stream of a label: letters of any case, and anything unknown is output
LowerText(u) == [i \in DOMAIN u |-> Lower(u[i])]
StreamOf(l) == LET m == { s \in StreamSet : U(s) = LowerText(l) } IN IF m = {} THEN "output" ELSE CHOOSE s \in m : TRUE

\* what is seen of an item when it is read
Shows(k, u, f) == IF k = "rec" THEN [t |-> "rec", u |-> <<>>, f |-> f]
                  ELSE IF k = "secret" THEN [t |-> "secret", u |-> u, f |-> <<>>]
                  ELSE [t |-> "text", u |-> u, f |-> <<>>]
OfStream(items, s) == LET in(x) == x.s = s IN SelectSeq(items, in)
Plain(k) == k \in {"graph", "text", "mark"}
\* the streams that hold any value as it is
Free == {"output", "information"}
=============================================================================
