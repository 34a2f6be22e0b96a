----------------------------- MODULE ShellJudge -----------------------------
(* Judges recorded histories of shells: writes, takes and readings.  A text  *)
(* that is read is made of documents, each one of those taken before or one  *)
(* made for the occasion.                                                    *)
EXTENDS Shell, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, shells, pieces
vars == << t, l, shells, pieces >>
Bad1(why) == PrintT(ToJson([bad |-> TRUE, trace |-> t, line |-> l, why |-> why]))
Tell(want, got) ==
    LET i == FirstDiff(want, got)
        s(x) == IF i <= Len(x) THEN x[i].t \o " " \o ToString(x[i].s) ELSE "nothing"
    IN  "token " \o ToString(i) \o ": expected " \o s(want) \o ", found " \o s(got)

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* the elements of a document that are any values, all by themselves; the others give meaning to references
Trees(els) == [i \in DOMAIN els |-> els[i].e]
Meaning(mode, els, some) == DocAll(Env(WithinAll(Trees(els), 1)), mode, Trees(some), 1, Seen0)
Graph(nodes, items) == LET g(x) == x.k = "graph"
                           is == SelectSeq(items, g)
                       IN  [nodes |-> nodes, roots |-> [i \in DOMAIN is |-> is[i].root]]

HexOf(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Hex(u) == Cat([i \in DOMAIN u |-> << HexOf((u[i] % 256) \div 16), HexOf(u[i] % 16), HexOf(u[i] \div 4096), HexOf((u[i] \div 256) % 16) >>])
Upper(u) == [i \in DOMAIN u |-> IF u[i] \in 97..122 THEN u[i] - 32 ELSE u[i]]
\* whether an element is how an item is written, apart from values and what is in records
Written(item, el) ==
    /\ el.l # <<>> /\ StreamOf(el.l) = item.s
    /\ CASE item.k = "text" -> el.e.g = "S" /\ Unescape(el.e.x) = item.u
         [] item.k = "secret" -> el.e.g = "SS" /\ Upper(el.e.x) = Hex(item.u)
         [] item.k = "rec" /\ item.s = "progress" ->
              /\ el.e.g = "Obj" /\ Has(el.e, "MS")
              /\ LET ps == Kid(el.e, "MS").c
                 IN  /\ \E i \in DOMAIN ps : ps[i].n = U("SourceId") /\ ps[i].g = "I64" /\ ps[i].x = item.u
                     /\ \E i \in DOMAIN ps : ps[i].n = U("Record") /\ ps[i].g = "PR"
         [] item.k = "rec" -> el.e.g = "Obj"
         [] OTHER -> TRUE

WrongTake(e, N) ==
    LET want == Taken(shells[e.sh])
        els == Cat(e.docs)
        odd == { i \in DOMAIN els : i <= Len(want.items) /\ ~Written(want.items[i], els[i]) }
        g(i) == want.items[i].k = "graph"
        some == LET is == SelectSeq([i \in DOMAIN els |-> i], g) IN [j \in DOMAIN is |-> els[is[j]]]
        says == Says("w", Graph(N, want.items))
    IN  IF e.stumbles THEN IF e.ok THEN "taken though a value cannot be written" ELSE ""
        ELSE IF ~e.ok THEN "could not be taken: " \o e.err
        ELSE IF want.items = <<>> THEN IF e.empty THEN "" ELSE "a text though nothing was written"
        ELSE IF e.empty THEN "no text for what was written"
        ELSE IF e.err # "" THEN "not a CLIXML text: " \o e.err
        ELSE IF e.mark # want.mark THEN IF e.mark THEN "the marker once more" ELSE "no marker"
        ELSE IF Len(els) # Len(want.items) THEN "another number of values than were written"
        ELSE IF odd # {} THEN "value " \o ToString(CHOOSE i \in odd : TRUE) \o " is not written as what it is, in its stream"
        ELSE IF ~RefsOk(WithinAll(Trees(els), 1)) THEN "a reference that does not name exactly one earlier object or list of type names"
        ELSE IF Len(e.docs) = 1 /\ ~Agree(says, Meaning("w", els, some)) THEN "the text says something else; " \o Tell(says, Meaning("w", els, some))
        ELSE ""

\* the documents of a text: what is in each of them, in order
DocOf(d) == IF d.piece = 0 THEN [i \in DOMAIN d.els |-> [d.els[i] EXCEPT !.s = StreamOf(d.els[i].l)]]
            ELSE LET p == pieces[d.piece] IN [i \in DOMAIN p.items |-> [l |-> p.els[i].l, e |-> p.els[i].e, s |-> p.items[i].s, k |-> p.items[i].k, u |-> p.items[i].u, f |-> p.items[i].f]]
Out(doc, s) == LET o(x) == x.s = s /\ Plain(x.k) IN SelectSeq(doc, o)

\* the values of a stream of any values, a document at a time
RECURSIVE OutWrong(_, _, _, _)
OutWrong(s, docs, graph, at) ==
    IF docs = <<>> THEN IF at = Len(graph.roots) THEN "" ELSE "more values than there are"
    ELSE LET some == Out(Head(docs), s)
             n == Len(some)
             want == Meaning("r", Head(docs), some)
             got == Says("r", [graph EXCEPT !.roots = SubSeq(@, at + 1, at + n)])
         IN  IF at + n > Len(graph.roots) THEN "values are missing"
             ELSE IF ~Agree(want, got) THEN "read as something else; " \o Tell(want, got)
             ELSE OutWrong(s, Tail(docs), graph, at + n)

WrongRead(e) ==
    LET docs == [i \in DOMAIN e.docs |-> DocOf(e.docs[i])]
        all == Cat(docs)
        seen(s) == LET is == OfStream(all, s) IN [i \in DOMAIN is |-> IF s \in Free /\ Plain(is[i].k) THEN [t |-> "graph", u |-> <<>>, f |-> <<>>] ELSE Shows(is[i].k, is[i].u, is[i].f)]
        off == { s \in StreamSet : seen(s) # e.got[s] }
    IN  IF ~e.ok THEN "could not be read: " \o e.err
        ELSE IF off # {} THEN LET s == CHOOSE x \in off : TRUE IN "read as stream " \o s \o ": " \o ToString(e.got[s]) \o " instead of " \o ToString(seen(s))
        ELSE LET w == OutWrong("output", docs, e.graph.output, 0) IN IF w # "" THEN w ELSE OutWrong("information", docs, e.graph.information, 0)

N0 == Traces[t].nodes
Init == t = 1 /\ l = 1 /\ shells = << Shell0, Shell0 >> /\ pieces = <<>>
Skip == t' = t + 1 /\ l' = 1 /\ shells' = << Shell0, Shell0 >> /\ pieces' = <<>>
Next == /\ t <= Len(Traces)
        /\ IF l > Len(Traces[t].steps) THEN Skip
           ELSE LET e == Traces[t].steps[l]
                    x == CASE e.o = "write" -> IF e.ok THEN "" ELSE "could not be written: " \o e.err
                           [] e.o = "take" -> WrongTake(e, N0)
                           [] e.o = "read" -> WrongRead(e)
                IN  IF x # "" THEN Bad1(x) /\ Skip
                    ELSE /\ t' = t /\ l' = l + 1
                         /\ shells' = (CASE e.o = "write" -> [shells EXCEPT ![e.sh] = Write(@, e.item)]
                                         [] e.o = "take" /\ e.ok -> [shells EXCEPT ![e.sh] = Take(@)]
                                         [] OTHER -> shells)
                         /\ pieces' = IF e.o = "take" /\ e.ok /\ ~e.empty THEN Append(pieces, [items |-> shells[e.sh].pend, els |-> Cat(e.docs)]) ELSE pieces
Report == t > Len(Traces) => PrintT(ToJson([done |-> TRUE, n |-> t - 1]))
Spec == Init /\ [][Next]_vars
=============================================================================
