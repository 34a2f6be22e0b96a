----------------------------- MODULE HistJudge -----------------------------
(* Judges recorded histories.  A step: [op, ok, err, known whether Clixml    *)
(* says all about the value, doc written, d which document is read, how,     *)
(* val the value made or read, looked whether the program looked at all its  *)
(* values afterwards, look what it saw].                                     *)
EXTENDS History, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, w, docs
vars == << t, l, w, docs >>
Bad1(why) == PrintT(ToJson([bad |-> TRUE, trace |-> t, line |-> l, why |-> why]))
Tell(want, got) ==
    LET i == FirstDiff(want, got)
        s(x) == IF i <= Len(x) THEN x[i].t \o " " \o ToString(x[i].s) ELSE "nothing"
    IN  "token " \o ToString(i) \o ": expected " \o s(want) \o ", found " \o s(got)

Next0(e) == CASE e.op.o \in {"make", "read"} -> Join(w, e.val)
              [] e.op.o \in Changes -> Apply(w, e.op)
              [] OTHER -> w
\* what is wrong with the step itself
Wrong(e) ==
    CASE e.op.o = "write" ->
           LET says == All(Held(w, e.op.rs))
               want == Says("w", Given(Held(w, e.op.rs)))
               got == Denotes("w", e.doc)
           IN  IF ~e.ok THEN "a value could not be written: " \o e.err
               ELSE IF \E i \in DOMAIN docs : docs[i].says = says /\ docs[i].how = e.op.how /\ docs[i].doc # e.doc THEN "the same value was written differently before"
               ELSE IF ~e.known THEN ""
               ELSE IF ~RefsOk(WithinAll(e.doc, 1)) THEN "a reference that does not name exactly one earlier object or list of type names"
               ELSE IF ~Agree(want, got) THEN "the document says something else; " \o Tell(want, got) ELSE ""
      [] e.op.o = "read" ->
           LET want == Denotes("r", docs[e.op.d].doc)
               got == Says("r", e.val)
               says == All(e.val)
           IN  IF ~e.ok THEN "a document could not be read: " \o e.err
               ELSE IF \E i \in DOMAIN docs[e.op.d].reads : docs[e.op.d].reads[i] # says THEN "the same document was read as something else before"
               ELSE IF e.known /\ ~Agree(want, got) THEN "read as something else; " \o Tell(want, got) ELSE ""
      [] OTHER -> IF e.ok THEN "" ELSE "failed: " \o e.err
Docs(e) == CASE e.op.o = "write" -> Append(docs, [says |-> All(Held(w, e.op.rs)), how |-> e.op.how, doc |-> e.doc, reads |-> <<>>])
             [] e.op.o = "read" -> [docs EXCEPT ![e.op.d].reads = Append(@, All(e.val))]
             [] OTHER -> docs

Init == t = 1 /\ l = 1 /\ w = Empty /\ docs = <<>>
Skip == t' = t + 1 /\ l' = 1 /\ w' = Empty /\ docs' = <<>>
Next == /\ t <= Len(Traces)
        /\ IF l > Len(Traces[t].steps) THEN Skip
           ELSE LET e == Traces[t].steps[l]
                    x == Wrong(e)
                    n == Next0(e)
                IN  IF x # "" THEN Bad1(x) /\ Skip
                    ELSE IF ~e.looked THEN t' = t /\ l' = l + 1 /\ w' = n /\ docs' = Docs(e)
                    ELSE LET want == All(n)
                             got == All(e.look)
                         IN  IF want # got THEN Bad1("values are not what they should be; " \o Tell(want, got)) /\ Skip
                             ELSE t' = t /\ l' = l + 1 /\ w' = e.look /\ docs' = Docs(e)
Report == t > Len(Traces) => PrintT(ToJson([done |-> TRUE, n |-> t - 1]))
Spec == Init /\ [][Next]_vars
=============================================================================
