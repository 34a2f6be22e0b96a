------------------------------ MODULE NumJudge ------------------------------
(* Judges what was made of what, and what was seen of it.                    *)
EXTENDS Numbers, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE)
AreOk(c, want, what) == IF want /\ ~c.ok THEN "refused " \o what ELSE IF ~want /\ c.ok THEN "took " \o what \o " that it cannot hold" ELSE ""
\* for what was made: the first thing wrong
Made(c, want, what, wrong) == LET r == AreOk(c, want, what) IN IF r # "" THEN r ELSE IF want THEN wrong ELSE ""
Is(c, f, want) == IF c[f] = want THEN "" ELSE f \o " is " \o ToString(c[f]) \o " instead of " \o ToString(want)
RECURSIVE First(_)
First(ws) == IF ws = <<>> THEN "" ELSE IF Head(ws) # "" THEN Head(ws) ELSE First(Tail(ws))

Verdict(c) ==
    CASE c.k = "int" -> Made(c, Holds(c.g, c.s), "a number", First(<< Is(c, "own", TRUE), Is(c, "v", LexInt(c.g, c.s)), IF c.g = "C" THEN "" ELSE Is(c, "shown", LexInt(c.g, c.s)), Is(c, "tag", c.g), Is(c, "text", LexInt(c.g, c.s)) >>))
      [] c.k = "op" -> LET v == Bin(c.op, c.a, c.b)
                       IN  Made(c, v # Bad /\ Holds(c.g, v), "the operation", First(<< Is(c, "v", v), Is(c, "own", TRUE), IF c.op = "divmod" THEN Is(c, "rem", BigDiv(c.a, c.b).r) ELSE "" >>))
      [] c.k = "compare" -> Made(c, TRUE, "two numbers", First(<< Is(c, "res", BigOrder(c.a, c.b)), Is(c, "truth", c.a # << 48 >>), IF c.a = c.b THEN Is(c, "hash", TRUE) ELSE "" >>))
      [] c.k = "slice" -> Made(c, TRUE, "a slice", First(<< Is(c, "v", SliceOf(c.u, c.i, c.j, c.s)), Is(c, "own", TRUE) >>))
      [] c.k = "item" -> Made(c, ItemOk(c.u, c.i), "an item", First(<< Is(c, "v", << ItemOf(c.u, c.i) >>), Is(c, "own", TRUE) >>))
      [] c.k = "shown" -> Made(c, TRUE, "a moment", Is(c, "v", IF c.t = "TS" THEN ShowSpan(c.d) ELSE ShowDate(c.d, c.off)))
      [] c.k = "char" -> Made(c, CharOf(c.u), "a text", First(<< Is(c, "own", TRUE), Is(c, "v", DigitsOf(c.u[1])), Is(c, "shown", c.u), Is(c, "tag", "C"), Is(c, "text", DigitsOf(c.u[1])) >>))
      [] c.k = "version" -> IF Padded(c.parts) THEN "" ELSE
            LET ps == IF c.how = "text" THEN Split(c.u, 46) ELSE c.parts
            IN  Made(c, VersionOk(ps), "a version", First(<< Is(c, "v", ps), Is(c, "shown", JoinWith(ps, U("."))), Is(c, "text", JoinWith(ps, U("."))) >>))
      [] c.k = "order" -> Made(c, TRUE, "two versions", First(<< Is(c, "res", VersionOrder(c.a, c.b)), IF c.a = c.b THEN Is(c, "hash", TRUE) ELSE "" >>))
      [] c.k = "enum" -> LET en == Enums[c.c] IN IF en.flag /\ c.n < 0 THEN "" ELSE Made(c, Defined(en, c.n), "a number",
                First(<< Is(c, "own", TRUE), Is(c, "v", c.n), IF NameClear(en, c.n) THEN Is(c, "name", NameFor(en, c.n)) ELSE "", Is(c, "same", TRUE) >>))
      [] c.k = "member" -> LET en == Enums[c.c]
                               is == { i \in DOMAIN en.m : en.m[i].n = c.u }
                           IN  Made(c, is # {}, "a name", Is(c, "v", en.m[CHOOSE i \in is : TRUE].v))
      [] c.k = "flags" -> LET en == Enums[c.c]
                              v == Combine(en, c.op, c.a, c.b)
                          IN  Made(c, TRUE, "an operation on flags", First(<< Is(c, "v", v), Is(c, "own", TRUE), Is(c, "holds", BitsOf(c.b) \subseteq BitsOf(c.a)) >>))
      [] c.k = "declare" -> Made(c, \A i \in DOMAIN c.vs : Holds(c.g, c.vs[i]), "an enumeration", First(<< Is(c, "v", [i \in DOMAIN c.vs |-> LexInt(c.g, c.vs[i])]), Is(c, "tag", c.g), Is(c, "own", TRUE) >>))
      [] c.k = "span" -> Made(c, TRUE, "durations", First(<< Is(c, "a1", c.a), Is(c, "sum", Plus(c.a, c.b)), Is(c, "diff", Plus(c.a, Minus(c.b))), Is(c, "rdiff", Plus(c.b, Minus(c.a))), Is(c, "neg", Minus(c.a)), Is(c, "copied", << c.a, c.b, c.a >>), Is(c, "res", SpanOrder(c.a, c.b)), IF c.a = c.b THEN Is(c, "hash", TRUE) ELSE "" >>))
      [] c.k = "dates" -> LET m == Moment(c.a, c.zone) n == Moment(c.b, c.zb) IN Made(c, TRUE, "dates", First(<< Is(c, "res", SpanOrder(m, n)), Is(c, "between", Plus(m, Minus(n))), IF m = n THEN Is(c, "hash", TRUE) ELSE "" >>))
      [] c.k = "date" -> Made(c, TRUE, "a date", First(<< Is(c, "later", Plus(c.a, c.b)), Is(c, "earlier", Plus(c.a, Minus(c.b))), Is(c, "back", c.b), Is(c, "copied", c.a), Is(c, "added", Plus(c.a, c.b)), Is(c, "kept", << c.a, c.a >>), Is(c, "moved", Moment(c.a, c.zone)) >>))

VARIABLE t
Init == t = 1
Next == /\ t <= Len(Cases)
        /\ LET v == Verdict(Cases[t]) IN IF v = "" THEN TRUE ELSE PrintT(ToJson([bad |-> TRUE, trace |-> t, line |-> 1, why |-> v]))
        /\ t' = t + 1
Report == t > Len(Cases) => PrintT(ToJson([done |-> TRUE, n |-> t - 1]))
Spec == Init /\ [][Next]_t
=============================================================================
