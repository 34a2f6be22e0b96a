------------------------------- MODULE NumGen -------------------------------
(* Numbers, versions, enumerations, durations and dates, enumerated.         *)
EXTENDS Numbers, Json

CONSTANT Set

Edges == << "0", "1", "2", "5", "10", "126", "127", "128", "129", "130", "254", "255", "256", "257", "1000", "32766", "32767", "32768", "32769", "65534", "65535", "65536", "65537",
            "2147483646", "2147483647", "2147483648", "2147483649", "4294967294", "4294967295", "4294967296", "4294967297", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809",
            "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103232", "340282366920938463463374607431768211456" >>
Signed == { U(Edges[i]) : i \in DOMAIN Edges } \cup { U("-") \o U(Edges[i]) : i \in 2..Len(Edges) }
Ints == { [k |-> "int", g |-> g, s |-> s, how |-> h] : g \in IntTags \ {"C"}, s \in Signed, h \in { "int", "text", "enum", "other" } }
        \cup { [k |-> "int", g |-> "C", s |-> s, how |-> "int"] : s \in Signed }
Units == { 0, 9, 10, 32, 48, 65, 95, 127, 128, 233, 255, 256, 8364, 55295, 55296, 56319, 56320, 57343, 57344, 65279, 65533, 65534, 65535 }
Chars == { [k |-> "char", u |-> u, how |-> h] : u \in { <<>> } \cup { << a >> : a \in Units } \cup { << a, b >> : a, b \in { 65, 55296, 55357, 56832, 0 } }, h \in { "text", "PSString", "bytes", "char" } }
         \cup { [k |-> "char", u |-> << a, b, c >>, how |-> "text"] : a, b, c \in { 65, 55357, 56832 } }

Few == { U("0"), U("1"), U("10") }
Parts == { U("0"), U("1"), U("9"), U("10"), U("123456"), U("2147483646"), U("2147483647"), U("2147483648"), U("4294967296"), U("99999999999999999999") }
Odd == { <<>>, U(" "), U("-1"), U("+1"), U("1 "), U(" 1"), << 49, 10 >>, << 10 >>, U("a"), U("1e1"), U("0x1"), U("1_0"), << 1635 >>, << 49, 0 >>, << 49, 1635 >>, << 178 >>, << 65297 >> }
Vers(P, n) == UNION { [1..k -> P] : k \in 2..n }
Good == Vers({ U("1"), U("0") }, 4)
Versions == { [k |-> "version", how |-> h, parts |-> p, u |-> JoinWith(p, U("."))] : h \in { "text", "parts" }, p \in Vers(Parts, 3) \cup { << U("1"), U("2"), U("3"), x >> : x \in Parts } }
            \cup { [k |-> "version", how |-> "text", parts |-> p, u |-> JoinWith(p, U("."))] :
                   p \in { [q EXCEPT ![i] = x] : q \in Good, i \in 1..2, x \in Odd } \cup { [q EXCEPT ![Len(q)] = x] : q \in Good, x \in Odd } \cup { << x >> : x \in Parts \cup Odd } \cup { << U("1"), U("2"), U("3"), U("4"), x >> : x \in Parts \cup Odd } }
            \cup { [k |-> "version", how |-> "parts", parts |-> p, u |-> <<>>] : p \in { << U("-1"), U("0") >>, << U("0"), U("-1") >>, << U("0"), U("0"), U("-1") >>, << U("0"), U("0"), U("0"), U("-1") >> } }
Orders == { [k |-> "order", a |-> a, b |-> b, how |-> h] : a, b \in Vers(Few, 3), h \in { "version", "text" } }
          \cup { [k |-> "order", a |-> a, b |-> b, how |-> "version"] : a, b \in Vers({ U("2"), U("10") }, 4) }
          \cup { [k |-> "order", a |-> a, b |-> b, how |-> "rtext"] : a, b \in Vers({ U("2"), U("10") }, 3) }

Top(en) == CHOOSE v \in { en.m[i].v : i \in DOMAIN en.m } : \A i \in DOMAIN en.m : en.m[i].v <= v
Kinds == { [k |-> "enum", c |-> c, n |-> n, how |-> h] : c \in DOMAIN Enums, h \in { "int", "PSInt", "PSInt64" }, n \in -2..66 }
         \cup UNION { { [k |-> "enum", c |-> c, n |-> n, how |-> "int"] : n \in 0..(2 * Top(Enums[c]) + 2) } : c \in DOMAIN Enums }
         \cup { [k |-> "enum", c |-> c, n |-> n, how |-> "int"] : c \in DOMAIN Enums, n \in { 1024, 65536, 1073741824, 2147483647, -1073741824 } }
Members == UNION { { [k |-> "member", c |-> c, u |-> Enums[c].m[i].n] : i \in DOMAIN Enums[c].m } : c \in DOMAIN Enums }
           \cup { [k |-> "member", c |-> c, u |-> u] : c \in DOMAIN Enums, u \in { U("NoSuchName"), U("1"), U("closed"), <<>> } }
Some(en) == { 0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 255, 256, 257, 383 } \cup { en.m[i].v : i \in DOMAIN en.m }
Flags == UNION { LET en == Enums[c]
                     vs == { v \in Some(en) : Defined(en, v) }
                 IN  { [k |-> "flags", c |-> c, op |-> op, a |-> a, b |-> b, how |-> h] : op \in { "or", "and", "xor", "not" }, a \in vs, b \in vs, h \in { "flags", "int" } } : c \in { x \in DOMAIN Enums : Enums[x].flag } }
Declares == { [k |-> "declare", g |-> g, vs |-> << U("0"), s >>, flag |-> FALSE] : g \in IntTags \ {"C"}, s \in Signed \ { U("0") } }
            \cup { [k |-> "declare", g |-> g, vs |-> << U("1"), s >>, flag |-> TRUE] : g \in IntTags \ {"C"}, s \in { U("2"), U("64"), U("128"), U("256"), U("16384"), U("32768"), U("65536"), U("1073741824"), U("2147483648"), U("4294967296"), U("4611686018427387904"), U("9223372036854775808"), U("18446744073709551616") } }

Spans == { << 0, 0, 0 >>, << 0, 0, 1 >>, << 0, 0, 100 >>, << 0, 0, 999 >>, << 0, 0, 1000 >>, << 0, 0, 1900 >>, << 0, 0, 999999999 >>, << 0, 1, 0 >>, << 0, 59, 999999900 >>, << 0, 86399, 999999999 >>, << 1, 0, 0 >>, << -1, 86399, 999999999 >>, << -1, 86399, 999999900 >>, << -1, 0, 0 >>,
           << -1, 1, 500000000 >>, << 1000, 0, 200 >>, << 10675198, 3, 4 >>, << -10675198, 3, 4 >> }
SpanCases == { [k |-> "span", a |-> a, b |-> b, how |-> h] : a, b \in Spans, h \in { "duration", "timedelta", "rtimedelta" } }
Dates == { << 719163, 0, 0 >>, << 719163, 0, 100 >>, << 719163, 86399, 999999999 >>, << 737791, 43200, 123456700 >>, << 738000, 1, 999 >>, << 400000, 0, 1 >> }
DateCases == { [k |-> "date", a |-> a, b |-> b, zone |-> z, how |-> h] : a \in Dates, b \in { s \in Spans : s[1] \in -5000..5000 }, z \in { 0, 1 }, h \in { "duration", "timedelta" } }
Near(a, z) == LET m == IF z = 2 THEN Moment(a, 1) ELSE a IN { m } \cup { Plus(m, << d, s, n >>) : d \in {0}, s \in {0, 27000}, n \in {1, 100, 900, 1000} } \cup { Plus(m, Minus(<< 0, s, n >>)) : s \in {0, 27000}, n \in {1, 100, 1000} }
DatePairs == UNION { { [k |-> "dates", a |-> a, b |-> b, zone |-> z[1], zb |-> z[2], how |-> h] : b \in Near(a, z[2]) \cup (IF z[2] = 2 THEN {} ELSE Dates) } : a \in Dates, z \in { << 0, 0 >>, << 1, 1 >>, << 1, 2 >> }, h \in { "date", "datetime", "rdatetime" } }

Range(g) == { s \in Signed : Holds(g, s) }
Second == { U("0"), U("1"), U("-1"), U("2"), U("3"), U("-3"), U("10"), U("127"), U("-128"), U("255"), U("1000"), U("65536"), U("4294967295"), U("-2147483649"), U("18446744073709551615") }
Counts(op) == IF op = "pow" THEN { U("0"), U("1"), U("2"), U("3"), U("-1") } \ { U("-1") } ELSE { U("0"), U("1"), U("3"), U("7"), U("8"), U("15"), U("31"), U("33"), U("64"), U("-1") }
Operands(op) == IF op \in Unary THEN { U("0") } ELSE IF op \in {"pow", "lsh", "rsh"} THEN Counts(op) ELSE Second
Ops == UNION { { [k |-> "op", g |-> g, op |-> op, a |-> a, b |-> b, how |-> "int"] : a \in Range(g), b \in Operands(op) } : g \in IntTags \ {"C"}, op \in Unary \cup Binary }
       \cup UNION { { [k |-> "op", g |-> g, op |-> op, a |-> a, b |-> b, how |-> "other"] : a \in Range(g), b \in { U("1"), U("3"), U("-3"), U("255") } } : g \in IntTags \ {"C"}, op \in Binary \ {"pow", "lsh", "rsh"} }
Compares == UNION { { [k |-> "compare", g |-> g, h |-> h, a |-> a, b |-> b] : a, b \in Range(g) } : g \in IntTags \ {"C"}, h \in {"int", "same"} }
Letters == << 97, 233, 95, 120, 65533, 10 >>
Slices == { [k |-> "slice", t |-> t, u |-> SubSeq(Letters, 1, n), i |-> i, j |-> j, s |-> s] : t \in TextTags \cup {"BA"}, n \in {0, 1, 2, 5}, i, j \in (-6..6) \cup {None}, s \in {1, 2, -1, -2} }
Items == { [k |-> "item", t |-> t, u |-> SubSeq(Letters, 1, n), i |-> i] : t \in TextTags \cup {"BA"}, n \in {0, 1, 2, 6}, i \in -8..8 }
Moments == { << 1, 1, 1 >>, << 999, 12, 31 >>, << 2024, 2, 29 >>, << 9999, 12, 31 >> }
Shown == { [k |-> "shown", t |-> "TS", d |-> a, off |-> None] : a \in Spans \cup { << d, s, n >> : d \in {0, 1, -1, -2, 10}, s \in {0, 5, 59, 60, 3599, 3600, 36000, 86399}, n \in {0, 1, 999, 1000, 100000, 1000000, 999999999, 120000300} } }
         \cup { [k |-> "shown", t |-> "DT", d |-> m \o c \o << n >>, off |-> z] : m \in Moments, c \in { << 0, 0, 0 >>, << 23, 59, 59 >>, << 1, 2, 3 >>, << 12, 0, 30 >> }, n \in {0, 1, 999, 1000, 100000, 999999999, 120000300, 100}, z \in {None, 0, 1, -1, 90, -90, 840, -750, 59, -59} }

All(s) == CASE s = "ints" -> Ints [] s = "chars" -> Chars [] s = "versions" -> Versions [] s = "orders" -> Orders
            [] s = "enums" -> Kinds \cup Members [] s = "flags" -> Flags [] s = "declares" -> Declares [] s = "ops" -> Ops [] s = "compares" -> Compares [] s = "slices" -> Slices \cup Items \cup Shown [] s = "spans" -> SpanCases \cup DateCases \cup DatePairs

VARIABLE done
Init == done = FALSE
Next == done' = TRUE /\ done = FALSE /\ \A x \in All(Set) : PrintT(ToJson([c |-> x]))
Spec == Init /\ [][Next]_done

----------------------------------------------------------------------------
(* The design: versions and durations are in one order, and the operations  *)
(* of flags and durations undo each other.                                   *)
Sound ==
    CASE Set = "orders" ->
           LET V == Vers(Few, 3)
               O(a, b) == VersionOrder(a, b)
           IN  /\ \A a, b \in V : O(a, b).lt = O(b, a).gt /\ O(a, b).eq = O(b, a).eq /\ (a = b) = O(a, b).eq
               /\ \A a, b, c \in V : O(a, b).lt /\ O(b, c).lt => O(a, c).lt
      [] Set = "spans" ->
           /\ \A a, b \in Spans : SpanOrder(a, b).lt = SpanOrder(b, a).gt /\ Plus(Plus(a, b), Minus(b)) = a /\ Minus(Minus(a)) = a /\ Plus(a, b) = Plus(b, a) /\ SpanOrder(a, b).lt = SpanOrder(Minus(b), Minus(a)).lt
           /\ \A a, b, c \in Spans : Plus(Plus(a, b), c) = Plus(a, Plus(b, c)) /\ (SpanOrder(a, b).lt => SpanOrder(Plus(a, c), Plus(b, c)).lt)
      [] Set = "ops" ->
           LET S == { U("0"), U("1"), U("-1"), U("7"), U("-10"), U("99"), U("1000"), U("-65536"), U("4294967295"), U("-18446744073709551616") }
           IN  /\ \A x, y \in S : /\ BigAdd(x, y) = BigAdd(y, x) /\ BigMul(x, y) = BigMul(y, x) /\ BigSub(BigAdd(x, y), y) = x
                                  /\ y # U("0") => LET p == BigDiv(x, y) IN BigAdd(BigMul(p.q, y), p.r) = x /\ (p.r = U("0") \/ Neg(p.r) = Neg(y)) /\ ~AbsLE(Mag(y), Mag(p.r))
                                  /\ BigAdd(BigBits("and", x, y), BigBits("or", x, y)) = BigAdd(x, y)
                                  /\ BigBits("xor", BigBits("xor", x, y), y) = x /\ BigBits("xor", x, U("-1")) = Inverted(x)
               /\ \A x, y, z \in S : BigMul(x, BigAdd(y, z)) = BigAdd(BigMul(x, y), BigMul(x, z)) /\ BigBits("and", x, BigBits("or", y, z)) = BigBits("or", BigBits("and", x, y), BigBits("and", x, z))
      [] Set = "flags" ->
           \A c \in { x \in DOMAIN Enums : Enums[x].flag } : LET en == Enums[c] IN \A v \in Some(en) : Defined(en, v) =>
               Combine(en, "not", Combine(en, "not", v, 0), 0) = v /\ \A w \in Some(en) : Defined(en, w) => Combine(en, "xor", Combine(en, "xor", v, w), w) = v
      [] OTHER -> TRUE
=============================================================================
