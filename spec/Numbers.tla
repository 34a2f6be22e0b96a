------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* Numbers, characters, versions, enumerations, durations and dates as the  *)
(* .NET types they stand for: what can be made of what, and what is seen of *)
(* what was made.  Numbers are texts of digits, as in Clixml.               *)
(***************************************************************************)
EXTENDS Clixml, FiniteSets, Bitwise

----------------------------------------------------------------------------
(* Fixed width integers and characters: all in the range and nothing else   *)
Holds(g, s) == LexInt(g, s) # Bad
CharOf(u) == Len(u) = 1

----------------------------------------------------------------------------
(* Versions: two to four numbers of 0..Int32.MaxValue                       *)
PartOk(p) == AllDigits(p) /\ LexInt("I32", p) # Bad
VersionOk(ps) == Len(ps) \in 2..4 /\ \A i \in DOMAIN ps : PartOk(ps[i])
\* nothing is claimed about zeros in front of a number
Padded(ps) == \E i \in DOMAIN ps : Len(ps[i]) > 1 /\ ps[i][1] = 48
RECURSIVE Before(_, _)
Before(a, b) == IF a = <<>> THEN b # <<>>
                ELSE IF b = <<>> THEN FALSE
                ELSE IF Head(a) # Head(b) THEN AbsLE(StripZeros(Head(a)), StripZeros(Head(b)))
                ELSE Before(Tail(a), Tail(b))
Order(lt, eq) == [eq |-> eq, ne |-> ~eq, lt |-> lt, le |-> lt \/ eq, gt |-> ~lt /\ ~eq, ge |-> ~lt]
VersionOrder(a, b) == Order(Before(a, b), a = b)

----------------------------------------------------------------------------
(* Enumerations and flags                                                   *)
RECURSIVE BitsOf(_)
BitsOf(v) == IF v = 0 THEN {} ELSE LET k == CHOOSE k \in 0..30 : 2^k <= v /\ (k = 30 \/ v < 2^(k + 1)) IN {k} \cup BitsOf(v - 2^k)
RECURSIVE OfBits(_)
OfBits(b) == IF b = {} THEN 0 ELSE LET k == CHOOSE k \in b : TRUE IN 2^k + OfBits(b \ {k})
Mask(en) == UNION { BitsOf(en.m[i].v) : i \in DOMAIN en.m }
\* the numbers of a type
Defined(en, v) == IF en.flag THEN v >= 0 /\ BitsOf(v) \subseteq Mask(en) ELSE \E i \in DOMAIN en.m : en.m[i].v = v
\* the member with a number, or the single members of a combination
NameFor(en, v) == LET is == { i \in DOMAIN en.m : en.m[i].v = v }
                      single(x) == \E k \in BitsOf(v) : x.v = 2^k
                      ms == SelectSeq(en.m, single)
                  IN  IF is # {} THEN LET i == CHOOSE j \in is : \A k \in is : j <= k IN en.m[i].n
                      ELSE JoinWith([i \in DOMAIN ms |-> ms[i].n], U("|"))
\* whether the name says it all: nothing is claimed about combinations with a bit that has no name, or two
NameClear(en, v) == \/ \E i \in DOMAIN en.m : en.m[i].v = v
                    \/ v # 0 /\ \A k \in BitsOf(v) : Cardinality({ i \in DOMAIN en.m : en.m[i].v = 2^k }) = 1
Combine(en, op, a, b) == OfBits(CASE op = "or" -> BitsOf(a) \cup BitsOf(b)
                                  [] op = "and" -> BitsOf(a) \cap BitsOf(b)
                                  [] op = "xor" -> (BitsOf(a) \ BitsOf(b)) \cup (BitsOf(b) \ BitsOf(a))
                                  [] op = "not" -> Mask(en) \ BitsOf(a))

----------------------------------------------------------------------------
(* Durations << days, seconds, nanoseconds >>, and dates in the same way    *)
(* from the first day of the calendar                                       *)
Norm(d, s, n) == LET s1 == s + n \div 1000000000
                 IN  << d + s1 \div 86400, s1 % 86400, n % 1000000000 >>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
Minus(a) == Norm(-a[1], -a[2], -a[3])
\* the moment of a date given in a zone: 0 none, 1 that of -07:30, 2 UTC
Moment(a, zone) == IF zone = 1 THEN Plus(a, << 0, 27000, 0 >>) ELSE a
SpanOrder(a, b) == Order(a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))), a = b)

----------------------------------------------------------------------------
(* Arithmetic of whole numbers of any size, as texts: Abs.. on digits       *)
(* without zeros in front (nothing is << 48 >>)                             *)
Neat(d) == LET z == StripZeros(d) IN IF z = <<>> THEN << 48 >> ELSE z
Back(d) == [i \in DOMAIN d |-> d[Len(d) + 1 - i]]
At(d, i) == IF i <= Len(d) THEN d[i] - 48 ELSE 0
Longest(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
\* the lowest digit first
RECURSIVE AddLow(_, _, _, _), SubLow(_, _, _, _)
AddLow(a, b, i, carry) == IF i > Longest(a, b) THEN IF carry = 0 THEN <<>> ELSE << 48 + carry >>
                          ELSE LET s == At(a, i) + At(b, i) + carry IN << 48 + (s % 10) >> \o AddLow(a, b, i + 1, s \div 10)
SubLow(a, b, i, borrow) == IF i > Len(a) THEN <<>>
                           ELSE LET s == At(a, i) - At(b, i) - borrow IN << 48 + (s % 10) >> \o SubLow(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
AbsAdd(a, b) == Neat(Back(AddLow(Back(a), Back(b), 1, 0)))
AbsSub(a, b) == Neat(Back(SubLow(Back(a), Back(b), 1, 0)))
RECURSIVE Often(_, _)
Often(a, n) == IF n = 0 THEN << 48 >> ELSE AbsAdd(a, Often(a, n - 1))
RECURSIVE AbsMul(_, _)
AbsMul(a, b) == IF b = <<>> THEN << 48 >> ELSE AbsAdd(Neat(Append(AbsMul(a, SubSeq(b, 1, Len(b) - 1)), 48)), Often(a, b[Len(b)] - 48))
\* quotient and remainder
RECURSIVE AbsDiv(_, _), Fits(_, _)
Fits(r, b) == IF AbsLE(b, r) THEN LET f == Fits(AbsSub(r, b), b) IN [q |-> f.q + 1, r |-> f.r] ELSE [q |-> 0, r |-> r]
AbsDiv(a, b) == IF a = <<>> THEN [q |-> <<>>, r |-> << 48 >>]
                ELSE LET p == AbsDiv(SubSeq(a, 1, Len(a) - 1), b)
                         f == Fits(Neat(Append(p.r, a[Len(a)])), b)
                     IN  [q |-> Append(p.q, 48 + f.q), r |-> f.r]

Neg(x) == x[1] = 45
Mag(x) == IF Neg(x) THEN Tail(x) ELSE x
Num(neg, d) == IF neg /\ d # << 48 >> THEN << 45 >> \o d ELSE d
One1 == << 49 >>
Negated(x) == Num(~Neg(x), Mag(x))
BigAdd(x, y) == IF Neg(x) = Neg(y) THEN Num(Neg(x), AbsAdd(Mag(x), Mag(y)))
                ELSE IF AbsLE(Mag(y), Mag(x)) THEN Num(Neg(x), AbsSub(Mag(x), Mag(y))) ELSE Num(Neg(y), AbsSub(Mag(y), Mag(x)))
BigSub(x, y) == BigAdd(x, Negated(y))
BigMul(x, y) == Num(Neg(x) # Neg(y), AbsMul(Mag(x), Mag(y)))
\* division rounds down, as Python does, so that the remainder has the sign of what is divided by
BigDiv(x, y) == LET p == AbsDiv(Mag(x), Mag(y))
                    q == Neat(p.q)
                    up == Neg(x) # Neg(y) /\ p.r # << 48 >>
                IN  [q |-> Num(Neg(x) # Neg(y), IF up THEN AbsAdd(q, One1) ELSE q), r |-> Num(Neg(y), IF up THEN AbsSub(Mag(y), p.r) ELSE p.r)]
RECURSIVE BigPow(_, _)
BigPow(x, n) == IF n = 0 THEN One1 ELSE BigMul(x, BigPow(x, n - 1))
BigLE(x, y) == IF Neg(x) # Neg(y) THEN Neg(x) ELSE IF Neg(x) THEN AbsLE(Mag(y), Mag(x)) ELSE AbsLE(Mag(x), Mag(y))
BigOrder(x, y) == Order(BigLE(x, y) /\ x # y, x = y)
Inverted(x) == BigSub(Negated(x), One1)
\* bit by bit: runs of sixteen bits, the lowest first, of a number or of what is inverted for one below zero
RECURSIVE Runs(_), OfRuns(_)
Runs(d) == IF d = << 48 >> THEN <<>> ELSE LET p == AbsDiv(d, U("65536")) IN << NumOf(p.r) >> \o Runs(Neat(p.q))
OfRuns(s) == IF s = <<>> THEN << 48 >> ELSE AbsAdd(AbsMul(U("65536"), OfRuns(Tail(s))), DigitsOf(Head(s)))
RunAt(s, i, neg) == LET r == IF i <= Len(s) THEN s[i] ELSE 0 IN IF neg THEN 65535 - r ELSE r
Bits(op, p, q) == CASE op = "and" -> p & q [] op = "or" -> p | q [] op = "xor" -> p ^^ q
BigBits(op, x, y) ==
    LET base(z) == Runs(IF Neg(z) THEN Mag(Inverted(z)) ELSE z)
        a == base(x)
        b == base(y)
        neg == Bits(op, IF Neg(x) THEN 1 ELSE 0, IF Neg(y) THEN 1 ELSE 0) = 1
        n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
        r == [i \in 1..n |-> LET v == Bits(op, RunAt(a, i, Neg(x)), RunAt(b, i, Neg(y))) IN IF neg THEN 65535 - v ELSE v]
        m == Neat(OfRuns(r))
    IN  IF neg THEN Inverted(m) ELSE m

\* x op y; Bad when there is no such number
Bin(op, x, y) ==
    CASE op = "add" -> BigAdd(x, y) [] op = "sub" -> BigSub(x, y) [] op = "mul" -> BigMul(x, y)
      [] op = "div" -> IF y = << 48 >> THEN Bad ELSE BigDiv(x, y).q
      [] op = "mod" -> IF y = << 48 >> THEN Bad ELSE BigDiv(x, y).r
      [] op = "divmod" -> IF y = << 48 >> THEN Bad ELSE BigDiv(x, y).q
      [] op = "pow" -> IF Neg(y) THEN Bad ELSE BigPow(x, NumOf(y))
      [] op = "lsh" -> IF Neg(y) THEN Bad ELSE BigMul(x, BigPow(U("2"), NumOf(y)))
      [] op = "rsh" -> IF Neg(y) THEN Bad ELSE BigDiv(x, BigPow(U("2"), NumOf(y))).q
      [] op \in {"and", "or", "xor"} -> BigBits(op, x, y)
      [] op = "neg" -> Negated(x) [] op = "pos" -> x [] op = "abs" -> Mag(x) [] op = "inv" -> Inverted(x)
Unary == {"neg", "pos", "abs", "inv"}
Binary == {"add", "sub", "mul", "div", "mod", "divmod", "pow", "lsh", "rsh", "and", "or", "xor"}

----------------------------------------------------------------------------
(* Items and slices of texts and bytes: places count from nothing, those    *)
(* below it from the end                                                    *)
None == 99999
Place(n, i) == IF i < 0 THEN i + n ELSE i
Within1(lo, hi, i) == IF i < lo THEN lo ELSE IF i > hi THEN hi ELSE i
RECURSIVE Walk(_, _, _)
Walk(i, j, k) == IF (k > 0 /\ i >= j) \/ (k < 0 /\ i <= j) THEN <<>> ELSE << i >> \o Walk(i + k, j, k)
SliceOf(u, i, j, k) ==
    LET n == Len(u)
        lo == IF k > 0 THEN 0 ELSE -1
        hi == IF k > 0 THEN n ELSE n - 1
        a == IF i = None THEN (IF k > 0 THEN 0 ELSE n - 1) ELSE Within1(lo, hi, Place(n, i))
        b == IF j = None THEN (IF k > 0 THEN n ELSE -1) ELSE Within1(lo, hi, Place(n, j))
        w == Walk(a, b, k)
    IN  [x \in DOMAIN w |-> u[w[x] + 1]]
ItemOk(u, i) == Place(Len(u), i) \in 0..(Len(u) - 1)
ItemOf(u, i) == u[Place(Len(u), i) + 1]

----------------------------------------------------------------------------
(* How durations and dates are shown: as Python shows them, with three more *)
(* digits when there are nanoseconds below a microsecond                    *)
RECURSIVE Wide(_, _)
Wide(n, w) == IF w = 0 THEN <<>> ELSE Append(Wide(n \div 10, w - 1), 48 + (n % 10))
Fraction(n) == IF n = 0 THEN <<>> ELSE << 46 >> \o Wide(n \div 1000, 6) \o (IF n % 1000 = 0 THEN <<>> ELSE Wide(n % 1000, 3))
Clock(s) == Wide((s \div 60) % 60, 2) \o << 58 >> \o Wide(s % 60, 2)
ShowSpan(a) == (IF a[1] = 0 THEN <<>> ELSE IntText(a[1]) \o U(" day") \o (IF a[1] \in {1, -1} THEN <<>> ELSE U("s")) \o U(", "))
               \o DigitsOf(a[2] \div 3600) \o << 58 >> \o Clock(a[2]) \o Fraction(a[3])
\* << year, month, day, hour, minute, second, nanoseconds >>, the offset of the zone in minutes or None
ShowDate(d, off) == Wide(d[1], 4) \o << 45 >> \o Wide(d[2], 2) \o << 45 >> \o Wide(d[3], 2) \o << 32 >> \o Wide(d[4], 2) \o << 58 >> \o Wide(d[5], 2) \o << 58 >> \o Wide(d[6], 2) \o Fraction(d[7])
                    \o (IF off = None THEN <<>> ELSE LET m == IF off < 0 THEN -off ELSE off IN (IF off < 0 THEN << 45 >> ELSE << 43 >>) \o Wide(m \div 60, 2) \o << 58 >> \o Wide(m % 60, 2))
=============================================================================
