------------------------------- MODULE Clixml -------------------------------
(***************************************************************************)
(* CLIXML (MS-PSRP 2.2.5): what the text of an element stands for, what a   *)
(* document denotes, and how values are to be written and read.             *)
(*                                                                          *)
(* A document is a tree of elements [g tag, x text, hn/n the N attribute,   *)
(* r the RefId, c children].  A value is a graph: a sequence of nodes that  *)
(* refer to each other by index, so that sharing and cycles are explicit.   *)
(* Both are turned into a sequence of tokens by one traversal; a document   *)
(* denotes a value when the tokens agree.                                   *)
(***************************************************************************)
EXTENDS KnownTypes

Bad == << -1 >>

----------------------------------------------------------------------------
(* Texts of the primitive elements.  Lex gives the value as a sequence of   *)
(* numbers that is the same for all texts of one value, Bad if there is none*)

Limits == [By |-> [lo |-> U("0"), hi |-> U("255")],
          SB |-> [lo |-> U("128"), hi |-> U("127")],
          U16 |-> [lo |-> U("0"), hi |-> U("65535")],
          I16 |-> [lo |-> U("32768"), hi |-> U("32767")],
          U32 |-> [lo |-> U("0"), hi |-> U("4294967295")],
          I32 |-> [lo |-> U("2147483648"), hi |-> U("2147483647")],
          U64 |-> [lo |-> U("0"), hi |-> U("18446744073709551615")],
          I64 |-> [lo |-> U("9223372036854775808"), hi |-> U("9223372036854775807")],
          C |-> [lo |-> U("0"), hi |-> U("65535")]]
IntTags == DOMAIN Limits

AbsLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]))
LexInt(g, u) ==
    LET t == Trim(u)
        neg == t # <<>> /\ t[1] = 45
        b == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
        d == StripZeros(b)
        lim == Limits[g]
    IN  IF ~AllDigits(b) THEN Bad
        ELSE IF d = <<>> THEN << 48 >>
        ELSE IF ~AbsLE(d, IF neg THEN lim.lo ELSE lim.hi) THEN Bad
        ELSE IF neg THEN << 45 >> \o d ELSE d

\* numbers with a fraction: sign, exponent of ten, significant digits
NotANumber == << -3 >>
Infinite == << -4 >>
MinusInfinite == << -5 >>
RECURSIVE DropEndZeros(_, _)
DropEndZeros(d, e) == IF d # <<>> /\ d[Len(d)] = 48 THEN DropEndZeros(SubSeq(d, 1, Len(d) - 1), e + 1) ELSE << e >> \o d
LexFloat(u, exponent) ==
    LET t == Trim(u)
        neg == IF t # <<>> /\ t[1] = 45 THEN 1 ELSE 0
        b == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
        ep == IF Find(b, 69) > 0 THEN Find(b, 69) ELSE Find(b, 101)
        man == IF ep > 0 THEN SubSeq(b, 1, ep - 1) ELSE b
        ex == IF ep > 0 THEN From(b, ep + 1) ELSE << 48 >>
        exneg == ex # <<>> /\ ex[1] = 45
        exd == IF ex # <<>> /\ ex[1] \in {43, 45} THEN Tail(ex) ELSE ex
        dp == Find(man, 46)
        int == IF dp > 0 THEN SubSeq(man, 1, dp - 1) ELSE man
        frac == IF dp > 0 THEN From(man, dp + 1) ELSE <<>>
        dig == StripZeros(int \o frac)
        e == (IF exneg THEN -1 ELSE 1) * NumOf(exd) - Len(frac)
        z == DropEndZeros(dig, e)
    IN  IF exponent /\ t = U("NaN") THEN NotANumber
        ELSE IF exponent /\ t = U("INF") THEN Infinite
        ELSE IF exponent /\ t = U("-INF") THEN MinusInfinite
        ELSE IF ~AllDigits(int \o frac) \/ ~AllDigits(exd) \/ (ep > 0 /\ ~exponent) THEN Bad
        ELSE IF dig = <<>> THEN << neg, 0 >>
        ELSE << neg, z[1] >> \o Tail(z)

Sextet(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
RECURSIVE Sextets(_)
Sextets(u) ==
    IF u = <<>> THEN <<>>
    ELSE IF Len(u) < 4 THEN Bad
    ELSE LET a == Sextet(u[1])  b == Sextet(u[2])  c == Sextet(u[3])  d == Sextet(u[4])
             one == a * 4 + (b \div 16)
             two == (b % 16) * 16 + (c \div 4)
             three == (c % 4) * 64 + d
         IN  IF a < 0 \/ b < 0 THEN Bad
             ELSE IF Len(u) = 4 /\ u[3] = 61 /\ u[4] = 61 THEN << one >>
             ELSE IF c < 0 THEN Bad
             ELSE IF Len(u) = 4 /\ u[4] = 61 THEN << one, two >>
             ELSE IF d < 0 THEN Bad
             ELSE LET r == Sextets(From(u, 5)) IN IF r = Bad THEN Bad ELSE << one, two, three >> \o r
\* lines may be broken anywhere
LexBase64(u) == LET ink(c) == ~(c \in {9, 10, 13, 32}) IN Sextets(SelectSeq(u, ink))

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LexGuid(u) == IF Len(u) = 36 /\ \A i \in 1..36 : IF i \in {9, 14, 19, 24} THEN u[i] = 45 ELSE HexVal(u[i]) >= 0
              THEN [i \in 1..36 |-> Lower(u[i])] ELSE Bad

LexVersion(u) == LET p == Split(u, 46) IN IF Len(p) \in 2..4 /\ \A i \in DOMAIN p : AllDigits(p[i]) THEN u ELSE Bad

\* seven digits of a fraction as ticks of 100 nanoseconds
Ticks(f) == NumOf(SubSeq(f \o << 48, 48, 48, 48, 48, 48, 48 >>, 1, 7))
MonthLen(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                    [] m = 2 -> IF (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0 THEN 29 ELSE 28
                    [] OTHER -> 31
\* year, month, day, hour, minute, second, ticks, 1 if there is a zone, its offset in minutes
LexDateTime(u) ==
    IF Len(u) < 19 \/ u[5] # 45 \/ u[8] # 45 \/ u[11] # 84 \/ u[14] # 58 \/ u[17] # 58 THEN Bad
    ELSE LET N(i, j) == SubSeq(u, i, j)
             parts == << N(1, 4), N(6, 7), N(9, 10), N(12, 13), N(15, 16), N(18, 19) >>
             rest == From(u, 20)
             zp == CHOOSE i \in 1..(Len(rest) + 1) : (i > Len(rest) \/ rest[i] \in {90, 43, 45}) /\ \A j \in 1..(i - 1) : ~(rest[j] \in {90, 43, 45})
             frac == SubSeq(rest, 1, zp - 1)
             zone == From(rest, zp)
             fok == frac = <<>> \/ (frac[1] = 46 /\ AllDigits(Tail(frac)) /\ Len(frac) <= 10)
             zok == zone = <<>> \/ zone = << 90 >> \/ (Len(zone) = 6 /\ zone[4] = 58 /\ AllDigits(SubSeq(zone, 2, 3) \o SubSeq(zone, 5, 6)))
             off == IF Len(zone) # 6 THEN 0 ELSE (IF zone[1] = 45 THEN -1 ELSE 1) * (60 * NumOf(SubSeq(zone, 2, 3)) + NumOf(SubSeq(zone, 5, 6)))
             n == [i \in 1..6 |-> NumOf(parts[i])]
         IN  IF ~(\A i \in 1..6 : AllDigits(parts[i])) \/ ~fok \/ ~zok THEN Bad
             ELSE IF n[1] < 1 \/ ~(n[2] \in 1..12) \/ n[3] < 1 \/ n[3] > MonthLen(n[1], n[2]) \/ n[4] > 23 \/ n[5] > 59 \/ n[6] > 59 THEN Bad
             ELSE << n[1], n[2], n[3], n[4], n[5], n[6], IF frac = <<>> THEN 0 ELSE Ticks(Tail(frac)), IF zone = <<>> THEN 0 ELSE 1, off >>

\* 1 if negative, days, seconds of the day, ticks; zero is never negative
Part(u, c) == IF Find(u, c) = 0 THEN <<>> ELSE SubSeq(u, 1, Find(u, c) - 1)
After(u, c) == IF Find(u, c) = 0 THEN u ELSE From(u, Find(u, c) + 1)
LexDuration(u) ==
    LET neg == u # <<>> /\ u[1] = 45
        b == IF neg THEN Tail(u) ELSE u
        t == Find(b, 84)
        date == IF t > 0 THEN SubSeq(b, 2, t - 1) ELSE From(b, 2)
        time == IF t > 0 THEN From(b, t + 1) ELSE <<>>
        d == Part(date, 68)
        h == Part(time, 72)
        m == Part(After(time, 72), 77)
        s == Part(After(After(time, 72), 77), 83)
        dp == Find(s, 46)
        si == IF dp > 0 THEN SubSeq(s, 1, dp - 1) ELSE s
        sf == IF dp > 0 THEN From(s, dp + 1) ELSE <<>>
        ok(x, c, all) == (Find(all, c) = 0 /\ x = <<>>) \/ AllDigits(x)
        left == After(After(After(time, 72), 77), 83)
        secs == 3600 * NumOf(h) + 60 * NumOf(m) + NumOf(si)
        days == NumOf(d) + (secs \div 86400)
        ticks == Ticks(sf)
        zero == days = 0 /\ secs = 0 /\ ticks = 0
    IN  IF b = <<>> \/ b[1] # 80 \/ (date = <<>> /\ time = <<>>) \/ (t > 0 /\ time = <<>>) THEN Bad
        ELSE IF ~(ok(d, 68, date) /\ ok(h, 72, time) /\ ok(m, 77, After(time, 72)) /\ ok(si, 83, After(After(time, 72), 77))) THEN Bad
        ELSE IF After(date, 68) # <<>> \/ left # <<>> \/ (dp > 0 /\ ~AllDigits(sf)) \/ Len(sf) > 7 THEN Bad
        ELSE << IF neg /\ ~zero THEN 1 ELSE 0, days, secs % 86400, ticks >>

TextTags == {"S", "URI", "XD", "SBK"}
PrimTags == IntTags \cup TextTags \cup {"B", "DT", "TS", "Sg", "Db", "D", "BA", "G", "Version"}
Lex(g, u) == CASE g \in TextTags -> Unescape(u)
               [] g \in IntTags -> LexInt(g, u)
               [] g = "B" -> IF u = U("true") THEN << 1 >> ELSE IF u = U("false") THEN << 0 >> ELSE Bad
               [] g \in {"Sg", "Db"} -> LexFloat(u, TRUE)
               [] g = "D" -> LexFloat(u, FALSE)
               [] g = "BA" -> LexBase64(u)
               [] g = "G" -> LexGuid(u)
               [] g = "Version" -> LexVersion(u)
               [] g = "DT" -> LexDateTime(u)
               [] g = "TS" -> LexDuration(u)
\* whole numbers are written in their shortest form
Strict(g, u) == g \in IntTags => LexInt(g, u) = u

----------------------------------------------------------------------------
(* Documents                                                                *)

ContTags == {"LST", "STK", "QUE", "DCT", "IE"}
Kids(e, g) == LET f(x) == x.g = g IN SelectSeq(e.c, f)
Has(e, g) == \E i \in DOMAIN e.c : e.c[i].g = g
Kid(e, g) == e.c[CHOOSE i \in DOMAIN e.c : e.c[i].g = g]
PrimKid(e) == LET is == {i \in DOMAIN e.c : e.c[i].g \in PrimTags} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
ContKid(e) == LET is == {i \in DOMAIN e.c : e.c[i].g \in ContTags} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
PrKid(e) == LET is == {i \in DOMAIN e.c : e.c[i].g = "PR"} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE

RECURSIVE Within(_), WithinAll(_, _)
\* all elements in document order
Within(e) == << e >> \o WithinAll(e.c, 1)
WithinAll(c, i) == IF i > Len(c) THEN <<>> ELSE Within(c[i]) \o WithinAll(c, i + 1)

\* the objects and lists of type names a document can refer to
Env(els) == LET os == {i \in DOMAIN els : els[i].g = "Obj" /\ els[i].r # ""}
                ts == {i \in DOMAIN els : els[i].g = "TN" /\ els[i].r # ""}
            IN  [obj |-> [r \in {els[i].r : i \in os} |-> els[CHOOSE i \in os : els[i].r = r]],
                 tn |-> [r \in {els[i].r : i \in ts} |-> els[CHOOSE i \in ts : els[i].r = r]]]
\* every reference names exactly one object, or list of names, that began before it
RefsOk(els) ==
    LET at(g, r) == {i \in DOMAIN els : els[i].g = g /\ els[i].r = r}
    IN  \A i \in DOMAIN els :
          CASE els[i].g = "Ref" -> LET d == at("Obj", els[i].r) IN \E j \in d : d = {j} /\ j < i
            [] els[i].g = "TNRef" -> LET d == at("TN", els[i].r) IN \E j \in d : d = {j} /\ j < i
            [] els[i].g = "Obj" /\ els[i].r # "" -> at("Obj", els[i].r) = {i}
            [] els[i].g = "TN" /\ els[i].r # "" -> at("TN", els[i].r) = {i}
            [] OTHER -> TRUE

NamesIn(tn) == LET ts == Kids(tn, "T") IN [i \in DOMAIN ts |-> Unescape(ts[i].x)]
Names(env, e) == IF Has(e, "TN") /\ Kids(Kid(e, "TN"), "T") # <<>> THEN NamesIn(Kid(e, "TN"))
                 ELSE IF Has(e, "TNRef") /\ Kid(e, "TNRef").r \in DOMAIN env.tn THEN NamesIn(env.tn[Kid(e, "TNRef").r])
                 ELSE <<>>

----------------------------------------------------------------------------
(* Tokens                                                                   *)

T(t, s) == [t |-> t, s |-> s]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE << Len(Head(ss)) >> \o Head(ss) \o Flat(Tail(ss))
NamesTok(ns) == T("tn", << Len(ns) >> \o Flat(ns))
AnyNames == T("*", <<>>)

PrFields == << "AV", "AI", "S", "PI", "PC", "T", "SR", "SD" >>
\* a field of a progress record as a token; missing and Nil are the same
PrTok(e, g) == IF ~Has(e, g) THEN T("Nil", <<>>)
               ELSE LET x == Kid(e, g).x IN
                    IF g \in {"AV", "S", "SD", "T"} THEN T(g, Unescape(x)) ELSE T(g, LexInt("I32", x))

\* expected tokens agree with the ones found; "*" stands for anything
Agree(want, got) == Len(want) = Len(got) /\ \A i \in DOMAIN want : want[i].t = "*" \/ want[i] = got[i]
FirstDiff(want, got) == CHOOSE i \in 1..(Len(want) + 1) :
                          /\ i > Len(want) \/ i > Len(got) \/ (want[i].t # "*" /\ want[i] # got[i])
                          /\ \A j \in 1..(i - 1) : j <= Len(got) /\ (want[j].t = "*" \/ want[j] = got[j])

EnumOf(names) == IF names = <<>> THEN "" ELSE LET m == {c \in DOMAIN Enums : Enums[c].tn = names[1]} IN IF m = {} THEN "" ELSE CHOOSE c \in m : TRUE
StructOf(names) == IF names = <<>> THEN "" ELSE LET m == {c \in DOMAIN Structs : Structs[c].tn[1] = names[1]} IN IF m = {} THEN "" ELSE CHOOSE c \in m : TRUE
KindOf(names) == IF names = <<>> THEN "" ELSE LET m == {c \in DOMAIN TypeNames \ {"PSObject", "PSEnumBase"} : TypeNames[c][1] = names[1]} IN IF m = {} THEN "" ELSE CHOOSE c \in m : TRUE
Prefixed(names) == [i \in DOMAIN names |-> U("Deserialized.") \o names[i]]

\* the names of an enumeration's number, most specific combination first as listed
Bit(v, m) == m # 0 /\ \E k \in 0..30 : m = 2^k /\ (v \div m) % 2 = 1
EnumText(c, v) ==
    LET en == Enums[c]
        hit(x) == IF en.flag /\ v # 0 THEN Bit(v, x.v) ELSE x.v = v
        ms == SelectSeq(en.m, hit)
    IN  IF en.flag THEN JoinWith([i \in DOMAIN ms |-> ms[i].n], U(", ")) ELSE ms[1].n
\* whether a number is one or a combination of the single bit members, each under one name only
EnumPlain(c, v) ==
    LET en == Enums[c]
        ms == {i \in DOMAIN en.m : en.m[i].v = v}
    IN  IF ~en.flag \/ v = 0 THEN Len(SelectSeq(en.m, LAMBDA x : x.v = v)) = 1
        ELSE /\ \A i \in DOMAIN en.m : en.m[i].v = 0 \/ (\E k \in 0..30 : en.m[i].v = 2^k) \/ en.m[i].v > v
             /\ \A i \in DOMAIN en.m, j \in DOMAIN en.m : en.m[i].v = en.m[j].v => i = j

\* vis: what was seen so far, in the order of the traversal
Seen0 == [m |-> [x \in {} |-> 0], n |-> 0]
See(vis, r) == [m |-> (r :> vis.n) @@ vis.m, n |-> vis.n + 1]

----------------------------------------------------------------------------
(* What a document says, as tokens.  mode "w": to be compared with the      *)
(* value that was written; sharing matters for objects that are neither     *)
(* containers nor primitives.  mode "r": as the value a reader must give.   *)

RECURSIVE DocTok(_, _, _, _), DocProps(_, _, _, _, _), DocItems(_, _, _, _, _)

DocProps(env, mode, ps, i, vis) ==
    IF i > Len(ps) THEN [tk |-> <<>>, vis |-> vis]
    ELSE LET a == DocTok(env, mode, ps[i], vis)
             b == DocProps(env, mode, ps, i + 1, a.vis)
         IN  [tk |-> << T("p", Unescape(ps[i].n)) >> \o a.tk \o b.tk, vis |-> b.vis]

\* entries of a container; those of a dictionary are keys and values in turn
Entries(e) == IF e.g # "DCT" THEN e.c
              ELSE [i \in 1..(2 * Len(e.c)) |->
                      LET en == e.c[(i + 1) \div 2]
                          nm == IF i % 2 = 1 THEN U("Key") ELSE U("Value")
                      IN  IF \E k \in DOMAIN en.c : en.c[k].n = nm THEN en.c[CHOOSE k \in DOMAIN en.c : en.c[k].n = nm]
                          ELSE [g |-> "none", x |-> <<>>, n |-> <<>>, hn |-> FALSE, r |-> "", c |-> <<>>]]
DocItems(env, mode, es, i, vis) ==
    IF i > Len(es) THEN [tk |-> <<>>, vis |-> vis]
    ELSE LET a == DocTok(env, mode, es[i], vis)
             b == DocItems(env, mode, es, i + 1, a.vis)
         IN  [tk |-> a.tk \o b.tk, vis |-> b.vis]

\* properties a structure declares come first, in their order
Declared(st, ps) ==
    LET decl == Structs[st].p
        el(g, x, nm, c) == [g |-> g, x |-> x, n |-> nm, hn |-> TRUE, r |-> "", c |-> c]
        \* what a property has when nothing is said about it
        nil(nm) == CASE st = "ErrorCategoryInfo" /\ nm = U("Category") ->
                          el("Obj", <<>>, nm, << el("I32", U("0"), <<>>, <<>>), el("TN", <<>>, <<>>, << el("T", Enums.ErrorCategory.tn, <<>>, <<>>) >>) >>)
                     [] st = "ScriptPosition" /\ nm = U("Offset") -> el("I32", U("0"), nm, <<>>)
                     [] OTHER -> el("Nil", <<>>, nm, <<>>)
        given(nm) == {i \in DOMAIN ps : Unescape(ps[i].n) = nm}
        extra(p) == ~ \E i \in DOMAIN decl : decl[i].n = Unescape(p.n)
    IN  [i \in DOMAIN decl |-> IF given(decl[i].n) = {} THEN nil(decl[i].n) ELSE ps[CHOOSE k \in given(decl[i].n) : TRUE]]
        \o SelectSeq(ps, extra)

DocTok(env, mode, e, vis) ==
    CASE e.g = "Nil" -> [tk |-> << T("Nil", <<>>) >>, vis |-> vis]
      [] e.g = "Ref" -> IF e.r \in DOMAIN env.obj THEN DocTok(env, mode, env.obj[e.r], vis) ELSE [tk |-> << T("badref", <<>>) >>, vis |-> vis]
      [] e.g = "B" -> [tk |-> << T("B", Lex("B", e.x)) >>, vis |-> vis]
      [] e.g = "PR" -> [tk |-> << T("PR", <<>>) >> \o [i \in DOMAIN PrFields |-> PrTok(e, PrFields[i])], vis |-> vis]
      [] e.g \in PrimTags ->
           LET v == << T(IF mode = "w" /\ ~Strict(e.g, e.x) THEN "illformed" ELSE e.g, Lex(e.g, e.x)) >>
           IN  IF mode = "w" THEN [tk |-> v, vis |-> vis]
               ELSE [tk |-> << T("Obj", << vis.n >>) >> \o v \o << AnyNames, T("ad", <<>>), T("ex", <<>>), T("*", <<>>), T("end", <<>>) >>,
                     vis |-> [vis EXCEPT !.n = @ + 1]]
      [] e.g = "Obj" ->
           LET names == Names(env, e)
               pk == PrimKid(e)
               ck == ContKid(e)
               en == IF pk > 0 THEN EnumOf(names) ELSE ""
               st == IF pk = 0 /\ ck = 0 THEN StructOf(names) ELSE ""
               ident == IF mode = "w" THEN pk = 0 /\ ck = 0 /\ PrKid(e) = 0 ELSE en = ""
               v1 == IF ~ident THEN vis ELSE IF e.r = "" THEN [vis EXCEPT !.n = @ + 1] ELSE See(vis, e.r)
               adp == IF Has(e, "Props") THEN Kid(e, "Props").c ELSE <<>>
               exp == IF Has(e, "MS") THEN Kid(e, "MS").c ELSE <<>>
               a == DocProps(env, mode, IF mode = "r" /\ st # "" THEN Declared(st, adp) ELSE adp, 1, v1)
               b == DocProps(env, mode, exp, 1, a.vis)
               c == IF ck = 0 THEN [tk |-> <<>>, vis |-> b.vis] ELSE DocItems(env, mode, Entries(e.c[ck]), 1, b.vis)
               prim == IF pk = 0 THEN <<>> ELSE << T(IF mode = "w" /\ ~Strict(e.c[pk].g, e.c[pk].x) THEN "illformed" ELSE e.c[pk].g, Lex(e.c[pk].g, e.c[pk].x)) >>
               pr == IF PrKid(e) = 0 THEN <<>> ELSE DocTok(env, mode, e.c[PrKid(e)], vis).tk
               kd == KindOf(names)
               rnames == IF st # "" THEN NamesTok(Structs[st].tn)
                         ELSE IF kd # "" THEN NamesTok(TypeNames[kd])
                         ELSE IF names # <<>> THEN IF pk > 0 /\ StartsWith(names[1], U("System.")) THEN AnyNames ELSE NamesTok(Prefixed(names))
                         ELSE IF ck > 0 THEN NamesTok(TypeNames[ContClass[e.c[ck].g]])
                         ELSE IF pk > 0 THEN AnyNames ELSE NamesTok(<<>>)
               ts == IF Has(e, "ToString") THEN T("ts", Unescape(Kid(e, "ToString").x))
                     ELSE IF mode = "w" THEN T("nots", <<>>)
                     ELSE IF pk > 0 \/ ck > 0 \/ st # "" THEN T("*", <<>>) ELSE T("nots", <<>>)
               cls == IF ck = 0 THEN <<>> ELSE << T(IF mode = "r" /\ kd # "" THEN kd ELSE IF mode = "r" THEN ContClass[e.c[ck].g] ELSE e.c[ck].g, << Len(e.c[ck].c) >>) >>
           IN  IF ident /\ e.r # "" /\ e.r \in DOMAIN vis.m THEN [tk |-> << T("ref", << vis.m[e.r] >>) >>, vis |-> vis]
               ELSE IF mode = "r" /\ en # "" THEN [tk |-> << T("enum " \o en, Lex(e.c[pk].g, e.c[pk].x)) >>, vis |-> vis]
               ELSE [tk |-> << T("Obj", IF ident THEN << v1.n - 1 >> ELSE <<>>) >> \o prim \o pr
                            \o << IF mode = "w" THEN NamesTok(names) ELSE rnames >>
                            \o << T("ad", <<>>) >> \o a.tk \o << T("ex", <<>>) >> \o b.tk
                            \o (IF mode = "r" /\ st # "" THEN << T("struct " \o st, <<>>) >> ELSE <<>>)
                            \o cls \o c.tk \o << ts, T("end", <<>>) >>,
                     vis |-> c.vis]
      [] OTHER -> [tk |-> << T("unknown element " \o e.g, <<>>) >>, vis |-> vis]

----------------------------------------------------------------------------
(* Values.  A node: k "Nil", "prim" (g its element, s its value), "enum"    *)
(* (py the enumeration, s its number), "PR" (it its fields) or "Obj" with   *)
(* py its class, tn its type names (dtn: those of its class), ad and ex its *)
(* properties [n, v], hts/ts its description, c its container element and   *)
(* it the entries, g and s the primitive it extends.  Mode "x" also tells   *)
(* apart the Python types of values.                                        *)

PyKind == [list |-> "PSList", dict |-> "PSDict", queue |-> "PSQueue", object |-> "PSCustomObject"]
ClassNames(py) == IF py \in DOMAIN PyKind THEN TypeNames[PyKind[py]]
                  ELSE IF py \in DOMAIN TypeNames THEN TypeNames[py]
                  ELSE IF py \in DOMAIN Structs THEN Structs[py].tn ELSE <<>>

RECURSIVE ValTok(_, _, _, _), ValProps(_, _, _, _, _), ValItems(_, _, _, _, _)
ValProps(N, mode, ps, i, vis) ==
    IF i > Len(ps) THEN [tk |-> <<>>, vis |-> vis]
    ELSE LET a == ValTok(N, mode, ps[i].v, vis)
             b == ValProps(N, mode, ps, i + 1, a.vis)
         IN  [tk |-> << T("p", ps[i].n) >> \o a.tk \o b.tk, vis |-> b.vis]
ValItems(N, mode, it, i, vis) ==
    IF i > Len(it) THEN [tk |-> <<>>, vis |-> vis]
    ELSE LET a == ValTok(N, mode, it[i], vis)
             b == ValItems(N, mode, it, i + 1, a.vis)
         IN  [tk |-> a.tk \o b.tk, vis |-> b.vis]

ValTok(N, mode, i, vis) ==
    LET x == N[i] IN
    CASE x.k = "Nil" -> [tk |-> << T("Nil", <<>>) >>, vis |-> vis]
      [] x.k = "prim" -> [tk |-> << T(IF mode = "x" THEN x.g \o " " \o x.py ELSE x.g, x.s) >>, vis |-> vis]
      [] x.k = "enum" ->
           [tk |-> IF mode # "w" THEN << T("enum " \o x.py, x.s) >>
                   ELSE << T("Obj", <<>>), T("I32", x.s), NamesTok(<< Enums[x.py].tn >> \o TypeNames.PSEnumBase), T("ad", <<>>), T("ex", <<>>),
                           IF EnumPlain(x.py, NumOf(x.s)) THEN T("ts", EnumText(x.py, NumOf(x.s))) ELSE T("*", <<>>), T("end", <<>>) >>,
            vis |-> vis]
      [] x.k = "PR" -> [tk |-> << T("PR", <<>>) >> \o [j \in DOMAIN x.it |-> IF N[x.it[j]].k = "Nil" THEN T("Nil", <<>>) ELSE T(PrFields[j], N[x.it[j]].s)], vis |-> vis]
      [] x.k = "Obj" ->
           LET ident == IF mode = "w" THEN x.g = "" /\ x.c = "" ELSE TRUE
               v1 == IF ident THEN See(vis, i) ELSE vis
               a == ValProps(N, mode, x.ad, 1, v1)
               b == ValProps(N, mode, x.ex, 1, a.vis)
               c == ValItems(N, mode, x.it, 1, b.vis)
               prim == IF x.g = "" THEN <<>> ELSE << T(x.g, x.s) >>
               names == IF x.dtn THEN IF x.g # "" THEN <<>> ELSE ClassNames(x.py) ELSE x.tn
               n == IF x.c = "DCT" THEN Len(x.it) \div 2 ELSE Len(x.it)
           IN  IF ident /\ i \in DOMAIN vis.m THEN [tk |-> << T("ref", << vis.m[i] >>) >>, vis |-> vis]
               ELSE [tk |-> << T(IF mode = "x" THEN "Obj " \o x.py ELSE "Obj", IF ident THEN << v1.n - 1 >> ELSE <<>>) >> \o prim \o << NamesTok(names) >>
                            \o << T("ad", <<>>) >> \o a.tk \o << T("ex", <<>>) >> \o b.tk
                            \o (IF mode = "r" /\ x.c = "" /\ x.py \in DOMAIN Structs THEN << T("struct " \o x.py, <<>>) >> ELSE <<>>)
                            \o (IF x.c = "" THEN <<>> ELSE << T(IF mode = "r" THEN x.py ELSE x.c, << n >>) >>)
                            \o c.tk \o << IF x.hts THEN T("ts", x.ts) ELSE T("nots", <<>>), T("end", <<>>) >>,
                     vis |-> c.vis]

\* several values written one after the other, or read from one document
RECURSIVE DocAll(_, _, _, _, _), ValAll(_, _, _, _, _)
DocAll(env, mode, es, i, vis) == IF i > Len(es) THEN <<>> ELSE LET a == DocTok(env, mode, es[i], vis) IN a.tk \o << T("next", <<>>) >> \o DocAll(env, mode, es, i + 1, a.vis)
ValAll(N, mode, is, i, vis) == IF i > Len(is) THEN <<>> ELSE LET a == ValTok(N, mode, is[i], vis) IN a.tk \o << T("next", <<>>) >> \o ValAll(N, mode, is, i + 1, a.vis)
Denotes(mode, es) == DocAll(Env(WithinAll(es, 1)), mode, es, 1, Seen0)
Says(mode, v) == ValAll(v.nodes, mode, v.roots, 1, Seen0)
=============================================================================
