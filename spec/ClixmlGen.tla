----------------------------- MODULE ClixmlGen -----------------------------
(* Values to be written and documents to be read, enumerated.               *)
EXTENDS Clixml, Json, FiniteSets, Randomization

CONSTANTS Set, Size, Cap    \* Cap: at most so many cases, picked at random (0: all)

Node == [k |-> "Obj", g |-> "", s |-> <<>>, py |-> "", dtn |-> TRUE, tn |-> <<>>, ad |-> <<>>, ex |-> <<>>, hts |-> FALSE, ts |-> <<>>, c |-> "", it |-> <<>>]
Prim(g, s) == [Node EXCEPT !.k = "prim", !.g = g, !.s = s]
PrimPy(g, s, py) == [Prim(g, s) EXCEPT !.py = py]
Nil == [Node EXCEPT !.k = "Nil"]
One(n) == [nodes |-> << n >>, roots |-> << 1 >>]
Obj(ex) == [Node EXCEPT !.py = "PSCustomObject", !.ex = ex]
El(g, x) == [g |-> g, x |-> x, n |-> <<>>, hn |-> FALSE, r |-> "", c |-> <<>>]
W(v) == [w |-> v, d |-> <<>>]
R(d) == [w |-> One(Nil), d |-> d]

RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN { <<>> } ELSE { <<>> } \cup { << x >> \o s : x \in S, s \in Seqs(S, n - 1) }
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

----------------------------------------------------------------------------
(* Text                                                                     *)
Alphabet == {95, 120, 88, 48, 65, 97, 32, 38, 60, 62, 34, 39, 0, 9, 10, 13, 31, 127, 133, 159, 160, 55295, 55296, 56320, 57343, 57344, 65279, 65533, 65534, 65535}
Few == {95, 120, 48, 10, 55357, 56832}
Pieces == { U("_x0041_"), U("_x"), U("_"), U("x"), U("_x004"), U("1_"), U("_xD83D_"), U("_xDE00_"), U("_X0041_"), U("_x00e9_"), U("a"), U("_x005F_"), U("G0041_") }
TextPlaces(u) == { W(One(Prim("S", u))),
                   W([nodes |-> << Prim("I32", U("1")), Obj(<< [n |-> u, v |-> 1] >>) >>, roots |-> << 2 >>]),
                   W(One([Obj(<<>>) EXCEPT !.dtn = FALSE, !.tn = << u, U("b") >>])),
                   W(One([Obj(<<>>) EXCEPT !.hts = u # <<>>, !.ts = u])),
                   W([nodes |-> << PrimPy("S", u, "str"), Nil, [Node EXCEPT !.py = "PSDict", !.c = "DCT", !.it = << 1, 2 >>] >>, roots |-> << 3 >>]),
                   W([nodes |-> << Nil, [Obj(<<>>) EXCEPT !.ad = << [n |-> u, v |-> 1] >>], [Node EXCEPT !.py = "list", !.c = "LST", !.it = << 2, 4 >>], PrimPy("S", u, "str") >>, roots |-> << 3 >>]) }
                 \cup IF u # <<>> /\ (Len(u) < 2 \/ u[1] # 95 \/ u[2] # 95) \* what begins with two underscores is private
                      THEN { W([nodes |-> << Prim("I32", U("1")), [Node EXCEPT !.py = "object", !.ex = << [n |-> u, v |-> 1] >>] >>, roots |-> << 2 >>]) } ELSE {}
AllPlaces(S) == UNION { TextPlaces(u) : u \in S }
OtherText(u) == { W(One(Prim(g, u))) : g \in {"URI", "XD", "SBK"} }
Texts1 == Seqs(Alphabet, 1)
TextW == AllPlaces(Seqs(Alphabet, 2)) \cup { W(One(Prim("S", u))) : u \in Seqs(Few, Size) } \cup UNION { OtherText(u) : u \in Texts1 }
TextP == { W(One(Prim("S", Cat(p)))) : p \in Seqs(Pieces, Size) } \cup AllPlaces({ Cat(p) : p \in Seqs(Pieces, 2) })
\* every escape next to every other text, in every place a text is read
ReadPlaces(u) == { R(<< El("S", u) >>), R(<< El("URI", u) >>),
                   R(<< [El("Obj", <<>>) EXCEPT !.r = "0", !.c = << [El("MS", <<>>) EXCEPT !.c = << [El("Nil", <<>>) EXCEPT !.hn = TRUE, !.n = u] >>] >>] >>),
                   R(<< [El("Obj", <<>>) EXCEPT !.r = "0", !.c = << [El("Props", <<>>) EXCEPT !.c = << [El("Nil", <<>>) EXCEPT !.hn = TRUE, !.n = u] >>] >>] >>),
                   R(<< [El("Obj", <<>>) EXCEPT !.r = "0", !.c = << [El("LST", <<>>) EXCEPT !.c = << El("S", u), El("XD", u) >>] >>] >>),
                   R(<< [El("Obj", <<>>) EXCEPT !.r = "0", !.c = << [El("DCT", <<>>) EXCEPT !.c = << [El("En", <<>>) EXCEPT !.c = << [El("S", u) EXCEPT !.hn = TRUE, !.n = U("Key")], [El("SBK", u) EXCEPT !.hn = TRUE, !.n = U("Value")] >>] >>] >>] >>),
                   R(<< [El("Obj", <<>>) EXCEPT !.r = "0", !.c = << [El("TN", <<>>) EXCEPT !.r = "0", !.c = << El("T", u), El("T", U("b")) >>], El("ToString", u) >>] >>) }
TextR == { R(<< El("S", Cat(p)) >>) : p \in Seqs(Pieces, Size) } \cup UNION { ReadPlaces(Cat(p)) : p \in Seqs(Pieces, 2) }
\* all code units, 256 to a value
UnitsW == { W([nodes |-> [i \in 1..257 |-> IF i = 257 THEN [Node EXCEPT !.py = "list", !.c = "LST", !.it = [j \in 1..256 |-> j]]
                                           ELSE Prim("S", << 256 * hi + i - 1 >>)], roots |-> << 257 >>]) : hi \in 0..255 }

----------------------------------------------------------------------------
(* Dates and durations                                                      *)
Days == { << 1, 1, 1 >>, << 999, 12, 31 >>, << 1970, 1, 1 >>, << 2000, 2, 29 >>, << 2023, 10, 9 >>, << 9999, 12, 31 >> }
Times == { << 0, 0, 0 >>, << 23, 59, 59 >>, << 1, 2, 3 >> }
TickSet == {0, 1, 10, 100, 1000, 1000000, 1234567, 1234560, 5000000, 9999999, 20}
Zones == { << 0, 0 >>, << 1, 0 >>, << 1, 330 >>, << 1, -750 >>, << 1, 840 >>, << 1, -1 >>, << 1, -90 >>, << 1, 1 >> }
DatesW == { W(One(PrimPy("DT", d \o t \o << k >> \o z, py))) : d \in Days, t \in Times, k \in TickSet, z \in Zones, py \in {"", "datetime"} }
Pad2(n) == << 48 + (n \div 10), 48 + (n % 10) >>
Pad4(n) == Pad2(n \div 100) \o Pad2(n % 100)
DateText(d, t, f, z) == Pad4(d[1]) \o << 45 >> \o Pad2(d[2]) \o << 45 >> \o Pad2(d[3]) \o << 84 >> \o Pad2(t[1]) \o << 58 >> \o Pad2(t[2]) \o << 58 >> \o Pad2(t[3]) \o f \o z
Fracs == { <<>> } \cup { << 46 >> \o f : f \in { U("0"), U("1"), U("12"), U("001"), U("1234"), U("12345"), U("000001"), U("123456"), U("1234567"), U("0000001"), U("1000000"), U("9999999"), U("0000010") } }
DateFracs == Fracs \cup { << 46 >> \o f : f \in { U("12345678"), U("123456789"), U("000000001"), U("00000010"), U("999999999"), U("10000000"), U("000000100"), U("123456700") } }
ZoneTexts == { <<>>, U("Z"), U("+00:00"), U("-00:00"), U("+05:30"), U("-12:30"), U("+14:00"), U("-00:01"), U("+01:00") }
DatesR == { R(<< El("DT", DateText(d, t, f, z)) >>) : d \in Days, t \in Times, f \in DateFracs, z \in ZoneTexts }

SpansW == { W(One(PrimPy("TS", << n, d, s, k >>, py))) : n \in {0, 1}, d \in {0, 1, 30, 10675198}, s \in {0, 1, 9, 10, 59, 60, 61, 3599, 3600, 3660, 86399}, k \in {0, 1, 10, 100, 5000000, 9999999, 1230000, 10000}, py \in {"", "timedelta"} }
\* minus nothing is nothing
SpanOk(c) == LET s == c.w.nodes[1].s IN s[1] = 0 \/ s[2] # 0 \/ s[3] # 0 \/ s[4] # 0
Comp(c, S) == { <<>> } \cup { U(x) \o << c >> : x \in S }
SpanTexts == { sg \o << 80 >> \o d \o (IF tm = <<>> THEN <<>> ELSE << 84 >> \o tm) :
                 sg \in { <<>>, << 45 >> }, d \in Comp(68, {"0", "1", "400"}),
                 tm \in { h \o m \o s : h \in Comp(72, {"0", "2", "36"}), m \in Comp(77, {"1", "90"}), s \in Comp(83, {"0", "1", "61", "5.5", "0.0000001", "59.1234567", "7.10", "100"}) } }
SpansR == { R(<< El("TS", u) >>) : u \in SpanTexts }

----------------------------------------------------------------------------
(* Other primitives                                                         *)
Succ(u) == [u EXCEPT ![Len(u)] = @ + 1]     \* the limits end in 5, 7 or 8
Minus(u) == << 45 >> \o u
IntTexts(g) == { U("0"), U("1"), U("100"), Limits[g].hi } \cup IF Limits[g].lo = U("0") THEN {} ELSE { U("-1"), Minus(Limits[g].lo) }
IntsW == UNION { { W(One(Prim(g, u))) : u \in IntTexts(g) } : g \in IntTags }
         \cup { W(One(PrimPy("I32", u, "int"))) : u \in IntTexts("I32") }
         \cup { W(One(PrimPy("I64", u, "int"))) : u \in { Succ(Limits.I32.hi), Minus(Succ(Limits.I32.lo)), Limits.I64.hi, Minus(Limits.I64.lo) } }
IntsR == UNION { { R(<< El(g, v) >>) : v \in UNION { {u, U("00") \o u, << 32 >> \o u \o << 10 >>} \cup (IF u[1] = 45 THEN {} ELSE { << 43 >> \o u }) : u \in IntTexts(g) }
                                             \cup { Succ(Limits[g].hi), Minus(Succ(Limits[g].lo)), U("99999999999999999999999"), U("a"), U("1a"), U("0x1"), U("1.5"), U("-") } } : g \in IntTags }
Reals == { << s, e >> \o d : s \in {0, 1}, e \in {-20, -7, -3, -1, 0, 2, 15, 30}, d \in { U("1"), U("15"), U("123456789"), U("25") } } \cup { << 0, 0 >>, << 1, 0 >> }
RealsW == { W(One(PrimPy(c[1], r, c[2]))) : c \in { << "Sg", "" >>, << "Sg", "float" >>, << "Db", "" >>, << "D", "" >>, << "D", "Decimal" >> }, r \in {x \in Reals : x[1] = 0 \/ Len(x) > 2} }
          \cup { W(One(PrimPy(c[1], r, c[2]))) : c \in { << "Sg", "" >>, << "Sg", "float" >>, << "Db", "" >> }, r \in { NotANumber, Infinite, MinusInfinite, << 1, 0 >> } }
RealTexts == { U("0"), U("1"), U("-1.5"), U("0.1"), U("00.50"), U("+2.25"), U("123456789012345"), U(".5"), U("5."), U("79228162514264337593543950335"), U("-0.0000001") }
RealsR == { R(<< El(g, u) >>) : g \in {"Sg", "Db"}, u \in (RealTexts \ { U("79228162514264337593543950335") }) \cup { U("1E5"), U("1e-7"), U("-2.5E+10"), U("INF"), U("-INF"), U("NaN"), U("1E22"), U("1.7976931348623157E308"), U("x"), U("1E"), U("1,5") } }
          \cup { R(<< El("D", u) >>) : u \in RealTexts \cup { U("x"), U("1,5") } }
BytesSet == Seqs({0, 62, 63, 255}, 4) \cup { [i \in 1..256 |-> i - 1] }
BytesW == { W(One(PrimPy("BA", b, py))) : b \in BytesSet, py \in {"", "bytes"} }
BytesR == { R(<< El("BA", u) >>) : u \in { U(""), U("AA=="), U("AAA="), U("AAAA"), U("+/9="), U("////"), U("YWJjZA=="), U("YQ"), U("YQ="), << 32 >>, << 10 >> \o U("YWJj") \o << 13, 10 >>, U("YWJj") \o << 10 >> \o U("ZA=="), U("YW Jj"), U("Y") \o << 9 >> \o U("W  JjZA= ="), << 13, 10, 32, 32 >> \o U("AA==") \o << 10, 32 >> } }
Guids == { U("00000000-0000-0000-0000-000000000000"), U("01234567-89ab-cdef-0123-456789abcdef"), U("ffffffff-ffff-ffff-ffff-ffffffffffff") }
GuidsC == { W(One(PrimPy("G", u, py))) : u \in Guids, py \in {"", "UUID"} } \cup { R(<< El("G", u) >>) : u \in Guids \cup { U("01234567-89AB-CDEF-0123-456789ABCDEF") } }
Versions == { U("0.0"), U("1.2"), U("2.3.0"), U("10.0.17763.2147483647"), U("1.2.3.4") }
VersionsC == UNION { { W(One(Prim("Version", u))), R(<< El("Version", u) >>) } : u \in Versions } \cup { R(<< El("Version", u) >>) : u \in { U("1"), U("1.2.3.4.5"), U("1."), U("a.b"), U("") } }
OthersC == { W(One(Nil)), R(<< El("Nil", <<>>) >>) } \cup { W(One(Prim("B", << b >>))) : b \in {0, 1} } \cup { R(<< El("B", u) >>) : u \in { U("true"), U("false") } }

----------------------------------------------------------------------------
(* Containers                                                               *)
Leaves == { Nil, Prim("I32", U("1")), Prim("S", <<>>) }
Conts == { << "LST", "PSList" >>, << "LST", "list" >>, << "STK", "PSStack" >>, << "QUE", "PSQueue" >>, << "QUE", "queue" >>, << "IE", "PSIEnumerable" >>, << "DCT", "PSDict" >>, << "DCT", "dict" >> }
         \cup IF AppTypes THEN { << "LST", "AppList" >>, << "STK", "AppStack" >>, << "QUE", "AppQueue" >>, << "DCT", "AppDict" >> } ELSE {}
\* values as trees: a node whose it are trees; turned into a graph afterwards
Leaf(n) == [n |-> n, it |-> <<>>, ex |-> <<>>]
Key(i) == Leaf(Prim("S", << 106 + i >>))
Box(k, its) == [n |-> [Node EXCEPT !.c = k[1], !.py = k[2]], ex |-> <<>>,
                it |-> IF k[1] # "DCT" THEN its ELSE [i \in 1..(2 * Len(its)) |-> IF i % 2 = 1 THEN Key((i + 1) \div 2) ELSE its[i \div 2]]]
\* an extra property; ordinary Python containers cannot have any
WithProp(t, p) == IF t.n.py \in DOMAIN PyKind THEN t ELSE [t EXCEPT !.ex = << p >>]
T0 == { Leaf(n) : n \in Leaves }
T1 == UNION { { Box(k, its) : its \in Seqs(T0, 2) } : k \in Conts }
T1s == UNION { { Box(k, its) : its \in { <<>>, << Leaf(Nil) >>, << Leaf(Prim("S", << 97 >>)), Leaf(Prim("I32", U("1"))) >> } } : k \in Conts }
T2 == UNION { { Box(k, its) : its \in Seqs(T0 \cup T1s, 2) } : k \in Conts }
T2p == { WithProp(t, p) : t \in T1, p \in T0 \cup T1s }
T3 == UNION { { Box(k, << Box(j, << t >>) >>) : t \in T1s } : k \in Conts, j \in Conts }

RECURSIVE Graph(_, _), GraphAll(_, _, _)
\* adds a tree to the nodes: [nodes, i]
GraphAll(ts, i, nodes) == IF i > Len(ts) THEN [nodes |-> nodes, is |-> <<>>]
                          ELSE LET a == Graph(ts[i], nodes)
                                   b == GraphAll(ts, i + 1, a.nodes)
                               IN  [nodes |-> b.nodes, is |-> << a.i >> \o b.is]
Graph(t, nodes) == LET a == GraphAll(t.it, 1, nodes)
                       b == GraphAll(t.ex, 1, a.nodes)
                       n == [t.n EXCEPT !.it = a.is, !.ex = [i \in DOMAIN b.is |-> [n |-> U("extra"), v |-> b.is[i]]]]
                   IN  [nodes |-> Append(b.nodes, n), i |-> Len(b.nodes) + 1]
AsVal(t) == LET g == Graph(t, <<>>) IN [nodes |-> g.nodes, roots |-> << g.i >>]
ContsW == { W(AsVal(t)) : t \in CASE Size = 1 -> T1 \cup T2p [] Size = 2 -> T2 [] OTHER -> T3 }

----------------------------------------------------------------------------
(* Objects that refer to each other.  Node 1 is a primitive, nodes 2 .. are *)
(* objects.                                                                 *)
TN == { <<>>, << U("A"), U("B") >>, << U("A") >>, << U("A"), <<>>, U("A") >> }
PropLists(n) == { [i \in DOMAIN s |-> [n |-> << 96 + i >>, v |-> s[i]]] : s \in Seqs(1..(n + 1), 2) }
Parted(ps) == { << SubSeq(ps, 1, i), SubSeq(ps, i + 1, Len(ps)) >> : i \in 0..Len(ps) }
Shapes(n) == { [Node EXCEPT !.py = "PSCustomObject", !.dtn = t = <<>>, !.tn = t, !.ad = pp[1], !.ex = pp[2], !.hts = t = << U("A") >>, !.ts = U("me")] :
                 t \in TN, pp \in UNION { Parted(ps) : ps \in PropLists(n) } }
Few3 == { [Node EXCEPT !.py = "PSCustomObject", !.dtn = t = <<>>, !.tn = t, !.ex = ps] : t \in { <<>>, << U("A") >> }, ps \in { [i \in DOMAIN s |-> [n |-> << 96 + i >>, v |-> s[i]]] : s \in Seqs(2..4, 2) } }
Graphs2 == { [nodes |-> << Prim("S", << 97 >>), a, b >>, roots |-> r] : a \in Shapes(2), b \in Shapes(2), r \in { << 2 >>, << 3, 2 >> } }
Graphs3 == { [nodes |-> << Prim("S", << 97 >>), a, b, c >>, roots |-> << 2, 4 >>] : a \in Few3, b \in Few3, c \in Few3 }
GraphsW == { W(v) : v \in IF Size = 2 THEN Graphs2 ELSE Graphs3 }

----------------------------------------------------------------------------
(* Documents for such objects and containers, laid out in different ways.   *)
(* st: [obj: RefIds given, tn: lists of names given]                        *)
RECURSIVE Doc(_, _, _, _, _), DocPs(_, _, _, _, _), DocIs(_, _, _, _, _)
Id(o, i) == o.pre \o ToString(i)
DocPs(N, o, ps, i, st) == IF i > Len(ps) THEN [c |-> <<>>, st |-> st]
    ELSE LET a == Doc(N, o, ps[i].v, st, << ps[i].n >>)
             b == DocPs(N, o, ps, i + 1, a.st)
         IN  [c |-> << a.e >> \o b.c, st |-> b.st]
DocIs(N, o, it, i, st) == IF i > Len(it) THEN [c |-> <<>>, st |-> st]
    ELSE LET a == Doc(N, o, it[i], st, IF o.dict THEN << IF i % 2 = 1 THEN U("Key") ELSE U("Value") >> ELSE <<>>)
             b == DocIs(N, o, it, i + 1, a.st)
         IN  [c |-> << a.e >> \o b.c, st |-> b.st]
Ens(c) == [i \in 1..(Len(c) \div 2) |-> [El("En", <<>>) EXCEPT !.c = IF i % 2 = 1 THEN << c[2 * i - 1], c[2 * i] >> ELSE << c[2 * i], c[2 * i - 1] >>]]
PrimText(n) == n.s
Doc(N, o, i, st, nm) ==
    LET x == N[i]
        base == [El("", <<>>) EXCEPT !.hn = nm # <<>>, !.n = IF nm = <<>> THEN <<>> ELSE nm[1]]
    IN  CASE x.k = "Nil" -> [e |-> [base EXCEPT !.g = "Nil"], st |-> st]
          [] x.k = "prim" -> [e |-> [base EXCEPT !.g = x.g, !.x = PrimText(x)], st |-> st]
          [] i \in DOMAIN st.obj -> [e |-> [base EXCEPT !.g = "Ref", !.r = st.obj[i]], st |-> st]
          [] OTHER ->
             LET names == IF x.dtn THEN ClassNames(x.py) ELSE x.tn
                 known == {j \in DOMAIN st.tn : st.tn[j] = names}
                 rid == Id(o, Len(st.tn) + Cardinality(DOMAIN st.obj))
                 s1 == [obj |-> (i :> rid) @@ st.obj, tn |-> IF known = {} \/ ~o.share THEN Append(st.tn, names) ELSE st.tn]
                 tn == IF known # {} /\ o.share THEN << [El("TNRef", <<>>) EXCEPT !.r = Id(o, CHOOSE j \in known : TRUE)] >>
                       ELSE << [El("TN", <<>>) EXCEPT !.r = Id(o, Len(st.tn) + 1), !.c = [k \in DOMAIN names |-> El("T", names[k])]] >>
                 ts == IF x.hts THEN << El("ToString", x.ts) >> ELSE <<>>
                 a == DocPs(N, o, x.ad, 1, s1)
                 b == DocPs(N, o, x.ex, 1, a.st)
                 c == DocIs(N, [o EXCEPT !.dict = x.c = "DCT"], x.it, 1, b.st)
                 \* the container before the properties
                 c0 == DocIs(N, [o EXCEPT !.dict = x.c = "DCT"], x.it, 1, s1)
                 a0 == DocPs(N, o, x.ad, 1, c0.st)
                 b0 == DocPs(N, o, x.ex, 1, a0.st)
                 ad == IF x.ad = <<>> THEN <<>> ELSE << [El("Props", <<>>) EXCEPT !.c = IF o.late THEN a0.c ELSE a.c] >>
                 ex == IF x.ex = <<>> THEN <<>> ELSE << [El("MS", <<>>) EXCEPT !.c = IF o.late THEN b0.c ELSE b.c] >>
                 cc == IF o.late THEN c0.c ELSE c.c
                 ct == IF x.c = "" THEN <<>> ELSE << [El(x.c, <<>>) EXCEPT !.c = IF x.c = "DCT" THEN Ens(cc) ELSE cc] >>
             IN  [e |-> [base EXCEPT !.g = "Obj", !.r = rid, 
                                     !.c = IF o.late THEN tn \o ts \o ct \o ad \o ex ELSE IF o.share THEN tn \o ad \o ex \o ct \o ts ELSE tn \o ts \o ad \o ex \o ct],
                  st |-> IF o.late THEN b0.st ELSE c.st]
RECURSIVE DocRoots(_, _, _, _)
DocRoots(v, o, i, st) == IF i > Len(v.roots) THEN <<>> ELSE LET a == Doc(v.nodes, o, v.roots[i], st, <<>>) IN << a.e >> \o DocRoots(v, o, i + 1, a.st)
Layouts == { [pre |-> p, share |-> s, late |-> l, dict |-> FALSE] : p \in {"", "r"}, s \in BOOLEAN, l \in BOOLEAN }
Laid(v, o) == R(DocRoots(v, o, 1, [obj |-> [x \in {} |-> ""], tn |-> <<>>]))
Docs(v) == { Laid(v, o) : o \in Layouts }
\* one container shared by two properties and one object shared by entries
SharedVals == UNION { { [nodes |-> << Prim("S", << 97 >>), [Obj(<< [n |-> << 97 >>, v |-> 1] >>) EXCEPT !.dtn = FALSE, !.tn = << U("A") >>],
                                [Node EXCEPT !.py = k[2], !.c = k[1], !.it = its],
                                Obj(<< [n |-> U("x"), v |-> 3], [n |-> U("y"), v |-> 3], [n |-> U("z"), v |-> 2] >>) >>, roots |-> r]
                         : its \in IF k[1] = "DCT" THEN { << 1, 2 >> } ELSE { <<>>, << 2 >>, << 2, 2 >>, << 1, 2 >> } } : k \in {c \in Conts : ~(c[2] \in DOMAIN PyKind)}, r \in { << 4 >>, << 2, 4 >>, << 4, 3 >> } }
SharedR == UNION { Docs(v) : v \in SharedVals }
ContsR == UNION { { Laid(AsVal(t), o) : o \in {l \in Layouts : l.pre = ""} } : t \in IF Size = 1 THEN T1 \cup T2p ELSE T3 }

\* containers and objects without type names, containers with unknown ones
Bare == { R(<< [El("Obj", <<>>) EXCEPT !.r = "0", !.c = tn \o ct \o ms] >>) :
            tn \in { <<>>, << [El("TN", <<>>) EXCEPT !.r = "0", !.c = << El("T", U("Some.Type")), El("T", U("Base")) >>] >> },
            ct \in { <<>> } \cup { << [El(g, <<>>) EXCEPT !.c = IF g = "DCT" THEN <<>> ELSE << El("I32", U("3")) >>] >> : g \in ContTags }
                   \cup { << El(g, u) >> : << g, u >> \in { << "S", U("abc") >>, << "I32", U("7") >>, << "BA", U("AAAA") >>, << "Db", U("0.5") >>, << "DT", U("2020-02-03T04:05:06") >> } },
            ms \in { <<>>, << [El("MS", <<>>) EXCEPT !.c = << [El("S", U("v")) EXCEPT !.hn = TRUE, !.n = U("p")] >>] >>, << El("ToString", U("told")) >> } }

----------------------------------------------------------------------------
(* Enumerations and structures                                              *)
EnumNums(c) == IF Enums[c].flag THEN 0..(IF c \in {"CommandTypes", "ControlKeyStates"} THEN 511 ELSE 15)
               ELSE { Enums[c].m[i].v : i \in DOMAIN Enums[c].m }
\* numbers made of bits that have a name
Named(c, v) == v = 0 \/ ~Enums[c].flag \/ \A k \in 0..9 : ((v \div (2^k)) % 2 = 1) => \E i \in DOMAIN Enums[c].m : Enums[c].m[i].v = 2^k
EnumEl(c, v, ts) == [El("Obj", <<>>) EXCEPT !.r = "5", !.c = << El("I32", IntText(v)), [El("TN", <<>>) EXCEPT !.r = "3", !.c = << El("T", Enums[c].tn), El("T", U("System.Enum")) >>] >> \o ts]
EnumsC == UNION { { W(One([Node EXCEPT !.k = "enum", !.py = c, !.s = IntText(v)])) : v \in { n \in EnumNums(c) : Named(c, n) /\ (n # 0 \/ \E i \in DOMAIN Enums[c].m : Enums[c].m[i].v = 0) } } : c \in DOMAIN Enums }
          \cup UNION { { R(<< EnumEl(c, v, <<>>) >>) : v \in { n \in EnumNums(c) : Named(c, n) } } : c \in DOMAIN Enums }
\* every structure with each subset of a few of its properties and some others
StructEl(c, S, extra) == [El("Obj", <<>>) EXCEPT !.r = "0", !.c =
    << [El("TN", <<>>) EXCEPT !.r = "0", !.c = [i \in DOMAIN Structs[c].tn |-> El("T", Structs[c].tn[i])]] >>
    \o << [El("Props", <<>>) EXCEPT !.c = [i \in DOMAIN S |-> [El("S", << 97 + S[i] >>) EXCEPT !.hn = TRUE, !.n = Structs[c].p[S[i]].n]]
                                         \o (IF extra THEN << [El("I32", U("1")) EXCEPT !.hn = TRUE, !.n = U("More")] >> ELSE <<>>)] >>
    \o (IF extra THEN << [El("MS", <<>>) EXCEPT !.c = << [El("I32", U("2")) EXCEPT !.hn = TRUE, !.n = U("Added")] >>] >> ELSE <<>>)]
\* the properties of some are computed from each other
Computed == {"ScriptExtent"}
StructsC == UNION { { R(<< StructEl(c, S, x) >>) : S \in IF c \in Computed THEN { [i \in DOMAIN Structs[c].p |-> i] } ELSE { <<>>, << 1 >>, << 2 >>, << 2, 1 >>, [i \in DOMAIN Structs[c].p |-> i], [i \in DOMAIN Structs[c].p |-> Len(Structs[c].p) + 1 - i] }, x \in BOOLEAN } : c \in DOMAIN Structs }

\* every property given, written as a value
StructVal(c) ==
    LET ps == Structs[c].p
        v(i) == IF ps[i].t \in {"PSString", "PSSecureString"} THEN Prim("S", << 97 + i >>) ELSE IF ps[i].t = "PSInt" THEN Prim("I32", IntText(i)) ELSE Nil
        n == Len(ps)
    IN  [nodes |-> [i \in 1..(n + 2) |-> IF i <= n THEN v(i) ELSE IF i = n + 1 THEN [Node EXCEPT !.py = c, !.ad = [j \in 1..n |-> [n |-> ps[j].n, v |-> j]], !.ex = << [n |-> U("Added"), v |-> 1] >>]
                                       ELSE [Node EXCEPT !.py = "PSList", !.c = "LST", !.it = << n + 1, 1, n + 1 >>]],
         roots |-> << n + 2 >>]
StructsW == { W(StructVal(c)) : c \in DOMAIN Structs \ {"ScriptExtent", "ScriptPosition", "ErrorCategoryInfo", "InformationRecord", "PSCredential"} }

\* the types of an application, whether it has registered them or not, alone and next to others
AppEl(c, S) == [El("Obj", <<>>) EXCEPT !.r = "1", !.c =
    << [El("TN", <<>>) EXCEPT !.r = "1", !.c = [i \in DOMAIN AppStructs[c].tn |-> El("T", AppStructs[c].tn[i])]],
       [El("Props", <<>>) EXCEPT !.c = [i \in DOMAIN S |-> [El("S", << 97 + S[i] >>) EXCEPT !.hn = TRUE, !.n = AppStructs[c].p[S[i]].n]]],
       [El("MS", <<>>) EXCEPT !.c = << [El("Ref", <<>>) EXCEPT !.r = "1", !.hn = TRUE, !.n = U("Me")] >>] >>]
AppCont(c, g) == [El("Obj", <<>>) EXCEPT !.r = "1", !.c =
    << [El("TN", <<>>) EXCEPT !.r = "1", !.c = [i \in DOMAIN AppNames[c] |-> El("T", AppNames[c][i])]],
       [El(g, <<>>) EXCEPT !.c = IF g = "DCT" THEN << [El("En", <<>>) EXCEPT !.c = << [El("S", U("k")) EXCEPT !.hn = TRUE, !.n = U("Key")], [El("Nil", <<>>) EXCEPT !.hn = TRUE, !.n = U("Value")] >>] >> ELSE << El("I32", U("3")), El("Nil", <<>>) >>] >>]
AppEnumEl(c, v) == [El("Obj", <<>>) EXCEPT !.r = "1", !.c = << El("I32", IntText(v)), [El("TN", <<>>) EXCEPT !.r = "1", !.c = << El("T", AppEnums[c].tn), El("T", U("System.Enum")) >>] >>]
Nearby == { [El("Obj", <<>>) EXCEPT !.r = "2", !.c = << [El("TN", <<>>) EXCEPT !.r = "2", !.c = << El("T", t), El("T", U("My.Type")), El("T", U("System.Object")) >>], [El("MS", <<>>) EXCEPT !.c = << [El("I32", U("3")) EXCEPT !.hn = TRUE, !.n = U("Id")] >>] >>] :
              t \in { U("My.Type2"), U("my.type"), U("Deserialized.My.Type"), U("My") } }
AppEls == { AppEl(c, S) : c \in DOMAIN AppStructs, S \in { <<>>, << 2 >>, << 2, 1 >>, << 1, 2, 3 >> } }
          \cup { AppCont(x[1], x[2]) : x \in { << "AppDict", "DCT" >>, << "AppList", "LST" >>, << "AppStack", "STK" >>, << "AppQueue", "QUE" >> } }
          \cup { AppEnumEl("AppEnum", v) : v \in {1, 2, 9} } \cup { AppEnumEl("AppFlag", v) : v \in 0..7 }
AppDocs == UNION { { R(<< e >>), R(<< e, El("Nil", <<>>), [El("Ref", <<>>) EXCEPT !.r = "1"] >>),
                     R(<< [El("Obj", <<>>) EXCEPT !.r = "0", !.c = << [El("LST", <<>>) EXCEPT !.c = << e, El("I32", U("1")) >>] >>] >>) }
                   \cup { R(<< e, o >>) : o \in Nearby } : e \in AppEls }

\* names that are known, but do not come first: an unknown type that derives from a known one
FirstNames == { TypeNames[c][1] : c \in DOMAIN TypeNames } \cup { Enums[c].tn : c \in DOMAIN Enums } \cup { Structs[c].tn[1] : c \in DOMAIN Structs }
              \cup { U("System.String"), U("System.Int32"), U("System.Guid"), U("System.Byte[]"), U("System.Security.SecureString") }
DerivedNames(nm) == { << U("Some.Type"), nm >>, << U("Some.Type"), U("Base"), nm, U("System.Object") >>, << U("Deserialized.") \o nm, nm >>, << U("System.Object"), nm >> }
DerivedC == { R(<< [El("Obj", <<>>) EXCEPT !.r = "0", !.c = << [El("TN", <<>>) EXCEPT !.r = "0", !.c = [i \in DOMAIN ns |-> El("T", ns[i])]] >> \o b] >>) :
                ns \in UNION { DerivedNames(nm) : nm \in FirstNames },
                b \in { << [El("Props", <<>>) EXCEPT !.c = << [El("S", U("v")) EXCEPT !.hn = TRUE, !.n = U("Message")] >>], [El("MS", <<>>) EXCEPT !.c = << [El("I32", U("3")) EXCEPT !.hn = TRUE, !.n = U("p")] >>] >>,
                        << El("I32", U("1")), El("ToString", U("told")) >>, << El("S", U("abc")) >>,
                        << [El("LST", <<>>) EXCEPT !.c = << El("I32", U("3")) >>] >>, << [El("DCT", <<>>) EXCEPT !.c = <<>>] >> } }

----------------------------------------------------------------------------
Pick(S) == IF Cap = 0 THEN S ELSE RandomSubset(Cap, S)
Cases == CASE Set = "text_w" -> TextW [] Set = "text_p" -> TextP [] Set = "text_r" -> TextR [] Set = "units" -> UnitsW
           [] Set = "dates" -> DatesW \cup DatesR [] Set = "spans" -> {c \in SpansW : SpanOk(c)} \cup SpansR
           [] Set = "ints" -> IntsW \cup IntsR [] Set = "reals" -> RealsW \cup RealsR
           [] Set = "others" -> BytesW \cup BytesR \cup GuidsC \cup VersionsC \cup OthersC
           [] Set = "conts" -> Pick(ContsW) [] Set = "conts_r" -> ContsR [] Set = "graphs" -> Pick(GraphsW) [] Set = "graphs_r" -> { [v |-> v, o |-> o] : v \in Pick(IF Size = 2 THEN Graphs2 ELSE Graphs3), o \in Layouts } [] Set = "shared_r" -> SharedR
           [] Set = "bare" -> Bare [] Set = "enums" -> EnumsC [] Set = "structs" -> StructsC \cup StructsW [] Set = "app" -> AppDocs [] Set = "derived" -> DerivedC
VARIABLE s
Init == s \in Cases
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == PrintT(ToJson(IF Set = "graphs_r" THEN Laid(s.v, s.o) ELSE s))
=============================================================================
