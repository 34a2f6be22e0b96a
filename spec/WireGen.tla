------------------------------ MODULE WireGen ------------------------------
(* Generates the receiving scenarios replayed in the library: streams of    *)
(* fragments of several messages in every interleaving, with at most one    *)
(* faulty fragment, cut into chunks; with what must come out of each chunk. *)
EXTENDS Wire, TLC, Json

CONSTANTS Mode            \* which set of scenarios

Rpid == << 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175 >>
Pids == << << 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 16, 1 >>, << 31, 30, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 32, 2 >> >>
PipelineOutput == 266244
\* "<S>x</S>" with x = a, bb, ccc
Text(i) == << 60, 83, 62 >> \o [j \in 1..i |-> 96 + i] \o << 60, 47, 83, 62 >>
Body(i, bom) == (IF bom THEN Bom ELSE <<>>) \o Text(i)
Oid(i) == CASE i = 1 -> BE(1, 8) [] i = 2 -> BE(2, 8) [] OTHER -> << 255, 255, 255, 255, 0, 0, 1, 0 >>
Msg(i, bom) == Message(1, PipelineOutput, Rpid, Pids[1 + (i % 2)], Body(i, bom))

\* message i cut at the given places
RECURSIVE Cut(_, _, _, _)
Cut(i, b, cuts, fid) ==
    IF cuts = <<>> THEN << [oid |-> Oid(i), fid |-> fid, st |-> fid = 0, en |-> TRUE, data |-> b] >>
    ELSE << [oid |-> Oid(i), fid |-> fid, st |-> fid = 0, en |-> FALSE, data |-> SubSeq(b, 1, Head(cuts))] >>
         \o Cut(i, SubSeq(b, Head(cuts) + 1, Len(b)), Tail(cuts), fid + 1)

RECURSIVE Merges(_, _)
Merges(a, b) == IF a = <<>> THEN {b} ELSE IF b = <<>> THEN {a}
                ELSE { << Head(a) >> \o r : r \in Merges(Tail(a), b) } \cup { << Head(b) >> \o r : r \in Merges(a, Tail(b)) }

\* a cut of 0 bytes is a fragment without data
Cuts == { <<>>, << 1 >>, << 40 >>, << 8, 16 >>, << 48 >>, << 0 >>, << 40, 0 >> }
RECURSIVE Bytes(_)
Bytes(fs) == IF fs = <<>> THEN <<>> ELSE FragBytes(Head(fs)) \o Bytes(Tail(fs))

Clean == UNION { Merges(Cut(1, Msg(1, bom), c1, 0), Cut(2, Msg(2, FALSE), c2, 0)) : c1 \in Cuts, c2 \in Cuts, bom \in BOOLEAN }
Three == UNION { UNION { Merges(m, Cut(3, Msg(3, TRUE), << 41 >>, 0)) : m \in Merges(Cut(1, Msg(1, FALSE), c, 0), Cut(2, Msg(2, FALSE), << 5 >>, 0)) } : c \in { <<>>, << 20, 20 >> } }
\* a fragment repeated, left out or renumbered
InsertAt(s, i, f) == SubSeq(s, 1, i) \o << f >> \o SubSeq(s, i + 1, Len(s))
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Base == Merges(Cut(1, Msg(1, FALSE), << 30 >>, 0), Cut(2, Msg(2, FALSE), << 12, 20 >>, 0))
Faulty == UNION { { InsertAt(s, i, [s[j] EXCEPT !.fid = @ + d]) : i \in 0..Len(s), j \in DOMAIN s, d \in {0, 1, 5} }
                    \cup { DropAt(s, i) : i \in DOMAIN s } : s \in Base }
\* only what was sent can be completed in these streams
OnlySent(s) == LET d == AbsorbAll({}, s).done IN \A i \in DOMAIN d : d[i] \in {Msg(1, FALSE), Msg(2, FALSE)}
Streams == CASE Mode = "clean" -> Clean [] Mode = "three" -> Three [] OTHER -> {s \in Faulty : OnlySent(s)}

\* ways to cut the bytes into chunks
RECURSIVE Every(_, _)
Every(b, n) == IF Len(b) <= n THEN << b >> ELSE << SubSeq(b, 1, n) >> \o Every(SubSeq(b, n + 1, Len(b)), n)
Split2(b, n) == IF n >= Len(b) THEN << b >> ELSE << SubSeq(b, 1, n), SubSeq(b, n + 1, Len(b)) >>
L1(s) == HeadLen + Len(s[1].data)
Chunkings(s) == LET b == Bytes(s) IN
    { << b >>, Every(b, 21), Every(b, 33) }
      \cup { Split2(b, n) : n \in {1, 20, 21, 22, L1(s) - 1, L1(s), L1(s) + 1, L1(s) + 20, L1(s) + 21, L1(s) + 22, Len(b) - 1} }

RECURSIVE Outcome(_, _)
Outcome(rcv, chunks) == IF chunks = <<>> THEN <<>>
    ELSE LET r == Receive(rcv, Head(chunks))
         IN  << [b |-> Head(chunks), evs |-> [i \in DOMAIN r.done |-> Decode(r.done[i])], bad |-> r.bad] >> \o Outcome(r.rcv, Tail(chunks))

VARIABLE s
Init == s \in Streams
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == \A ch \in Chunkings(s) : PrintT(ToJson([steps |-> Outcome(NewReceiver, ch)]))
=============================================================================
