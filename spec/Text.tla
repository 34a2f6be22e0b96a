-------------------------------- MODULE Text --------------------------------
(* Text as sequences of UTF-16 code units, and the escapes of CLIXML        *)
(* (MS-PSRP 2.2.5.3.2).                                                     *)
EXTENDS Integers, Sequences

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |-> 31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]
\* the code units of a literal
U(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
IsDigit(c) == c \in 48..57
AllDigits(u) == u # <<>> /\ \A i \in DOMAIN u : u[i] \in 48..57
IsSpace(c) == c \in {9, 10, 13, 32}

From(u, i) == SubSeq(u, i, Len(u))
StartsWith(u, p) == Len(u) >= Len(p) /\ SubSeq(u, 1, Len(p)) = p
RECURSIVE TrimL(_), TrimR(_), StripZeros(_), NumOf(_)
TrimL(u) == IF u # <<>> /\ IsSpace(u[1]) THEN TrimL(Tail(u)) ELSE u
TrimR(u) == IF u # <<>> /\ IsSpace(u[Len(u)]) THEN TrimR(SubSeq(u, 1, Len(u) - 1)) ELSE u
Trim(u) == TrimR(TrimL(u))
StripZeros(u) == IF u # <<>> /\ u[1] = 48 THEN StripZeros(Tail(u)) ELSE u
\* the number a short run of digits stands for
NumOf(u) == IF u = <<>> THEN 0 ELSE 10 * NumOf(SubSeq(u, 1, Len(u) - 1)) + (u[Len(u)] - 48)
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN << 48 + n >> ELSE Append(DigitsOf(n \div 10), 48 + (n % 10))
IntText(n) == IF n < 0 THEN << 45 >> \o DigitsOf(-n) ELSE DigitsOf(n)

\* position of the first unit that is c, or 0
Find(u, c) == IF \E i \in DOMAIN u : u[i] = c THEN CHOOSE i \in DOMAIN u : u[i] = c /\ \A j \in 1..(i - 1) : u[j] # c ELSE 0

RECURSIVE Split(_, _), JoinWith(_, _)
Split(u, c) == IF Find(u, c) = 0 THEN << u >> ELSE << SubSeq(u, 1, Find(u, c) - 1) >> \o Split(From(u, Find(u, c) + 1), c)
JoinWith(us, sep) == IF us = <<>> THEN <<>> ELSE IF Len(us) = 1 THEN us[1] ELSE us[1] \o sep \o JoinWith(Tail(us), sep)

\* _xHHHH_ stands for the code unit HHHH, everything else for itself
IsEscape(u, i) == /\ i + 6 <= Len(u) /\ u[i] = 95 /\ u[i + 1] = 120 /\ u[i + 6] = 95
                  /\ \A k \in 2..5 : HexVal(u[i + k]) >= 0
RECURSIVE UnescapeFrom(_, _)
UnescapeFrom(u, i) ==
    IF i > Len(u) THEN <<>>
    ELSE IF IsEscape(u, i) THEN << 4096 * HexVal(u[i + 2]) + 256 * HexVal(u[i + 3]) + 16 * HexVal(u[i + 4]) + HexVal(u[i + 5]) >> \o UnescapeFrom(u, i + 7)
    ELSE << u[i] >> \o UnescapeFrom(u, i + 1)
Unescape(u) == IF \E i \in DOMAIN u : IsEscape(u, i) THEN UnescapeFrom(u, 1) ELSE u
=============================================================================
