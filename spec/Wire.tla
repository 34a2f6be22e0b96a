-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The PSRP wire: how messages are cut into fragments and put in payloads, *)
(* and how a stream of bytes becomes messages again (MS-PSRP 2.2.1, 2.2.4).*)
(* Bytes are integers 0..255; identifiers are kept as byte strings, so no  *)
(* bound is put on object ids.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE BE(_, _), LE(_, _), UnBE(_)
BE(n, k) == IF k = 0 THEN <<>> ELSE Append(BE(n \div 256, k - 1), n % 256)
LE(n, k) == IF k = 0 THEN <<>> ELSE <<n % 256>> \o LE(n \div 256, k - 1)
UnBE(s)  == IF s = <<>> THEN 0 ELSE 256 * UnBE(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]

\* .NET writes the first three groups of a GUID in little endian
GuidLE(g) == << g[4], g[3], g[2], g[1], g[6], g[5], g[8], g[7] >> \o SubSeq(g, 9, 16)
NoGuid    == [i \in 1..16 |-> 0]

----------------------------------------------------------------------------
(* Messages and fragments                                                  *)

Header(dest, type, rpid, pid) == LE(dest, 4) \o LE(type, 4) \o GuidLE(rpid) \o GuidLE(pid)
Message(dest, type, rpid, pid, body) == Header(dest, type, rpid, pid) \o body

HeadLen == 21                   \* bytes of a fragment before its data
Flags(st, en) == (IF st THEN 1 ELSE 0) + (IF en THEN 2 ELSE 0)
FragBytes(f) == f.oid \o BE(f.fid, 8) \o << Flags(f.st, f.en) >> \o BE(Len(f.data), 4) \o f.data

\* size of the fragment at the head of b, or 0 when it has not arrived completely
FragLen(b) == IF Len(b) < HeadLen THEN 0
              ELSE IF SubSeq(b, 18, 18) # <<0>> THEN 0        \* 16 MB and more: not in this model
              ELSE LET n == HeadLen + UnBE(SubSeq(b, 19, 21)) IN IF Len(b) < n THEN 0 ELSE n
FragAt(b)  == LET n == FragLen(b) IN
              [oid |-> SubSeq(b, 1, 8), fid |-> IF SubSeq(b, 9, 12) = <<0, 0, 0, 0>> /\ b[13] < 128 THEN UnBE(SubSeq(b, 13, 16)) ELSE -1,
               st |-> b[17] % 2 = 1, en |-> (b[17] \div 2) % 2 = 1, data |-> SubSeq(b, HeadLen + 1, n)]

\* the complete fragments at the head of b and what is left
RECURSIVE Frags(_)
Frags(b) == IF FragLen(b) = 0 THEN [fs |-> <<>>, rest |-> b]
            ELSE LET r == Frags(SubSeq(b, FragLen(b) + 1, Len(b))) IN [fs |-> << FragAt(b) >> \o r.fs, rest |-> r.rest]

\* a < b for byte strings of one length
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))

----------------------------------------------------------------------------
(* Sending.  q holds what the application queued and is not yet sent        *)
(* completely: target p, stream s, type t, text x.  cur is the part of the  *)
(* head of q that went out: the bytes of its header and the length so far.  *)
(* A packer may cut messages and fill payloads as it likes within the rules *)
(* below; Take says which rule a fragment breaks ("" for none).             *)

NoCur == [on |-> FALSE, oid |-> BE(0, 8), fid |-> 0, head |-> <<>>, len |-> 0]
NewSender == [q |-> <<>>, cur |-> NoCur, last |-> BE(0, 8)]

\* env: [dest, rpid, pids]; f a fragment; texts the contents of the messages completed in this payload
First40(b) == IF Len(b) > 40 THEN SubSeq(b, 1, 40) ELSE b
Pid(env, p) == IF p = 0 THEN NoGuid ELSE env.pids[p]
Take(env, snd, f, pay) ==
    LET cur == snd.cur
        m   == Head(snd.q)
        first == ~cur.on
        head == First40(cur.head \o f.data)
    IN  CASE snd.q = <<>> -> "a fragment that no message calls for"
          [] f.data = <<>> -> "a fragment without data"
          [] m.p # pay.p -> "a message for another target in the payload"
          [] m.s # pay.s -> "a message of another stream in the payload"
          [] first /\ ~Less(snd.last, f.oid) -> "an object id that is not larger than the ones before"
          [] ~first /\ f.oid # cur.oid -> "a fragment of another message before the end of this one"
          [] f.fid # cur.fid -> "a fragment number out of sequence"
          [] f.st # first -> "a wrong start mark"
          [] f.en /\ head # Header(env.dest, m.t, env.rpid, Pid(env, m.p)) -> "a wrong message header"
          [] OTHER -> ""

Took(snd, f) ==
    IF f.en THEN [q |-> Tail(snd.q), cur |-> NoCur, last |-> f.oid]
    ELSE [snd EXCEPT !.cur = [on |-> TRUE, oid |-> f.oid, fid |-> f.fid + 1, head |-> First40(snd.cur.head \o f.data),
                              len |-> snd.cur.len + Len(f.data)]]

\* outcome of putting fs, the texts being those of the completed messages
RECURSIVE TakeAll(_, _, _, _)
TakeAll(env, snd, fs, pay) ==
    IF fs = <<>> THEN [why |-> IF pay.texts = <<>> THEN "" ELSE "more messages than expected", snd |-> snd]
    ELSE LET f == Head(fs)
             why == Take(env, snd, f, pay)
         IN  IF why # "" THEN [why |-> why, snd |-> snd]
             ELSE IF f.en /\ (pay.texts = <<>> \/ Head(pay.texts) # Head(snd.q).x) THEN [why |-> "wrong message contents", snd |-> snd]
             ELSE TakeAll(env, Took(snd, f), Tail(fs), IF f.en THEN [pay EXCEPT !.texts = Tail(@)] ELSE pay)

MinLimit == HeadLen + 1
\* pay: [out, p, s, b, texts], out "ok" a payload, "none" nothing to send, "error" refused
Payload(env, snd, limit, pay) ==
    CASE limit > 0 /\ limit < MinLimit -> [why |-> IF pay.out = "error" THEN "" ELSE "a limit too small was not refused", snd |-> snd]
      [] pay.out = "error" -> [why |-> "asking for data failed", snd |-> snd]
      [] snd.q = <<>> -> [why |-> IF pay.out = "none" THEN "" ELSE "a payload although nothing is queued", snd |-> snd]
      [] pay.out = "none" -> [why |-> "no payload although messages are queued", snd |-> snd]
      [] limit > 0 /\ Len(pay.b) > limit -> [why |-> "a payload larger than its limit", snd |-> snd]
      [] OTHER -> LET r == Frags(pay.b)
                  IN  IF r.rest # <<>> \/ r.fs = <<>> THEN [why |-> "a payload that is not a run of complete fragments", snd |-> snd]
                      ELSE TakeAll(env, snd, r.fs, pay)

----------------------------------------------------------------------------
(* Receiving: bytes in, completed messages (in the order of completion)     *)
(* and refused fragments out.                                               *)

NewReceiver == [buf |-> <<>>, part |-> {}]

\* one fragment: [part, done, bad]
Absorb(part, f) ==
    LET mine == {e \in part : e.oid = f.oid}
        e == IF mine = {} THEN [oid |-> f.oid, n |-> 0, data |-> <<>>] ELSE CHOOSE x \in mine : TRUE
        e2 == [e EXCEPT !.n = @ + 1, !.data = @ \o f.data]
    IN  IF f.fid # e.n THEN [part |-> part, done |-> <<>>, bad |-> 1]
        ELSE IF f.en THEN [part |-> part \ mine, done |-> << e2.data >>, bad |-> 0]
        ELSE [part |-> (part \ mine) \cup {e2}, done |-> <<>>, bad |-> 0]

RECURSIVE AbsorbAll(_, _)
AbsorbAll(part, fs) ==
    IF fs = <<>> THEN [part |-> part, done |-> <<>>, bad |-> 0]
    ELSE LET a == Absorb(part, Head(fs))
             b == AbsorbAll(a.part, Tail(fs))
         IN  [part |-> b.part, done |-> a.done \o b.done, bad |-> a.bad + b.bad]

\* bytes arrive: the messages they complete and the number of fragments to refuse
Receive(rcv, bytes) ==
    LET r == Frags(rcv.buf \o bytes)
        a == AbsorbAll(rcv.part, r.fs)
    IN  [rcv |-> [buf |-> r.rest, part |-> a.part], done |-> a.done, bad |-> a.bad]

Bom == <<239, 187, 191>>
\* a message as an application should see it: [type, rpid, pid, body]
Decode(b) == LET body == SubSeq(b, 41, Len(b)) IN
             [code |-> UnBE(<< b[8], b[7], b[6], b[5] >>), rpid |-> GuidLE(SubSeq(b, 9, 24)), pid |-> GuidLE(SubSeq(b, 25, 40)),
              body |-> IF Len(body) >= 3 /\ SubSeq(body, 1, 3) = Bom THEN SubSeq(body, 4, Len(body)) ELSE body]
=============================================================================
