----------------------------- MODULE WireDesign -----------------------------
(* The design: any packer within the rules of Wire, any chunking of the     *)
(* bytes, and a receiver, composed.  Checked exhaustively for small         *)
(* messages: what comes out is what was queued, in order, once.             *)
EXTENDS Wire, TLC

CONSTANTS MaxMsgs, MaxChunk

VARIABLES snd, sent, chan, rcv, got, bad

Env == [dest |-> 1, rpid |-> [i \in 1..16 |-> i], pids |-> << [i \in 1..16 |-> 100 + i] >>]
Body(n) == [i \in 1..n |-> 65 + n]
\* for the model a message is its header cut down to two bytes and a body of n bytes
Mini(m) == << 7, m.p >> \o Body(m.n)
MaxLen == 5

vars == << snd, sent, chan, rcv, got, bad >>
\* snd: [q: messages, pos: bytes of the head already sent, fid, oid]
Init == /\ snd = [q |-> <<>>, pos |-> 0, fid |-> 0, oid |-> 1]
        /\ sent = <<>> /\ chan = <<>> /\ rcv = NewReceiver /\ got = <<>> /\ bad = 0

Queue(m) == /\ Len(sent) < MaxMsgs
            /\ snd' = [snd EXCEPT !.q = Append(@, m)]
            /\ sent' = Append(sent, Mini(m))
            /\ UNCHANGED << chan, rcv, got, bad >>

\* send the next n bytes of the head message in a fragment
Put(n) == /\ snd.q # <<>>
          /\ LET b == Mini(Head(snd.q))
                 left == Len(b) - snd.pos
                 en == n = left
                 f == [oid |-> BE(snd.oid, 8), fid |-> snd.fid, st |-> snd.fid = 0, en |-> en, data |-> SubSeq(b, snd.pos + 1, snd.pos + n)]
             IN  /\ n <= left
                 /\ chan' = chan \o FragBytes(f)
                 /\ snd' = IF en THEN [q |-> Tail(snd.q), pos |-> 0, fid |-> 0, oid |-> snd.oid + 1]
                           ELSE [snd EXCEPT !.pos = @ + n, !.fid = @ + 1]
          /\ UNCHANGED << sent, rcv, got, bad >>

Deliver(n) == /\ Len(chan) >= n
              /\ LET r == Receive(rcv, SubSeq(chan, 1, n)) IN
                 /\ rcv' = r.rcv /\ got' = got \o r.done /\ bad' = bad + r.bad
              /\ chan' = SubSeq(chan, n + 1, Len(chan))
              /\ UNCHANGED << snd, sent >>

Next == \/ \E p \in {0, 1}, n \in {0, 1, 3} : Queue([p |-> p, n |-> n])
        \/ \E n \in {1, 2, MaxLen} : Put(n)
        \/ \E n \in {1, 20, 21, 22, 23, 40} : n <= MaxChunk /\ Deliver(n)

Spec == Init /\ [][Next]_vars

Bound == Len(chan) <= 50
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
ExactlyOnce == IsPrefix(got, sent) /\ bad = 0
Complete == (snd.q = <<>> /\ chan = <<>>) => (got = sent /\ rcv = NewReceiver)
=============================================================================
