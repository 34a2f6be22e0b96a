------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The PSRP session layer of psrpcore: one client runspace pool, one       *)
(* server runspace pool and the transport between them.                    *)
(*                                                                         *)
(* The specification is written as a deterministic step function           *)
(*     Step(w, op) = [w |-> next world, out |-> outcome, ...]              *)
(* where op is one public call made by the application on either side.     *)
(* The same operator is used                                               *)
(*   - by SessionMC.tla, where TLC picks every op in every state,          *)
(*     checks the properties and emits every transition for replay into    *)
(*     the real library, and                                               *)
(*   - by SessionTrace.tla, where the ops and observations recorded from   *)
(*     the real library are validated step by step.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Pipes            \* pipeline ids, a subset of 1..9 (0 is the pool)

\* host methods without a result: nobody waits for a response to them
VoidMi == (6..10) \cup (13..22) \cup {28, 30, 32, 34, 36, 38, 40, 42} \cup (47..49) \cup (51..53)
NoCi  == 0
Void  == -100

\* versions in order; what matters of one is whether it is at least 2.3
Vers == << "1.10", "2.0", "2.1", "2.2", "2.2.9", "2.3", "2.3.0.1", "2.4", "2.10", "3.0", "10.0" >>
Rank(v) == IF \E i \in DOMAIN Vers : Vers[i] = v THEN LET i == CHOOSE i \in DOMAIN Vers : Vers[i] = v IN IF i >= 6 THEN 3 ELSE IF i >= 4 THEN 2 ELSE 0
           ELSE 0     \* "none": the peer has not introduced itself

----------------------------------------------------------------------------
(* Messages: t type, p pipeline (0 = pool), ci call id, n/m numbers,       *)
(* x payload tag, str stream ("d" default, "p" prompt response), r pool id *)

Msg(t, p, ci, n, m, x, str, r) ==
    [t |-> t, p |-> p, ci |-> ci, n |-> n, m |-> m, x |-> x, str |-> str, r |-> r]

Put(pool, t, p, ci, n, m, x, str) ==
    [pool EXCEPT !.out = Append(@, Msg(t, p, ci, n, m, x, str, pool.rpid))]

PutP(pool, t)         == Put(pool, t, 0, NoCi, 0, 0, "", "d")

IsSecret(x) == x \in {"secret1", "secret2"}
\* what a transport can see of a message, and what an application sees of an event
OnWire(m)  == IF IsSecret(m.x) THEN [m EXCEPT !.x = "SS"] ELSE m
AsEvent(pool, m) == [m EXCEPT !.str = "", !.x = IF IsSecret(@) /\ ~pool.key THEN "locked" ELSE @]

NoPipe == [ex |-> FALSE, st |-> "NotStarted", tab |-> FALSE, meta |-> ""]

NewClient(rpid, ver, mn, mx, set) ==
    [st |-> "BeforeOpen", set |-> set, min |-> mn, max |-> mx, our |-> ver, their |-> "none",
     rpid |-> rpid, keyReq |-> FALSE, key |-> FALSE, exch |-> FALSE, ci |-> 1,
     pend |-> {}, calls |-> {}, pipes |-> [q \in Pipes |-> NoPipe],
     out |-> <<>>, inq |-> <<>>, apd |-> ""]

NewServer(ver, apd) ==
    [st |-> "BeforeOpen", set |-> "S0", min |-> 0, max |-> 0, our |-> ver, their |-> "none",
     rpid |-> "none", keyReq |-> FALSE, key |-> TRUE, exch |-> FALSE, ci |-> 1,
     pend |-> {}, calls |-> {}, pipes |-> [q \in Pipes |-> NoPipe],
     out |-> <<>>, inq |-> <<>>, apd |-> apd]

\* set names the settings the client asks for: application arguments, apartment
\* state, thread options and host details; "Ssec" has a secret among the arguments
InitWorld(cv, sv, mn, mx, set) ==
    [c |-> NewClient("A", cv, mn, mx, set), s |-> NewServer(sv, "apd")]

----------------------------------------------------------------------------
(* Results of a step.  evs are the results of the next_event calls made in *)
(* the step, pays the payloads handed to the transport by data_to_send.    *)

NoEv == Msg("", 0, 0, 0, 0, "", "", "")
Res(w, out)        == [w |-> w, out |-> out, n |-> 0, evs |-> <<>>, pays |-> <<>>]
Ok(w)              == Res(w, "ok")
OkN(w, n)          == [Res(w, "ok") EXCEPT !.n = n]
Fail(w, why)       == Res(w, why)

SetC(w, c) == [w EXCEPT !.c = c]
SetS(w, s) == [w EXCEPT !.s = s]

\* a server announces most of its state changes to the client
Silent == {"Disconnected", "Disconnecting", "Connecting"}
SState(s, st, err) ==
    LET s1 == [s EXCEPT !.st = st]
    IN  IF st \in Silent THEN s1
        ELSE Put(s1, "RunspacePoolState", 0, NoCi, err, 0, st, "d")
CState(c, st) == [c EXCEPT !.st = st]

AnyTab(pool) == \E q \in Pipes : pool.pipes[q].tab

----------------------------------------------------------------------------
(* Operations common to both pools.  k is "c" or "s".                      *)

Chg(w, k, st) == IF k = "c" THEN SetC(w, CState(w.c, st)) ELSE SetS(w, SState(w.s, st, 0))

PoolOf(w, k) == IF k = "c" THEN w.c ELSE w.s

BeginClose(w, k) == Ok(Chg(w, k, "Closing"))
Close(w, k) ==
    IF AnyTab(PoolOf(w, k)) THEN Fail(w, "psrp_error")
    ELSE IF PoolOf(w, k).st \notin {"Closed", "Closing", "Opened"} THEN Fail(w, "invalid_pool_state")
    ELSE Ok(Chg(w, k, "Closed"))
BeginDisconnect(w, k) == Ok(Chg(w, k, "Disconnecting"))
Disconnect(w, k) ==
    IF PoolOf(w, k).st \notin {"Opened", "Disconnecting", "Disconnected"} THEN Fail(w, "invalid_pool_state")
    ELSE Ok(Chg(w, k, "Disconnected"))
Reconnect(w, k) ==
    IF PoolOf(w, k).st \notin {"Disconnected", "Opened"} THEN Fail(w, "invalid_pool_state")
    ELSE Ok(Chg(w, k, "Opened"))

----------------------------------------------------------------------------
(* Client pool                                                             *)

COpen(w) ==
    LET c == w.c IN
    IF c.st = "Opened" THEN Ok(w)
    ELSE IF c.st # "BeforeOpen" THEN Fail(w, "invalid_pool_state")
    ELSE IF c.set = "Ssec" /\ ~c.key THEN Fail(w, "missing_cipher")
    ELSE LET c1 == Put(CState(c, "Opening"), "SessionCapability", 0, NoCi, 0, 0, c.our, "d")
         IN  Ok(SetC(w, Put(c1, "InitRunspacePool", 0, NoCi, c.min, c.max, c.set, "d")))

CConnect(w) ==
    LET c == w.c IN
    IF c.st = "Opened" THEN Ok(w)
    ELSE IF c.st \notin {"BeforeOpen", "Disconnected"} THEN Fail(w, "invalid_pool_state")
    ELSE LET c1 == Put(CState(c, "Connecting"), "SessionCapability", 0, NoCi, 0, 0, c.our, "d")
         IN  Ok(SetC(w, PutP(c1, "ConnectRunspacePool")))

\* a request that is answered with RUNSPACE_AVAILABILITY
Request(w, t, kind, val) ==
    LET c == w.c
        c1 == Put(c, t, 0, c.ci, val, 0, "", "d")
    IN  OkN(SetC(w, [c1 EXCEPT !.ci = @ + 1, !.pend = @ \cup {[ci |-> c.ci, k |-> kind, v |-> val]}]), c.ci)

CGetAvail(w) ==
    IF w.c.st # "Opened" THEN Fail(w, "invalid_pool_state")
    ELSE Request(w, "GetAvailableRunspaces", "none", 0)

CReset(w) ==
    IF Rank(w.c.their) < 3 THEN Fail(w, "protocol_version")
    ELSE IF w.c.st # "Opened" THEN Fail(w, "invalid_pool_state")
    ELSE Request(w, "ResetRunspaceState", "none", 0)

CSetMax(w, v) ==
    IF w.c.st = "BeforeOpen" \/ w.c.max = v THEN Ok(SetC(w, [w.c EXCEPT !.max = v]))
    ELSE Request(w, "SetMaxRunspaces", "max", v)

CSetMin(w, v) ==
    IF w.c.st = "BeforeOpen" \/ w.c.min = v THEN Ok(SetC(w, [w.c EXCEPT !.min = v]))
    ELSE Request(w, "SetMinRunspaces", "min", v)

\* result of exchange_key: [ok, c]
XKey(c) ==
    IF c.keyReq THEN [ok |-> TRUE, c |-> c]
    ELSE IF c.st # "Opened" THEN [ok |-> FALSE, c |-> c]
    ELSE [ok |-> TRUE, c |-> [PutP(c, "PublicKey") EXCEPT !.keyReq = TRUE, !.exch = TRUE]]
CExchange(w) == LET r == XKey(w.c) IN IF r.ok THEN Ok(SetC(w, r.c)) ELSE Fail(w, "invalid_pool_state")

CHostResp(w, ci, x) ==
    LET c == w.c IN
    IF c.st # "Opened" THEN Fail(w, "invalid_pool_state")
    ELSE IF ~ \E k \in c.calls : k.ci = ci THEN Fail(w, "error")
    ELSE IF IsSecret(x) /\ ~c.key THEN Fail(w, "missing_cipher")
    ELSE LET k  == CHOOSE k \in c.calls : k.ci = ci
             t  == IF k.p = 0 THEN "RunspacePoolHostResponse" ELSE "PipelineHostResponse"
             c1 == Put(c, t, k.p, ci, k.mi, 0, x, "p")
         IN  Ok(SetC(w, [c1 EXCEPT !.calls = @ \ {k}]))

----------------------------------------------------------------------------
(* Client pipelines                                                        *)

CPNew(w, q, x) == Ok(SetC(w, [w.c EXCEPT !.pipes[q] = [ex |-> TRUE, st |-> "NotStarted", tab |-> TRUE, meta |-> x]]))

CPStart(w, q) ==
    LET c == w.c IN
    IF c.pipes[q].st \notin {"NotStarted", "Stopped", "Completed"} THEN Fail(w, "invalid_pipeline_state")
    ELSE IF c.pipes[q].meta = "secarg" /\ ~c.key THEN Fail(w, "missing_cipher")   \* a secret among its arguments
    ELSE LET t == IF c.pipes[q].meta = "gcm" THEN "GetCommandMetadata" ELSE "CreatePipeline"
         IN  Ok(SetC(w, [Put(c, t, q, NoCi, 0, 0, c.pipes[q].meta, "d") EXCEPT !.pipes[q].st = "Running"]))

CPSend(w, q, x) ==
    IF w.c.pipes[q].st # "Running" THEN Fail(w, "invalid_pipeline_state")
    ELSE IF IsSecret(x) /\ ~w.c.key THEN Fail(w, "missing_cipher")
    ELSE Ok(SetC(w, Put(w.c, "PipelineInput", q, NoCi, 0, 0, x, "d")))

CPEof(w, q) ==
    IF w.c.pipes[q].st # "Running" THEN Fail(w, "invalid_pipeline_state")
    ELSE Ok(SetC(w, Put(w.c, "EndOfPipelineInput", q, NoCi, 0, 0, "", "d")))

CPHostResp(w, q, ci, x) ==
    IF w.c.pipes[q].st # "Running" THEN Fail(w, "invalid_pipeline_state")
    ELSE CHostResp(w, ci, x)

CPBeginStop(w, q) ==
    IF w.c.pipes[q].st \notin {"Running", "Stopping"} THEN Fail(w, "invalid_pipeline_state")
    ELSE Ok(SetC(w, [w.c EXCEPT !.pipes[q].st = "Stopping"]))

Closable == {"NotStarted", "Stopped", "Stopping", "Completed", "Failed"}
PClose(w, k, q) ==
    IF PoolOf(w, k).pipes[q].st \notin Closable THEN Fail(w, "invalid_pipeline_state")
    ELSE Ok(IF k = "c" THEN SetC(w, [w.c EXCEPT !.pipes[q].tab = FALSE])
                       ELSE SetS(w, [w.s EXCEPT !.pipes[q].tab = FALSE]))

----------------------------------------------------------------------------
(* Server pool                                                             *)

SConnect(w) ==
    LET s == w.s IN
    IF s.st = "Opened" THEN Ok(w)
    ELSE IF s.st # "Disconnected" THEN Fail(w, "invalid_pool_state")
    ELSE Ok(SetS(w, SState([s EXCEPT !.ci = 1], "Connecting", 0)))

SBroken(w) ==
    IF w.s.st \notin {"Broken", "Opened"} THEN Fail(w, "invalid_pool_state")
    ELSE Ok(SetS(w, SState(w.s, "Broken", 1)))

SHostCall(w, q, mi, x) ==
    LET s == w.s IN
    IF s.st # "Opened" THEN Fail(w, "invalid_pool_state")
    ELSE LET ci == IF mi \in VoidMi THEN Void ELSE s.ci
             t  == IF q = 0 THEN "RunspacePoolHostCall" ELSE "PipelineHostCall"
             s1 == Put(s, t, q, ci, mi, 0, x, "p")
         IN  OkN(SetS(w, [s1 EXCEPT !.ci = IF mi \in VoidMi THEN @ ELSE @ + 1]), ci)

SRequestKey(w) ==
    IF w.s.keyReq THEN Ok(w)
    ELSE IF w.s.st # "Opened" THEN Fail(w, "invalid_pool_state")
    ELSE Ok(SetS(w, [PutP(w.s, "PublicKeyRequest") EXCEPT !.keyReq = TRUE]))

SEvent(w, n, x) ==
    IF w.s.st # "Opened" THEN Fail(w, "invalid_pool_state")
    ELSE Ok(SetS(w, Put(w.s, "UserEvent", 0, NoCi, n, 0, x, "d")))

\* x is "bool" or "int" or "str", v the value (0/1 for bool)
SAvailResp(w, ci, x, v) ==
    LET s == w.s IN
    IF ~ \E e \in s.pend : e.ci = ci THEN Fail(w, "psrp_error")
    ELSE LET e  == CHOOSE e \in s.pend : e.ci = ci
             bad == (e.k \in {"max", "min", "reset"} /\ x # "bool") \/ (e.k = "get" /\ x # "int")
             s1 == [s EXCEPT !.pend = @ \ {e},
                             !.max = IF e.k = "max" /\ x = "bool" /\ v = 1 THEN e.v ELSE @,
                             !.min = IF e.k = "min" /\ x = "bool" /\ v = 1 THEN e.v ELSE @]
         IN  IF bad THEN Fail(w, "psrp_error")
             ELSE Ok(SetS(w, Put(s1, "RunspaceAvailability", 0, ci, v, 0, x, "d")))

----------------------------------------------------------------------------
(* Server pipelines                                                        *)

SPNew(w, q) == Ok(SetS(w, [w.s EXCEPT !.pipes[q] = [ex |-> TRUE, st |-> "NotStarted", tab |-> TRUE, meta |-> ""]]))

SPState(s, q, st, err) == [Put(s, "PipelineState", q, NoCi, err, 0, st, "d") EXCEPT !.pipes[q].st = st]

SPStart(w, q) ==
    IF w.s.pipes[q].st \notin {"NotStarted", "Stopped", "Completed"} THEN Fail(w, "invalid_pipeline_state")
    ELSE Ok(SetS(w, SPState(w.s, q, "Running", 0)))
SPComplete(w, q) == Ok(SetS(w, SPState(w.s, q, "Completed", 0)))
SPBeginStop(w, q) ==
    IF w.s.pipes[q].st \notin {"Running", "Stopping"} THEN Fail(w, "invalid_pipeline_state")
    ELSE Ok(SetS(w, SPState(w.s, q, "Stopping", 0)))
SPStop(w, q) ==
    IF w.s.pipes[q].st = "Stopped" THEN Ok(w)
    ELSE IF w.s.pipes[q].st \notin {"Running", "Stopping"} THEN Fail(w, "invalid_pipeline_state")
    ELSE Ok(SetS(w, SPState(w.s, q, "Stopped", 1)))

Streams == {"PipelineOutput", "ErrorRecord", "DebugRecord", "VerboseRecord", "WarningRecord",
            "ProgressRecord", "InformationRecord"}
SPWrite(w, q, t, x) ==
    IF t = "InformationRecord" /\ Rank(w.s.their) < 3 THEN Fail(w, "protocol_version")
    ELSE IF w.s.pipes[q].st # "Running" THEN Fail(w, "invalid_pipeline_state")
    ELSE Ok(SetS(w, Put(w.s, t, q, NoCi, 0, 0, x, "d")))
SPHostCall(w, q, mi, x) ==
    IF w.s.pipes[q].st # "Running" THEN Fail(w, "invalid_pipeline_state")
    ELSE SHostCall(w, q, mi, x)

----------------------------------------------------------------------------
(* Transport: data_to_send() of one side handed to receive_data() of the   *)
(* other.  A payload never mixes targets or streams.                       *)

RECURSIVE Run(_, _, _)
Run(q, i, m) == IF i > Len(q) THEN i - 1
                ELSE IF q[i].p = m.p /\ q[i].str = m.str THEN Run(q, i + 1, m) ELSE i - 1

Payload(q) == IF q = <<>> THEN <<>> ELSE SubSeq(q, 1, Run(q, 1, q[1]))
Rest(q)    == SubSeq(q, Len(Payload(q)) + 1, Len(q))

\* drop: the transport loses the payload (used when a side is disconnected)
Xfer(w, k, drop) ==
    LET src == PoolOf(w, k)
        pay == Payload(src.out)
        w1  == IF k = "c" THEN [w EXCEPT !.c.out = Rest(@)] ELSE [w EXCEPT !.s.out = Rest(@)]
        w2  == IF pay = <<>> \/ drop THEN w1
               ELSE IF k = "c" THEN [w1 EXCEPT !.s.inq = @ \o pay,
                                               !.s.st = IF @ = "BeforeOpen" THEN "Opening" ELSE @]
               ELSE [w1 EXCEPT !.c.inq = @ \o pay]
    IN  [Ok(w2) EXCEPT !.pays = IF pay = <<>> THEN <<>> ELSE << [i \in DOMAIN pay |-> OnWire(pay[i])] >>]

----------------------------------------------------------------------------
(* Processing one received message                                         *)

Consume(w, k) == IF k = "c" THEN [w EXCEPT !.c.inq = Tail(@)] ELSE [w EXCEPT !.s.inq = Tail(@)]
EvOk(w, m)    == [Ok(w) EXCEPT !.evs = << [o |-> "ok", m |-> m] >>]
EvBad(w, why) == [Fail(w, why) EXCEPT !.evs = << [o |-> why, m |-> NoEv] >>]

AddPend(pend, e) == {d \in pend : d.ci # e.ci} \cup {e}

\* the client processes message m (already consumed in w)
CProc(w, m) ==
    LET c == w.c IN
    CASE m.t = "SessionCapability" -> EvOk(SetC(w, [c EXCEPT !.their = m.x]), m)
      [] m.t = "ApplicationPrivateData" ->
            EvOk(SetC(w, [c EXCEPT !.apd = m.x, !.st = IF @ = "Connecting" THEN "Opened" ELSE @]), m)
      [] m.t = "RunspacePoolInitData" -> EvOk(SetC(w, [c EXCEPT !.min = m.n, !.max = m.m]), m)
      [] m.t = "RunspacePoolState" -> EvOk(SetC(w, CState(c, m.x)), m)
      [] m.t = "RunspaceAvailability" ->
            IF ~ \E e \in c.pend : e.ci = m.ci THEN EvBad(w, "error")
            ELSE LET e == CHOOSE e \in c.pend : e.ci = m.ci
                     good == m.x = "bool" /\ m.n = 1
                 IN  IF e.k # "none" /\ m.x # "bool" THEN EvBad(SetC(w, [c EXCEPT !.pend = @ \ {e}]), "error")
                     ELSE EvOk(SetC(w, [c EXCEPT !.pend = @ \ {e},
                              !.max = IF e.k = "max" /\ good THEN e.v ELSE @,
                              !.min = IF e.k = "min" /\ good THEN e.v ELSE @]), m)
      [] m.t \in {"RunspacePoolHostCall", "PipelineHostCall"} ->
            EvOk(IF m.ci = Void THEN w
                 ELSE SetC(w, [c EXCEPT !.calls = AddPend(@, [ci |-> m.ci, mi |-> m.n, p |-> m.p])]), m)
      [] m.t = "PublicKeyRequest" ->
            LET r == XKey(c) IN IF r.ok THEN EvOk(SetC(w, r.c), m) ELSE EvBad(w, "invalid_pool_state")
      [] m.t = "EncryptedSessionKey" ->
            IF ~c.exch THEN EvBad(w, "error") ELSE EvOk(SetC(w, [c EXCEPT !.key = TRUE]), m)
      [] m.t = "PipelineState" ->
            EvOk(IF m.p \in Pipes /\ c.pipes[m.p].tab THEN SetC(w, [c EXCEPT !.pipes[m.p].st = m.x]) ELSE w, m)
      [] OTHER -> EvOk(w, m)          \* stream records and user events carry no session state

SProc(w, m) ==
    LET s == w.s IN
    CASE m.t = "SessionCapability" ->
            LET s1 == [s EXCEPT !.their = m.x] IN
            IF s.st = "Connecting" THEN
                IF s.rpid # m.r THEN EvBad(w, "psrp_error") ELSE EvOk(SetS(w, s1), m)
            ELSE LET s2 == Put(s1, "SessionCapability", 0, NoCi, 0, 0, s.our, "d")
                 IN  EvOk(SetS(w, [s2 EXCEPT !.rpid = m.r]), m)
      [] m.t = "InitRunspacePool" ->
            LET s1 == Put([s EXCEPT !.min = m.n, !.max = m.m, !.set = m.x], "ApplicationPrivateData", 0, NoCi, 0, 0, s.apd, "d")
            IN  EvOk(SetS(w, SState(s1, "Opened", 0)), m)
      [] m.t = "ConnectRunspacePool" ->
            \* the client may ask for other limits
            LET s0 == [s EXCEPT !.min = IF m.n = 0 THEN @ ELSE m.n, !.max = IF m.m = 0 THEN @ ELSE m.m]
                s1 == Put(s0, "RunspacePoolInitData", 0, NoCi, s0.min, s0.max, "", "d")
                s2 == Put(s1, "ApplicationPrivateData", 0, NoCi, 0, 0, s.apd, "d")
            IN  IF s.rpid # m.r THEN EvBad(w, "psrp_error") ELSE EvOk(SetS(w, SState(s2, "Opened", 0)), m)
      [] m.t \in {"CreatePipeline", "GetCommandMetadata"} ->
            IF m.p \in Pipes /\ s.pipes[m.p].tab THEN EvOk(SetS(w, [s EXCEPT !.pipes[m.p].meta = m.x]), m)
            ELSE EvBad(w, "psrp_error")
      [] m.t = "GetAvailableRunspaces" -> EvOk(SetS(w, [s EXCEPT !.pend = AddPend(@, [ci |-> m.ci, k |-> "get", v |-> 0])]), m)
      [] m.t = "ResetRunspaceState" -> EvOk(SetS(w, [s EXCEPT !.pend = AddPend(@, [ci |-> m.ci, k |-> "reset", v |-> 0])]), m)
      [] m.t = "SetMaxRunspaces" -> EvOk(SetS(w, [s EXCEPT !.pend = AddPend(@, [ci |-> m.ci, k |-> "max", v |-> m.n])]), m)
      [] m.t = "SetMinRunspaces" -> EvOk(SetS(w, [s EXCEPT !.pend = AddPend(@, [ci |-> m.ci, k |-> "min", v |-> m.n])]), m)
      [] m.t = "PublicKey" -> EvOk(SetS(w, [PutP(s, "EncryptedSessionKey") EXCEPT !.keyReq = TRUE]), m)
      [] OTHER -> EvOk(w, m)          \* pipeline input and host responses carry no session state

NextEvent(w, k) ==
    LET q == PoolOf(w, k).inq
        r == IF k = "c" THEN CProc(Consume(w, k), Head(q)) ELSE SProc(Consume(w, k), Head(q))
        shown(e) == IF e.o = "ok" THEN [e EXCEPT !.m = AsEvent(PoolOf(w, k), @)] ELSE e
    IN  IF q = <<>> THEN Ok(w) ELSE [r EXCEPT !.evs = [i \in DOMAIN @ |-> shown(@[i])]]

\* everything queued by side k is delivered and the other side handles it all
Other(k) == IF k = "c" THEN "s" ELSE "c"
RECURSIVE FlushX(_, _), FlushE(_, _)
Cat(r, r2) == [r2 EXCEPT !.evs = r.evs \o @, !.pays = r.pays \o @]
FlushX(r, k) == IF PoolOf(r.w, k).out = <<>> THEN r ELSE FlushX(Cat(r, Xfer(r.w, k, FALSE)), k)
FlushE(r, k) == IF PoolOf(r.w, k).inq = <<>> THEN r ELSE FlushE(Cat(r, NextEvent(r.w, k)), k)
Flush(w, k)  == [FlushE(FlushX(Ok(w), k), Other(k)) EXCEPT !.out = "ok", !.n = 0]

----------------------------------------------------------------------------
(* A new client object takes over (connect from another process)           *)
NewC(w, rpid) == Ok(SetC(w, NewClient(rpid, w.c.our, 1, 1, "S0")))

\* A peer that is not psrpcore says m next
Inject(w, k, m) == IF k = "c" THEN Ok([w EXCEPT !.c.inq = Append(@, m)]) ELSE Ok([w EXCEPT !.s.inq = Append(@, m), !.s.st = IF @ = "BeforeOpen" THEN "Opening" ELSE @])

Step(w, op) ==
    CASE op.o = "c.new"              -> NewC(w, op.x)
      [] op.o = "c.open"             -> COpen(w)
      [] op.o = "c.connect"          -> CConnect(w)
      [] op.o = "c.begin_close"      -> BeginClose(w, "c")
      [] op.o = "c.close"            -> Close(w, "c")
      [] op.o = "c.begin_disconnect" -> BeginDisconnect(w, "c")
      [] op.o = "c.disconnect"       -> Disconnect(w, "c")
      [] op.o = "c.reconnect"        -> Reconnect(w, "c")
      [] op.o = "c.get_avail"        -> CGetAvail(w)
      [] op.o = "c.reset"            -> CReset(w)
      [] op.o = "c.set_max"          -> CSetMax(w, op.n)
      [] op.o = "c.set_min"          -> CSetMin(w, op.n)
      [] op.o = "c.exchange_key"     -> CExchange(w)
      [] op.o = "c.host_response"    -> CHostResp(w, op.ci, op.x)
      [] op.o = "cp.new"             -> CPNew(w, op.p, op.x)
      [] op.o = "cp.start"           -> CPStart(w, op.p)
      [] op.o = "cp.send"            -> CPSend(w, op.p, op.x)
      [] op.o = "cp.eof"             -> CPEof(w, op.p)
      [] op.o = "cp.host_response"   -> CPHostResp(w, op.p, op.ci, op.x)
      [] op.o = "cp.begin_stop"      -> CPBeginStop(w, op.p)
      [] op.o = "cp.close"           -> PClose(w, "c", op.p)
      [] op.o = "s.connect"          -> SConnect(w)
      [] op.o = "s.begin_close"      -> BeginClose(w, "s")
      [] op.o = "s.close"            -> Close(w, "s")
      [] op.o = "s.begin_disconnect" -> BeginDisconnect(w, "s")
      [] op.o = "s.disconnect"       -> Disconnect(w, "s")
      [] op.o = "s.reconnect"        -> Reconnect(w, "s")
      [] op.o = "s.set_broken"       -> SBroken(w)
      [] op.o = "s.host_call"        -> SHostCall(w, 0, op.n, op.x)
      [] op.o = "s.request_key"      -> SRequestKey(w)
      [] op.o = "s.send_event"       -> SEvent(w, op.n, op.x)
      [] op.o = "s.avail_resp"       -> SAvailResp(w, op.ci, op.x, op.n)
      [] op.o = "sp.new"             -> SPNew(w, op.p)
      [] op.o = "sp.start"           -> SPStart(w, op.p)
      [] op.o = "sp.complete"        -> SPComplete(w, op.p)
      [] op.o = "sp.begin_stop"      -> SPBeginStop(w, op.p)
      [] op.o = "sp.stop"            -> SPStop(w, op.p)
      [] op.o = "sp.close"           -> PClose(w, "s", op.p)
      [] op.o = "sp.write"           -> SPWrite(w, op.p, op.t, op.x)
      [] op.o = "sp.host_call"       -> SPHostCall(w, op.p, op.n, op.x)
      [] op.o = "c.xfer"             -> Xfer(w, "c", FALSE)
      [] op.o = "s.xfer"             -> Xfer(w, "s", FALSE)
      [] op.o = "s.drop"             -> Xfer(w, "s", TRUE)
      [] op.o = "c.drop"             -> Xfer(w, "c", TRUE)
      [] op.o = "c.inject"           -> Inject(w, "c", Msg(op.t, op.p, op.ci, op.n, op.m, op.x, "d", w.c.rpid))
      [] op.o = "s.inject"           -> Inject(w, "s", Msg(op.t, op.p, op.ci, op.n, op.m, op.x, "d", op.r))
      [] op.o = "c.flush"            -> Flush(w, "c")
      [] op.o = "s.flush"            -> Flush(w, "s")
      [] op.o = "c.next"             -> NextEvent(w, "c")
      [] op.o = "s.next"             -> NextEvent(w, "s")

Op(o, p, ci, n, t, x) == [o |-> o, p |-> p, ci |-> ci, n |-> n, t |-> t, x |-> x, m |-> 0, r |-> ""]

----------------------------------------------------------------------------
(* What an application can see of a pool through the public API            *)
View(pool) ==
    [st |-> pool.st, min |-> pool.min, max |-> pool.max, their |-> pool.their, rpid |-> pool.rpid,
     set |-> pool.set, apd |-> pool.apd,
     pipes |-> [q \in 1..Cardinality(Pipes) |-> pool.pipes[q]]]

Obs(r) == [out |-> r.out, n |-> r.n, evs |-> r.evs, pays |-> r.pays, c |-> View(r.w.c), s |-> View(r.w.s)]
=============================================================================
