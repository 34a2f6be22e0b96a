----------------------------- MODULE SessionFam -----------------------------
(* The situations and operation alphabets explored by SessionMC.           *)
EXTENDS Session

O(o)            == Op(o, 0, 0, 0, "", "")
On(o, n)        == Op(o, 0, 0, n, "", "")
Ox(o, x)        == Op(o, 0, 0, 0, "", x)
Onx(o, n, x)    == Op(o, 0, 0, n, "", x)
P(o, q)         == Op(o, q, 0, 0, "", "")
Px(o, q, x)     == Op(o, q, 0, 0, "", x)
W(q, t, x)      == Op("sp.write", q, 0, 0, t, x)
HC(q, n, x)     == Op("sp.host_call", q, 0, n, "", x)
AR(ci, x, n)    == Op("s.avail_resp", 0, ci, n, "", x)
HR(ci, x)       == Op("c.host_response", 0, ci, 0, "", x)
PHR(q, ci, x)   == Op("cp.host_response", q, ci, 0, "", x)

Inj(o, t, p, ci, n, m, x) == [o |-> o, p |-> p, ci |-> ci, n |-> n, t |-> t, x |-> x, m |-> m, r |-> ""]
InjS(t, n, m, x, r) == [o |-> "s.inject", p |-> 0, ci |-> 0, n |-> n, t |-> t, x |-> x, m |-> m, r |-> r]
PipeStates == << "NotStarted", "Running", "Stopping", "Stopped", "Completed", "Failed", "Disconnected" >>
PoolStates == << "BeforeOpen", "Opening", "Opened", "Closed", "Closing", "Broken", "Disconnecting", "Disconnected", "Connecting" >>

\* "~" stands for suitable parameters of the method
HX(i) == IF i \in {1, 11, 12, 16, 18, 22, 41, 42} THEN "hx" ELSE "~"

Wire   == << O("c.xfer"), O("s.xfer"), O("c.next"), O("s.next") >>
Flushes == << O("c.flush"), O("s.flush") >>
Opened == << O("c.open"), O("c.flush"), O("s.flush") >>
RunP(q, x) == << Px("cp.new", q, x), P("cp.start", q), P("sp.new", q), O("c.flush"), P("sp.start", q), O("s.flush") >>

PoolOps == << O("c.open"), O("c.connect"), O("c.begin_close"), O("c.close"), O("c.begin_disconnect"), O("c.disconnect"),
              O("c.reconnect"), O("s.connect"), O("s.begin_close"), O("s.close"), O("s.begin_disconnect"),
              O("s.disconnect"), O("s.reconnect"), O("s.set_broken") >>
PoolUse == << O("c.get_avail"), O("c.reset"), On("c.set_max", 2), On("c.set_min", 2), O("c.exchange_key"),
              HR(1, "a"), Onx("s.send_event", 7, "src"), O("s.request_key"), Onx("s.host_call", 11, ""),
              AR(1, "bool", 1) >>
PipeC(q) == << P("cp.start", q), Px("cp.send", q, "in"), P("cp.eof", q), P("cp.begin_stop", q), P("cp.close", q) >>
PipeS(q) == << P("sp.start", q), P("sp.complete", q), P("sp.begin_stop", q), P("sp.stop", q), P("sp.close", q),
               W(q, "PipelineOutput", "o") >>
Writes(q) == << W(q, "PipelineOutput", "o1"), W(q, "ErrorRecord", "e1"), W(q, "DebugRecord", "d1"), W(q, "VerboseRecord", "v1"),
                W(q, "WarningRecord", "w1"), W(q, "ProgressRecord", "p1"), W(q, "InformationRecord", "i1") >>

OtherVers == {"ver2210_23", "ver23_2301", "ver229_30", "ver110_100", "ver2301_210", "ver24_110", "ver100_24"}
Falsy == << "=0", "=false", "=empty", "=list", "=dict" >>

FamOps(f) ==
    CASE f = "open_fine" -> Wire \o << O("c.open"), O("c.connect"), O("c.begin_close"), O("c.close"), O("s.close"),
                                       O("s.set_broken"), O("c.get_avail"), On("c.set_max", 3), On("c.set_min", 2),
                                       Onx("s.send_event", 7, "src"), O("c.disconnect") >>
      [] f = "life"      -> Flushes \o PoolOps \o PoolUse
      [] f = "closing"   -> Wire \o << O("c.begin_close"), O("c.close"), O("s.begin_close"), O("s.close"), O("s.set_broken"),
                                       O("c.get_avail"), Onx("s.send_event", 7, "src") >>
      [] f = "counts"    -> Wire \o << On("c.set_max", 2), On("c.set_max", 3), On("c.set_min", 2), O("c.get_avail"), O("c.reset"),
                              AR(1, "bool", 1), AR(1, "bool", 0), AR(1, "int", 4), AR(1, "int", 1), AR(1, "int", 0), AR(1, "str", 0),
                              AR(2, "bool", 1), AR(2, "bool", 0), AR(2, "int", 4) >>
      [] f = "counts2"   -> Flushes \o << On("c.set_max", 2), On("c.set_max", 3), On("c.set_min", 2), On("c.set_min", 1),
                              O("c.get_avail"),
                              AR(1, "bool", 1), AR(1, "bool", 0), AR(1, "int", 4), AR(2, "bool", 1), AR(2, "bool", 0),
                              AR(3, "bool", 1), AR(3, "int", 4) >>
      [] f = "pipe1"     -> Flushes \o << Px("cp.new", 1, "script1"), P("sp.new", 1) >> \o PipeC(1) \o PipeS(1)
                              \o << O("c.close"), O("s.close"), HC(1, 11, ""), PHR(1, 1, "a") >>
      [] f = "pipe1_fine" -> Wire \o PipeC(1) \o PipeS(1)
      [] f = "gcm"       -> Flushes \o << Px("cp.new", 1, "gcm"), P("sp.new", 1) >> \o PipeC(1) \o PipeS(1)
      [] f = "pipe2"     -> Wire \o << Px("cp.send", 1, "in1"), Px("cp.send", 2, "in2"), P("cp.eof", 1), P("cp.begin_stop", 2),
                              P("sp.stop", 2), P("sp.complete", 1), W(1, "PipelineOutput", "o1"), W(2, "PipelineOutput", "o2"),
                              W(2, "ErrorRecord", "e2"), HC(1, 11, ""), P("cp.close", 2), P("sp.close", 2) >>
      [] f = "pipe2_life" -> Flushes \o PipeC(1) \o PipeS(1) \o PipeC(2) \o PipeS(2)
      [] f = "writes"    -> << O("s.xfer"), O("c.next"), P("sp.complete", 1), P("sp.stop", 1), HC(1, 16, "hx"), HC(1, 11, "") >> \o Writes(1)
      [] f = "host"      -> Wire \o << Onx("s.host_call", 11, ""), Onx("s.host_call", 16, "hx"), Onx("s.host_call", 1, ""),
                              HC(1, 11, ""), HC(1, 16, "hy"),
                              HR(1, "a"), HR(2, "b"), HR(2, "!err"), PHR(1, 1, "c"), PHR(1, 2, ""), PHR(1, 2, "d") >>
      [] f = "host2"     -> Flushes \o << Onx("s.host_call", 11, ""), HC(1, 11, ""), HC(2, 41, ""), HC(2, 22, "hz"),
                              HR(1, "a"), HR(2, "!err"), PHR(1, 1, "c"), PHR(1, 2, ""), PHR(2, 2, "d"), PHR(2, 3, "e"), HR(3, "f"),
                              P("sp.complete", 1), P("sp.stop", 2) >>
      [] f = "key"       -> Wire \o << O("c.exchange_key"), O("s.request_key"), Px("cp.send", 1, "secret1"), Px("cp.send", 1, "plain"),
                              W(1, "PipelineOutput", "secret2"), HC(1, 12, ""), PHR(1, 1, "secret1") >>
      [] f = "key_states" -> Flushes \o << O("c.exchange_key"), O("s.request_key"), O("c.open"), O("c.disconnect"), O("c.reconnect"),
                              O("s.disconnect"), O("s.reconnect"), O("c.begin_close"), Onx("s.host_call", 12, ""), HR(1, "secret1") >>
      [] f = "disc"      -> Flushes \o << O("c.begin_disconnect"), O("c.disconnect"), O("c.reconnect"), O("c.connect"), O("s.begin_disconnect"),
                              O("s.disconnect"), O("s.reconnect"), O("s.connect"), Ox("c.new", "A"), Ox("c.new", "B"), O("s.drop"), O("c.open") >>
      [] f = "disc_fine" -> Wire \o << O("c.connect"), O("s.connect"), Ox("c.new", "A"), Ox("c.new", "B"), O("c.reconnect"), O("s.reconnect"),
                              O("s.drop"), O("c.get_avail"), On("c.set_max", 5), Onx("s.send_event", 7, "src") >>
      [] f = "disc_pipe" -> Flushes \o << O("c.disconnect"), O("c.reconnect"), O("s.disconnect"), O("s.reconnect"), O("s.connect"),
                              Px("cp.send", 1, "in"), W(1, "PipelineOutput", "o"), P("sp.complete", 1), P("cp.close", 1), P("sp.close", 1),
                              O("c.close"), O("s.close"), Ox("c.new", "A"), O("c.connect") >>
      [] f \in {"ver20_23", "ver21_23", "ver22_23", "ver23_23", "ver23_20", "ver23_21", "ver23_22", "ver22_22"} \cup OtherVers ->
             Flushes \o << O("c.open"), O("c.reset"), O("c.get_avail"), AR(1, "bool", 1), Px("cp.new", 1, "script1"), P("cp.start", 1), P("sp.new", 1), P("sp.start", 1),
                           W(1, "InformationRecord", "i1"), W(1, "PipelineOutput", "o1") >>
      [] f \in {"set_1", "set_2", "set_3", "set_sec"} -> Wire \o << O("c.open"), On("c.set_max", 3), On("c.set_min", 2), O("c.close"), O("s.close") >>
      [] f = "host_all" -> << O("s.flush"), O("c.flush") >> \o [i \in 1..56 |-> Onx("s.host_call", i, HX(i))] \o [i \in 1..56 |-> HC(1, i, HX(i))]
                              \o << HR(1, "a"), HR(1, "!err"), PHR(1, 1, "b"), HR(1, ""), HR(2, "a"), HR(-100, "a") >>
      [] f = "key_arg"   -> Flushes \o << O("c.exchange_key"), O("s.request_key"), Px("cp.new", 1, "secarg"), P("cp.start", 1), P("sp.new", 1), P("sp.start", 1),
                              P("cp.close", 1), P("sp.complete", 1), Px("cp.send", 1, "secret2") >>
      [] f = "inj_pipe"  -> << O("c.next"), P("cp.start", 1), Px("cp.send", 1, "in"), P("cp.eof", 1), P("cp.begin_stop", 1), P("cp.close", 1), P("cp.close", 2), O("c.close") >>
                              \o [i \in 1..7 |-> Inj("c.inject", "PipelineState", 1, 0, 0, 0, PipeStates[i])]
                              \o [i \in 1..2 |-> Inj("c.inject", "PipelineState", 2, 0, 1, 0, PipeStates[i + 3])]
      [] f = "inj_pool"  -> << O("c.next"), O("c.open"), O("c.connect"), O("c.close"), O("c.disconnect"), O("c.reconnect"), O("c.get_avail"), O("c.exchange_key"),
                               Px("cp.send", 1, "in") >>
                              \o [i \in 1..9 |-> Inj("c.inject", "RunspacePoolState", 0, 0, 0, 0, PoolStates[i])]
                              \o << Inj("c.inject", "RunspacePoolState", 0, 0, 1, 0, "Broken"), Inj("c.inject", "RunspacePoolInitData", 0, 0, 3, 7, ""),
                                    Inj("c.inject", "ApplicationPrivateData", 0, 0, 0, 0, "apd") >>
      [] f = "inj_conn"  -> << O("s.next"), O("s.flush"), O("c.next"), O("s.connect"), O("s.disconnect"), O("s.reconnect"),
                               InjS("SessionCapability", 0, 0, "2.3", "A"), InjS("SessionCapability", 0, 0, "2.2", "B"),
                               InjS("ConnectRunspacePool", 0, 0, "", "A"), InjS("ConnectRunspacePool", 0, 0, "", "B"),
                               InjS("ConnectRunspacePool", 2, 5, "", "A"), InjS("ConnectRunspacePool", 0, 6, "", "A"), InjS("ConnectRunspacePool", 3, 0, "", "A") >>
      \* several requests in flight, answered in every order
      [] f = "counts3"   -> << O("s.flush"), AR(1, "bool", 1), AR(1, "bool", 0), AR(2, "bool", 1), AR(2, "bool", 0), AR(3, "bool", 1),
                               AR(4, "int", 4), AR(4, "bool", 1), AR(5, "bool", 1), AR(5, "int", 1), AR(6, "bool", 1), On("c.set_max", 4) >>
      [] f = "host3"     -> << O("c.flush"), HR(1, "a"), HR(2, "b"), PHR(1, 2, "c"), PHR(2, 3, ""), HR(4, "d"), PHR(1, 3, "!err"), HR(5, "e"),
                               P("sp.complete", 1), O("s.flush"), Onx("s.host_call", 11, ""), HC(2, 16, "hz") >>
      [] f = "pipe2_close" -> Flushes \o << P("cp.begin_stop", 2), P("cp.close", 2), P("sp.stop", 2), P("sp.complete", 2), P("sp.complete", 1), P("sp.begin_stop", 1),
                               W(2, "PipelineOutput", "o2"), P("cp.close", 1), P("sp.close", 2) >>
      [] f = "restart"   -> Flushes \o PipeC(1) \o PipeS(1)
      [] f = "key2"      -> Wire \o << O("c.exchange_key"), O("s.request_key"), Px("cp.send", 1, "secret1"), Px("cp.send", 1, "plain"),
                              W(1, "PipelineOutput", "secret2"), PHR(1, 1, "secret2"), P("sp.complete", 1) >>
      \* everything at once, for long walks
      [] f = "mix" -> Wire \o Wire \o Flushes \o Flushes \o PoolUse \o PoolUse \o PoolOps
                        \o << Px("cp.new", 1, "script1"), P("sp.new", 1), Px("cp.new", 2, "gcm"), P("sp.new", 2) >> \o PipeC(1) \o PipeS(1) \o PipeC(2) \o PipeS(2)
                        \o Writes(1) \o << Px("cp.send", 1, "secret1"), W(1, "PipelineOutput", "secret2"), HC(1, 11, ""), HC(2, 41, ""), PHR(1, 1, "a"), PHR(1, 2, "secret1"),
                              PHR(2, 2, "=0"), HR(2, "b"), HR(3, "!err"), AR(2, "bool", 1), AR(2, "int", 4), AR(3, "bool", 0), AR(3, "int", 2), Onx("s.host_call", 16, "hx"),
                              On("c.set_max", 1), On("c.set_max", 3), On("c.set_min", 1) >>
      \* the same within an open pool
      [] f = "mix_open" -> Wire \o Wire \o Flushes \o PoolUse \o PipeC(1) \o PipeS(1) \o PipeC(2) \o PipeS(2) \o Writes(2)
                        \o << Px("cp.send", 1, "secret1"), W(1, "PipelineOutput", "secret2"), HC(1, 11, ""), HC(2, 41, ""), PHR(1, 1, "a"), PHR(1, 2, "secret1"),
                              PHR(2, 2, "=0"), HR(2, "b"), HR(3, "!err"), AR(2, "bool", 1), AR(2, "int", 4), AR(3, "bool", 0), AR(3, "int", 2), Onx("s.host_call", 16, "hx"),
                              On("c.set_max", 1), On("c.set_max", 3), On("c.set_min", 1), O("c.disconnect"), O("s.disconnect"), O("c.reconnect"), O("s.reconnect") >>
      \* values that a program may mistake for none
      [] f = "falsy"     -> << O("c.xfer"), O("s.xfer"), O("c.next"), O("s.next"), W(1, "PipelineOutput", "=null") >>
                              \o [i \in 1..5 |-> Px("cp.send", 1, Falsy[i])] \o << Px("cp.send", 1, "=null") >> \o [i \in 1..5 |-> W(1, "PipelineOutput", Falsy[i])]
                              \o [i \in 1..5 |-> HR(1, Falsy[i])] \o [i \in 1..5 |-> PHR(1, 2, Falsy[i])] \o << HR(2, "a"), PHR(1, 2, "!err") >>
      [] f = "disc_pend" -> Flushes \o << O("s.connect"), Ox("c.new", "A"), O("c.connect"), O("c.reconnect"), O("s.reconnect"), AR(1, "bool", 1), AR(2, "int", 3),
                              HR(1, "a"), PHR(1, 2, "b"), Onx("s.host_call", 11, ""), HC(1, 11, ""), O("c.get_avail") >>

FamSetup(f) ==
    CASE f = "counts3" -> Opened \o << On("c.set_max", 2), On("c.set_max", 3), On("c.set_min", 2), O("c.get_avail"), O("c.reset"), O("c.flush") >>
      [] f = "host3" -> Opened \o RunP(1, "script1") \o RunP(2, "script2")
              \o << Onx("s.host_call", 11, ""), HC(1, 11, ""), HC(2, 41, ""), HC(1, 16, "hx"), Onx("s.host_call", 1, ""), O("s.flush") >>
      [] f = "pipe2_close" -> Opened \o RunP(1, "script1") \o RunP(2, "script2")
      [] f = "falsy" -> Opened \o RunP(1, "script1") \o << Onx("s.host_call", 11, ""), HC(1, 11, ""), O("s.flush") >>
      [] f = "restart" -> Opened \o RunP(1, "script1") \o << P("sp.complete", 1), O("s.flush") >>
      [] f = "key2" -> Opened \o RunP(1, "script1") \o << HC(1, 12, ""), O("s.flush"), O("c.exchange_key"), O("c.flush"), O("s.flush") >>
      [] f = "disc_pend" -> Opened \o RunP(1, "script1") \o << On("c.set_max", 6), O("c.get_avail"), O("c.flush"), Onx("s.host_call", 11, ""), HC(1, 11, ""), O("s.flush"),
                              O("c.disconnect"), O("s.disconnect") >>
      [] f \in {"set_1", "set_2", "set_3", "set_sec"} -> <<>>
      [] f \in {"open_fine", "ver20_23", "ver21_23", "ver22_23", "ver23_23", "ver23_20", "ver23_21", "ver23_22", "ver22_22"} \cup OtherVers -> <<>>
      [] f = "mix_open" -> Opened \o RunP(1, "script1") \o RunP(2, "script2")
      [] f \in {"mix", "life", "closing", "counts", "counts2", "pipe1", "gcm", "key_states", "disc", "key_arg", "inj_conn"} -> Opened
      [] f \in {"pipe1_fine", "writes", "key", "host", "disc_pipe", "host_all"} -> Opened \o RunP(1, "script1")
      [] f \in {"pipe2", "pipe2_life", "host2", "inj_pipe", "inj_pool"} -> Opened \o RunP(1, "script1") \o RunP(2, "script2")
      [] f = "disc_fine" -> Opened \o << O("c.disconnect"), O("s.disconnect") >>

FamWorld(f) ==
    CASE f = "ver20_23" -> InitWorld("2.0", "2.3", 1, 1, "S0")
      [] f = "ver21_23" -> InitWorld("2.1", "2.3", 1, 1, "S0")
      [] f = "ver22_23" -> InitWorld("2.2", "2.3", 1, 1, "S0")
      [] f = "ver22_22" -> InitWorld("2.2", "2.2", 1, 1, "S0")
      [] f = "ver23_20" -> InitWorld("2.3", "2.0", 1, 1, "S0")
      [] f = "ver23_21" -> InitWorld("2.3", "2.1", 1, 1, "S0")
      [] f = "ver23_22" -> InitWorld("2.3", "2.2", 1, 1, "S0")
      [] f = "ver2210_23" -> InitWorld("2.10", "2.2.9", 1, 1, "S0")
      [] f = "ver23_2301" -> InitWorld("2.3", "2.3.0.1", 1, 1, "S0")
      [] f = "ver229_30"  -> InitWorld("2.2.9", "3.0", 1, 1, "S0")
      [] f = "ver110_100" -> InitWorld("1.10", "10.0", 1, 1, "S0")
      [] f = "ver2301_210" -> InitWorld("2.3.0.1", "2.10", 1, 1, "S0")
      [] f = "ver24_110" -> InitWorld("2.4", "1.10", 1, 1, "S0")
      [] f = "ver100_24" -> InitWorld("10.0", "2.4", 1, 1, "S0")
      [] f \in {"disc", "disc_fine"} -> InitWorld("2.3", "2.3", 2, 4, "S1")
      [] f = "set_1" -> InitWorld("2.3", "2.3", 1, 2, "S1")
      [] f = "set_2" -> InitWorld("2.3", "2.2", 2, 2, "S2")
      [] f = "set_3" -> InitWorld("2.2", "2.3", 1, 8, "S3")
      [] f = "set_sec" -> InitWorld("2.3", "2.3", 1, 1, "Ssec")
      [] OTHER -> InitWorld("2.3", "2.3", 1, 1, "S0")

\* operations on objects the application has
Sensible(ww, op) ==
    CASE op.o = "cp.new" -> ~ww.c.pipes[op.p].ex
      [] op.o = "sp.new" -> ~ww.s.pipes[op.p].ex
      [] op.o \in {"cp.start", "cp.send", "cp.eof", "cp.host_response", "cp.begin_stop", "cp.close"} -> ww.c.pipes[op.p].ex
      [] op.o \in {"sp.start", "sp.complete", "sp.begin_stop", "sp.stop", "sp.close", "sp.write", "sp.host_call"} -> ww.s.pipes[op.p].ex
      [] op.o = "c.new" -> ww.c.st \in {"Disconnected", "Disconnecting", "Closed", "Broken", "BeforeOpen"}
                               /\ ww.s.inq = <<>>    \* the server has dealt with the old client
      [] OTHER -> TRUE

\* which agreement properties make sense for a family (its operations include the whole exchange)
FamTags(f) ==
    CASE f \in {"counts", "counts2", "counts3"} -> {"open", "sizes"}
      [] f \in {"pipe1", "pipe1_fine", "pipe2", "pipe2_life", "gcm", "pipe2_close", "restart"} -> {"open", "pipes"}
      [] f \in {"host", "host2", "host3", "key", "key2", "writes", "falsy"} -> {"open"}
      [] OTHER -> {}
=============================================================================
