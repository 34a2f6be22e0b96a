------------------------------ MODULE MsgJudge ------------------------------
(* Judges what the library sent for an operation of the application and     *)
(* what the application at the other end was given.                         *)
(*  kind   the sort of message; op what was done (or, for relayed ones, the *)
(*         tree given); doc the body of the message; ev the tree of the     *)
(*         event; gg, ge the graphs of the values in op and in ev           *)
EXTENDS Messages, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE)

Tell(want, got) ==
    LET i == FirstDiff(want, got)
        s(x) == IF i <= Len(x) THEN x[i].t \o " " \o ToString(x[i].s) ELSE "nothing"
    IN  "token " \o ToString(i) \o ": expected " \o s(want) \o ", found " \o s(got)

Given(c) ==
    IF c.relay THEN c.given
    ELSE CASE c.kind = "call" -> LET p == Call(c.op) IN ARec("HostCall", << IF Void(p[1]) THEN AInt(-100) ELSE Whatever, AEnum("HostMethodIdentifier", p[1]), AList(Tail(p)) >>)
           [] c.kind = "answer" -> ARec("HostResponse", << Whatever, AEnum("HostMethodIdentifier", c.mi), IF Get(c.op, "error") # Nothing THEN Nothing ELSE Answer(c.op), LET e == Get(c.op, "error") IN IF e = Nothing THEN e ELSE [e EXCEPT !.c[4].c = Append(@, Whatever)] >>)
           [] c.kind = "error" -> ErrorOf(c.op)
           [] c.kind = "message" -> MessageOf(c.op)
           [] c.kind = "information" -> InformationOf(c.op)
           [] c.kind = "progress" -> ProgressOf(c.op)
           [] c.kind = "event" -> EventOf(c.op)
           [] c.kind = "pipeline" -> PipelineOf(c.op, Level(c.ver))
           [] c.kind = "init" -> InitOf(c.op)
           [] c.kind = "metadata" -> MetadataOf(c.op)
           [] c.kind = "count" -> ARec("CommandMetadataCount", << Get(c.op, "count") >>)
           [] c.kind = "value" -> Get(c.op, "value")
Schema(c) ==
    CASE c.kind = "call" -> HostCall(Call(c.op)[1])
      [] c.kind = "answer" -> HostResponse(c.mi)
      [] c.kind = "error" -> ErrorRecord
      [] c.kind = "message" -> Informational
      [] c.kind = "information" -> Information
      [] c.kind = "progress" -> Progress
      [] c.kind = "event" -> UserEvent
      [] c.kind = "pipeline" -> Pipeline
      [] c.kind = "init" -> IF c.op.h = "tell" THEN Private ELSE Init0
      [] c.kind = "metadata" -> Metadata
      [] c.kind = "count" -> MetadataCount
      [] c.kind = "value" -> AnyV

Verdict(c) ==
    IF c.kind = "pipeline" /\ Build(<<>>, c.op.b, 1) = <<>> THEN IF c.err = "refused" THEN "" ELSE "an empty pipeline was started"
    ELSE IF c.err # "" THEN c.err
    ELSE IF c.kind = "pipeline" /\ c.refused # Refusals(<<>>, c.op.b, 1) THEN "an operation on a pipeline was refused, or not refused, that should not have been"
    ELSE LET els == WithinAll(c.doc, 1)
             env == Env(els)
             d(mode) == DTok(env, mode, Schema(c), c.doc[1], Seen0).tk
             w == d("w")
             given == ATok(c.gg, "w", Given(c), Seen0).tk
             r == d("r")
             seen == ATok(c.ge, "r", c.ev, Seen0).tk
         IN  IF ~RefsOk(els) THEN "a reference that does not name exactly one earlier object or list of type names"
             ELSE IF ~Agree(given, w) THEN "the message does not say what the application gave; " \o Tell(given, w)
             ELSE IF ~Agree(r, seen) THEN "the event does not say what the message does; " \o Tell(r, seen)
             ELSE IF c.sgiven # c.sseen THEN "a secret arrived as another one"
             ELSE ""

VARIABLE t
Init == t = 1
Next == /\ t <= Len(Cases)
        /\ LET v == Verdict(Cases[t]) IN IF v = "" THEN TRUE ELSE PrintT(ToJson([bad |-> TRUE, trace |-> t, line |-> 1, why |-> v]))
        /\ t' = t + 1
Report == t > Len(Cases) => PrintT(ToJson([done |-> TRUE, n |-> t - 1]))
Spec == Init /\ [][Next]_t
=============================================================================
