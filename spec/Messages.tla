------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* What the messages of MS-PSRP 2.2.2 and 2.2.6 say about the things an     *)
(* application gives and gets: pipelines, command queries, host calls with  *)
(* their results, stream records and user events.                           *)
(*                                                                          *)
(* What an application gives or sees is a tree of nodes [t kind, s text, c  *)
(* parts, n].  A node "any" is the n-th root of the case's value graph and  *)
(* is read as Clixml.tla says.  A schema says how such a thing is written;  *)
(* DTok reads a document by its schema and gives the same tokens as ATok    *)
(* gives for the thing itself.  As in Clixml.tla mode "w" compares what was *)
(* given with what was written, mode "r" what arrived with what was read.   *)
(***************************************************************************)
EXTENDS Clixml, FiniteSets

A(t, s, c) == [t |-> t, s |-> s, c |-> c, n |-> 0]
Nothing == A("Nil", <<>>, <<>>)
Whatever == A("*", <<>>, <<>>)
Absent == A("absent", <<>>, <<>>)
AStr(u) == A("str", u, <<>>)
AInt(n) == A("int", IntText(n), <<>>)
ABool(b) == A("bool", << IF b THEN 1 ELSE 0 >>, <<>>)
AEnum(c, n) == A("enum " \o c, IntText(n), <<>>)
ARec(x, c) == A("rec " \o x, <<>>, c)
AList(c) == A("list", <<>>, c)

----------------------------------------------------------------------------
(* Schemas                                                                  *)

P(a, g) == [k |-> "P", a |-> a, g |-> g]
Str == P("str", {"S"})
Int32 == P("int", {"I32"})
Int64 == P("int", {"I64"})
UInt == P("int", {"U32"})
Bool == P("bool", {"B"})
Chr == P("char", {"C"})
O(s) == [k |-> "O", s |-> s]          \* or Nil
L(s) == [k |-> "L", s |-> s]          \* a list
En(c) == [k |-> "E", c |-> c]         \* an enumeration, as such or as its number
Num(c) == [k |-> "I", c |-> c]        \* an enumeration as its number
AnyV == [k |-> "A"]
Sec == [k |-> "S"]
Arr(s) == [k |-> "M", s |-> s]        \* a two-dimensional array
F(w, s) == [w |-> U(w), s |-> s, m |-> "must"]
Opt(w, s) == [w |-> U(w), s |-> O(s), m |-> "opt"]
Ver(w, s, d) == [w |-> U(w), s |-> s, m |-> "ver", d |-> d]
Rc(name, in, f) == [k |-> "R", name |-> name, in |-> in, f |-> f]

Coordinates == Rc("Coordinates", "MS", << F("x", Int32), F("y", Int32) >>)
Size2 == Rc("Size", "MS", << F("width", Int32), F("height", Int32) >>)
Rectangle == Rc("Rectangle", "MS", << F("left", Int32), F("top", Int32), F("right", Int32), F("bottom", Int32) >>)
BufferCell == Rc("BufferCell", "MS", << F("character", Chr), F("foregroundColor", Num("ConsoleColor")), F("backgroundColor", Num("ConsoleColor")), F("bufferCellType", Num("BufferCellType")) >>)
KeyInfo == Rc("KeyInfo", "MS", << F("virtualKeyCode", O(Int32)), F("character", O(Chr)), F("controlKeyState", Num("ControlKeyStates")), F("keyDown", O(Bool)) >>)
Choice == Rc("ChoiceDescription", "MS", << F("label", Str), F("helpMessage", O(Str)) >>)
Field == Rc("FieldDescription", "MS", << F("name", Str), F("label", O(Str)), F("parameterTypeName", O(Str)), F("parameterTypeFullName", O(Str)), F("parameterAssemblyFullName", O(Str)),
                                         F("helpMessage", O(Str)), F("isMandatory", O(Bool)) >>)
FieldRest == { U("metadata"), U("modifiedByRemotingProtocol"), U("isFromRemoteHost") }
Credential == Rc("PSCredential", "Props", << F("UserName", Str), F("Password", Sec) >>)
Progress == Rc("ProgressRecord", "MS", << F("Activity", O(Str)), F("ActivityId", O(Int32)), F("StatusDescription", O(Str)), F("CurrentOperation", O(Str)), F("ParentActivityId", O(Int32)),
                                          F("PercentComplete", O(Int32)), F("Type", O(En("ProgressRecordType"))), F("SecondsRemaining", O(Int32)) >>)
HostData == << [ty |-> U("System.ConsoleColor"), s |-> Num("ConsoleColor")], [ty |-> U("System.ConsoleColor"), s |-> Num("ConsoleColor")],
               [ty |-> U("System.Management.Automation.Host.Coordinates"), s |-> Coordinates], [ty |-> U("System.Management.Automation.Host.Coordinates"), s |-> Coordinates],
               [ty |-> U("System.Int32"), s |-> Int32],
               [ty |-> U("System.Management.Automation.Host.Size"), s |-> Size2], [ty |-> U("System.Management.Automation.Host.Size"), s |-> Size2],
               [ty |-> U("System.Management.Automation.Host.Size"), s |-> Size2], [ty |-> U("System.Management.Automation.Host.Size"), s |-> Size2],
               [ty |-> U("System.String"), s |-> Str] >>
HostInfo == Rc("HostInfo", "MS", << F("_isHostNull", Bool), F("_isHostUINull", Bool), F("_isHostRawUINull", Bool), F("_useRunspaceHost", Bool),
                                    Opt("_hostDefaultData", Rc("HostDefaultData", "MS", << F("data", [k |-> "H"]) >>)) >>)

Results == En("PipelineResultTypes")
Argument == Rc("Argument", "MS", << F("N", O(Str)), F("V", AnyV) >>)
NoMerge == AEnum("PipelineResultTypes", 0)
Command == Rc("Command", "MS", << F("Cmd", Str), F("Args", L(Argument)), F("IsScript", Bool), F("UseLocalScope", O(Bool)), F("MergeMyResult", Results), F("MergeToResult", Results),
                                  F("MergePreviousResults", Results), Ver("MergeError", Results, NoMerge), Ver("MergeWarning", Results, NoMerge), Ver("MergeVerbose", Results, NoMerge),
                                  Ver("MergeDebug", Results, NoMerge), Ver("MergeInformation", Results, NoMerge) >>)
PipeOuter == << F("NoInput", Bool), F("ApartmentState", En("ApartmentState")), F("RemoteStreamOptions", En("RemoteStreamOptions")), F("AddToHistory", Bool), F("HostInfo", HostInfo), F("IsNested", Bool) >>
PipeInner == << F("IsNested", Bool), F("History", O(Str)), F("RedirectShellErrorOutputPipe", Bool) >>
Pipeline == [k |-> "PS"]
Metadata == Rc("GetMetadata", "MS", << F("Name", O(L(Str))), F("CommandType", En("CommandTypes")), F("Namespace", O(L(Str))), F("ArgumentList", O(L(AnyV))) >>)
Init0 == Rc("InitRunspacePool", "MS", << F("MinRunspaces", Int32), F("MaxRunspaces", Int32), F("PSThreadOptions", En("PSThreadOptions")), F("ApartmentState", En("ApartmentState")), F("HostInfo", HostInfo), F("ApplicationArguments", AnyV) >>)
Private == Rc("ApplicationPrivateData", "MS", << F("ApplicationPrivateData", AnyV) >>)
MetadataCount == Rc("CommandMetadataCount", "MS", << F("Count", Int32) >>)

Information == Rc("InformationRecord", "MS", << F("MessageData", AnyV), F("Source", O(Str)), F("TimeGenerated", O(P("dt", {"DT"}))), F("Tags", O(L(Str))), F("User", O(Str)), F("Computer", O(Str)),
                                                F("ProcessId", O(UInt)), F("NativeThreadId", O(UInt)), F("ManagedThreadId", O(UInt)) >>)
UserEvent == Rc("UserEvent", "MS", << F("PSEventArgs.EventIdentifier", O(Int32)), F("PSEventArgs.SourceIdentifier", O(Str)), F("PSEventArgs.TimeGenerated", O(P("dt", {"DT"}))),
                                      F("PSEventArgs.Sender", AnyV), F("PSEventArgs.SourceArgs", L(AnyV)), F("PSEventArgs.MessageData", AnyV), F("PSEventArgs.ComputerName", O(Str)),
                                      F("PSEventArgs.RunspaceId", P("guid", {"G"})) >>)
ErrorRecord == [k |-> "ER"]
Informational == [k |-> "IR"]

\* the parameters of host method number mi, and its result
Params(mi) ==
    CASE mi = 6 -> << Int32 >>
      [] mi \in {13, 16, 18, 19, 21, 22, 42} -> << Str >>
      [] mi \in {14, 17} -> << Num("ConsoleColor"), Num("ConsoleColor"), Str >>
      [] mi = 20 -> << O([k |-> "P", a |-> "int", g |-> {"I32", "I64"}]), Progress >>
      [] mi = 23 -> << Str, Str, L(Field) >>
      [] mi = 24 -> << Str, Str, O(Str), Str >>
      [] mi = 25 -> << Str, Str, O(Str), Str, Num("PSCredentialTypes"), Num("PSCredentialUIOptions") >>
      [] mi = 26 -> << Str, Str, L(Choice), Int32 >>
      [] mi = 56 -> << Str, Str, L(Choice), L(Int32) >>
      [] mi \in {28, 30} -> << Num("ConsoleColor") >>
      [] mi \in {32, 34} -> << Coordinates >>
      [] mi = 36 -> << Int32 >>
      [] mi \in {38, 40} -> << Size2 >>
      [] mi = 46 -> << Num("ReadKeyOptions") >>
      [] mi = 48 -> << Rectangle, BufferCell >>
      [] mi = 49 -> << Coordinates, Arr(BufferCell) >>
      [] mi = 50 -> << Rectangle >>
      [] mi = 51 -> << Rectangle, Coordinates, Rectangle, BufferCell >>
      [] OTHER -> <<>>
Result(mi) ==
    CASE mi \in {1, 4, 5, 11, 41} -> Str
      [] mi = 2 -> P("version", {"Version"})
      [] mi = 3 -> P("guid", {"G"})
      [] mi \in {45, 54} -> Bool
      [] mi = 12 -> Sec
      [] mi = 23 -> AnyV
      [] mi \in {24, 25} -> Credential
      [] mi \in {26, 35} -> Int32
      [] mi = 56 -> L(Int32)
      [] mi \in {27, 29} -> Num("ConsoleColor")
      [] mi \in {31, 33} -> Coordinates
      [] mi \in {37, 39, 43, 44} -> Size2
      [] mi = 46 -> KeyInfo
      [] mi = 50 -> Arr(BufferCell)
      [] OTHER -> AnyV
HostCall(mi) == Rc("HostCall", "MS", << F("ci", Int64), F("mi", En("HostMethodIdentifier")), F("mp", [k |-> "T", ss |-> Params(mi)]) >>)
HostResponse(mi) == Rc("HostResponse", "MS", << F("ci", Int64), F("mi", En("HostMethodIdentifier")), Opt("mr", Result(mi)), Opt("me", ErrorRecord) >>)

----------------------------------------------------------------------------
(* Reading a document by a schema                                           *)

Type(e, env) == Names(env, e)
Deref(env, e) == IF e.g = "Ref" /\ e.r \in DOMAIN env.obj THEN [env.obj[e.r] EXCEPT !.n = e.n, !.hn = e.hn] ELSE e
PropsIn(e, in) == IF Has(e, in) THEN Kid(e, in).c ELSE <<>>
Prop(ps, w) == LET is == {i \in DOMAIN ps : Unescape(ps[i].n) = w} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
Empty(g) == [g |-> "Obj", x |-> <<>>, n |-> <<>>, hn |-> FALSE, r |-> "", c |-> << [g |-> g, x |-> <<>>, n |-> <<>>, hn |-> FALSE, r |-> "", c |-> <<>>] >>]
NilE == [g |-> "Nil", x |-> <<>>, n |-> <<>>, hn |-> FALSE, r |-> "", c |-> <<>>]
\* an object without one of its extended properties
Without(e, w) == LET keep(p) == Unescape(p.n) # w
                     f(x) == IF x.g = "MS" THEN [x EXCEPT !.c = SelectSeq(@, keep)] ELSE x
                 IN  [e EXCEPT !.c = [i \in DOMAIN @ |-> f(@[i])]]
Value(g, x, mode) == IF mode = "w" /\ ~Strict(g, x) THEN Bad ELSE Lex(g, x)
Yes(e) == e.g = "B" /\ Lex("B", e.x) = << 1 >>

One(t, s, vis) == [tk |-> << T(t, s) >>, vis |-> vis]
Wrong(what, vis) == One("unexpected " \o what, <<>>, vis)

RECURSIVE DTok(_, _, _, _, _), DFields(_, _, _, _, _, _), DSeq(_, _, _, _, _, _), DDef(_)
\* tokens of a default, which never contains values of the application
DDef(a) == << T(a.t, a.s) >>

DFields(env, mode, fs, ps, i, vis) ==
    IF i > Len(fs) THEN [tk |-> <<>>, vis |-> vis]
    ELSE LET j == Prop(ps, fs[i].w)
             a == IF j > 0 THEN DTok(env, mode, fs[i].s, ps[j], vis)
                  ELSE IF fs[i].s.k = "N" /\ mode = "r" THEN One("*", <<>>, vis)
                  ELSE CASE fs[i].m = "opt" -> One("Nil", <<>>, vis)
                         [] fs[i].m = "ver" -> IF mode = "w" THEN One("absent", <<>>, vis) ELSE [tk |-> DDef(fs[i].d), vis |-> vis]
                         [] OTHER -> One("missing", fs[i].w, vis)
             b == DFields(env, mode, fs, ps, i + 1, a.vis)
         IN  [tk |-> a.tk \o b.tk, vis |-> b.vis]
DSeq(env, mode, ss, es, i, vis) ==
    IF i > Len(es) THEN [tk |-> <<>>, vis |-> vis]
    ELSE LET a == DTok(env, mode, IF i <= Len(ss) THEN ss[i] ELSE ss[Len(ss)], es[i], vis)
             b == DSeq(env, mode, ss, es, i + 1, a.vis)
         IN  [tk |-> a.tk \o b.tk, vis |-> b.vis]
\* fields nobody asked for
Extra(mode, known, ps) == IF mode = "w" THEN LET new(p) == ~(Unescape(p.n) \in known)
                                                  xs == SelectSeq(ps, new)
                                              IN  [i \in DOMAIN xs |-> T("extra", Unescape(xs[i].n))]
                          ELSE <<>>
Known(fs) == {fs[i].w : i \in DOMAIN fs}
Around(t, s, a, more) == [tk |-> << T(t, s) >> \o a.tk \o more \o << T("end", <<>>) >>, vis |-> a.vis]

\* characters, of which some take two units
Chars(u) == Len(u) - Cardinality({i \in 1..(Len(u) - 1) : u[i] \in 55296..56319 /\ u[i + 1] \in 56320..57343})
\* how the position of a script is read when the message does not carry it
ExtentOf(mode, ps) ==
    LET get(w, s, none) == LET j == Prop(ps, U(w)) IN IF j = 0 \/ ps[j].g = "Nil" THEN none ELSE T(s, Lex(ps[j].g, ps[j].x))
        line == get("InvocationInfo_Line", "str", T("str", <<>>))
        ln == get("InvocationInfo_ScriptLineNumber", "int", T("Nil", <<>>))
        off == get("InvocationInfo_OffsetInLine", "int", T("Nil", <<>>))
    IN  IF mode = "w" THEN << T("Nil", <<>>) >>
        ELSE << T("rec ScriptExtent", <<>>), get("InvocationInfo_ScriptName", "str", T("str", <<>>)), ln, off, ln, IF line.s = <<>> THEN off ELSE T("int", IntText(Chars(line.s) + 1)), T("end", <<>>) >>
Extent == << F("ScriptExtent_File", O(Str)), F("ScriptExtent_StartLineNumber", O(Int32)), F("ScriptExtent_StartColumnNumber", O(Int32)), F("ScriptExtent_EndLineNumber", O(Int32)), F("ScriptExtent_EndColumnNumber", O(Int32)) >>
CommandInfo == << F("CommandInfo_CommandType", En("CommandTypes")), F("CommandInfo_Name", O(Str)), F("CommandInfo_Definition", O(Str)), F("CommandInfo_Visibility", En("SessionStateEntryVisibility")) >>
II(w, s) == [w |-> U("InvocationInfo_") \o U(w), s |-> s, m |-> "opt"]
Invoc1 == << II("CommandOrigin", O(En("CommandOrigin"))), II("ExpectingInput", O(Bool)), II("HistoryId", O(Int64)), II("InvocationName", O(Str)) >>
Invoc2 == << II("OffsetInLine", O(Int32)), II("PipelineLength", O(Int32)), II("PipelinePosition", O(Int32)), II("PositionMessage", [k |-> "N", s |-> O(Str)]), II("ScriptLineNumber", O(Int32)), II("ScriptName", O(Str)) >>
\* the fields an invocation is flattened into
Invocation(env, mode, ps, vis) ==
    LET el(w, g) == LET j == Prop(ps, U(w)) IN IF j = 0 \/ ps[j].g = "Nil" THEN IF mode = "r" /\ g # "" THEN Empty(g) ELSE NilE ELSE ps[j]
        a == DTok(env, mode, AnyV, el("InvocationInfo_BoundParameters", "DCT"), vis)
        b == DFields(env, mode, Invoc1, ps, 1, a.vis)
        line == el("InvocationInfo_Line", "")
        x == Prop(ps, U("SerializeExtent"))
        given == x > 0 /\ Yes(ps[x])
        c == IF given THEN Around("rec ScriptExtent", <<>>, DFields(env, mode, Extent, ps, 1, b.vis), <<>>) ELSE [tk |-> ExtentOf(mode, ps), vis |-> b.vis]
        d == IF Prop(ps, U("CommandInfo_CommandType")) = 0 THEN One("Nil", <<>>, c.vis) ELSE Around("rec CommandInfo", <<>>, DFields(env, mode, CommandInfo, ps, 1, c.vis), <<>>)
        e == DFields(env, mode, Invoc2, ps, 1, d.vis)
        path(w) == LET p == el(w, "") IN IF mode = "r" THEN T("*", <<>>) ELSE IF p.g = "Nil" THEN T("Nil", <<>>) ELSE T("str", Lex("S", p.x))
        f == DTok(env, mode, AnyV, el("InvocationInfo_UnboundArguments", "LST"), e.vis)
    IN  [tk |-> << T("rec InvocationInfo", <<>>) >> \o a.tk \o b.tk
                \o << IF line.g = "Nil" THEN IF mode = "w" THEN T("Nil", <<>>) ELSE T("str", <<>>) ELSE T("str", Lex("S", line.x)) >>
                \o c.tk \o d.tk \o e.tk \o << path("InvocationInfo_PSCommandPath"), path("InvocationInfo_PSScriptRoot") >> \o f.tk \o << T("end", <<>>) >>,
         vis |-> f.vis]
InvocKnown == Known(Extent) \cup Known(CommandInfo) \cup Known(Invoc1) \cup Known(Invoc2)
              \cup { U("InvocationInfo_") \o w : w \in { U("BoundParameters"), U("Line"), U("PSCommandPath"), U("PSScriptRoot"), U("UnboundArguments"), U("PipelineIterationInfo") } } \cup { U("SerializeExtent") }

ErrCat == << F("ErrorCategory_Category", Num("ErrorCategory")), F("ErrorCategory_Activity", O(Str)), F("ErrorCategory_Reason", O(Str)), F("ErrorCategory_TargetName", O(Str)), F("ErrorCategory_TargetType", O(Str)) >>
ErrDet == << Opt("ErrorDetails_Message", Str), Opt("ErrorDetails_RecommendedAction", Str) >>
ErrKnown == Known(ErrCat) \cup Known(ErrDet) \cup { U(w) : w \in {"Exception", "TargetObject", "FullyQualifiedErrorId", "InvocationInfo", "ErrorCategory_Message", "ErrorDetails_ScriptStackTrace", "SerializeExtendedInfo", "PipelineIterationInfo"} }

DTok(env, mode, sc, e0, vis) ==
    LET e == Deref(env, e0) IN
    CASE sc.k = "A" -> DocTok(env, mode, e0, vis)
      [] sc.k = "N" -> IF mode = "r" THEN One("*", <<>>, vis) ELSE DTok(env, mode, sc.s, e0, vis)     \* which a reader does not restore
      [] sc.k = "O" -> IF e.g = "Nil" THEN One("Nil", <<>>, vis) ELSE DTok(env, mode, sc.s, e0, vis)
      [] sc.k = "P" -> IF e.g \in sc.g THEN One(sc.a, Value(e.g, e.x, mode), vis) ELSE Wrong(e.g, vis)
      [] sc.k = "S" -> IF e.g = "SS" THEN One("secret", <<>>, vis) ELSE Wrong(e.g, vis)
      [] sc.k = "I" -> IF e.g = "I32" THEN One("enum " \o sc.c, Value("I32", e.x, mode), vis) ELSE Wrong(e.g, vis)
      [] sc.k = "E" -> IF e.g = "I32" THEN One("enum " \o sc.c, Value("I32", e.x, mode), vis)
                       ELSE IF e.g = "Obj" /\ Has(e, "I32") /\ (mode = "r" \/ Names(env, e) = << Enums[sc.c].tn >> \o TypeNames.PSEnumBase) THEN One("enum " \o sc.c, Value("I32", Kid(e, "I32").x, mode), vis)
                       ELSE Wrong(e.g, vis)
      [] sc.k = "L" -> IF ~Has(e, "LST") THEN Wrong(e.g, vis)
                       ELSE Around("list", << Len(Kid(e, "LST").c) >>, DSeq(env, mode, << sc.s >>, Kid(e, "LST").c, 1, vis), <<>>)
      [] sc.k = "T" -> IF ~Has(e, "LST") \/ (sc.ss = <<>> /\ Kid(e, "LST").c # <<>>) THEN Wrong(e.g, vis)
                       ELSE Around("list", << Len(Kid(e, "LST").c) >>, DSeq(env, mode, sc.ss, Kid(e, "LST").c, 1, vis), <<>>)
      [] sc.k = "R" -> IF e.g # "Obj" THEN Wrong(e.g, vis)
                       ELSE LET ps == PropsIn(e, sc.in)
                            IN  Around("rec " \o sc.name, <<>>, DFields(env, mode, sc.f, ps, 1, vis), Extra(mode, Known(sc.f) \cup (IF sc.name = "FieldDescription" THEN FieldRest ELSE {}), ps))
      [] sc.k = "M" -> LET ps == PropsIn(e, "MS")
                           mae == Prop(ps, U("mae"))
                           mal == Prop(ps, U("mal"))
                       IN  IF mae = 0 \/ mal = 0 THEN Wrong(e.g, vis)
                           ELSE LET xs == Kid(Deref(env, ps[mae]), "LST").c
                                    ls == Kid(Deref(env, ps[mal]), "LST").c
                                    h == NumOf(ls[1].x)
                                    w == NumOf(ls[2].x)
                                    its == [i \in 1..Len(xs) |-> DTok(env, mode, sc.s, xs[i], vis).tk]
                                    RECURSIVE Row(_, _), Rows(_)
                                    Row(i, n) == IF n = 0 THEN <<>> ELSE its[i] \o Row(i + 1, n - 1)
                                    Rows(r) == IF r > h THEN <<>> ELSE << T("list", << w >>) >> \o Row((r - 1) * w + 1, w) \o << T("end", <<>>) >> \o Rows(r + 1)
                                IN  IF Len(ls) # 2 \/ Len(xs) # h * w \/ \E i \in DOMAIN ls : ls[i].g # "I32" THEN Wrong("array", vis)
                                    ELSE [tk |-> << T("list", << h >>) >> \o Rows(1) \o << T("end", <<>>) >>, vis |-> vis]
      [] sc.k = "H" -> IF ~Has(e, "DCT") THEN Wrong(e.g, vis)
                       ELSE LET es == Entries(Kid(e, "DCT"))
                                at(i) == {j \in 1..(Len(es) \div 2) : es[2 * j - 1].g = "I32" /\ Lex("I32", es[2 * j - 1].x) = IntText(i - 1)}
                                ps(i) == PropsIn(Deref(env, es[2 * (CHOOSE j \in at(i) : TRUE)]), "MS")
                                ok(i) == at(i) # {} /\ Prop(ps(i), U("T")) > 0 /\ Prop(ps(i), U("V")) > 0 /\ Lex("S", ps(i)[Prop(ps(i), U("T"))].x) = HostData[i].ty
                                RECURSIVE All(_)
                                All(i) == IF i > 10 THEN <<>> ELSE (IF ok(i) THEN DTok(env, mode, HostData[i].s, ps(i)[Prop(ps(i), U("V"))], vis).tk ELSE << T("missing", IntText(i - 1)) >>) \o All(i + 1)
                            IN  [tk |-> All(1) \o (IF Len(es) # 20 THEN << T("extra", <<>>) >> ELSE <<>>), vis |-> vis]
      [] sc.k = "PS" ->
           LET ps == PropsIn(e, "MS")
               j == Prop(ps, U("PowerShell"))
           IN  IF j = 0 THEN Wrong("pipeline", vis)
               ELSE LET qs == PropsIn(Deref(env, ps[j]), "MS")
                        x == Prop(qs, U("ExtraCmds"))
                        c == Prop(qs, U("Cmds"))
                        extra == IF x = 0 \/ ~Has(Deref(env, qs[x]), "LST") THEN <<>> ELSE Kid(Deref(env, qs[x]), "LST").c
                        cmds(l) == IF Has(l, "LST") THEN Kid(l, "LST").c ELSE <<>>
                        one(l) == cmds(Deref(env, LET rs == PropsIn(Deref(env, l), "MS") IN rs[Prop(rs, U("Cmds"))]))
                        full(l) == l # <<>>
                        stmts == IF extra = <<>> THEN << cmds(Deref(env, qs[c])) >> ELSE SelectSeq([i \in DOMAIN extra |-> one(extra[i])], full)
                        a == DFields(env, mode, PipeOuter, ps, 1, vis)
                        b == DFields(env, mode, PipeInner, qs, 1, a.vis)
                        RECURSIVE Stmts(_, _)
                        Stmts(i, v) == IF i > Len(stmts) THEN [tk |-> <<>>, vis |-> v]
                                       ELSE LET p == DSeq(env, mode, << Command >>, stmts[i], 1, v)
                                                r == Stmts(i + 1, p.vis)
                                            IN  [tk |-> << T("list", << Len(stmts[i]) >>) >> \o p.tk \o << T("end", <<>>) >> \o r.tk, vis |-> r.vis]
                        s == Stmts(1, b.vis)
                    IN  [tk |-> << T("rec PowerShell", <<>>) >> \o a.tk \o b.tk \o << T("list", << Len(stmts) >>) >> \o s.tk \o << T("end", <<>>), T("end", <<>>) >>
                                \o Extra(mode, Known(PipeOuter) \cup { U("PowerShell") }, ps) \o Extra(mode, Known(PipeInner) \cup { U("Cmds"), U("ExtraCmds") }, qs)
                                \o (IF c = 0 \/ Len(cmds(Deref(env, qs[c]))) # Len(stmts[1]) THEN << T("missing", U("Cmds")) >> ELSE <<>>),
                         vis |-> s.vis]
      [] sc.k = "IR" ->
           LET ps == PropsIn(e, "MS")
               x == Prop(ps, U("InformationalRecord_SerializeInvocationInfo"))
               full == x > 0 /\ Yes(ps[x])
               a == DFields(env, mode, << F("InformationalRecord_Message", O(Str)), F("InformationalRecord_SerializeInvocationInfo", Bool) >>, ps, 1, vis)
               b == IF full THEN Invocation(env, mode, ps, a.vis) ELSE One("Nil", <<>>, a.vis)
               c == DFields(env, mode, << [w |-> U("InformationalRecord_PipelineIterationInfo"), s |-> O(L(Int32)), m |-> IF full THEN "must" ELSE "opt"] >>, ps, 1, b.vis)
           IN  [tk |-> << T("rec InformationalRecord", <<>>) >> \o a.tk \o b.tk \o c.tk
                       \o Extra(mode, { U("InformationalRecord_Message"), U("InformationalRecord_SerializeInvocationInfo"), U("InformationalRecord_PipelineIterationInfo") } \cup (IF full THEN InvocKnown ELSE {}), ps)
                       \o << T("end", <<>>) >>, vis |-> c.vis]
      [] sc.k = "ER" ->
           LET ps == PropsIn(e, "MS")
               x == Prop(ps, U("SerializeExtendedInfo"))
               full == x > 0 /\ Yes(ps[x])
               ex == Prop(ps, U("Exception"))
               msg == Prop(ps, U("ErrorCategory_Message"))
               ii == Prop(ps, U("InvocationInfo"))
               a == IF ex = 0 THEN One("missing", U("Exception"), vis) ELSE DTok(env, mode, AnyV, Without(Deref(env, ps[ex]), U("SerializedRemoteInvocationInfo")), vis)
               b == DFields(env, mode, << F("TargetObject", AnyV), F("FullyQualifiedErrorId", O(Str)) >>, ps, 1, a.vis)
               c == DFields(env, mode, ErrCat, ps, 1, b.vis)
               hasd == Prop(ps, U("ErrorDetails_Message")) > 0 \/ Prop(ps, U("ErrorDetails_RecommendedAction")) > 0
               d == IF hasd THEN Around("rec ErrorDetails", <<>>, DFields(env, mode, ErrDet, ps, 1, c.vis), <<>>) ELSE One("Nil", <<>>, c.vis)
               f == DFields(env, mode, << Opt("ErrorDetails_ScriptStackTrace", Str), F("SerializeExtendedInfo", Bool) >>, ps, 1, d.vis)
               g == IF full THEN Invocation(env, mode, ps, f.vis) ELSE One("Nil", <<>>, f.vis)
               h == DFields(env, mode, << [w |-> U("PipelineIterationInfo"), s |-> O(L(Int32)), m |-> IF full THEN "must" ELSE "opt"] >>, ps, 1, g.vis)
           IN  [tk |-> << T("rec ErrorRecord", <<>>) >> \o a.tk \o b.tk \o << T("rec ErrorCategoryInfo", <<>>) >> \o c.tk
                       \o << IF mode = "w" THEN T("*", <<>>) ELSE IF msg = 0 THEN T("Nil", <<>>) ELSE T("str", Lex("S", ps[msg].x)), T("end", <<>>) >>
                       \o d.tk \o f.tk \o << T("bool", << IF ii > 0 /\ ps[ii].g # "Nil" THEN 1 ELSE 0 >>) >> \o g.tk \o h.tk
                       \o Extra(mode, ErrKnown \cup (IF full THEN InvocKnown ELSE {}), ps) \o << T("end", <<>>) >>,
                vis |-> h.vis]

----------------------------------------------------------------------------
(* What the application gave or sees                                        *)

RECURSIVE ATok(_, _, _, _), ASeq(_, _, _, _, _)
ASeq(G, mode, c, i, vis) ==
    IF i > Len(c) THEN [tk |-> <<>>, vis |-> vis]
    ELSE LET a == ATok(G, mode, c[i], vis)
             b == ASeq(G, mode, c, i + 1, a.vis)
         IN  [tk |-> a.tk \o b.tk, vis |-> b.vis]
Leaf == {"Nil", "absent", "*", "str", "int", "bool", "char", "dt", "guid", "version", "secret"}
IsRec(t) == t \in { "rec " \o x : x \in {"Coordinates", "Size", "Rectangle", "BufferCell", "KeyInfo", "ChoiceDescription", "FieldDescription", "PSCredential", "ProgressRecord", "HostInfo", "HostDefaultData", "Argument",
                                         "Command", "PowerShell", "GetMetadata", "CommandMetadataCount", "InformationRecord", "UserEvent", "HostCall", "HostResponse", "InvocationInfo", "ScriptExtent", "CommandInfo",
                                         "ErrorRecord", "ErrorCategoryInfo", "ErrorDetails", "InformationalRecord", "InitRunspacePool", "ApplicationPrivateData"} }
ATok(G, mode, a, vis) ==
    CASE a.t = "any" -> ValTok(G.nodes, mode, G.roots[a.n], vis)
      [] a.t = "list" -> Around("list", << Len(a.c) >>, ASeq(G, mode, a.c, 1, vis), <<>>)
      [] IsRec(a.t) -> Around(a.t, <<>>, ASeq(G, mode, a.c, 1, vis), <<>>)
      [] OTHER -> One(a.t, IF a.t = "secret" THEN <<>> ELSE a.s, vis)

----------------------------------------------------------------------------
(* What an operation of the application gives.  h names it, a are its named *)
(* arguments, those left out being left out.                                *)

Arg(op, k, d) == LET is == {i \in DOMAIN op.a : op.a[i].k = k} IN IF is = {} THEN d ELSE op.a[CHOOSE i \in is : TRUE].v
Get(op, k) == Arg(op, k, Nothing)
Colour(a) == IF a = Nothing THEN AEnum("ConsoleColor", 0) ELSE a
Or(a, b) == IF a = Nothing THEN b ELSE a

Cell(op) == ARec("BufferCell", << Get(op, "character"), Arg(op, "foreground", AEnum("ConsoleColor", 15)), Arg(op, "background", AEnum("ConsoleColor", 0)), AEnum("BufferCellType", 0) >>)
ProgressOf(op) == ARec("ProgressRecord", << Get(op, "activity"), Get(op, "activity_id"), Get(op, "status_description"), Get(op, "current_operation"), Arg(op, "parent_activity_id", AInt(-1)),
                                            Arg(op, "percent_complete", AInt(-1)), Arg(op, "record_type", AEnum("ProgressRecordType", 0)), Arg(op, "seconds_remaining", AInt(-1)) >>)
Rect(op, l, t, r, b) == ARec("Rectangle", << Get(op, l), Get(op, t), Get(op, r), Get(op, b) >>)
XY(op) == ARec("Coordinates", << Get(op, "x"), Get(op, "y") >>)
WH(op) == ARec("Size", << Get(op, "width"), Get(op, "height") >>)

\* the call a method of the server's requestor makes: its number and parameters
Call(op) ==
    LET h == op.h
        cs == << Get(op, "foreground_color"), Get(op, "background_color") >>
        coloured == cs # << Nothing, Nothing >>
        cred == << Get(op, "allowed_credential_types"), Get(op, "options") >>
    IN
    CASE h = "get_name" -> << 1 >> [] h = "get_version" -> << 2 >> [] h = "get_instance_id" -> << 3 >> [] h = "get_current_culture" -> << 4 >> [] h = "get_current_ui_culture" -> << 5 >>
      [] h = "set_should_exit" -> << 6, Get(op, "exit_code") >>
      [] h = "enter_nested_prompt" -> << 7 >> [] h = "exit_nested_prompt" -> << 8 >> [] h = "notify_begin_application" -> << 9 >> [] h = "notify_end_application" -> << 10 >>
      [] h = "read_line" -> << 11 >> [] h = "read_line_as_secure_string" -> << 12 >>
      [] h = "write" -> IF coloured THEN << 14, Colour(cs[1]), Colour(cs[2]), Get(op, "value") >> ELSE << 13, Get(op, "value") >>
      [] h = "write_line" -> IF coloured THEN << 17, Colour(cs[1]), Colour(cs[2]), Or(Get(op, "line"), AStr(<<>>)) >> ELSE IF Get(op, "line") = Nothing THEN << 15 >> ELSE << 16, Get(op, "line") >>
      [] h = "write_error_line" -> << 18, Get(op, "line") >> [] h = "write_debug_line" -> << 19, Get(op, "line") >>
      [] h = "write_progress" -> << 20, Get(op, "source_id"), ProgressOf(op) >>
      [] h = "write_verbose_line" -> << 21, Get(op, "line") >> [] h = "write_warning_line" -> << 22, Get(op, "line") >>
      [] h = "prompt" -> << 23, Get(op, "caption"), Get(op, "message"), Get(op, "descriptions") >>
      [] h = "prompt_for_credential" ->
           << IF cred = << Nothing, Nothing >> THEN 24 ELSE 25, Arg(op, "caption", Whatever), Arg(op, "message", Whatever), Get(op, "username"), Or(Get(op, "target_name"), AStr(<<>>)) >>
           \o IF cred = << Nothing, Nothing >> THEN <<>> ELSE << Or(cred[1], AEnum("PSCredentialTypes", 3)), Or(cred[2], AEnum("PSCredentialUIOptions", 1)) >>
      [] h = "prompt_for_choice" -> << 26, Get(op, "caption"), Get(op, "message"), Get(op, "choices"), Arg(op, "default_choice", AInt(-1)) >>
      [] h = "prompt_for_multiple_choice" -> << 56, Get(op, "caption"), Get(op, "message"), Get(op, "choices"), Or(Get(op, "default_choices"), AList(<<>>)) >>
      [] h = "get_foreground_color" -> << 27 >> [] h = "set_foreground_color" -> << 28, Get(op, "color") >> [] h = "get_background_color" -> << 29 >> [] h = "set_background_color" -> << 30, Get(op, "color") >>
      [] h = "get_cursor_position" -> << 31 >> [] h = "set_cursor_position" -> << 32, XY(op) >> [] h = "get_window_position" -> << 33 >> [] h = "set_window_position" -> << 34, XY(op) >>
      [] h = "get_cursor_size" -> << 35 >> [] h = "set_cursor_size" -> << 36, Get(op, "size") >> [] h = "get_buffer_size" -> << 37 >> [] h = "set_buffer_size" -> << 38, WH(op) >>
      [] h = "get_window_size" -> << 39 >> [] h = "set_window_size" -> << 40, WH(op) >> [] h = "get_window_title" -> << 41 >> [] h = "set_window_title" -> << 42, Get(op, "title") >>
      [] h = "get_max_window_size" -> << 43 >> [] h = "get_max_physical_window_size" -> << 44 >> [] h = "get_key_available" -> << 45 >>
      [] h = "read_key" -> << 46, Arg(op, "options", AEnum("ReadKeyOptions", 4)) >> [] h = "flush_input_buffer" -> << 47 >>
      [] h = "set_buffer_cells" -> << 48, Rect(op, "left", "top", "right", "bottom"), Cell(op) >>
      [] h = "set_buffer_contents" -> << 49, XY(op), Get(op, "contents") >>
      [] h = "get_buffer_contents" -> << 50, Rect(op, "left", "top", "right", "bottom") >>
      [] h = "scroll_buffer_contents" -> << 51, Rect(op, "source_left", "source_top", "source_right", "source_bottom"), XY(op), Rect(op, "clip_left", "clip_top", "clip_right", "clip_bottom"), Cell(op) >>
      [] h = "pop_runspace" -> << 53 >> [] h = "get_is_runspace_pushed" -> << 54 >>
\* methods nobody answers
Void(mi) == mi \in {6, 7, 8, 9, 10, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 28, 30, 32, 34, 36, 38, 40, 42, 47, 48, 49, 51, 52, 53}

\* the result a method of the client's responder gives
Answer(op) ==
    LET h == op.h IN
    CASE h = "get_name" -> Get(op, "name") [] h = "get_version" -> Get(op, "version") [] h = "get_instance_id" -> Get(op, "instance_id")
      [] h \in {"get_current_culture", "get_current_ui_culture"} -> Get(op, "culture") [] h = "get_is_runspace_pushed" -> Get(op, "is_pushed")
      [] h \in {"read_line", "read_line_as_secure_string"} -> Get(op, "line") [] h = "prompt" -> Get(op, "choices") [] h = "prompt_for_credential" -> Get(op, "credential")
      [] h = "prompt_for_choice" -> Get(op, "choice")
      [] h = "prompt_for_multiple_choice" -> IF Get(op, "choices").t = "list" THEN Get(op, "choices") ELSE AList(<< Get(op, "choices") >>)
      [] h \in {"get_foreground_color", "get_background_color"} -> Get(op, "color") [] h \in {"get_cursor_position", "get_window_position"} -> XY(op) [] h = "get_cursor_size" -> Get(op, "size")
      [] h \in {"get_buffer_size", "get_window_size", "get_max_window_size", "get_max_physical_window_size"} -> WH(op) [] h = "get_window_title" -> Get(op, "title")
      [] h = "get_key_available" -> Get(op, "waiting")
      [] h = "read_key" -> ARec("KeyInfo", << Arg(op, "key_code", AInt(0)), Get(op, "character"), Arg(op, "control_key_state", AEnum("ControlKeyStates", 0)), Get(op, "key_down") >>)
      [] h = "get_buffer_contents" -> Get(op, "cells")
      [] h = "raw" -> Get(op, "value")

ErrorOf(op) ==
    LET cat == Arg(op, "category_info", ARec("ErrorCategoryInfo", << AEnum("ErrorCategory", 0), Nothing, Nothing, Nothing, Nothing >>))
        inv == Get(op, "invocation_info")
    IN  ARec("ErrorRecord", << Get(op, "exception"), Get(op, "target_object"), Get(op, "fully_qualified_error_id"), ARec("ErrorCategoryInfo", SubSeq(cat.c, 1, 5) \o << Whatever >>), Get(op, "error_details"),
                               Get(op, "script_stack_trace"), ABool(inv # Nothing), ABool(inv # Nothing), inv, IF inv = Nothing THEN Nothing ELSE Get(op, "pipeline_iteration_info") >>)
MessageOf(op) ==
    LET inv == Get(op, "invocation_info")
    IN  ARec("InformationalRecord", << Get(op, "message"), ABool(inv # Nothing), inv, IF inv = Nothing THEN Nothing ELSE Get(op, "pipeline_iteration_info") >>)
InformationOf(op) ==
    ARec("InformationRecord", << Get(op, "message_data"), Get(op, "source"), Arg(op, "time_generated", Whatever), Or(Get(op, "tags"), AList(<<>>)), Arg(op, "user", Whatever), Arg(op, "computer", Whatever),
                                 Arg(op, "process_id", Whatever), Arg(op, "native_thread_id", Whatever), Or(Get(op, "managed_thread_id"), AInt(0)) >>)
EventOf(op) ==
    ARec("UserEvent", << Get(op, "event_identifier"), Get(op, "source_identifier"), Arg(op, "time_generated", Whatever), Get(op, "sender"), Or(Get(op, "source_args"), AList(<<>>)), Get(op, "message_data"),
                         Arg(op, "computer", Whatever), Get(op, "runspace_id") >>)
DefaultHost == ARec("HostInfo", << ABool(TRUE), ABool(TRUE), ABool(TRUE), ABool(TRUE), Nothing >>)
InitOf(op) ==
    IF op.h = "tell" THEN ARec("ApplicationPrivateData", << Get(op, "application_private_data") >>)
    ELSE ARec("InitRunspacePool", << Arg(op, "min_runspaces", AInt(1)), Arg(op, "max_runspaces", AInt(1)), Arg(op, "thread_options", AEnum("PSThreadOptions", 0)), Arg(op, "apartment_state", AEnum("ApartmentState", 2)),
                                     Or(Get(op, "host"), DefaultHost), Get(op, "application_arguments") >>)
MetadataOf(op) ==
    LET nm == Get(op, "name")
    IN  ARec("GetMetadata", << IF nm.t = "list" THEN nm ELSE AList(<< nm >>), Arg(op, "command_type", AEnum("CommandTypes", 383)), Get(op, "namespace"), Get(op, "arguments") >>)

----------------------------------------------------------------------------
(* Building a pipeline: a list of operations on an empty one.  An operation *)
(* that is refused changes nothing.                                         *)

Merges == [my |-> 0, to |-> 0, e |-> 0, w |-> 0, v |-> 0, d |-> 0, i |-> 0]
NewCmd(text, script, scope) == [text |-> text, script |-> script, scope |-> scope, ps |-> <<>>, fin |-> FALSE, un |-> FALSE, m |-> Merges]
Streams == << "e", "w", "v", "d", "i" >>
RedirectOne(m, stream, to) ==
    LET n == [m EXCEPT ![stream] = to]
    IN  IF stream # "e" THEN n ELSE IF to = 0 THEN [n EXCEPT !.my = 0, !.to = 0] ELSE IF to = 8 THEN n ELSE [n EXCEPT !.my = 2, !.to = to]
Redirect(m, stream, to) == IF stream # "all" THEN RedirectOne(m, stream, to)
                           ELSE RedirectOne(RedirectOne(RedirectOne(RedirectOne(RedirectOne(m, "e", to), "w", to), "v", to), "d", to), "i", to)
\* b: an operation [o, u text, to number, v values]
Refused(cs, b) == CASE b.o \in {"arg", "param"} -> cs = <<>>
                    [] b.o = "params" -> cs = <<>> /\ b.us # <<>>
                    [] b.o = "redirect" -> cs # <<>> /\ ~(b.to \in {0, 1, 8})
                    [] b.o = "badscope" -> TRUE
                    [] OTHER -> FALSE
Build1(cs, b) ==
    LET z == Len(cs)
        add(ps) == IF ps = <<>> THEN cs ELSE [cs EXCEPT ![z].ps = @ \o ps]
    IN  IF Refused(cs, b) THEN cs
        ELSE CASE b.o = "cmd" -> Append(cs, NewCmd(b.u, FALSE, b.v[1]))
               [] b.o = "script" -> Append(cs, NewCmd(b.u, TRUE, b.v[1]))
               [] b.o = "statement" -> IF z = 0 THEN cs ELSE [cs EXCEPT ![z].fin = TRUE]
               [] b.o = "arg" -> add(<< ARec("Argument", << Nothing, b.v[1] >>) >>)
               [] b.o \in {"param", "params"} -> add([i \in DOMAIN b.v |-> ARec("Argument", << AStr(b.us[i]), b.v[i] >>)])
               [] b.o = "redirect" -> IF z = 0 THEN cs ELSE [cs EXCEPT ![z].m = Redirect(@, b.st, b.to)]
               [] b.o = "unclaimed" -> IF z = 0 THEN cs ELSE [cs EXCEPT ![z].un = ~@]
RECURSIVE Build(_, _, _), Refusals(_, _, _)
Build(cs, bs, i) == IF i > Len(bs) THEN cs ELSE Build(Build1(cs, bs[i]), bs, i + 1)
Refusals(cs, bs, i) == IF i > Len(bs) THEN <<>> ELSE << Refused(cs, bs[i]) >> \o Refusals(Build1(cs, bs[i]), bs, i + 1)

PRT(n) == AEnum("PipelineResultTypes", n)
\* protocol versions in order, and how much of a redirection each of them has
PeerVersions == << "1.10", "2.0", "2.0.9", "2.1", "2.1.99", "2.2", "2.2.0.0", "2.2.9", "2.3", "2.3.0.1", "2.4", "2.10", "3.0", "3.1", "3.2", "3.3", "10.0" >>
Level(ver) == LET i == CHOOSE i \in DOMAIN PeerVersions : PeerVersions[i] = ver IN IF i >= 9 THEN 3 ELSE IF i >= 6 THEN 2 ELSE 0
\* minor: as Level of the peer's protocol version
CommandOf(c, minor) ==
    ARec("Command", << AStr(c.text), AList(c.ps), ABool(c.script), c.scope, PRT(c.m.my), PRT(c.m.to), PRT(IF c.un THEN 3 ELSE 0) >>
                    \o [k \in 1..4 |-> IF minor >= 2 THEN PRT(c.m[Streams[k]]) ELSE Absent] \o << IF minor >= 3 THEN PRT(c.m.i) ELSE Absent >>)
RECURSIVE Statements(_, _, _)
Statements(cs, i, part) == IF i > Len(cs) THEN IF part = <<>> THEN <<>> ELSE << part >>
                           ELSE IF cs[i].fin THEN << Append(part, cs[i]) >> \o Statements(cs, i + 1, <<>>)
                           ELSE Statements(cs, i + 1, Append(part, cs[i]))
PipelineOf(op, minor) ==
    LET cs == Build(<<>>, op.b, 1)
        ss == Statements(cs, 1, <<>>)
    IN  ARec("PowerShell", << Arg(op, "no_input", ABool(TRUE)), Or(Get(op, "apartment_state"), op.pool), Arg(op, "remote_stream_options", AEnum("RemoteStreamOptions", 0)), Arg(op, "add_to_history", ABool(FALSE)),
                              Or(Get(op, "host"), DefaultHost), Arg(op, "is_nested", ABool(FALSE)), Arg(op, "is_nested", ABool(FALSE)), Get(op, "history"), Arg(op, "redirect_shell_error_to_out", ABool(TRUE)),
                              AList([i \in DOMAIN ss |-> AList([j \in DOMAIN ss[i] |-> CommandOf(ss[i][j], minor)])]) >>)
=============================================================================
