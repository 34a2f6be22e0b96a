------------------------------- MODULE MsgGen -------------------------------
(* Operations of applications, enumerated: every argument with its boundary *)
(* values, alone and in pairs, and every short sequence of builder calls.   *)
EXTENDS Messages, Json, Randomization

CONSTANTS Set, Depth, Cap    \* Depth: how many arguments deviate from the usual at once; Cap: at most so many cases, picked at random (0: all)

----------------------------------------------------------------------------
(* The values applications give                                             *)
Node == [k |-> "Obj", g |-> "", s |-> <<>>, py |-> "", dtn |-> TRUE, tn |-> <<>>, ad |-> <<>>, ex |-> <<>>, hts |-> FALSE, ts |-> <<>>, c |-> "", it |-> <<>>]
Prim(g, s) == [Node EXCEPT !.k = "prim", !.g = g, !.s = s]
Pr(n, v) == [n |-> U(n), v |-> v]
Exc(msg, data, res, inner, src) == << Pr("Message", msg), Pr("Data", data), Pr("HelpLink", 1), Pr("HResult", res), Pr("InnerException", inner), Pr("Source", src), Pr("StackTrace", 1), Pr("TargetSite", 1) >>
Nodes == <<
  (* 1 *) [Node EXCEPT !.k = "Nil"],
  (* 2 *) [Prim("S", U("v")) EXCEPT !.py = "str"],
  (* 3 *) [Prim("I32", U("5")) EXCEPT !.py = "int"],
  (* 4 *) Prim("B", << 1 >>),
  (* 5 *) [Node EXCEPT !.py = "PSCustomObject", !.ex = << Pr("a", 3), Pr("me", 5) >>],
  (* 6 *) [Node EXCEPT !.py = "PSList", !.c = "LST", !.it = << 5, 3, 5 >>],
  (* 7 *) [Node EXCEPT !.py = "PSDict", !.c = "DCT", !.it = << 2, 5 >>],
  (* 8 *) [Node EXCEPT !.py = "NETException", !.ad = Exc(2, 1, 3, 1, 1)],
  (* 9 *) [Node EXCEPT !.py = "PSCustomObject", !.dtn = FALSE, !.tn = << U("My.Own"), U("System.Object") >>, !.hts = TRUE, !.ts = U("shown"), !.ex = << Pr("b", 6) >>],
  (* 10 *) [Node EXCEPT !.py = "PSDict", !.c = "DCT"],
  (* 11 *) [Node EXCEPT !.py = "PSList", !.c = "LST"],
  (* 12 *) [Node EXCEPT !.k = "enum", !.py = "ConsoleColor", !.s = U("12")],
  (* 13 *) Prim("B", << 0 >>),
  (* 14 *) [Prim("S", <<>>) EXCEPT !.py = "str"],
  (* 15 *) Prim("I64", U("9223372036854775807")),
  (* 16 *) [Node EXCEPT !.py = "NETException", !.dtn = FALSE, !.tn = << U("System.ArgumentException"), U("System.Exception"), U("System.Object") >>, !.ad = Exc(14, 10, 1, 8, 2)],
  (* 17 *) Prim("DT", << 2021, 2, 3, 4, 5, 6, 7000000, 1, 60 >>),
  (* 18 *) Prim("S", << 95, 120, 48, 48, 48, 65, 95, 0, 10, 55357 >>),
  (* 19 *) [Node EXCEPT !.py = "PSPrimitiveDictionary", !.c = "DCT"],
  (* 20 *) [Node EXCEPT !.py = "PSPrimitiveDictionary", !.c = "DCT", !.it = << 2, 3, 14, 13, 18, 17, 21, 22, 23, 24, 25, 6, 26, 1 >>],
  (* 21 *) [Prim("S", U("PSVersionTable")) EXCEPT !.py = "str"],
  (* 22 *) [Node EXCEPT !.py = "PSPrimitiveDictionary", !.c = "DCT", !.it = << 27, 29, 28, 29 >>],
  (* 23 *) [Prim("S", U("inner")) EXCEPT !.py = "str"],
  (* 24 *) [Node EXCEPT !.py = "PSPrimitiveDictionary", !.c = "DCT", !.it = << 2, 15 >>],
  (* 25 *) [Prim("S", U("list")) EXCEPT !.py = "str"],
  (* 26 *) [Prim("S", U("none")) EXCEPT !.py = "str"],
  (* 27 *) [Prim("S", U("PSRemotingProtocolVersion")) EXCEPT !.py = "str"],
  (* 28 *) [Prim("S", U("SerializationVersion")) EXCEPT !.py = "str"],
  (* 29 *) Prim("Version", U("2.2")),
  (* 30 *) [Node EXCEPT !.py = "PSPrimitiveDictionary", !.c = "DCT", !.it = << 21, 22 >>],
  (* 31 *) [Node EXCEPT !.py = "PSPrimitiveDictionary", !.c = "DCT", !.it = << 2, 5, 21, 3, 23, 5 >>] >>
Graph == [nodes |-> Nodes, roots |-> [i \in 1..Len(Nodes) |-> i]]
V(n) == [t |-> "any", s |-> <<>>, c |-> <<>>, n |-> n]
Values == { V(n) : n \in 1..18 }

Texts == { AStr(u) : u \in { <<>>, U("a"), U("_x000A_ <&> \"'"), << 10, 9, 0 >>, << 55357, 56832 >>, << 55357 >>, << 233, 8232, 65535 >> } }
Posns == { AInt(n) : n \in {0, 1, -1, 2147483647} }
Ints == { AInt(n) : n \in {0, 1, -1, 2147483647, -2147483647} } \cup { A("int", U("-2147483648"), <<>>) }
Bools == { ABool(TRUE), ABool(FALSE) }
Flags == {"ControlKeyStates", "ReadKeyOptions", "PSCredentialTypes", "PSCredentialUIOptions", "RemoteStreamOptions", "CommandTypes", "PipelineResultTypes"}
EnumVals(c) == { AEnum(c, Enums[c].m[i].v) : i \in DOMAIN Enums[c].m } \cup (IF c \in Flags THEN { AEnum(c, n) : n \in {0, 3} \cup (IF c = "ControlKeyStates" THEN {511, 37} ELSE IF c = "ReadKeyOptions" THEN {15, 9} ELSE {}) } ELSE {})
CharVals == { A("char", IntText(n), <<>>) : n \in {0, 9, 32, 97, 95, 233, 55296, 65535} }
Opt0(S) == S \cup { Nothing }

\* records with at most one field that is not the usual
Devs(name, fs) == { ARec(name, [i \in DOMAIN fs |-> fs[i].d]) } \cup UNION { { ARec(name, [i \in DOMAIN fs |-> IF i = j THEN v ELSE fs[i].d]) : v \in fs[j].v } : j \in DOMAIN fs }
D(d, v) == [d |-> d, v |-> v]
NoCells == ARec("BufferCell", << A("char", U("97"), <<>>), AEnum("ConsoleColor", 1), AEnum("ConsoleColor", 2), AEnum("BufferCellType", 0) >>)
Cells == Devs("BufferCell", << D(A("char", U("97"), <<>>), CharVals), D(AEnum("ConsoleColor", 1), EnumVals("ConsoleColor")), D(AEnum("ConsoleColor", 2), EnumVals("ConsoleColor")), D(AEnum("BufferCellType", 0), { AEnum("BufferCellType", 1), AEnum("BufferCellType", 2) }) >>)
CellNo(i) == [NoCells EXCEPT !.c[1] = A("char", IntText(97 + i), <<>>), !.c[2] = AEnum("ConsoleColor", i % 16)]
Grid(h, w) == AList([r \in 1..h |-> AList([k \in 1..w |-> CellNo(10 * r + k)])])
Grids == { Grid(h, w) : h \in 1..3, w \in 1..3 } \cup { AList(<< AList(<< c, NoCells >>) >>) : c \in Cells } \cup { Grid(1, 7), Grid(7, 1) }
Choices1 == Devs("ChoiceDescription", << D(AStr(U("&Yes")), Texts), D(Nothing, Texts) >>)
ChoiceLists == { AList(<< c >>) : c \in Choices1 } \cup { AList(<<>>), AList(<< ARec("ChoiceDescription", << AStr(U("a")), Nothing >>), ARec("ChoiceDescription", << AStr(U("b")), AStr(U("h")) >>), ARec("ChoiceDescription", << AStr(U("a")), Nothing >>) >>) }
Fields1 == Devs("FieldDescription", << D(AStr(U("name")), Texts), D(AStr(<<>>), Opt0(Texts)), D(AStr(U("String")), Opt0(Texts)), D(AStr(U("System.String")), Opt0(Texts)), D(Nothing, Texts), D(AStr(U("h")), Opt0(Texts)), D(ABool(TRUE), Bools) >>)
FieldLists == { AList(<< f >>) : f \in Fields1 } \cup { AList(<<>>), AList(<< CHOOSE f \in Fields1 : f.c[7] = ABool(FALSE), CHOOSE f \in Fields1 : f.c[5] # Nothing >>) }
Secrets == { A("secret", u, <<>>) : u \in { <<>>, U("p@ss _x0041_"), << 55357, 56832, 233 >>, << 55357 >> } }
Creds == Devs("PSCredential", << D(AStr(U("user")), Texts), D(A("secret", U("x"), <<>>), Secrets) >>)
Dates == { A("dt", s, <<>>) : s \in { << 1, 1, 1, 0, 0, 0, 0, 0, 0 >>, << 2021, 12, 31, 23, 59, 59, 9999999, 1, -330 >>, << 9999, 12, 31, 1, 2, 3, 10, 1, 0 >> } }
UInts == { AInt(0), AInt(7), A("int", U("4294967295"), <<>>) }

----------------------------------------------------------------------------
(* Operations from arguments: d the usual value, v the others               *)
Req(k, d, v) == [k |-> k, d |-> d, v |-> v, opt |-> FALSE]
May(k, d, v) == [k |-> k, d |-> d, v |-> v, opt |-> TRUE]
On(v) == [on |-> TRUE, v |-> v]
Off == [on |-> FALSE, v |-> Nothing]
Least(as) == [i \in DOMAIN as |-> IF as[i].opt THEN Off ELSE On(as[i].d)]
Full(as) == [i \in DOMAIN as |-> On(as[i].d)]
Dev(as, B) == B \cup UNION { UNION { { [b EXCEPT ![i] = x] : x \in { On(v) : v \in as[i].v \cup { as[i].d } } \cup (IF as[i].opt THEN { Off } ELSE {}) } : i \in DOMAIN as } : b \in B }
Take(S, n) == IF n = 0 \/ Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)
RECURSIVE DevN(_, _, _)
DevN(as, B, n) == IF n = 0 THEN B ELSE DevN(as, Dev(as, Take(B, 30)), n - 1)
Given(as) == Dev(as, { Least(as), Full(as) }) \cup (IF Depth < 2 THEN {} ELSE Take(DevN(as, { Least(as), Full(as) }, Depth), Cap))
ArgsOf(as, b) == LET on(i) == b[i].on IN [j \in DOMAIN SelectSeq([i \in DOMAIN as |-> i], on) |-> LET i == SelectSeq([k \in DOMAIN as |-> k], on)[j] IN [k |-> as[i].k, v |-> b[i].v]]
Op(h, as, b) == [h |-> h, a |-> ArgsOf(as, b), b |-> <<>>, pool |-> AEnum("ApartmentState", 2)]
Case(kind, op) == [kind |-> kind, at |-> "pipe", mi |-> 0, ver |-> "2.3", own |-> "2.3", op |-> op]
Ops(kind, h, as) == { Case(kind, Op(h, as, b)) : b \in Given(as) }

Color == EnumVals("ConsoleColor")
CellArgs == << Req("character", A("char", U("97"), <<>>), CharVals), May("foreground", AEnum("ConsoleColor", 3), Color), May("background", AEnum("ConsoleColor", 4), Color) >>
Four(a, b, c, d) == << Req(a, AInt(1), Ints), Req(b, AInt(2), Ints), Req(c, AInt(3), Ints), Req(d, AInt(4), Ints) >>
XYArgs == << Req("x", AInt(5), Ints), Req("y", AInt(6), Ints) >>
WHArgs == << Req("width", AInt(5), Ints), Req("height", AInt(6), Ints) >>
ProgressArgs == << Req("activity", AStr(U("act")), Texts), Req("activity_id", AInt(3), Ints), Req("status_description", AStr(U("st")), Texts), May("current_operation", AStr(U("op")), Opt0(Texts)),
                   May("parent_activity_id", AInt(4), Ints), May("percent_complete", AInt(5), Ints), May("record_type", AEnum("ProgressRecordType", 1), EnumVals("ProgressRecordType")), May("seconds_remaining", AInt(6), Ints) >>
Line == << Req("line", AStr(U("l")), Texts) >>
CallArgs == [
  set_should_exit |-> << Req("exit_code", AInt(2), Ints) >>,
  write |-> << Req("value", AStr(U("w")), Texts), May("foreground_color", AEnum("ConsoleColor", 1), Color \cup {Nothing}), May("background_color", AEnum("ConsoleColor", 2), Color \cup {Nothing}) >>,
  write_line |-> << May("line", AStr(U("w")), Opt0(Texts)), May("foreground_color", AEnum("ConsoleColor", 1), Color \cup {Nothing}), May("background_color", AEnum("ConsoleColor", 2), Color \cup {Nothing}) >>,
  write_error_line |-> Line, write_debug_line |-> Line, write_verbose_line |-> Line, write_warning_line |-> Line,
  write_progress |-> << Req("source_id", AInt(9), Ints) >> \o ProgressArgs,
  prompt |-> << Req("caption", AStr(U("c")), Texts), Req("message", AStr(U("m")), Texts), Req("descriptions", CHOOSE f \in FieldLists : Len(f.c) = 2, FieldLists) >>,
  prompt_for_credential |-> << May("caption", AStr(U("c")), Texts), May("message", AStr(U("m")), Texts), May("username", AStr(U("u")), Opt0(Texts)), May("target_name", AStr(U("t")), Opt0(Texts)),
                               May("allowed_credential_types", AEnum("PSCredentialTypes", 1), Opt0(EnumVals("PSCredentialTypes"))), May("options", AEnum("PSCredentialUIOptions", 2), Opt0(EnumVals("PSCredentialUIOptions"))) >>,
  prompt_for_choice |-> << Req("caption", AStr(U("c")), Texts), Req("message", AStr(U("m")), Texts), Req("choices", CHOOSE f \in ChoiceLists : Len(f.c) = 3, ChoiceLists), May("default_choice", AInt(1), Ints) >>,
  prompt_for_multiple_choice |-> << Req("caption", AStr(U("c")), Texts), Req("message", AStr(U("m")), Texts), Req("choices", CHOOSE f \in ChoiceLists : Len(f.c) = 3, ChoiceLists),
                                    May("default_choices", AList(<< AInt(0), AInt(2) >>), { Nothing, AList(<<>>), AList(<< AInt(0) >>), AList(<< AInt(1) >>), AList(<< AInt(0), AInt(0) >>), AList(<< AInt(0), AInt(-1), AInt(0) >>) }) >>,
  set_foreground_color |-> << Req("color", AEnum("ConsoleColor", 3), Color) >>, set_background_color |-> << Req("color", AEnum("ConsoleColor", 3), Color) >>,
  set_cursor_position |-> XYArgs, set_window_position |-> XYArgs, set_cursor_size |-> << Req("size", AInt(25), Ints) >>, set_buffer_size |-> WHArgs, set_window_size |-> WHArgs,
  set_window_title |-> << Req("title", AStr(U("t")), Texts) >>,
  read_key |-> << May("options", AEnum("ReadKeyOptions", 8), EnumVals("ReadKeyOptions")) >>,
  set_buffer_cells |-> Four("left", "top", "right", "bottom") \o CellArgs,
  set_buffer_contents |-> XYArgs \o << Req("contents", Grid(2, 3), Grids) >>,
  get_buffer_contents |-> Four("left", "top", "right", "bottom"),
  scroll_buffer_contents |-> Four("source_left", "source_top", "source_right", "source_bottom") \o XYArgs \o Four("clip_left", "clip_top", "clip_right", "clip_bottom") \o CellArgs ]
PlainCalls == {"get_name", "get_version", "get_instance_id", "get_current_culture", "get_current_ui_culture", "enter_nested_prompt", "exit_nested_prompt", "notify_begin_application", "notify_end_application", "read_line",
               "read_line_as_secure_string", "get_foreground_color", "get_background_color", "get_cursor_position", "get_window_position", "get_cursor_size", "get_buffer_size", "get_window_size", "get_window_title",
               "get_max_window_size", "get_max_physical_window_size", "get_key_available", "flush_input_buffer", "pop_runspace", "get_is_runspace_pushed"}
AtBoth(S) == S \cup { [x EXCEPT !.at = "pool"] : x \in S }
Calls(z) == AtBoth(UNION { Ops("call", h, CallArgs[h]) : h \in DOMAIN CallArgs } \cup { Case("call", Op(h, <<>>, <<>>)) : h \in PlainCalls })

AnswerArgs == [
  get_name |-> [mi |-> 1, a |-> << Req("name", AStr(U("n")), Texts) >>],
  get_version |-> [mi |-> 2, a |-> << Req("version", A("version", U("5.1"), <<>>), { A("version", u, <<>>) : u \in { U("0.0"), U("1.2.3"), U("2147483647.1.2.3") } }) >>],
  get_instance_id |-> [mi |-> 3, a |-> << Req("instance_id", A("guid", U("01234567-89ab-cdef-0123-456789abcdef"), <<>>), { A("guid", U("00000000-0000-0000-0000-000000000000"), <<>>), A("guid", U("ffffffff-ffff-ffff-ffff-ffffffffffff"), <<>>) }) >>],
  get_current_culture |-> [mi |-> 4, a |-> << Req("culture", AStr(U("en-AU")), Texts) >>], get_current_ui_culture |-> [mi |-> 5, a |-> << Req("culture", AStr(U("en-AU")), Texts) >>],
  get_is_runspace_pushed |-> [mi |-> 54, a |-> << Req("is_pushed", ABool(TRUE), Bools) >>],
  read_line |-> [mi |-> 11, a |-> Line], read_line_as_secure_string |-> [mi |-> 12, a |-> << Req("line", A("secret", U("s"), <<>>), Secrets) >>],
  prompt |-> [mi |-> 23, a |-> << Req("choices", V(7), { V(10) }) >>],
  prompt_for_credential |-> [mi |-> 24, a |-> << Req("credential", ARec("PSCredential", << AStr(U("user")), A("secret", U("x"), <<>>) >>), Creds) >>],
  prompt_for_choice |-> [mi |-> 26, a |-> << Req("choice", AInt(2), Ints) >>],
  prompt_for_multiple_choice |-> [mi |-> 56, a |-> << Req("choices", AList(<< AInt(0), AInt(2) >>), { AList(<<>>), AInt(1), AInt(0), AList(<< AInt(-1), AInt(3), AInt(3) >>) }) >>],
  get_foreground_color |-> [mi |-> 27, a |-> << Req("color", AEnum("ConsoleColor", 3), Color) >>], get_background_color |-> [mi |-> 29, a |-> << Req("color", AEnum("ConsoleColor", 3), Color) >>],
  get_cursor_position |-> [mi |-> 31, a |-> XYArgs], get_window_position |-> [mi |-> 33, a |-> XYArgs], get_cursor_size |-> [mi |-> 35, a |-> << Req("size", AInt(2), Ints) >>],
  get_buffer_size |-> [mi |-> 37, a |-> WHArgs], get_window_size |-> [mi |-> 39, a |-> WHArgs], get_max_window_size |-> [mi |-> 43, a |-> WHArgs], get_max_physical_window_size |-> [mi |-> 44, a |-> WHArgs],
  get_window_title |-> [mi |-> 41, a |-> << Req("title", AStr(U("t")), Texts) >>], get_key_available |-> [mi |-> 45, a |-> << Req("waiting", ABool(TRUE), Bools) >>],
  read_key |-> [mi |-> 46, a |-> << Req("character", A("char", U("97"), <<>>), CharVals), Req("key_down", ABool(TRUE), Bools), May("control_key_state", AEnum("ControlKeyStates", 9), EnumVals("ControlKeyStates")), May("key_code", AInt(65), Ints) >>],
  get_buffer_contents |-> [mi |-> 50, a |-> << Req("cells", Grid(2, 3), Grids) >>] ]

----------------------------------------------------------------------------
(* Records                                                                  *)
Extents == Devs("ScriptExtent", << D(AStr(U("C:\\f.ps1")), Opt0(Texts)), D(AInt(1), Opt0(Posns)), D(AInt(2), Opt0(Posns)), D(AInt(3), Opt0(Posns)), D(AInt(4), Opt0(Posns)) >>)
Infos == Devs("CommandInfo", << D(AEnum("CommandTypes", 8), EnumVals("CommandTypes") \ { AEnum("CommandTypes", 0) }), D(AStr(U("Get-It")), Opt0(Texts)), D(AStr(U("def")), Opt0(Texts)), D(AEnum("SessionStateEntryVisibility", 0), EnumVals("SessionStateEntryVisibility")) >>)
InvBare == ARec("InvocationInfo", << V(1), Nothing, Nothing, Nothing, Nothing, Nothing, Nothing, Nothing, Nothing, Nothing, Nothing, Nothing, Nothing, Nothing, Nothing, Nothing, V(1) >>)
InvFull == << D(V(7), { V(1), V(10) }), D(AEnum("CommandOrigin", 1), Opt0(EnumVals("CommandOrigin"))), D(ABool(TRUE), Opt0(Bools)), D(AInt(12), Opt0(Posns) \cup { A("int", U("9223372036854775807"), <<>>) }), D(AStr(U("gi")), Opt0(Texts)),
              D(AStr(U("gi x")), Opt0(Texts)), D(CHOOSE x \in Extents : x.c[5] = AInt(1), Opt0(Extents)), D(CHOOSE x \in Infos : x.c[3] = AStr(<<>>), Opt0(Infos)), D(AInt(3), Opt0(Posns)), D(AInt(4), Opt0(Posns)), D(AInt(5), Opt0(Posns)),
              D(AStr(U("at l")), Opt0(Texts)), D(AInt(6), Opt0(Posns)), D(AStr(U("C:\\f.ps1")), Opt0(Texts)), D(AStr(U("C:\\f.ps1")), Opt0(Texts)), D(AStr(U("C:\\")), Opt0(Texts)), D(V(6), { V(1), V(11) }) >>
\* without a position of its own, the line, script and offset say where it was
InvLoose == [i \in DOMAIN InvFull |-> IF i = 7 THEN D(Nothing, {}) ELSE InvFull[i]]
InvNull == { ARec("InvocationInfo", [i \in 1..17 |-> IF i = j THEN v ELSE InvBare.c[i]]) : << j, v >> \in UNION { { << k, w >> : w \in InvFull[k].v } : k \in 1..17 } }
Invocs == { InvBare } \cup Devs("InvocationInfo", InvFull) \cup Devs("InvocationInfo", InvLoose) \cup InvNull
InvDefault == ARec("InvocationInfo", [i \in 1..17 |-> InvFull[i].d])
Details == Devs("ErrorDetails", << D(AStr(U("dm")), Opt0(Texts)), D(AStr(U("ra")), Opt0(Texts)) >>)
Categories == Devs("ErrorCategoryInfo", << D(AEnum("ErrorCategory", 7), EnumVals("ErrorCategory")), D(AStr(U("act")), Opt0(Texts)), D(AStr(U("why")), Opt0(Texts)), D(AStr(U("tn")), Opt0(Texts)), D(AStr(U("tt")), Opt0(Texts)) >>)
              \cup { ARec("ErrorCategoryInfo", << AEnum("ErrorCategory", 0), Nothing, Nothing, Nothing, Nothing >>) }
Iteration == << May("invocation_info", InvDefault, Invocs), May("pipeline_iteration_info", AList(<< AInt(1), AInt(0), AInt(3) >>), { AList(<<>>), AList(<< AInt(-1) >>) }) >>
\* pipeline positions come with invocation details
Sound(op) == (Get(op, "pipeline_iteration_info") = Nothing) = (Get(op, "invocation_info") = Nothing)
ErrorArgs == << Req("exception", V(8), { V(16) }), May("category_info", CHOOSE x \in Categories : x.c[1] = AEnum("ErrorCategory", 9), Categories), May("target_object", V(9), Values), May("fully_qualified_error_id", AStr(U("Id,X")), Opt0(Texts)),
                May("error_details", CHOOSE x \in Details : x.c[2] = AStr(<<>>), Details), May("script_stack_trace", AStr(U("at <ScriptBlock>")), Opt0(Texts)) >> \o Iteration
MessageArgs == << Req("message", AStr(U("msg")), Opt0(Texts)) >> \o Iteration
InformationArgs == << Req("message_data", V(2), Values), Req("source", AStr(U("src")), Opt0(Texts)), May("time_generated", CHOOSE d \in Dates : d.s[1] = 2021, Dates), May("tags", AList(<< AStr(U("t1")), AStr(U("t2")) >>), { Nothing, AList(<<>>), AList(<< AStr(<<>>) >>) }),
                      May("user", AStr(U("u")), Texts), May("computer", AStr(U("c")), Texts), May("process_id", AInt(1), UInts), May("native_thread_id", AInt(2), UInts), May("managed_thread_id", AInt(3), UInts) >>
EventArgs == << Req("event_identifier", AInt(3), Ints), Req("source_identifier", AStr(U("s")), Opt0(Texts)), May("sender", V(5), Values), May("source_args", AList(<< V(5), V(2), V(5) >>), { AList(<< v >>) : v \in Values } \cup { AList(<<>>), Nothing }),
                May("message_data", V(5), Values), May("time_generated", CHOOSE d \in Dates : d.s[1] = 2021, Dates), May("computer", AStr(U("c")), Texts) >>
ErrorOps(z) == { c \in Ops("error", "", ErrorArgs) : Sound(c.op) } \cup { Case("error", [Op("", ErrorArgs, [Full(ErrorArgs) EXCEPT ![7] = On(v)]) EXCEPT !.b = <<>>]) : v \in Invocs }
MessageOps(z) == UNION { { c \in Ops("message", h, MessageArgs) : Sound(c.op) } \cup { Case("message", Op(h, MessageArgs, [Full(MessageArgs) EXCEPT ![2] = On(v)])) : v \in Invocs } : h \in {"write_debug", "write_verbose", "write_warning"} }
\* an error record as the answer of a host call
Errors(z) == { [ErrorOf(c.op) EXCEPT !.c[4].c = SubSeq(@, 1, 5)] : c \in ErrorOps(0) }
Answers(z) == AtBoth(UNION { { [c EXCEPT !.mi = AnswerArgs[h].mi] : c \in Ops("answer", h, AnswerArgs[h].a) } : h \in DOMAIN AnswerArgs }
                  \cup { [Case("answer", [Op("raw", <<>>, <<>>) EXCEPT !.a = << [k |-> "value", v |-> v] >>]) EXCEPT !.mi = 55] : v \in Values \ { V(1) } }
                  \cup { [Case("answer", [Op("raw", <<>>, <<>>) EXCEPT !.a = << [k |-> "error", v |-> e] >>]) EXCEPT !.mi = m] : e \in Take(Errors(0), 60), m \in {1, 23, 46, 50} })

----------------------------------------------------------------------------
(* Pipelines                                                                *)
B(o, u, us, v, st, to) == [o |-> o, u |-> u, us |-> us, v |-> v, st |-> st, to |-> to, via |-> FALSE]
Steps == { B("cmd", U("Get-A"), <<>>, << Nothing >>, "", 0), B("cmd", U("_x0041_"), <<>>, << ABool(TRUE) >>, "", 0), B("cmd", <<>>, <<>>, << ABool(FALSE) >>, "", 0), B("script", U("1 | % { $_ }"), <<>>, << Nothing >>, "", 0), B("script", << 10 >>, <<>>, << ABool(FALSE) >>, "", 0),
           B("statement", <<>>, <<>>, <<>>, "", 0), B("arg", <<>>, <<>>, << V(5) >>, "", 0), B("arg", <<>>, <<>>, << V(1) >>, "", 0), B("param", <<>>, << U("Name") >>, << V(5) >>, "", 0), B("param", <<>>, << U("Sw") >>, << V(4) >>, "switch", 0),
           B("param", <<>>, << U("Name") >>, << V(14) >>, "", 0), B("params", <<>>, << U("b"), U("a") >>, << V(6), V(13) >>, "", 0), B("params", <<>>, <<>>, <<>>, "", 0), B("badscope", U("bad"), <<>>, <<>>, "", 0), B("unclaimed", <<>>, <<>>, <<>>, "", 0) }
Redirects == { B("redirect", <<>>, <<>>, <<>>, st, to) : st \in {"all", "e", "w", "v", "d", "i"}, to \in {0, 1, 2, 8} }
Start == { b \in Steps : b.o \in {"cmd", "script"} }
RECURSIVE SeqN(_, _)
SeqN(S, n) == IF n = 0 THEN { <<>> } ELSE { Append(q, b) : q \in SeqN(S, n - 1), b \in S }
Ways(bs) == { bs, [i \in DOMAIN bs |-> [bs[i] EXCEPT !.via = TRUE]] }
PipeOp(as, b, pool, bs) == [Op("", as, b) EXCEPT !.b = bs, !.pool = AEnum("ApartmentState", pool)]
HostDatas == Devs("HostDefaultData", << D(AEnum("ConsoleColor", 1), Color), D(AEnum("ConsoleColor", 2), Color) >> \o [i \in 1..2 |-> D(ARec("Coordinates", << AInt(i), AInt(i + 2) >>), { ARec("Coordinates", << x, AInt(1) >>) : x \in Ints })]
                       \o << D(AInt(7), Ints) >> \o [i \in 1..4 |-> D(ARec("Size", << AInt(i), AInt(2 * i) >>), { ARec("Size", << AInt(3), x >>) : x \in Ints })] \o << D(AStr(U("title")), Texts) >>)
Hosts == Devs("HostInfo", << D(ABool(FALSE), Bools), D(ABool(FALSE), Bools), D(ABool(FALSE), Bools), D(ABool(FALSE), Bools), D(CHOOSE x \in HostDatas : x.c[5] = AInt(1), Opt0(HostDatas)) >>) \cup { DefaultHost }
PipeArgs == << May("add_to_history", ABool(TRUE), Bools), May("apartment_state", AEnum("ApartmentState", 0), EnumVals("ApartmentState")), May("history", AStr(U("h")), Opt0(Texts)), May("host", CHOOSE x \in Hosts : x.c[1] = ABool(TRUE) /\ x.c[5] # Nothing, Hosts),
               May("is_nested", ABool(TRUE), Bools), May("no_input", ABool(FALSE), Bools), May("remote_stream_options", AEnum("RemoteStreamOptions", 1), EnumVals("RemoteStreamOptions")), May("redirect_shell_error_to_out", ABool(FALSE), Bools) >>
Simple == << B("script", U("x"), <<>>, << Nothing >>, "", 0) >>
PipeCase(as, b, pool, bs, ver, own) == [Case("pipeline", PipeOp(as, b, pool, bs)) EXCEPT !.ver = ver, !.own = own]
OptionOps(z) == { PipeCase(PipeArgs, b, pool, Simple, "2.3", "2.3") : b \in Given(PipeArgs), pool \in 0..2 }
BuildOps(n) == { PipeCase(<<>>, <<>>, 2, bs, "2.3", "2.3") : bs \in UNION { Ways(q) : q \in Take(SeqN(Steps, n), Cap) } }
BuildMore(n) == { PipeCase(<<>>, <<>>, 2, << a >> \o bs, "2.3", "2.3") : a \in Start, bs \in UNION { Ways(q) : q \in Take(SeqN(Steps \cup Redirects, n), Cap) } }
RedirectOps(z) == { PipeCase(<<>>, <<>>, 2, Simple \o bs, ver, own) : bs \in Take(SeqN(Redirects, 2), Cap) \cup SeqN(Redirects, 1) \cup { <<>> }, ver \in { PeerVersions[i] : i \in DOMAIN PeerVersions }, own \in {"2.0", "3.0"} }
ArgOps(z) == { PipeCase(<<>>, <<>>, 2, Simple \o bs, "2.3", "2.3") : bs \in { << B("arg", <<>>, <<>>, << v >>, "", 0) >> : v \in Values } \cup { << B("param", <<>>, << AStr(u).s >>, << v >>, "", 0), B("arg", <<>>, <<>>, << v >>, "", 0) >> : u \in { t.s : t \in Texts }, v \in Values } }
TextOps(z) == { PipeCase(<<>>, <<>>, 2, << B(o, t.s, <<>>, << sc >>, "", 0) >>, "2.3", "2.3") : o \in {"cmd", "script"}, t \in Texts, sc \in Opt0(Bools) }
NameLists == { AList(<<>>), AList(<< AStr(U("a*")), AStr(<<>>) >>) } \cup Texts
MetadataArgs == << Req("name", AStr(U("Get-*")), NameLists), May("command_type", AEnum("CommandTypes", 8), EnumVals("CommandTypes")), May("namespace", AList(<< AStr(U("m")) >>), { Nothing, AList(<<>>), AList(<< AStr(<<>>), AStr(U("x")) >>) }),
                   May("arguments", AList(<< V(5), V(5) >>), { Nothing, AList(<<>>) } \cup { AList(<< v, V(5) >>) : v \in Values }) >>
InitArgs == << Req("application_arguments", V(19), { V(20), V(31) }), May("min_runspaces", AInt(2), Ints), May("max_runspaces", AInt(3), Ints), May("thread_options", AEnum("PSThreadOptions", 1), EnumVals("PSThreadOptions")),
               May("apartment_state", AEnum("ApartmentState", 0), EnumVals("ApartmentState")), May("host", CHOOSE x \in Hosts : x.c[1] = ABool(TRUE) /\ x.c[5] # Nothing, Hosts) >>
InitOps(z) == Ops("init", "ask", InitArgs) \cup { Case("init", [Op("tell", <<>>, <<>>) EXCEPT !.a = << [k |-> "application_private_data", v |-> v] >>]) : v \in { V(20), V(30), V(31) } }
MetadataOps(z) == Ops("metadata", "", MetadataArgs) \cup { Case("count", [Op("", <<>>, <<>>) EXCEPT !.a = << [k |-> "count", v |-> n] >>]) : n \in Ints }
ValueOps(z) == { Case("value", [Op(h, <<>>, <<>>) EXCEPT !.a = << [k |-> "value", v |-> v] >>]) : h \in {"output", "input"}, v \in Values \ { V(1) } }

----------------------------------------------------------------------------
Cases == CASE Set = "calls" -> Calls(0) [] Set = "answers" -> Answers(0)
           [] Set = "errors" -> ErrorOps(0) [] Set = "messages" -> MessageOps(0) [] Set = "information" -> Ops("information", "", InformationArgs) [] Set = "progress" -> Ops("progress", "", ProgressArgs) [] Set = "events" -> Ops("event", "", EventArgs)
           [] Set = "options" -> OptionOps(0) [] Set = "build" -> BuildOps(Depth) [] Set = "build_more" -> BuildMore(Depth) [] Set = "redirects" -> RedirectOps(0) [] Set = "args" -> ArgOps(0) \cup TextOps(0) [] Set = "metadata" -> MetadataOps(0)
           [] Set = "init" -> InitOps(0)
           [] Set = "values" -> ValueOps(0)
VARIABLE case
Init == case \in Cases
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
Emit == PrintT(ToJson(case))
ASSUME PrintT(ToJson([graph |-> Graph]))
=============================================================================
