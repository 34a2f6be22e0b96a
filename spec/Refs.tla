-------------------------------- MODULE Refs --------------------------------
(***************************************************************************)
(* What references in a document denote.  A document is a sequence of       *)
(* places, each one an element of some kind, or a reference to an earlier   *)
(* place:                                                                   *)
(*   kind  the kind of the element, "ref" for a reference                   *)
(*   to    for a reference, the place it refers to                          *)
(*   of    for an element that holds another value (a target, an entry or a *)
(*         property), the earlier place its value refers to; 0 if none      *)
(* Where an element stands does not change what it means, and a reference   *)
(* means the very value that is at the place it refers to.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Holders == { "err_of", "info_of", "obj_of", "list_of" }
\* the kinds of elements and the class of Python they are read as
Class == [error |-> "ErrorRecord", error_full |-> "ErrorRecord", information |-> "InformationRecord", exception |-> "NETException",
          warning |-> "WarningRecord", object |-> "PSObject", named |-> "PSObject", enum |-> "ConsoleColor", flags |-> "ControlKeyStates", list |-> "PSList", dict |-> "PSDict",
          stack |-> "PSStack", queue |-> "PSQueue", listed |-> "PSIEnumerable", text |-> "PSString", number |-> "PSInt", category |-> "ErrorCategoryInfo", coordinates |-> "Coordinates", arguments |-> "PSPrimitiveDictionary", custom |-> "PSCustomObject",
          err_of |-> "ErrorRecord", info_of |-> "InformationRecord", obj_of |-> "PSObject", list_of |-> "PSList"]
Kinds == DOMAIN Class

Valid(d) == \A j \in DOMAIN d :
    /\ d[j].kind = "ref" => d[j].to \in 1..(j - 1)
    /\ d[j].kind # "ref" => d[j].kind \in Kinds /\ d[j].to = 0
    /\ IF d[j].kind \in Holders THEN d[j].of \in 1..(j - 1) ELSE d[j].of = 0
RECURSIVE Target(_, _)
Target(d, j) == IF d[j].kind = "ref" THEN Target(d, d[j].to) ELSE j
\* the place whose value is at place j, the kind of value it is, and the place whose value it holds
Meaning(d) == [j \in DOMAIN d |-> LET t == Target(d, j) IN [same |-> t, class |-> Class[d[t].kind], holds |-> IF d[t].of = 0 THEN 0 ELSE Target(d, d[t].of)]]
=============================================================================
