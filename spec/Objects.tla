------------------------------ MODULE Objects ------------------------------
(***************************************************************************)
(* The extended type system: classes with members and objects made from    *)
(* them.  A world is [cls, objs]; an operation is refused, leaving the     *)
(* world as it was, or gives another world.                                *)
(*                                                                          *)
(* value   [t kind, v text, n number]: nothing, a plain Python int or str, *)
(*         a value of a declared type, or the n-th object                   *)
(* member  [k kind, name, ty declared type, man mandatory, val, get, set]: *)
(*         notes hold a value, scripts and aliases read the member get,    *)
(*         scripts write the member set                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Val(t, v, n) == [t |-> t, v |-> v, n |-> n]
Null == Val("Nil", "", 0)
IntV(v) == Val("int", v, 0)
StrV(v) == Val("str", v, 0)
Obj(n) == Val("object", "", n)
Refused == Val("refused", "", 0)
Undefined == Val("undefined", "", 0)            \* nothing is claimed about it

Note(name, ty, man, val) == [k |-> "note", name |-> name, ty |-> ty, man |-> man, val |-> val, get |-> "", set |-> ""]
Script(name, ty, man, get, set) == [k |-> "script", name |-> name, ty |-> ty, man |-> man, val |-> Null, get |-> get, set |-> set]
Alias(name, ty, get) == [k |-> "alias", name |-> name, ty |-> ty, man |-> FALSE, val |-> Null, get |-> get, set |-> ""]

----------------------------------------------------------------------------
(* Declared types                                                           *)
Numerals == {"0", "5", "7", "-1", "2147483647", "-2147483648"}
\* what declared type ty makes of a value
Cast(ty, x) ==
    IF x \in {Null, Refused, Undefined} \/ ty = "" \/ x.t = ty THEN x
    ELSE IF ty = "PSInt" THEN IF x.t \in {"int", "str", "PSString"} /\ x.v \in Numerals THEN Val("PSInt", x.v, 0) ELSE Refused
    ELSE IF ty = "PSString" THEN IF x.t \in {"int", "str", "PSInt"} THEN Val("PSString", x.v, 0) ELSE Undefined
    ELSE Refused

----------------------------------------------------------------------------
(* Classes.  A class with its own list of type names and members adds those *)
(* of its parent after its own, unless it has one of the same name.         *)
Class(name, sup, kind, tn, ad, ex) == [name |-> name, sup |-> sup, kind |-> kind, tn |-> tn, ad |-> ad, ex |-> ex]
Declared == <<
    Class("Base", "", "struct", << "My.Base" >>, << Note("A", "PSInt", TRUE, Null), Note("D", "", FALSE, IntV("5")) >>, << Note("E", "PSString", FALSE, StrV("x")), Script("S", "", FALSE, "A", ""), Script("W", "PSString", FALSE, "A", "E"), Alias("L", "", "E") >>),
    \* more members, a parent's adapted one among its extended ones and one of each declared anew
    Class("Derived", "Base", "struct", << "My.Derived" >>, << Note("D", "PSInt", FALSE, Null), Note("N", "", FALSE, Null) >>, << Note("A", "", FALSE, Null), Note("E", "", FALSE, IntV("7")) >>),
    \* a class that adds nothing
    Class("Bare", "Base", "same", <<>>, <<>>, <<>>),
    \* one which has to be given a value that is computed
    Class("Must", "", "struct", << "My.Must" >>, << Note("A", "", FALSE, Null) >>, << Script("W", "PSInt", TRUE, "A", "A"), Alias("L", "PSString", "W") >>),
    \* nothing of the parent
    Class("Alone", "Base", "alone", << "My.Alone", "My.Other" >>, << Note("E", "", FALSE, Null) >>, <<>>),
    Class("Bag", "", "bag", << "System.Management.Automation.PSCustomObject" >>, <<>>, <<>>),
    Class("Named", "Bag", "bag", << "My.Named" >>, <<>>, << Note("A", "PSInt", TRUE, Null) >>) >>
Idx(c) == CHOOSE i \in DOMAIN Declared : Declared[i].name = c
Kind(c) == Declared[Idx(c)].kind
MembersNames(ps) == {ps[i].name : i \in DOMAIN ps}
Inherit(own, more) == LET new(p) == p.name \notin MembersNames(own) IN own \o SelectSeq(more, new)
RECURSIVE MetaOf(_)
Top == [tn |-> << "System.Object" >>, ad |-> <<>>, ex |-> <<>>]
MetaOf(c) == LET d == Declared[Idx(c)]
                 sup == IF d.sup = "" THEN Top ELSE MetaOf(d.sup)
             IN  IF d.kind = "same" THEN sup
                 ELSE IF d.kind = "alone" THEN [tn |-> d.tn, ad |-> d.ad, ex |-> d.ex]
                 ELSE [tn |-> d.tn \o sup.tn, ad |-> Inherit(d.ad, sup.ad), ex |-> Inherit(d.ex, sup.ex)]
\* defaults have the declared type too
Settle(ps) == [i \in DOMAIN ps |-> [ps[i] EXCEPT !.val = Cast(ps[i].ty, @)]]
Classes0 == [i \in DOMAIN Declared |-> LET m == MetaOf(Declared[i].name) IN [m EXCEPT !.ad = Settle(@), !.ex = Settle(@)]]
World0 == [cls |-> Classes0, objs |-> <<>>]

----------------------------------------------------------------------------
(* Reading and writing members                                              *)
At(ps, nm) == LET is == {i \in DOMAIN ps : ps[i].name = nm} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
RECURSIVE Get(_, _, _)
\* the value of a member itself
Value(w, i, p) == IF p.k = "note" THEN p.val ELSE Cast(p.ty, Get(w, i, p.get))
\* the value read under a name: what the program hung on the object, else the extended member, else the adapted one
Get(w, i, nm) ==
    LET o == w.objs[i] IN
    IF At(o.at, nm) > 0 THEN o.at[At(o.at, nm)].val
    ELSE IF At(o.ex, nm) > 0 THEN Value(w, i, o.ex[At(o.ex, nm)])
    ELSE IF At(o.ad, nm) > 0 THEN Value(w, i, o.ad[At(o.ad, nm)])
    ELSE Refused

Done(w) == [ok |-> TRUE, w |-> w]
No(w) == [ok |-> FALSE, w |-> w]
RECURSIVE Put(_, _, _, _)
PutIn(w, i, part, j, x) ==
    LET p == w.objs[i][part][j]
        y == Cast(p.ty, x)
    IN  IF p.k = "note" THEN IF y = Refused THEN No(w) ELSE Done([w EXCEPT !.objs[i][part][j].val = y])
        ELSE IF p.set = "" THEN No(w)
        ELSE Put(w, i, p.set, x)
Put(w, i, nm, x) ==
    LET o == w.objs[i] IN
    IF At(o.at, nm) > 0 THEN Done([w EXCEPT !.objs[i].at[At(o.at, nm)].val = x])
    ELSE IF At(o.ex, nm) > 0 THEN PutIn(w, i, "ex", At(o.ex, nm), x)
    ELSE IF At(o.ad, nm) > 0 THEN PutIn(w, i, "ad", At(o.ad, nm), x)
    ELSE Done([w EXCEPT !.objs[i].at = Append(@, [name |-> nm, val |-> x])])

\* adding a member
AddTo(m, p, force) ==
    LET q == [p EXCEPT !.val = Cast(p.ty, @)]
        j == At(m.ex, p.name)
    IN  IF q.val = Refused \/ (~force /\ (j > 0 \/ At(m.ad, p.name) > 0)) THEN [ok |-> FALSE, m |-> m]
        ELSE [ok |-> TRUE, m |-> IF j > 0 THEN [m EXCEPT !.ex[j] = q] ELSE [m EXCEPT !.ex = Append(@, q)]]

\* making an object: pos its values in order, kw by name
Fresh(w, c) == LET m == w.cls[Idx(IF Kind(c) = "same" THEN Declared[Idx(c)].sup ELSE c)] IN [c |-> c, tn |-> m.tn, ad |-> m.ad, ex |-> m.ex, at |-> <<>>, hts |-> FALSE, ts |-> ""]
RECURSIVE PutAll(_, _, _, _), Bagged(_, _, _)
PutAll(w, i, kw, j) == IF j > Len(kw) THEN Done(w)
                       ELSE LET r == Put(w, i, kw[j].name, kw[j].val) IN IF ~r.ok THEN r ELSE PutAll(r.w, i, kw, j + 1)
Bagged(o, kw, j) == IF j > Len(kw) THEN o
                    ELSE IF kw[j].name = "PSTypeName" THEN Bagged([o EXCEPT !.tn = << kw[j].val.v >> \o @], kw, j + 1)
                    ELSE IF At(o.ad, kw[j].name) > 0 \/ At(o.ex, kw[j].name) > 0 THEN Bagged(o, kw, j + 1)
                    ELSE Bagged([o EXCEPT !.ex = Append(@, Note(kw[j].name, "", FALSE, kw[j].val))], kw, j + 1)
New(w, op) ==
    LET o == Fresh(w, op.c)
        \* in the order they may be given
        has(p) == At(o.ad, p.name) = 0
        names == [j \in DOMAIN o.ad |-> o.ad[j].name] \o LET more == SelectSeq(o.ex, has) IN [j \in DOMAIN more |-> more[j].name]
        member(nm) == IF At(o.ex, nm) > 0 THEN o.ex[At(o.ex, nm)] ELSE o.ad[At(o.ad, nm)]
        known == {names[j] : j \in DOMAIN names}
        given == IF Len(op.pos) > Len(names) THEN {} ELSE {names[j] : j \in DOMAIN op.pos} \cup MembersNames(op.kw)
        args == IF Len(op.pos) > Len(names) THEN <<>> ELSE [j \in DOMAIN op.pos |-> [name |-> names[j], val |-> op.pos[j]]] \o op.kw
        bag == Kind(op.c) = "bag"
        ours(a) == a.name \in known
        z == Len(w.objs) + 1
        w2 == [w EXCEPT !.objs = Append(@, IF bag THEN Bagged(o, op.kw, 1) ELSE o)]
    IN  IF Len(op.pos) > (IF bag THEN 0 ELSE Len(names)) \/ (\E j \in DOMAIN op.pos : names[j] \in MembersNames(op.kw))
           \/ (\E nm \in known : member(nm).man /\ nm \notin given) \/ (~bag /\ ~(given \subseteq known)) THEN No(w)
        ELSE LET r == PutAll(w2, z, SelectSeq(args, ours), 1) IN IF r.ok THEN r ELSE No(w)

\* op: [o what, i object, c class, nm name, x value, p member, force, pos, kw]
Do(w, op) ==
    CASE op.o = "new" -> New(w, op)
      [] op.o = "set" -> Put(w, op.i, op.nm, op.x)
      [] op.o = "add" -> LET a == AddTo(w.objs[op.i], op.p, op.force) IN [ok |-> a.ok, w |-> [w EXCEPT !.objs[op.i] = a.m]]
      [] op.o = "cadd" -> LET a == AddTo(w.cls[Idx(op.c)], op.p, op.force) IN [ok |-> a.ok, w |-> [w EXCEPT !.cls[Idx(op.c)] = a.m]]
      [] op.o = "tn" -> Done([w EXCEPT !.objs[op.i].tn = << op.nm >> \o @])
      [] op.o = "untn" -> Done([w EXCEPT !.objs[op.i].tn = Tail(@)])
      [] op.o = "ts" -> Done([w EXCEPT !.objs[op.i].hts = TRUE, !.objs[op.i].ts = op.nm])

----------------------------------------------------------------------------
(* What a program can see of a world                                        *)
Names == << "A", "D", "E", "L", "N", "S", "W" >>
Marks == << "My.Base", "Deserialized.My.Base", "My.Derived", "System.Object", "Nowhere" >>
Plain(nm) == IF nm = "Deserialized.My.Base" THEN "My.Base" ELSE IF nm = "Deserialized.My.Derived" THEN "My.Derived" ELSE nm
\* whether an object is of a type, also when it was deserialized
IsA(o, nm, also) == \E j \in DOMAIN o.tn : IF also THEN Plain(o.tn[j]) = Plain(nm) ELSE o.tn[j] = nm
Look(w) == [i \in DOMAIN w.objs |-> LET o == w.objs[i] IN
    [ad |-> [j \in DOMAIN o.ad |-> [name |-> o.ad[j].name, val |-> Value(w, i, o.ad[j])]],
     ex |-> [j \in DOMAIN o.ex |-> [name |-> o.ex[j].name, val |-> Value(w, i, o.ex[j])]],
     all |-> [j \in DOMAIN Names |-> Get(w, i, Names[j])],
     tn |-> o.tn, hts |-> o.hts, ts |-> o.ts,
     isa |-> [j \in DOMAIN Marks |-> << IsA(o, Marks[j], FALSE), IsA(o, Marks[j], TRUE) >>]]]

\* reading never runs in circles
RECURSIVE Ends(_, _, _)
Ends(m, nm, n) == n > 0 /\ (LET p == IF At(m.ex, nm) > 0 THEN m.ex[At(m.ex, nm)] ELSE IF At(m.ad, nm) > 0 THEN m.ad[At(m.ad, nm)] ELSE Note(nm, "", FALSE, Null)
                            IN  p.k = "note" \/ (Ends(m, p.get, n - 1) /\ (p.set = "" \/ Ends(m, p.set, n - 1))))
Sane(m) == \A nm \in MembersNames(m.ad) \cup MembersNames(m.ex) : Ends(m, nm, 4)
\* operations whose outcome is defined
Clear(w) == \A i \in DOMAIN w.objs : LET o == Look(w)[i] IN \A part \in {"ad", "ex"} : \A j \in DOMAIN o[part] : o[part][j].val # Undefined
Fair(w, op) ==
  /\ CASE op.o \in {"set", "tn", "untn", "ts", "add"} /\ op.i \notin DOMAIN w.objs -> FALSE
      [] op.o = "set" -> op.x.t = "object" => op.x.n \in DOMAIN w.objs
      [] op.o = "add" -> /\ At(w.objs[op.i].at, op.p.name) = 0
                         /\ (op.p.val.t = "object" => op.p.val.n \in DOMAIN w.objs)
                         /\ Sane(Do(w, op).w.objs[op.i])
      [] op.o = "cadd" -> Kind(op.c) # "same" /\ op.p.val.t # "object" /\ Sane(Do(w, op).w.cls[Idx(op.c)])
      [] op.o = "untn" -> Len(w.objs[op.i].tn) > 1
      [] OTHER -> TRUE
  /\ op.o \in {"add", "cadd"} => Cast(op.p.ty, op.p.val) # Undefined
  /\ Clear(Do(w, op).w)
=============================================================================
