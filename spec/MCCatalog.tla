----------------------------- MODULE MCCatalog -----------------------------
(***************************************************************************)
(* All histories of calls on one or two catalogues, up to a length, over a *)
(* small alphabet; TLC explores them all.                                  *)
(*                                                                         *)
(* The invariants state the properties over the history itself ("what was  *)
(* stored last under this key ..."), without the state that module Catalog *)
(* keeps, so that the two formulations check each other.                   *)
(*                                                                         *)
(* With Export, each transition between different worlds is printed as a   *)
(* scenario (the shortest history that leads there); the driver makes the  *)
(* same calls on real objects and looks at everything.                     *)
(***************************************************************************)
EXTENDS I18n

CONSTANTS Depth, Kinds, Objs, Export

\* ---- the alphabet -----------------------------------------------------------
Quoted(s) == <<QU>> \o (IF s = "" THEN <<>> ELSE <<s>>) \o <<QU, NL>>
Line(kw, s) == <<kw, " ">> \o Quoted(s)
Form1(i, s) == <<"msgstr", "[", ToString(i), "]", " ">> \o Quoted(s)
Header(rel) == Line("msgid", "") \o <<"msgstr", " ", QU, "Plural-Forms", ":", " ", "nplurals=2;", " ", "plural=(n", " ", rel, " ", "1);", BS, "n", QU, NL, NL>>
TextOf == [A |-> Header("!=") \o <<"#", ":", " ", "f", ":", "1", NL>> \o Line("msgid", "a") \o Line("msgid_plural", "as") \o Form1(0, "A0") \o Form1(1, "A1")
                 \o Line("msgctxt", "c") \o Line("msgid", "a") \o Line("msgstr", "Ac"),
           B |-> Line("msgid", "a") \o Line("msgstr", "B") \o Line("msgctxt", "") \o Line("msgid", "a") \o Line("msgstr", "Be"),
           C |-> Header("==") \o Line("msgctxt", "c") \o Line("msgid", "a") \o Line("msgid_plural", "as") \o Form1(0, "") \o Form1(1, "C1")
                 \o Line("msgid", "b") \o Line("msgstr", "")]
\* what these texts say, for the invariants: forms, plural id and references by key; the rule
Says == [A |-> (<<"", "a">> :> [f |-> <<"A0", "A1">>, pl |-> "as", r |-> <<"f:1">>]) @@ (<<"c", "a">> :> [f |-> <<"Ac", "">>, pl |-> "", r |-> <<>>]),
         B |-> (<<"", "a">> :> [f |-> <<"B", "">>, pl |-> "", r |-> <<>>]) @@ (<<EMPTY, "a">> :> [f |-> <<"Be", "">>, pl |-> "", r |-> <<>>]),
         C |-> (<<"c", "a">> :> [f |-> <<"", "C1">>, pl |-> "as", r |-> <<>>]) @@ (<<"", "b">> :> [f |-> <<"", "">>, pl |-> "", r |-> <<>>])]
RuleOf == [A |-> "not one", B |-> "", C |-> "one"]

Keys == {<<"", "a">>, <<"c", "a">>, <<EMPTY, "a">>, <<"", "b">>}
Ns == {0, 1, 2}
N(n) == <<0, n>>
On(kind, S) == IF kind \in Kinds THEN S ELSE {}
Ops == UNION {
  On("set", {[op |-> "set", o |-> o, c |-> k[1], i |-> k[2], s |-> "x"] : o \in Objs, k \in Keys}),
  On("clear", {[op |-> "set", o |-> o, c |-> k[1], i |-> k[2], s |-> ""] : o \in Objs, k \in {<<"", "a">>, <<"c", "a">>}}),
  On("setn", {[op |-> "setn", o |-> o, c |-> k[1], i |-> k[2], p |-> "pp", n |-> N(n), s |-> "y"] : o \in Objs, k \in {<<"", "a">>, <<"c", "a">>}, n \in {1, 2}}),
  On("parse", {[op |-> "parse", o |-> o, text |-> TextOf[f], file |-> f] : o \in Objs, f \in DOMAIN TextOf}),
  On("drop", {[op |-> "drop", o |-> o] : o \in Objs}),
  On("setrefs", {[op |-> "setrefs", o |-> o, i |-> i, r |-> <<"new:2", "new:3">>] : o \in Objs, i \in {"a"}}),
  On("res", {[op |-> "res", o |-> o, r |-> "one"] : o \in Objs}),
  On("bin", {[op |-> "bin", o |-> o, to |-> p] : o \in Objs, p \in Objs})}
OpSeq == SetToSeq(Ops)
ASSUME Export => PrintT("OPS " \o ToJson(OpSeq))

\* ---- behaviours ---------------------------------------------------------------
VARIABLES h, w
vars == <<h, w>>
Start == [World0 EXCEPT !.objs = [o \in Objs |-> EmptyCat]]
Init == h = <<>> /\ w = Start
Next == \E j \in 1..Len(OpSeq) :
  /\ Len(h) < Depth
  /\ h' = Append(h, j)
  /\ w' = Step1(w, OpSeq[j]).w
  /\ Export => PrintT("SCENARIO " \o ToJson(h'))
View == w

\* ---- the properties, over the history --------------------------------------------
E(j) == OpSeq[h[j]]
Hits(op, x, k) == op.o = x /\ "i" \in DOMAIN op /\ op.i = k[2] /\ Ctx(op) = k[1]
Res(x) == LET js == {j \in 1..Len(h) : E(j).op = "res" /\ E(j).o = x} IN js # {}
\* name of the rule that catalogue x has after j calls
RECURSIVE Rule(_, _)
Rule(x, j) ==
  IF j = 0 THEN ""
  ELSE LET op == E(j) IN
    CASE op.op = "bin" /\ op.to = x -> Rule(op.o, j - 1)
      [] op.op = "parse" /\ op.o = x /\ RuleOf[op.file] # "" -> RuleOf[op.file]
      [] OTHER -> Rule(x, j - 1)
Custom(x, j) == \E m \in 1..j : E(m).op = "res" /\ E(m).o = x
Ix(x, j, n) ==
  CASE Rule(x, j) = "not one" -> (IF n = 1 THEN 0 ELSE 1)
    [] Rule(x, j) = "one" -> (IF n = 1 THEN 1 ELSE 0)
    [] OTHER -> IF Custom(x, j) THEN 1 ELSE IF n = 1 THEN 0 ELSE 1
\* has a setter touched the entry since it was loaded
RECURSIVE Touched(_, _, _)
Touched(x, k, j) ==
  IF j = 0 THEN FALSE
  ELSE LET op == E(j) IN
    CASE op.op = "bin" /\ op.to = x -> FALSE
      [] op.op \in {"set", "setn", "setrefs"} /\ Hits(op, x, k) -> TRUE
      [] op.op = "parse" /\ op.o = x /\ k \in DOMAIN Says[op.file] -> FALSE
      [] OTHER -> Touched(x, k, j - 1)
RECURSIVE Exists(_, _, _)
Exists(x, k, j) ==
  IF j = 0 THEN FALSE
  ELSE LET op == E(j) IN
    CASE op.op = "bin" /\ op.to = x -> Exists(op.o, k, j - 1)
      [] op.op \in {"set", "setn", "setrefs"} /\ Hits(op, x, k) -> TRUE
      [] op.op = "parse" /\ op.o = x /\ k \in DOMAIN Says[op.file] -> TRUE
      [] op.op = "drop" /\ op.o = x -> Touched(x, k, j - 1)
      [] OTHER -> Exists(x, k, j - 1)
\* the text stored last as form i
RECURSIVE Stored(_, _, _, _)
Stored(x, k, i, j) ==
  IF j = 0 THEN ""
  ELSE LET op == E(j) IN
    CASE op.op = "bin" /\ op.to = x -> Stored(op.o, k, i, j - 1)
      [] op.op = "set" /\ Hits(op, x, k) /\ i = 0 -> op.s
      [] op.op = "setn" /\ Hits(op, x, k) /\ i = Ix(x, j - 1, op.n[2]) -> op.s
      [] op.op = "parse" /\ op.o = x /\ k \in DOMAIN Says[op.file] -> Says[op.file][k].f[i + 1]
      [] op.op = "drop" /\ op.o = x -> IF Touched(x, k, j - 1) THEN Stored(x, k, i, j - 1) ELSE ""
      [] OTHER -> Stored(x, k, i, j - 1)
RECURSIVE Plural1(_, _, _)
Plural1(x, k, j) ==
  IF j = 0 THEN ""
  ELSE LET op == E(j) IN
    CASE op.op = "bin" /\ op.to = x -> Plural1(op.o, k, j - 1)
      [] op.op = "setn" /\ Hits(op, x, k) -> LET p == Plural1(x, k, j - 1) IN IF p = "" THEN op.p ELSE p
      [] op.op = "parse" /\ op.o = x /\ k \in DOMAIN Says[op.file] -> Says[op.file][k].pl
      [] op.op = "drop" /\ op.o = x -> IF Touched(x, k, j - 1) THEN Plural1(x, k, j - 1) ELSE ""
      [] OTHER -> Plural1(x, k, j - 1)
RECURSIVE RefsOf(_, _, _)
RefsOf(x, k, j) ==
  IF j = 0 THEN <<>>
  ELSE LET op == E(j) IN
    CASE op.op = "bin" /\ op.to = x -> RefsOf(op.o, k, j - 1)
      [] op.op = "setrefs" /\ Hits(op, x, k) -> op.r
      [] op.op = "parse" /\ op.o = x /\ k \in DOMAIN Says[op.file] -> Says[op.file][k].r
      [] op.op = "drop" /\ op.o = x -> IF Touched(x, k, j - 1) THEN RefsOf(x, k, j - 1) ELSE <<>>
      [] OTHER -> RefsOf(x, k, j - 1)

L == Len(h)
Cat(x) == w.objs[x]
\* C01
LastStored == \A x \in Objs, k \in Keys :
  LET s == Stored(x, k, 0, L) IN Get(Cat(x), k[1], k[2]) = IF s = "" THEN k[2] ELSE s
\* C02
FormOfRule == \A x \in Objs, k \in Keys, n \in Ns :
  LET i == Ix(x, L, n) s == Stored(x, k, i, L) p == Plural1(x, k, L) IN
  GetN(Cat(x), k[1], k[2], "many", N(n)) =
    IF ~Exists(x, k, L) THEN (IF k[1] = "" THEN (IF i = 0 THEN k[2] ELSE "many") ELSE IF n = 1 THEN k[2] ELSE "many")
    ELSE IF s # "" THEN s
    ELSE IF i = 0 THEN k[2]
    ELSE IF p # "" THEN p ELSE "many"
\* C03
TruthOfIs == \A x \in Objs, k \in Keys :
  /\ IsTr(Cat(x), k[1], k[2]) <=> Stored(x, k, 0, L) # ""
  /\ \A n \in Ns : IsTrN(Cat(x), k[1], k[2], N(n)) <=> Stored(x, k, Ix(x, L, n), L) # ""
\* C18, C17
Staleness == \A x \in Objs, k \in Keys :
  /\ Has(Cat(x), k[1], k[2]) <=> Exists(x, k, L)
  /\ Exists(x, k, L) => /\ Ent(Cat(x), k[1], k[2]).dirty = Touched(x, k, L)
                        /\ Ent(Cat(x), k[1], k[2]).refs = RefsOf(x, k, L)
                        /\ Ent(Cat(x), k[1], k[2]).pl = Plural1(x, k, L)
\* a snapshot says what the lookups say
SnapshotSays == \A x \in Objs, k \in Keys :
  LET S == {v \in Snapshot(Cat(x), k[1] # "") : v.c = k[1] /\ v.i = k[2]} IN
  /\ Cardinality(S) = IF Exists(x, k, L) THEN 1 ELSE 0
  /\ \A v \in S : \A i \in {0, 1} : (Stored(x, k, i, L) # "") <=> (\E f \in v.f : f = <<ToString(i), Stored(x, k, i, L)>>)
\* C01, C18: a call changes nothing under other keys, nor in other objects
Local == [][LET op == OpSeq[h'[Len(h')]] IN
  \A x \in Objs, k \in Keys :
    (op.op \in {"set", "setn", "setrefs"} /\ ~Hits(op, x, k)) \/ (op.op # "bin" /\ op.o # x) \/ (op.op = "bin" /\ op.to # x)
      => /\ Get(w'.objs[x], k[1], k[2]) = Get(w.objs[x], k[1], k[2])
         /\ Has(w'.objs[x], k[1], k[2]) = Has(w.objs[x], k[1], k[2])
         /\ \A n \in Ns : GetN(w'.objs[x], k[1], k[2], "many", N(n)) = GetN(w.objs[x], k[1], k[2], "many", N(n))]_vars
=============================================================================
