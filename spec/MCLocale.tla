------------------------------ MODULE MCLocale ------------------------------
(***************************************************************************)
(* All histories of one locale, up to a length: files that come, change    *)
(* and go, domains that are loaded, attached and made the default.         *)
(* A history begins with some of the files in place.                       *)
(*                                                                         *)
(* The invariants tell the properties from the history alone.              *)
(***************************************************************************)
EXTENDS I18n

CONSTANTS Depth, Export

\* ---- the alphabet -----------------------------------------------------------
Quoted(s) == <<QU, s, QU, NL>>
Msg(i, s) == <<"msgid", " ">> \o Quoted(i) \o <<"msgstr", " ">> \o Quoted(s)
Paths == [p1 |-> <<"M1", "de_DE", "LC_MESSAGES", "d.po">>, p2 |-> <<"M1", "de", "LC_MESSAGES", "d.po">>,
          p3 |-> <<"M1", "de_DE", "d.po">>, e1 |-> <<"M1", "de_DE", "e.po">>]
Order(d) == IF d = "d" THEN <<"p1", "p2", "p3">> ELSE <<"e1">>     \* where domain d is looked for
\* the second version has another text, and lacks a string
Says(p, v) == IF v = 1 THEN Msg("a", p \o "v1") \o Msg("b", p \o "b") ELSE Msg("a", p \o "v2")
Write(p, v) == [op |-> "write", path |-> Paths[p], text |-> Says(p, v), p |-> p, v |-> v]
OpSeq == SetToSeq(UNION {
  {Write(p, v) : p \in DOMAIN Paths, v \in {1, 2}},
  {[op |-> "rm", path |-> Paths[p], p |-> p] : p \in DOMAIN Paths},
  {[op |-> "ladd", l |-> "l", d |-> d, as |-> "x" \o d] : d \in {"d", "e"}},
  {[op |-> "lset", l |-> "l", d |-> d] : d \in {"d", "e", "none"}},
  {[op |-> "lattach", l |-> "l", d |-> "d", at |-> "po"], [op |-> "lattach", l |-> "l", d |-> "e", at |-> ""]},
  {[op |-> "set", o |-> "po", c |-> "", i |-> "a", s |-> "stored"]},
  {[op |-> "parse", o |-> "po", text |-> Msg("b", "parsed")]},
  {[op |-> "lbin", l |-> "l", to |-> "l"]}})
ASSUME Export => PrintT("OPS " \o ToJson(OpSeq))

\* ---- behaviours ---------------------------------------------------------------
VARIABLES h, w, left
vars == <<h, w, left>>
Start == [World0 EXCEPT !.objs = "po" :> EmptyCat, !.locs = "l" :> NewLoc("M1", "", "de_DE")]
Later(x, op) == Step1(x, [obs |-> TRUE] @@ op).w
RECURSIVE Run(_, _)
Run(x, js) == IF js = <<>> THEN x ELSE Run(Later(x, OpSeq[js[1]]), Tail(js))
First == {j \in 1..Len(OpSeq) : OpSeq[j].op = "write" /\ OpSeq[j].v = 1}
Init == \E S \in SUBSET First : h = SetToSeq(S) /\ w = Run(Start, h) /\ left = Depth
Next == \E j \in 1..Len(OpSeq) :
  /\ left > 0
  /\ left' = left - 1
  /\ h' = Append(h, j)
  /\ w' = [Later(w, OpSeq[j]) EXCEPT !.k = 0]
  /\ Export => PrintT("SCENARIO " \o ToJson(h'))
View == w

\* ---- the properties, over the history --------------------------------------------
L == Len(h)
E(j) == OpSeq[h[j]]
Latest(S) == CHOOSE j \in S : \A m \in S : m <= j
\* the version in file p after j calls, 0 if there is no file
Version(p, j) ==
  LET S == {m \in 1..j : E(m).op \in {"write", "rm"} /\ E(m).p = p} IN
  IF S = {} THEN 0 ELSE IF E(Latest(S)).op = "rm" THEN 0 ELSE E(Latest(S)).v
Found(d, j) == SelectSeq(Order(d), LAMBDA p : Version(p, j) > 0)
\* the calls that gave domain d what it has
Gives(d) == {j \in 1..L : (E(j).op = "ladd" /\ E(j).d = d /\ Found(d, j) # <<>>) \/ (E(j).op = "lattach" /\ E(j).d = d)}
\* what catalogue po holds after the calls up to j
PoText1(i, j) ==
  LET S == {m \in 1..j : E(m).op = IF i = "a" THEN "set" ELSE "parse"} IN
  IF S = {} THEN "" ELSE IF i = "a" THEN "stored" ELSE "parsed"
\* decoding what the locale itself encoded makes a copy of the attached translator: later changes do not show
Text(d, i) ==
  IF Gives(d) = {} THEN ""
  ELSE LET j == Latest(Gives(d))
           copies == {m \in (j + 1)..L : E(m).op = "lbin"}
       IN IF E(j).op = "lattach"
            THEN IF E(j).at = "" THEN ""
                 ELSE PoText1(i, IF copies = {} THEN L ELSE CHOOSE m \in copies : \A x \in copies : m <= x)
            ELSE LET p == Found(d, j)[1] v == Version(p, j) IN
                 IF i = "a" THEN p \o "v" \o ToString(v) ELSE IF v = 1 THEN p \o "b" ELSE ""
RECURSIVE Default(_)
Default(j) ==
  IF j = 0 THEN ""
  ELSE LET op == E(j) d == Default(j - 1) IN
    IF op.op = "lset" THEN op.d
    ELSE IF d = "" /\ op.op \in {"ladd", "lattach"} /\ j \in Gives(op.d) THEN op.d
    ELSE d
Ask(d, i) == LocText(w, "l", d, [kind |-> "g", c |-> "", i |-> i])
Or(s, i) == IF s = "" THEN i ELSE s
\* C11, C12: a domain says what the first file of the search order said when it was loaded last, or what was attached since
DomainText == \A d \in {"d", "e", "none"}, i \in {"a", "b"} :
  /\ Ask(d, i) = Or(IF d = "none" THEN "" ELSE Text(d, i), i)
  /\ LocIs(w, "l", d, [kind |-> "g", c |-> "", i |-> i]) <=> (d # "none" /\ Text(d, i) # "")
\* C12: the default is the domain named last, or the first that there was
DefaultDomain == w.locs["l"].def = Default(L)
\* C12: a call changes at most the domain it names; files on disk change nothing by themselves
Isolated == [][LET op == OpSeq[h'[Len(h')]]
                   ask(x, d, i) == LocText(x, "l", d, [kind |-> "g", c |-> "", i |-> i])
               IN \A d \in {"d", "e"}, i \in {"a", "b"} :
                    (op.op \in {"write", "rm", "lset", "lbin"} \/ (op.op \in {"ladd", "lattach"} /\ op.d # d))
                      => ask(w', d, i) = ask(w, d, i)]_vars
=============================================================================
