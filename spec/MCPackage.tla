----------------------------- MODULE MCPackage -----------------------------
(***************************************************************************)
(* All histories of the package, up to a length: settings, lookups (which  *)
(* load what is missing), files that come, change and go, locales that the *)
(* user hands over.  A history begins with some of the files in place, and *)
(* a first configuration.                                                  *)
(*                                                                         *)
(* Beside the world of module I18n there is m, the same told in short: for *)
(* each language and domain the file, and its version, that was read.      *)
(* The invariants compare the two, and what a new process would answer.    *)
(***************************************************************************)
EXTENDS I18n

CONSTANTS Depth, Export

\* ---- the alphabet -----------------------------------------------------------
Quoted(s) == <<QU, s, QU, NL>>
Msg(i, s) == <<"msgid", " ">> \o Quoted(i) \o <<"msgstr", " ">> \o Quoted(s)
File(lib, lang, dom) == <<"OS", "R", lib, lang, dom \o ".po">>
PlaceOf == [Ad |-> <<"A", "de", "d">>, Ae |-> <<"A", "de", "e">>, Af |-> <<"A", "fr", "d">>, Bd |-> <<"B", "de", "d">>]
\* the second version has another text, and lacks a string
Says(p, v) == IF v = 1 THEN Msg("a", p \o "v1") \o Msg("b", p \o "b") ELSE Msg("a", p \o "v2")
Write(p, v) == [op |-> "write", path |-> File(PlaceOf[p][1], PlaceOf[p][2], PlaceOf[p][3]), text |-> Says(p, v), p |-> p, v |-> v]
Look(i) == [op |-> "get", pkg |-> TRUE, c |-> "", i |-> i]
Is(i, langs) == [op |-> "istr", pkg |-> TRUE, c |-> "", i |-> i, langs |-> langs]
Looks == {Look("a"), Look("b"), Look("a") @@ [d |-> "e"], Is("b", <<>>), Is("a", <<"fr">>), Is("b", <<"fr", "de">>) @@ [d |-> "d"]}
AddU == [op |-> "ladd", l |-> "u", d |-> "d", as |-> "ud"]
Conf == [op |-> "pconf", lib |-> "/R/A", lang |-> "de", d |-> "d"]
OpSeq == SetToSeq(UNION {
  {Write(p, v) : p \in DOMAIN PlaceOf, v \in {1, 2}},
  {[op |-> "rm", path |-> Write(p, 1).path, p |-> p] : p \in {"Ad", "Ae"}},
  {[op |-> "plib", lib |-> "/R/" \o x] : x \in {"A", "B"}},
  {[op |-> "plang", lang |-> x] : x \in {"de", "fr:de", "de:fr"}},
  {[op |-> "pdom", d |-> d] : d \in {"d", "e"}},
  {[op |-> "plocs", ls |-> <<"u">>, how |-> "locales"], AddU, Conf},
  Looks})
Number(op) == CHOOSE j \in 1..Len(OpSeq) : OpSeq[j] = op
ASSUME Export => PrintT("OPS " \o ToJson(OpSeq))

\* ---- the same told in short -----------------------------------------------------
\* fv  version of each file, 0 if there is none; lib, langs, dom, user: the settings
\* mem what was read: <<language, domain>> |-> <<file, version>>; umem of the user's locale
M0 == [fv |-> [p \in DOMAIN PlaceOf |-> 0], lib |-> "A", langs |-> <<>>, dom |-> "", mem |-> EmptyFn, umem |-> EmptyFn, user |-> FALSE]
ReadNow(m, lib, lang, dom) ==
  LET S == {p \in DOMAIN PlaceOf : PlaceOf[p] = <<lib, lang, dom>> /\ m.fv[p] > 0} IN
  IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN <<p, m.fv[p]>>
Need(m, lang, dom) ==   \* what is there stays
  IF <<lang, dom>> \in DOMAIN m.mem \/ ReadNow(m, m.lib, lang, dom) = <<>> THEN m
  ELSE LET x == [m EXCEPT !.mem = Put(@, <<lang, dom>>, ReadNow(m, m.lib, lang, dom))] IN
       IF x.user THEN [x EXCEPT !.umem = x.mem] ELSE x
RECURSIVE NeedAll(_, _)
NeedAll(m, j) == IF j > Len(m.langs) THEN m ELSE NeedAll(Need(m, m.langs[j], m.dom), j + 1)
Setting(m) == NeedAll([m EXCEPT !.mem = EmptyFn, !.user = FALSE], 1)
TextIn(m, lang, dom, i) ==
  IF <<lang, dom>> \notin DOMAIN m.mem THEN ""
  ELSE LET f == m.mem[<<lang, dom>>] IN IF i = "a" THEN f[1] \o "v" \o ToString(f[2]) ELSE IF f[2] = 1 THEN f[1] \o "b" ELSE ""
RECURSIVE Through1(_, _, _, _)
Through1(m, langs, dom, i) ==   \* the first of these languages that has it
  IF langs = <<>> THEN [m |-> m, v |-> ""]
  ELSE IF langs[1] \notin Range(m.langs) THEN Through1(m, Tail(langs), dom, i)
  ELSE LET x == Need(m, langs[1], dom) IN
       IF TextIn(x, langs[1], dom, i) # "" THEN [m |-> x, v |-> TextIn(x, langs[1], dom, i)] ELSE Through1(x, Tail(langs), dom, i)
Short(m, op) ==
  CASE op.op = "write" -> [m |-> [m EXCEPT !.fv[op.p] = op.v], v |-> ""]
    [] op.op = "rm" -> [m |-> [m EXCEPT !.fv[op.p] = 0], v |-> ""]
    [] op.op = "pconf" -> [m |-> Setting([m EXCEPT !.lib = "A", !.langs = <<"de">>, !.dom = "d"]), v |-> ""]
    [] op.op = "plib" -> [m |-> Setting([m EXCEPT !.lib = IF op.lib = "/R/A" THEN "A" ELSE "B"]), v |-> ""]
    [] op.op = "plang" -> [m |-> Setting([m EXCEPT !.langs = CASE op.lang = "de" -> <<"de">> [] op.lang = "fr:de" -> <<"fr", "de">> [] OTHER -> <<"de", "fr">>]), v |-> ""]
    [] op.op = "pdom" -> [m |-> Setting([m EXCEPT !.dom = op.d]), v |-> ""]
    [] op.op = "ladd" ->
         LET x == IF m.fv["Af"] = 0 THEN m.umem ELSE Put(m.umem, <<"fr", "d">>, <<"Af", m.fv["Af"]>>) IN
         [m |-> [m EXCEPT !.umem = x, !.mem = IF m.user THEN x ELSE @], v |-> ""]
    [] op.op = "plocs" -> [m |-> [m EXCEPT !.lib = "A", !.langs = <<"fr">>, !.dom = "d", !.mem = m.umem, !.user = TRUE], v |-> ""]
    [] op.op = "get" ->
         LET r == Through1(NeedAll(m, 1), m.langs, Opt(op, "d", m.dom), op.i) IN [r EXCEPT !.v = IF @ = "" THEN op.i ELSE @]
    [] op.op = "istr" ->
         LET r == Through1(NeedAll(m, 1), IF op.langs = <<>> THEN m.langs ELSE op.langs, Opt(op, "d", m.dom), op.i) IN [r EXCEPT !.v = @ # ""]

\* ---- behaviours ---------------------------------------------------------------
VARIABLES h, w, m, left
vars == <<h, w, m, left>>
\* the call with the answer that m gives
Told(x, op) == [obs |-> IF op.op = "ladd" THEN TRUE ELSE Short(x, op).v] @@ op
RECURSIVE Run(_, _, _)
Run(x, y, js) == IF js = <<>> THEN <<x, y>> ELSE Run(Step1(x, Told(y, OpSeq[js[1]])).w, Short(y, OpSeq[js[1]]).m, Tail(js))
First == {Number(Write(p, 1)) : p \in {"Ad", "Ae", "Bd"}}
Init == \E S \in SUBSET First :
  LET hh == SetToSeq(S) \o <<Number(Write("Af", 1)), Number(AddU), Number(Conf)>>
      x == Run([World0 EXCEPT !.locs = "u" :> NewLoc("OS", "/R/A", "fr")], M0, hh)
  IN h = hh /\ w = x[1] /\ m = x[2] /\ left = Depth
Next == \E j \in 1..Len(OpSeq) :
  /\ left > 0
  /\ left' = left - 1
  /\ h' = Append(h, j)
  /\ w' = Step1(w, Told(m, OpSeq[j])).w
  /\ m' = Short(m, OpSeq[j]).m
  /\ Export => PrintT("SCENARIO " \o ToJson(h'))
View == <<Shown(w), m>>

\* ---- the properties ----------------------------------------------------------
Answer(x, op) == Step1(x, op).want
\* C13, C14, C24: every lookup answers what the files said that were read for it
AsTold == \A q \in Looks : Step1(w, Told(m, q)).ok
\* C13: after a setting, every lookup answers as in a new process with these settings
NewProcess(x) == [World0 EXCEPT !.fs = x.fs, !.cfg = [x.cfg EXCEPT !.locs = <<>>]]
Rebuilt == OpSeq[h[Len(h)]].op \in {"pconf", "plib", "plang", "pdom"} =>
  \A q \in Looks : Answer(w, Told(m, q)) = Answer(NewProcess(w), Told(m, q))
\* C14: the first language that has a text gives it, and IsTranslated tells whether there is one
Together == \A i \in {"a", "b"} :
  LET g == Short(m, Look(i)).v t == Short(m, Is(i, <<>>)).v
      all == NeedAll(m, 1)
      has == SelectSeq(m.langs, LAMBDA x : TextIn(all, x, m.dom, i) # "") IN
  /\ t <=> g # i
  /\ t <=> has # <<>>
  /\ t => g = TextIn(all, has[1], m.dom, i)
\* C13: lookups, and files on disk, change no answer but by what is loaded for the first time
Stable == [][OpSeq[h'[Len(h')]].op \in {"get", "istr"} => \A q \in Looks : Short(m', q).v = Short(m, q).v]_vars
=============================================================================
