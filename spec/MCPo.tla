-------------------------------- MODULE MCPo --------------------------------
(***************************************************************************)
(* All sequences of lines of a PO file, up to a length, over a small       *)
(* alphabet of good and damaged lines, between two well-formed entries.    *)
(*                                                                         *)
(* The invariants say what the format promises whatever the lines are; the *)
(* exported sequences are read by the real parser.                         *)
(***************************************************************************)
EXTENDS I18n

CONSTANTS Depth, Export

Q(s) == <<QU, s, QU>>
LineSeq == <<
  <<"msgctxt", " ">> \o Q("c"),
  <<"msgctxt", " ", QU, QU>>,
  <<"msgctxt", " ", "bare">>,
  <<"msgid", " ">> \o Q("a"),
  <<"msgid", " ", QU, QU>>,
  <<"msgid", " ", QU, "open">>,
  <<"msgid_plural", " ">> \o Q("as"),
  <<"msgstr", " ">> \o Q("x"),
  <<"msgstr", "[", "0", "]", " ">> \o Q("x0"),
  <<"msgstr", "[", "1", "]", " ">> \o Q("x1"),
  <<"msgstr", "[", "q", "]", " ">> \o Q("bad"),
  Q("more"),
  <<QU, "in", QU, "side", QU>>,
  <<QU, "half">>,
  <<"#", ":", " ", "r", ":", "1">>,
  <<"#", " ", "comment">>,
  <<"#", "~", " ", "msgid", " ", QU, "o", QU>>,
  <<>>,
  <<"junk">> >>
LinesBefore == << <<"msgid", " ">> \o Q("y"), <<"msgstr", " ">> \o Q("Y") >>
LinesAfter == << <<"msgid", " ">> \o Q("z"), <<"msgstr", " ">> \o Q("Z") >>
ASSUME Export => PrintT("OPS " \o ToJson([j \in 1..Len(LineSeq) |-> [op |-> "line", text |-> LineSeq[j]]]))

VARIABLES h, s     \* the lines read, and what the reader has understood
vars == <<h, s>>
Start == Step(Step(Init0(EmptyCat), LinesBefore[1]), LinesBefore[2])
Init == h = <<>> /\ s = Start
Next == \E j \in 1..Len(LineSeq) :
  /\ Len(h) < Depth
  /\ h' = Append(h, j)
  /\ s' = Step(s, LineSeq[j])
  /\ Export => PrintT("SCENARIO " \o ToJson(h'))
View == s

End == Flush(Step(Step(s, LinesAfter[1]), LinesAfter[2])).cat
Kinds == [j \in DOMAIN h |-> Kind(LineSeq[h[j]])]
IsKey(k) == k \in {"msgctxt", "msgid", "msgid_plural", "msgstr"}
LastKey == LET S == {j \in DOMAIN Kinds : IsKey(Kinds[j])} IN
           IF S = {} THEN 0 ELSE CHOOSE j \in S : \A m \in S : m <= j
FirstSaid == LET S == {j \in DOMAIN Kinds : IsKey(Kinds[j]) \/ Kinds[j] = "string"} IN
             IF S = {} THEN 0 ELSE CHOOSE j \in S : \A m \in S : m >= j
\* the entry that follows is read, under the context announced for it if there is one
EntryAfter ==
  LET z(c) == <<c, "z">> \in DOMAIN End.ents /\ Form(End.ents[<<c, "z">>], 0) = "Z"
      more == \E j \in (LastKey + 1)..Len(h) : Kinds[j] = "string" /\ Unquote(LineSeq[h[j]]).ok   \* goes on with the context
      More(c) == IF more THEN \E m \in {"more", "moremore", "moremoremore"} : z(c \o m) ELSE z(CtxOf(c))
      lost == LET S == {j \in DOMAIN h : Kinds[j] \in {"msgctxt", "msgid"}} IN   \* its context cannot be read
              S # {} /\ h[CHOOSE j \in S : \A m \in S : m <= j] = 3
  IN IF lost THEN \A k \in DOMAIN End.ents : k[2] # "z"
     ELSE IF LastKey = 0 THEN z("")
     ELSE CASE h[LastKey] = 1 -> More("c") [] h[LastKey] = 2 -> More("") [] OTHER -> z("")
\* the entry before is as it was, unless the lines go on with it
EntryBefore ==
  FirstSaid = 0 \/ Kinds[FirstSaid] \in {"msgctxt", "msgid"} =>
    <<"", "y">> \in DOMAIN End.ents /\ End.ents[<<"", "y">>] = [NewEnt EXCEPT !.f = "0" :> "Y"]
\* every entry is one that the lines name
NoInventions ==
  \A k \in DOMAIN End.ents :
    \/ k[2] \in {"y", "z"}
    \/ k[2] \in {"", "more", "moremore", "moremoremore", "a", "amore", "amoremore", "amoremoremore"} /\ \E j \in DOMAIN Kinds : Kinds[j] = "msgid"
    \/ k[2] = "" /\ \E j \in DOMAIN Kinds : Kinds[j] = "msgctxt"
\* comments, blank lines and lines that say nothing change nothing but the references to come
Layout == [][LET k == Kind(LineSeq[h'[Len(h')]]) IN
             /\ k \in {"comment", "blank", "junk"} => s' = s
             /\ k = "ref" => s' = [s EXCEPT !.refs = s'.refs]]_vars
=============================================================================
