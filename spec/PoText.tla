------------------------------- MODULE PoText -------------------------------
(***************************************************************************)
(* The PO file format: what a text in it says.                             *)
(*                                                                         *)
(* ParsePo(c, atoms) is the catalogue that results from reading the text   *)
(* into catalogue c.  It is a line-driven state machine, as the format     *)
(* is: a line starts a field or continues the current one, and an entry    *)
(* ends where the next one (msgctxt or msgid) starts.                      *)
(***************************************************************************)
EXTENDS Catalog

\* ---- quoted strings -------------------------------------------------------
\* A quoted string as atoms, quotes included; result [ok, v] with v the atoms it denotes.
ESC == ("n" :> NL) @@ ("t" :> TAB) @@ ("r" :> CR) @@ (QU :> QU) @@ (BS :> BS)
       \* the other C escapes stand for control characters that no drivers use
Unquote(q) ==
  LET n == Len(q)
      RECURSIVE U(_, _)
      U(i, acc) ==
        IF i = n THEN [ok |-> TRUE, v |-> acc]
        ELSE IF q[i] = QU THEN [ok |-> FALSE, v |-> <<>>]
        ELSE IF q[i] = BS
          THEN IF i + 1 < n /\ q[i + 1] \in DOMAIN ESC THEN U(i + 2, Append(acc, ESC[q[i + 1]]))
               ELSE [ok |-> FALSE, v |-> <<>>]
        ELSE U(i + 1, Append(acc, q[i]))
  IN IF n >= 2 /\ q[1] = QU /\ q[n] = QU THEN U(2, <<>>)
     ELSE [ok |-> FALSE, v |-> <<>>]
UnquoteOrEmpty(q) == LET r == Unquote(q) IN IF r.ok THEN r.v ELSE <<>>

\* ---- lines ------------------------------------------------------------------
Keywords == {"msgctxt", "msgid", "msgid_plural", "msgstr"}
Kind(l) ==
  IF l = <<>> THEN "blank"
  ELSE IF l[1] = "#" THEN IF Len(l) >= 2 /\ l[2] = ":" THEN "ref" ELSE "comment"
  ELSE IF l[1] = QU THEN IF l[Len(l)] = QU THEN "string" ELSE "junk"
  ELSE IF l[1] \in Keywords /\ (Len(l) = 1 \/ l[2] \in {" ", TAB, QU, "["}) THEN l[1]
  ELSE "junk"
Rest(l) == Trim(SubSeq(l, 2, Len(l)))

\* ---- reading state ------------------------------------------------------------
\* at   field being read: "head" before the first entry, then a keyword
\* hc   header comments, ctx/id/pl/forms of the current entry as atoms, cx whether it has a context
\* idx  index of the form a continuation line belongs to, "" if none
\* refs references collected for the next entry; er those of the current one
\* keys, fseq  what was met, in order: the keys of the entries, and the form indices of each
Init0(c) == [at |-> "head", cat |-> c, hc |-> <<>>, ctx |-> <<>>, cx |-> FALSE, id |-> <<>>, pl |-> <<>>,
             f |-> [i \in {} |-> <<>>], idx |-> "", refs |-> <<>>, er |-> <<>>, keys |-> <<>>, fseq |-> <<>>, fs |-> <<>>]

Flush(s) ==   \* end of an entry
  IF s.at \in {"head", "msgctxt", "badctxt", "badid"} THEN s
  ELSE LET e == [pl |-> Concat(s.pl), f |-> [i \in DOMAIN s.f |-> Concat(s.f[i])],
                 refs |-> s.er, dirty |-> FALSE]
           k == <<IF s.cx THEN CtxOf(Concat(s.ctx)) ELSE "", Concat(s.id)>>
       IN [s EXCEPT !.cat = PutEnt(@, k[1], k[2], e),
                    !.keys = Append(@, k),
                    !.fseq = Append(@, s.fs), !.fs = <<>>,
                    !.ctx = <<>>, !.cx = FALSE, !.id = <<>>, !.pl = <<>>, !.f = [i \in {} |-> <<>>],
                    !.idx = "", !.er = <<>>]

Step(s, l) ==
  LET k == Kind(l) IN
  CASE k \in {"comment", "ref"} ->
         [s EXCEPT !.hc = IF s.at = "head" THEN Append(@, Concat(l)) ELSE @,
                   !.refs = IF k = "ref" THEN @ \o Fields(SubSeq(l, 3, Len(l))) ELSE @]
    [] k \in {"blank", "junk"} -> s
    [] k = "msgctxt" ->
         LET t == Flush(s)
             q == Unquote(Rest(l))
         IN [t EXCEPT !.at = IF q.ok THEN k ELSE "badctxt", !.ctx = q.v, !.cx = TRUE]
    [] k = "msgid" ->
         LET t == Flush(s)
             q == Unquote(Rest(l))
         IN IF q.ok /\ s.at # "badctxt"
              THEN [t EXCEPT !.at = k, !.id = q.v, !.er = s.refs, !.refs = <<>>]
              ELSE [t EXCEPT !.at = "badid", !.ctx = <<>>, !.cx = FALSE, !.refs = <<>>]
    [] s.at \in {"badctxt", "badid"} -> s     \* the rest of an entry without a key
    [] k = "msgid_plural" -> [s EXCEPT !.at = k, !.pl = UnquoteOrEmpty(Rest(l))]
    [] k = "msgstr" ->
         LET r == Rest(l)
             close == FindFrom(r, 1, {"]"})
             ixs == IF close > Len(r) THEN "" ELSE Concat(SubSeq(r, 2, close - 1))
         IN IF r # <<>> /\ r[1] = "["
              THEN IF IsDigits(ixs) /\ Len(ixs) < 10
                     THEN LET ix == ToString(ToNat(ixs)) IN
                          [s EXCEPT !.at = k, !.idx = ix, !.fs = Append(@, ToNat(ixs)),
                             !.f = Put(@, ix, UnquoteOrEmpty(Trim(SubSeq(r, close + 1, Len(r)))))]
                     ELSE [s EXCEPT !.at = k, !.idx = ""]
              ELSE [s EXCEPT !.at = k, !.idx = "0", !.f = Put(@, "0", UnquoteOrEmpty(r))]
    [] k = "string" ->
         LET v == UnquoteOrEmpty(l) IN
         CASE s.at = "msgctxt" -> [s EXCEPT !.ctx = @ \o v]
           [] s.at = "msgid" -> [s EXCEPT !.id = @ \o v]
           [] s.at = "msgid_plural" -> [s EXCEPT !.pl = @ \o v]
           [] s.at = "msgstr" -> IF s.idx = "" THEN s
                                 ELSE [s EXCEPT !.f = [@ EXCEPT ![s.idx] = @ \o v]]
           [] OTHER -> s

RECURSIVE Lines(_, _, _)
Lines(s, ls, i) == IF i > Len(ls) THEN s ELSE Lines(Step(s, Trim(ls[i])), ls, i + 1)
ReadLines(c, atoms) == Lines(Init0(c), SplitAt(atoms, NL), 1)

\* the header block of a catalogue: form 0 of the entry with the empty id
HeaderAtoms(c) == Lex(Form(Ent(c, "", ""), 0))

ParsePo(c, atoms) ==
  LET s == Flush(ReadLines(c, atoms))
  IN ReadHeaders([s.cat EXCEPT !.hc = @ \o s.hc], HeaderAtoms(s.cat))
=============================================================================
