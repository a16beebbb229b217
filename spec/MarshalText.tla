---------------------------- MODULE MarshalText ----------------------------
(***************************************************************************)
(* What the PO text written for a catalogue has to say, and in what order. *)
(***************************************************************************)
EXTENDS PoText

Rank == [k \in {"project-id-version", "report-msgid-bugs-to", "pot-creation-date", "po-revision-date",
                "last-translator", "language-team", "language", "mime-version", "content-type",
                "content-transfer-encoding", "plural-forms"} |->
  CASE k = "project-id-version" -> 0 [] k = "report-msgid-bugs-to" -> 1 [] k = "pot-creation-date" -> 2
    [] k = "po-revision-date" -> 3 [] k = "last-translator" -> 4 [] k = "language-team" -> 5
    [] k = "language" -> 6 [] k = "mime-version" -> 7 [] k = "content-type" -> 9
    [] k = "content-transfer-encoding" -> 10 [] k = "plural-forms" -> 11]
HdrRank(k) == LET l == Lower(k) IN IF l \in DOMAIN Rank THEN Rank[l] ELSE 8
\* xgettext's order; keys it does not know come before Content-Type, by name
HdrBefore(a, b) == HdrRank(a) < HdrRank(b) \/ (HdrRank(a) = HdrRank(b) /\ StrLess(a, b))
\* adjacent lines of the header block are in order (equal keys may repeat)
HdrSorted(lines) == \A j \in 1..Len(lines)-1 : lines[j][1] = lines[j+1][1] \/ HdrBefore(lines[j][1], lines[j+1][1])

RefPath(r) == CutAt(r, ":").a
RefLine(r) == LET t == CutAt(r, ":").b IN IF IsDigits(t) THEN ToNat(t) ELSE 0
Pos(e) == IF e.refs = <<>> THEN [p |-> "", l |-> 0] ELSE [p |-> RefPath(e.refs[1]), l |-> RefLine(e.refs[1])]
Before(c, j, k) ==
  LET x == Pos(c.ents[j]) y == Pos(c.ents[k]) IN
  \/ StrLess(x.p, y.p)
  \/ x.p = y.p /\ x.l < y.l
  \/ x.p = y.p /\ x.l = y.l /\ (StrLess(CtxText(j[1]), CtxText(k[1])) \/ (j[1] = "" /\ k[1] = EMPTY))
  \/ x.p = y.p /\ x.l = y.l /\ j[1] = k[1] /\ StrLess(j[2], k[2])

HEADER == <<"", "">>
Content(c) == {LET v == EntView(k, c.ents[k]) IN [c |-> v.c, i |-> v.i, p |-> v.p, f |-> v.f, r |-> v.r] :
               k \in DOMAIN c.ents \ {HEADER}}
HdrOf(c) == {<<k, c.hdr[k]>> : k \in {k \in DOMAIN c.hdr : c.hdr[k] # <<>>}}

\* verdict on a text written for catalogue c: "" or what is wrong with it
TextVerdict(c, atoms) ==
  LET s == Flush(ReadLines(EmptyCat, atoms))
      d == ParsePo(EmptyCat, atoms)
      keys == SelectSeq(s.keys, LAMBDA k : k # HEADER)
  IN IF Content(d) # Content(c) THEN "entries differ"
     ELSE IF HdrOf(d) # HdrOf(c) THEN "headers differ"
     ELSE IF d.hc # c.hc THEN "header comments differ"
     ELSE IF s.keys = <<>> \/ s.keys[1] # HEADER THEN "header entry is not the first"
     ELSE IF Len(keys) # Cardinality(DOMAIN c.ents \ {HEADER}) THEN "an entry is written twice"
     ELSE IF ~HdrSorted(HdrLines(HeaderAtoms(d))) THEN "headers out of order"
     ELSE IF \E j \in 1..Len(keys)-1 : ~Before(c, keys[j], keys[j+1]) THEN "entries out of order"
     ELSE IF \E j \in 1..Len(s.fseq) : \E m \in 1..Len(s.fseq[j])-1 : s.fseq[j][m] >= s.fseq[j][m+1]
       THEN "forms out of order"
     ELSE ""
=============================================================================
