------------------------------- MODULE Catalog -------------------------------
(***************************************************************************)
(* A message catalogue: the state shared by Domain, Po and Mo objects, and *)
(* what every call on it does and answers.                                 *)
(*                                                                         *)
(* A catalogue is a record                                                 *)
(*   ents  function from <<context, id>> to entries; context "" is none,   *)
(*         EMPTY the empty one                                             *)
(*   hdr   header map: key |-> sequence of values                          *)
(*   lang, pf   values of the Language and Plural-Forms headers            *)
(*   rule  compiled plural rule (an ast of module Plural, or NONE)         *)
(*   res   name of the custom plural resolver ("" = none)                  *)
(*   hc    header comments                                                 *)
(* and an entry is a record                                                *)
(*   pl    plural id ("" = none)                                           *)
(*   f     forms: decimal index |-> text                                   *)
(*   refs  source references                                               *)
(*   dirty touched by a setter since it was loaded                         *)
(***************************************************************************)
EXTENDS Plural

EMPTY == "<empty>"
\* the key of a context with this text
CtxOf(t) == IF t = "" THEN EMPTY ELSE t
CtxText(k) == IF k = EMPTY THEN "" ELSE k

NoForms == [i \in {} |-> ""]
NewEnt == [pl |-> "", f |-> NoForms, refs |-> <<>>, dirty |-> FALSE]
EmptyFn == [k \in {} |-> <<>>]
EmptyCat == [ents |-> EmptyFn, hdr |-> EmptyFn, lang |-> "", pf |-> "",
             rule |-> NONE, res |-> "", hc |-> <<>>]

Has(c, ctx, id) == <<ctx, id>> \in DOMAIN c.ents
Ent(c, ctx, id) == IF Has(c, ctx, id) THEN c.ents[<<ctx, id>>] ELSE NewEnt
Put(fn, k, v) == (k :> v) @@ fn
PutEnt(c, ctx, id, e) == [c EXCEPT !.ents = Put(@, <<ctx, id>>, e)]
Form(e, i) == IF ToString(i) \in DOMAIN e.f THEN e.f[ToString(i)] ELSE ""

\* ---- plural index ---------------------------------------------------------
\* The custom resolvers the drivers install, by name.  Those that divide look at the low 32 bits of n.
Low32(n) == <<n[1] % 65536, n[2]>>
Resolve(res, n) ==
  CASE res = "zero"  -> 0
    [] res = "one"   -> 1
    [] res = "two"   -> 2
    [] res = "mod3"  -> ToInt(ModL(Low32(n), <<0, 3>>))
    [] res = "french" -> IF LtL(<<0, 1>>, n) THEN 1 ELSE 0
    [] res = "tens"  -> ToInt(ModL(Low32(n), <<0, 13>>))
    [] res = "last"  -> ToInt(ModL(Low32(n), <<0, 10>>))
\* Rules are claimed for n in 0..2^32-1 only, resolvers and the Germanic rule for every integer:
\* the first limb may be negative or have more than 16 bits.
Wide(n) == n[1] \notin 0..65535
Index(c, n) ==
  IF c.rule # NONE THEN Eval(c.rule, n)
  ELSE IF c.res # "" THEN Resolve(c.res, n)
  ELSE Germanic(n)

\* ---- lookups ----------------------------------------------------------------
Get(c, ctx, id) == LET t == Form(Ent(c, ctx, id), 0) IN IF t = "" THEN id ELSE t

GetN(c, ctx, id, plural, n) ==
  IF ~Has(c, ctx, id)
    THEN IF ctx = ""
           THEN IF Index(c, n) = 0 THEN id ELSE plural
           ELSE IF n = <<0, 1>> THEN id ELSE plural
    ELSE LET e == Ent(c, ctx, id)
             i == Index(c, n)
             t == Form(e, i)
         IN IF t # "" THEN t
            ELSE IF i = 0 THEN id
            ELSE IF e.pl # "" THEN e.pl ELSE plural

IsTr(c, ctx, id) == Form(Ent(c, ctx, id), 0) # ""
IsTrN(c, ctx, id, n) == Form(Ent(c, ctx, id), Index(c, n)) # ""

Refs(c, id) == Ent(c, "", id).refs

\* ---- setters ----------------------------------------------------------------
SetForm(c, ctx, id, i, s) ==
  LET e == Ent(c, ctx, id) IN
  PutEnt(c, ctx, id, [e EXCEPT !.f = Put(@, ToString(i), s), !.dirty = TRUE])
Set(c, ctx, id, s) == SetForm(c, ctx, id, 0, s)
SetN(c, ctx, id, plural, n, s) ==
  LET d == SetForm(c, ctx, id, Index(c, n), s)
      e == Ent(d, ctx, id)
  IN IF e.pl = "" THEN PutEnt(d, ctx, id, [e EXCEPT !.pl = plural]) ELSE d
SetRefs(c, id, refs) ==
  PutEnt(c, "", id, [Ent(c, "", id) EXCEPT !.refs = refs, !.dirty = TRUE])
Drop(c) ==
  LET keep == {k \in DOMAIN c.ents : c.ents[k].dirty}
  IN [c EXCEPT !.ents = [k \in keep |-> @[k]]]
SetRes(c, r) == [c EXCEPT !.res = r]

\* ---- snapshots ----------------------------------------------------------------
\* entries as records a driver can print; ctx selects context-free or context entries
EntView(k, e) == [c |-> k[1], i |-> k[2], p |-> e.pl,
                  f |-> {<<j, e.f[j]>> : j \in {j \in DOMAIN e.f : e.f[j] # ""}},
                  r |-> e.refs, s |-> ~e.dirty]
Snapshot(c, withctx) ==
  {EntView(k, c.ents[k]) : k \in {k \in DOMAIN c.ents : (k[1] # "") = withctx}}
EntOfView(v) == [c |-> v.c, i |-> v.i, p |-> v.p, f |-> {x \in Range(v.f) : x[2] # ""}, r |-> v.r, s |-> v.s]

\* ---- headers --------------------------------------------------------------------
\* The header block is the text of the entry with the empty id, as atoms.
HdrLines(atoms) ==
  LET ls == SplitAt(atoms, NL)
      good == SelectSeq(ls, LAMBDA l : l # <<>> /\ FindFrom(l, 1, {":"}) <= Len(l))
      kv(l) == LET p == FindFrom(l, 1, {":"})
               IN <<Concat(SubSeq(l, 1, p - 1)), Concat(Trim(SubSeq(l, p + 1, Len(l))))>>
  IN [j \in 1..Len(good) |-> kv(good[j])]
HdrGet(h, k) == IF k \in DOMAIN h /\ h[k] # <<>> THEN h[k][1] ELSE ""
\* the spelling under which a header was given last in this block, or its canonical one
KeyIn(lines, canon) ==
  LET js == {j \in 1..Len(lines) : Lower(lines[j][1]) = Lower(canon)}
  IN IF js = {} THEN canon ELSE lines[CHOOSE j \in js : \A m \in js : m <= j][1]

\* value of the plural= part of a Plural-Forms header
PluralPart(pf) ==
  LET parts == SplitStr(pf, ";")
      cut(j) == CutAt(parts[j], "=")
      js == {j \in 1..Len(parts) : cut(j).found /\ Concat(Trim(Chars(cut(j).a))) = "plural"}
  IN IF js = {} THEN "" ELSE cut(CHOOSE j \in js : \A m \in js : m <= j).b

\* what reading a header block does to a catalogue
ReadHeaders(c, atoms) ==
  LET lines == HdrLines(atoms)
      keys == {lines[j][1] : j \in 1..Len(lines)}
      vals(k) == LET sel == SelectSeq(lines, LAMBDA kv : kv[1] = k)
                 IN [j \in 1..Len(sel) |-> sel[j][2]]
      h == [k \in keys |-> vals(k)] @@ c.hdr
      pf == HdrGet(h, KeyIn(lines, "Plural-Forms"))
      comp == Compile(PluralPart(pf))
  IN [c EXCEPT !.hdr = h, !.lang = HdrGet(h, KeyIn(lines, "Language")), !.pf = pf,
               !.rule = IF pf = "" THEN @ ELSE comp.ast]
=============================================================================
