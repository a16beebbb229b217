------------------------------ MODULE Extract ------------------------------
(***************************************************************************)
(* What xgotext writes for a Go program.                                   *)
(*                                                                         *)
(* A program is a record                                                   *)
(*   types  declared types: [pkg, name, k, ...]                            *)
(*            k = "struct": fields <<name, type, embedded>>, methods       *)
(*            <<name, result type>>;  k = "alias": is                      *)
(*   names  package-level variables and functions: [pkg, name, t]          *)
(*   files  [pkg, dir, file, imports, funcs, calls]                        *)
(*            imports <<name, path>>; funcs: the locals of each function,  *)
(*            <<name, type>>, outermost first; calls [fn, vis, x, m, args, *)
(*            line], with the first vis locals in scope                    *)
(* A call is x.m(args): x is an expression, args are [s |-> text] for      *)
(* string literals and [other |-> ...] for everything else.                *)
(*                                                                         *)
(* Types: named [pkg, name], ptr, slice, map, chan [of], func [ret],       *)
(* basic.  The type of an expression follows from Go's scoping and typing  *)
(* rules.                                                                  *)
(***************************************************************************)
EXTENDS PoText

GOTEXT == "github.com/leonelquinteros/gotext"
Named(p, n) == [k |-> "named", pkg |-> p, name |-> n]
Go(n) == Named(GOTEXT, n)
Ptr(t) == [k |-> "ptr", of |-> t]
FuncT(t) == [k |-> "func", ret |-> t]
NOTYPE == [k |-> "none"]

\* ---- gotext's own names ------------------------------------------------------
GoNames ==
  ("NewPo" :> FuncT(Ptr(Go("Po")))) @@ ("NewMo" :> FuncT(Ptr(Go("Mo")))) @@ ("NewDomain" :> FuncT(Ptr(Go("Domain"))))
  @@ ("NewLocale" :> FuncT(Ptr(Go("Locale")))) @@ ("GetStorage" :> FuncT(Ptr(Go("Locale"))))
  @@ ("GetLocales" :> FuncT([k |-> "slice", of |-> Ptr(Go("Locale"))]))
GoMember(t, f) ==
  CASE f = "GetDomain" /\ t \in {"Po", "Mo", "Translator", "AppendTranslator"} -> FuncT(Ptr(Go("Domain")))
    [] f = "Domains" /\ t = "Locale" -> [k |-> "map", of |-> Go("Translator")]
    [] f = "Headers" /\ t \in {"Po", "Mo", "Domain"} -> Go("HeaderMap")
    [] OTHER -> NOTYPE

\* ---- types of expressions -----------------------------------------------------
First(s, P(_)) == LET g == SelectSeq(s, P) IN IF g = <<>> THEN <<>> ELSE <<g[1]>>
Declared(p, t) == First(p.types, LAMBDA d : d.pkg = t.pkg /\ d.name = t.name)

RECURSIVE Plain(_, _)
\* a type without aliases at its head
Plain(p, t) ==
  IF t.k # "named" THEN t
  ELSE LET d == Declared(p, t) IN IF d # <<>> /\ d[1].k = "alias" THEN Plain(p, d[1].is) ELSE t

RECURSIVE Member(_, _, _)
\* field or method f of a value of type t
Member(p, t, f) ==
  LET u == Plain(p, t)
      v == IF u.k = "ptr" THEN Plain(p, u.of) ELSE u
  IN IF v.k # "named" THEN NOTYPE
     ELSE IF v.pkg = GOTEXT THEN GoMember(v.name, f)
     ELSE LET d == Declared(p, v) IN
          IF d = <<>> \/ d[1].k # "struct" THEN NOTYPE
          ELSE LET fs == First(d[1].fields, LAMBDA x : x[1] = f)
                   ms == First(d[1].methods, LAMBDA x : x[1] = f)
                   es == First(d[1].fields, LAMBDA x : x[3] = 1 /\ Member(p, x[2], f) # NOTYPE)
               IN IF fs # <<>> THEN fs[1][2]
                  ELSE IF ms # <<>> THEN FuncT(ms[1][2])
                  ELSE IF es # <<>> THEN Member(p, es[1][2], f)
                  ELSE NOTYPE

PkgMember(p, path, f) ==
  IF path = GOTEXT THEN IF f \in DOMAIN GoNames THEN GoNames[f] ELSE NOTYPE
  ELSE LET n == First(p.names, LAMBDA d : d.pkg = path /\ d.name = f) IN IF n = <<>> THEN NOTYPE ELSE n[1].t

RECURSIVE Typ(_, _, _, _)
Typ(p, f, c, e) ==
  CASE e.e = "id" ->
         LET ls == SelectSeq(SubSeq(f.funcs[c.fn], 1, c.vis), LAMBDA l : l[1] = e.name)
             own == PkgMember(p, f.pkg, e.name)
             im == First(f.imports, LAMBDA i : i[1] = e.name)
         IN IF ls # <<>> THEN ls[Len(ls)][2]
            ELSE IF own # NOTYPE THEN own
            ELSE IF im # <<>> THEN [k |-> "pkg", path |-> im[1][2]]
            ELSE NOTYPE
    [] e.e = "sel" -> LET t == Typ(p, f, c, e.x) IN IF t.k = "pkg" THEN PkgMember(p, t.path, e.f) ELSE Member(p, t, e.f)
    [] e.e = "call" -> LET t == Plain(p, Typ(p, f, c, e.x)) IN IF t.k = "func" THEN t.ret ELSE NOTYPE
    [] e.e \in {"index", "deref", "recv"} -> Plain(p, Typ(p, f, c, e.x)).of
    [] e.e = "addr" -> Ptr(Typ(p, f, c, e.x))
    [] e.e = "paren" -> Typ(p, f, c, e.x)
    [] e.e = "typed" -> e.t          \* a conversion, assertion or literal says its type
    [] OTHER -> NOTYPE

RECURSIVE Gotexts(_, _)
\* a value of one of gotext's catalogue types, or a pointer to one
Gotexts(p, t) ==
  LET u == Plain(p, t) IN
  IF u.k = "ptr" THEN Gotexts(p, u.of)
  ELSE u.k = "named" /\ u.pkg = GOTEXT /\ u.name # "HeaderMap"

\* ---- messages -------------------------------------------------------------------
\* where the methods have the id, plural, context and domain among their arguments (0: nowhere)
Where == ("Get" :> <<1, 0, 0, 0>>) @@ ("GetN" :> <<1, 2, 0, 0>>) @@ ("GetD" :> <<2, 0, 0, 1>>) @@ ("GetND" :> <<2, 3, 0, 1>>)
         @@ ("GetC" :> <<1, 0, 2, 0>>) @@ ("GetNC" :> <<1, 2, 4, 0>>) @@ ("GetDC" :> <<2, 0, 3, 1>>) @@ ("GetNDC" :> <<2, 3, 5, 1>>)
ArgOk(args, i) == i = 0 \/ (i <= Len(args) /\ "s" \in DOMAIN args[i])
ArgText(args, i) == IF i = 0 THEN "" ELSE args[i].s
Translatable(c) ==
  /\ c.m \in DOMAIN Where
  /\ \A j \in 1..4 : ArgOk(c.args, Where[c.m][j])
  /\ c.args[Where[c.m][1]].s # ""
OnGotext(p, f, c) ==
  LET t == Typ(p, f, c, c.x) IN IF t.k = "pkg" THEN t.path = GOTEXT ELSE t # NOTYPE /\ Gotexts(p, t)
Msg(c, default, ref) ==
  LET w == Where[c.m] d == ArgText(c.args, w[4]) IN
  [d |-> IF d = "" THEN default ELSE d, c |-> IF w[3] = 0 THEN "" ELSE CtxOf(ArgText(c.args, w[3])), i |-> ArgText(c.args, w[1]), p |-> ArgText(c.args, w[2]), r |-> ref]

\* ---- files --------------------------------------------------------------------------
Joined(segs) == IF segs = <<>> THEN "" ELSE Concat([j \in 1..(2 * Len(segs) - 1) |-> IF j % 2 = 1 THEN segs[(j + 1) \div 2] ELSE "/"])
Common(a, b) == LET js == {j \in 0..Len(a) : j <= Len(b) /\ SubSeq(a, 1, j) = SubSeq(b, 1, j)} IN CHOOSE j \in js : \A m \in js : m <= j
\* the path of b as seen from a
RelPath(a, b) == LET c == Common(a, b) IN [j \in 1..(Len(a) - c) |-> ".."] \o SubSeq(b, c + 1, Len(b))
Below(root, dir) == Common(root, dir) = Len(root)
\* a directory is excluded with everything below it
Excluded(root, dir, excl) ==
  LET rel == RelPath(root, dir) IN \E j \in 1..Len(rel) : Joined(SubSeq(rel, 1, j)) \in Range(excl)
ImportsOf(p, pkg) == UNION {{i[2] : i \in Range(f.imports)} : f \in {f \in Range(p.files) : f.pkg = pkg}}
RECURSIVE Reach(_, _)
Reach(p, pkgs) == LET n == pkgs \cup UNION {ImportsOf(p, q) : q \in pkgs} IN IF n = pkgs THEN n ELSE Reach(p, n)

\* the files a run looks at, and where their references start
Scanned(p, run) ==
  IF run.mode = "in"
    THEN {f \in Range(p.files) : Below(run.root, f.dir) /\ ~Excluded(run.root, f.dir, run.exclude)}
    ELSE LET r == Reach(p, {run.pkg}) IN {f \in Range(p.files) : f.pkg \in r /\ GOTEXT \in ImportsOf(p, f.pkg)}
Messages(p, run) ==
  LET base == IF run.mode = "in" THEN run.root ELSE run.cwd
      ref(f, c) == Joined(RelPath(base, f.dir) \o <<f.file>>) \o ":" \o ToString(c.line)
  IN UNION {{Msg(c, run.default, ref(f, c)) : c \in {c \in Range(f.calls) : Translatable(c) /\ OnGotext(p, f, c)}}
            : f \in Scanned(p, run)}

\* ---- POT files ------------------------------------------------------------------------
\* the entries that a set of messages of one domain makes
Keys(ms) == {<<m.c, m.i>> : m \in ms}
PluralOf(ms, k) ==
  LET ps == {m.p : m \in {m \in ms : <<m.c, m.i>> = k /\ m.p # ""}}
  IN IF ps = {} THEN "" ELSE CHOOSE x \in ps : \A y \in ps : x = y \/ StrLess(x, y)
RefsOf(ms, k) == {m.r : m \in {m \in ms : <<m.c, m.i>> = k}}
Entries(ms) == {[c |-> k[1], i |-> k[2], p |-> PluralOf(ms, k), r |-> RefsOf(ms, k)] : k \in Keys(ms)}

ALNUM == DIGITS \cup {SubSeq(UPPER, i, i) : i \in 1..26} \cup {SubSeq(LOWER, i, i) : i \in 1..26}
Simple(s) == \A j \in 1..Len(s) : Ch(s, j) \in ALNUM
\* those without context first, then by context; by id within a context
InOrder(a, b) ==
  IF a[1] = b[1] THEN StrLess(a[2], b[2])
  ELSE IF Simple(a[1]) /\ Simple(b[1]) THEN StrLess(a[1], b[1]) ELSE b[1] # ""
HeaderOk(c) ==
  LET h == ReadHeaders(c, HeaderAtoms(c))
      ct == Lower(HdrGet(h.hdr, "Content-Type"))
  IN h.pf # "" /\ h.rule # NONE /\ CutAt(ct, "=").found /\ CutAt(ct, "=").b = "utf-8"

\* what a POT file says: [ok, why, ents]
ReadPot(atoms) ==
  LET s == Flush(ReadLines(EmptyCat, atoms))
      ks == s.keys
      body == Tail(ks)
      ent(k) == LET e == Ent(s.cat, k[1], k[2]) IN [c |-> k[1], i |-> k[2], p |-> e.pl, r |-> Range(e.refs)]
      why == IF ks = <<>> \/ ks[1] # <<"", "">> THEN "no header"
             ELSE IF ~HeaderOk(s.cat) THEN "header"
             ELSE IF Cardinality(Range(ks)) # Len(ks) THEN "an entry occurs twice"
             ELSE IF \E j \in 1..(Len(body) - 1) : ~InOrder(body[j], body[j + 1]) THEN "order of the entries"
             ELSE IF \E k \in Range(body) : \E i \in DOMAIN Ent(s.cat, k[1], k[2]).f : Ent(s.cat, k[1], k[2]).f[i] # "" THEN "a translation"
             ELSE IF \E k \in Range(body) : Len(Ent(s.cat, k[1], k[2]).refs) # Cardinality(Range(Ent(s.cat, k[1], k[2]).refs)) THEN "a reference occurs twice"
             ELSE ""
  IN [why |-> why, ents |-> IF ks = <<>> THEN {} ELSE {ent(k) : k \in Range(body)}]

\* compare the files <<name, atoms>> that a run left with those that the messages make
CheckPots(files, ms) ==
  LET doms == {m.d : m \in ms}
      names == {f[1] : f \in Range(files)}
      bad(f) == LET r == ReadPot(f[2])
                    want == Entries({m \in ms : m.d \o ".pot" = f[1]})
                IN IF r.why # "" THEN <<f[1], r.why>>
                   ELSE IF r.ents # want THEN <<f[1], [missing |-> want \ r.ents, extra |-> r.ents \ want]>>
                   ELSE <<>>
  IN IF names # {d \o ".pot" : d \in doms} THEN <<"files", [missing |-> {d \o ".pot" : d \in doms} \ names, extra |-> names \ {d \o ".pot" : d \in doms}]>>
     ELSE LET bs == SelectSeq([j \in 1..Len(files) |-> bad(files[j])], LAMBDA b : b # <<>>) IN IF bs = <<>> THEN <<>> ELSE bs[1]
=============================================================================
