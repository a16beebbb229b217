-------------------------------- MODULE I18n --------------------------------
(***************************************************************************)
(* Locales and the package: files, search order, domains, configuration,   *)
(* and lookups that fall through several languages.                        *)
(*                                                                         *)
(* A world has, besides the catalogues of CatalogOps,                      *)
(*   fs    the files: sequence of path segments |-> catalogue in the file  *)
(*   locs  locales by name: [root, path, lang, doms, def]                  *)
(*           doms: domain name |-> catalogue name ("" a nil translator)    *)
(*   cfg   the package: [lib, dom, langs, locs]                            *)
(*   k     counter for the names of what the package makes                 *)
(***************************************************************************)
EXTENDS CatalogOps

Cfg0 == [lib |-> "/usr/local/share/locale", dom |-> "default", langs |-> <<"en_US">>, locs |-> <<>>]
World0 == [objs |-> EmptyFn, snaps |-> EmptyFn, loose |-> EmptyFn, wild |-> {},
           fs |-> EmptyFn, locs |-> EmptyFn, cfg |-> Cfg0, k |-> 0]

\* ---- language codes ---------------------------------------------------------
TrimStr(s) == Concat(TrimNL(Chars(s)))
Simplify(s) == TrimStr(CutAt(CutAt(CutAt(s, ":").a, "@").a, ".").a)
LangList(s) == LET l == SplitStr(s, ":") IN [j \in 1..Len(l) |-> Simplify(l[j])]
\* the ll of a ll_CC code, "" if there is no CC
Base(lang) ==
  LET cuts == SelectSeq([i \in 1..Len(lang) |-> i], LAMBDA i : Ch(lang, i) \in {"_", "-"})
  IN IF cuts = <<>> THEN "" ELSE SubSeq(lang, 1, cuts[1] - 1)

\* ---- files --------------------------------------------------------------------
Segs(path) == SelectSeq(SplitStr(path, "/"), LAMBDA x : x \notin {"", "."})
FileAt(l, dir, lc, name) ==
  SelectSeq(<<l.root>> \o Segs(l.path) \o <<dir>> \o (IF lc THEN <<"LC_MESSAGES">> ELSE <<>>) \o <<name>>,
            LAMBDA x : x # "")
\* the places of one kind of file, in search order, with the language directory they are in
Places(l, dom, ext) ==
  LET b == Base(l.lang)
      two(lc) == IF b = "" THEN << <<l.lang, lc>> >> ELSE << <<l.lang, lc>>, <<b, lc>> >>
      all == two(TRUE) \o two(FALSE)
  IN [j \in 1..Len(all) |-> [dir |-> all[j][1], at |-> FileAt(l, all[j][1], all[j][2], dom \o "." \o ext)]]
Present(w, ps) == SelectSeq(ps, LAMBDA p : p.at \in DOMAIN w.fs)
Search(w, l, dom) == Present(w, Places(l, dom, "po") \o Places(l, dom, "mo"))
Actual(w, l, dom) ==
  LET ps == Present(w, Places(l, dom, "mo") \o Places(l, dom, "po"))
  IN IF ps = <<>> THEN "" ELSE ps[1].dir

\* ---- locales ----------------------------------------------------------------------
NewLoc(root, path, lang) == [root |-> root, path |-> path, lang |-> Simplify(lang), doms |-> EmptyFn, def |-> ""]
Attach(l, dom, obj) == [l EXCEPT !.doms = Put(@, dom, obj), !.def = IF @ = "" THEN dom ELSE @]
\* load a domain into locale ln, as catalogue as; nothing happens if there is no file
AddDomain(w, ln, dom, as) ==
  LET f == Search(w, w.locs[ln], dom) IN
  IF f = <<>> THEN w
  ELSE [w EXCEPT !.objs = Put(@, as, w.fs[f[1].at]), !.locs[ln] = Attach(@, dom, as)]
Loaded(l, dom) == dom \in DOMAIN l.doms
Usable(l, dom) == Loaded(l, dom) /\ l.doms[dom] # ""
DomCat(w, ln, dom) == w.objs[w.locs[ln].doms[dom]]

\* ---- lookups in a domain of a locale: q = [kind, c, i, p, n] ------------------------
LocText(w, ln, dom, q) ==
  IF Usable(w.locs[ln], dom)
    THEN IF q.kind = "n" THEN GetN(DomCat(w, ln, dom), q.c, q.i, q.p, q.n) ELSE Get(DomCat(w, ln, dom), q.c, q.i)
    ELSE IF q.kind = "n" /\ q.n # <<0, 1>> THEN q.p ELSE q.i
LocIs(w, ln, dom, q) ==
  Usable(w.locs[ln], dom) /\ IF q.kind = "n" THEN IsTrN(DomCat(w, ln, dom), q.c, q.i, q.n) ELSE IsTr(DomCat(w, ln, dom), q.c, q.i)

\* ---- the package ----------------------------------------------------------------------
Fresh(w, j) == "pkg" \o ToString(w.k + j)
RECURSIVE AddAll(_, _, _, _)
\* every current locale loads the current domain (if need be) and makes it its default
AddAll(w, ls, j, force) ==
  IF j > Len(ls) THEN w
  ELSE LET d == w.cfg.dom
           x == IF force \/ ~Loaded(w.locs[ls[j]], d) THEN AddDomain(w, ls[j], d, Fresh(w, 0)) ELSE w
           y == [x EXCEPT !.locs[ls[j]].def = d, !.k = @ + 1]
       IN AddAll(y, ls, j + 1, force)
Reload(w, force) ==
  LET make == force \/ w.cfg.locs = <<>>
      langs == w.cfg.langs
      names == [j \in 1..Len(langs) |-> "L" \o Fresh(w, j)]
      x == IF ~make THEN w
           ELSE [w EXCEPT !.locs = [nm \in Range(names) |->
                                      LET j == CHOOSE j \in 1..Len(names) : names[j] = nm
                                      IN NewLoc("OS", w.cfg.lib, langs[j])] @@ @,
                          !.cfg.locs = names, !.k = @ + Len(langs) + 1]
  IN AddAll(x, x.cfg.locs, 1, force)

PkgDomain(w) ==
  LET l == w.cfg.locs IN
  IF Len(l) > 0 /\ w.locs[l[1]].def # "" THEN w.locs[l[1]].def ELSE w.cfg.dom

Ensure(w, ln, dom) ==
  IF Loaded(w.locs[ln], dom) THEN w ELSE [AddDomain(w, ln, dom, Fresh(w, 0)) EXCEPT !.k = @ + 1]

RECURSIVE FirstOf(_, _, _, _)
\* lookups ask one locale after the other; result [w, v]
FirstOf(w, j, dom, q) ==
  LET ls == w.cfg.locs
      x == Ensure(w, ls[j], dom)
  IN IF j = Len(ls) \/ LocIs(x, ls[j], dom, q) THEN [w |-> x, v |-> LocText(x, ls[j], dom, q)]
     ELSE FirstOf(x, j + 1, dom, q)

RECURSIVE AnyOf(_, _, _, _)
\* pairs of languages asked for and locales, in turn; result [w, v]
AnyOf(w, todo, dom, q) ==
  IF todo = <<>> THEN [w |-> w, v |-> FALSE]
  ELSE LET lang == todo[1][1]
           ln == todo[1][2]
           rest == SubSeq(todo, 2, Len(todo))
       IN IF lang # w.locs[ln].lang /\ lang # Actual(w, w.locs[ln], dom) THEN AnyOf(w, rest, dom, q)
          ELSE LET x == Ensure(w, ln, dom) IN
               IF LocIs(x, ln, dom, q) THEN [w |-> x, v |-> TRUE] ELSE AnyOf(x, rest, dom, q)
Pairs(langs, ls) ==
  LET m == Len(ls) IN [j \in 1..(Len(langs) * m) |-> <<langs[((j - 1) \div m) + 1], ls[((j - 1) % m) + 1]>>]

----------------------------------------------------------------------------
Query(op) == [kind |-> IF op.op \in {"getn", "istrn"} THEN "n" ELSE "1",
              c |-> Ctx(op), i |-> op.i, p |-> Opt(op, "p", ""), n |-> Opt(op, "n", <<0, 1>>)]
PkgKnown(w) ==   \* the rules in force are all inside the grammar
  \A j \in 1..Len(w.cfg.locs) : \A d \in DOMAIN w.locs[w.cfg.locs[j]].doms :
    LET o == w.locs[w.cfg.locs[j]].doms[d] IN o = "" \/ IndexKnown(w.objs[o])
LocDom(w, op) == IF "d" \in DOMAIN op THEN op.d ELSE w.locs[op.l].def
IsPkg(op) == "pkg" \in DOMAIN op
IsLoc(op) == "l" \in DOMAIN op
DomSet(l) == DOMAIN l.doms
Reconf(w, cfg) == Quiet(Reload([w EXCEPT !.cfg = cfg], TRUE))

\* the entries of a locale's domains without context
LocSnap(w, l) ==
  LET ds == {d \in DOMAIN l.doms : l.doms[d] # ""} IN UNION {Snapshot(w.objs[l.doms[d]], FALSE) : d \in ds}

DoLoc(w, op) ==
  CASE op.op = "write" -> Quiet([w EXCEPT !.fs = Put(@, op.path, ParsePo(EmptyCat, op.text))])
    [] op.op = "writemo" ->
         LET m == ReadMo(op.img) IN Quiet([w EXCEPT !.fs = Put(@, op.path, IF m.v = "ok" THEN LoadMo(EmptyCat, m.msgs) ELSE EmptyCat)])
    [] op.op = "rm" -> Quiet([w EXCEPT !.fs = [p \in DOMAIN @ \ {op.path} |-> @[p]]])
    [] op.op = "simp" -> See(w, op, Simplify(op.s))
    \* locales
    [] op.op = "lnew" -> LET l == NewLoc(op.root, op.path, op.lang) IN
                         [w |-> [w EXCEPT !.locs = Put(@, op.l, l)], ok |-> op.obs = l.lang, want |-> l.lang]
    [] op.op = "ladd" -> LET x == AddDomain(w, op.l, op.d, op.as) IN
                         [w |-> x, ok |-> op.obs = Loaded(x.locs[op.l], op.d), want |-> Loaded(x.locs[op.l], op.d)]
    [] op.op = "lload" -> Quiet([AddDomain(w, op.l, op.d, "ld" \o ToString(w.k)) EXCEPT !.k = @ + 1])
    [] op.op = "hold" -> Quiet(w)   \* how long files take to be opened
    [] op.op = "lattach" -> Quiet([w EXCEPT !.locs[op.l] = Attach(@, op.d, op.at)])
    [] op.op = "lset" -> Quiet([w EXCEPT !.locs[op.l].def = op.d])
    [] op.op = "ldom" -> See(w, op, w.locs[op.l].def)
    [] op.op = "llang" -> See(w, op, w.locs[op.l].lang)
    [] op.op = "lactual" -> See(w, op, Actual(w, w.locs[op.l], op.d))
    [] op.op = "ldoms" -> [w |-> w, ok |-> Range(op.obs) = DomSet(w.locs[op.l]) /\ Len(op.obs) = Cardinality(DomSet(w.locs[op.l])), want |-> DomSet(w.locs[op.l])]
    [] op.op = "lbin" ->   \* every loaded domain is copied, the receiver keeps where its files are
         LET l == w.locs[op.l]
             ds == {d \in DOMAIN l.doms : l.doms[d] # ""}
             nm(d) == "bin" \o ToString(w.k) \o "/" \o d
             cp(c) == [c EXCEPT !.res = "", !.hc = <<>>, !.ents = [e \in DOMAIN @ |-> [@[e] EXCEPT !.dirty = FALSE]]]
         IN Quiet([w EXCEPT !.k = @ + 1,
                            !.objs = [o \in {nm(d) : d \in ds} |-> cp(w.objs[l.doms[CHOOSE d \in ds : nm(d) = o]])] @@ @,
                            !.locs[op.to] = [l EXCEPT !.root = w.locs[op.to].root, !.doms = [d \in ds |-> nm(d)]]])
    [] op.op = "lbadbin" -> Quiet(w)   \* it failed: nothing changes
    [] op.op = "ltrans" ->
         LET all == LocSnap(w, w.locs[op.l])
             got == {EntOfView(x) : x \in Range(op.obs)}
         IN [w |-> w, ok |-> got \subseteq all /\ {x.i : x \in got} = {x.i : x \in all} /\ Len(op.obs) = Cardinality({x.i : x \in all}),
             want |-> all]
    [] op.op \in {"get", "getn"} /\ IsLoc(op) ->
         LET d == LocDom(w, op) IN
         IF op.op = "getn" /\ Usable(w.locs[op.l], d) /\ ~IndexKnownAt(DomCat(w, op.l, d), op.n) THEN Quiet(w)
         ELSE See(w, op, Format(LocText(w, op.l, d, Query(op)), Args(op)))
    [] op.op \in {"istr", "istrn"} /\ IsLoc(op) ->
         LET d == LocDom(w, op) IN
         IF op.op = "istrn" /\ Usable(w.locs[op.l], d) /\ ~IndexKnownAt(DomCat(w, op.l, d), op.n) THEN Quiet(w)
         ELSE See(w, op, LocIs(w, op.l, d, Query(op)))
    \* the package
    [] op.op = "pconf" -> Reconf(w, [w.cfg EXCEPT !.lib = op.lib, !.langs = LangList(op.lang), !.dom = op.d])
    [] op.op = "plib" -> Reconf(w, [w.cfg EXCEPT !.lib = op.lib])
    [] op.op = "plang" -> Reconf(w, [w.cfg EXCEPT !.langs = LangList(op.lang)])
    [] op.op = "pdom" -> Reconf(w, [w.cfg EXCEPT !.dom = op.d])
    [] op.op = "plocs" ->
         LET l == w.locs[op.ls[1]] IN
         Quiet([w EXCEPT !.cfg = [lib |-> l.path, dom |-> l.def, langs |-> [j \in 1..Len(op.ls) |-> w.locs[op.ls[j]].lang], locs |-> op.ls]])
    [] op.op = "pglib" -> See(w, op, w.cfg.lib)
    [] op.op = "pglangs" -> See(w, op, w.cfg.langs)
    [] op.op = "pglang" -> See(w, op, w.cfg.langs[1])
    [] op.op = "pgdom" -> See(w, op, PkgDomain(w))
    [] op.op = "pglocs" ->   \* names of the user's locales, languages of the package's own
         LET v == [j \in 1..Len(w.cfg.locs) |-> IF SubSeq(w.cfg.locs[j], 1, 1) = "L" THEN "?" \o w.locs[w.cfg.locs[j]].lang ELSE w.cfg.locs[j]]
         IN See(w, op, v)
    [] op.op \in {"get", "getn"} /\ IsPkg(op) ->
         LET d == IF "d" \in DOMAIN op THEN op.d ELSE PkgDomain(w)
             r == FirstOf(Reload(w, FALSE), 1, d, Query(op))
         IN IF op.op = "getn" /\ ~PkgKnown(r.w) THEN Quiet(r.w)
            ELSE LET v == Format(r.v, Args(op)) IN [w |-> r.w, ok |-> op.obs = v, want |-> v]
    [] op.op \in {"istr", "istrn"} /\ IsPkg(op) ->
         LET d == IF "d" \in DOMAIN op THEN op.d ELSE PkgDomain(w)
             x == Reload(w, FALSE)
             langs == IF Len(op.langs) = 0 THEN x.cfg.langs ELSE [j \in 1..Len(op.langs) |-> Simplify(op.langs[j])]
             r == AnyOf(x, Pairs(langs, x.cfg.locs), d, Query(op))
         IN IF op.op = "istrn" /\ ~PkgKnown(r.w) THEN Quiet(r.w) ELSE [w |-> r.w, ok |-> op.obs = r.v, want |-> r.v]
    [] OTHER -> Do(w, op)

----------------------------------------------------------------------------
(* Cycles: while one thread makes the calls ws again and again, others make *)
(* the calls qs; each of those is recorded with all its different results. *)
(* The changes lead through the same states each time, and each result has *)
(* to be the one prescribed in one of these.                               *)

\* the worlds after each of these calls
RECURSIVE Through(_, _, _)
Through(w, ops, j) ==
  IF j > Len(ops) THEN <<>> ELSE LET x == DoLoc(w, ops[j]).w IN <<x>> \o Through(x, ops, j + 1)
\* what there is to see in a world, but not the names the model gave to things
Shown(w) ==
  LET loc(l) == [lang |-> l.lang, def |-> l.def, at |-> <<l.root, l.path>>,
                 doms |-> [d \in DOMAIN l.doms |-> IF l.doms[d] = "" THEN EmptyCat ELSE w.objs[l.doms[d]]]]
      mine(n) == n \in {"X", "Y", "o", "P0", "P1", "q0", "q1"}
  IN [objs |-> [o \in {o \in DOMAIN w.objs : mine(o)} |-> w.objs[o]],
      locs |-> [l \in {l \in DOMAIN w.locs : mine(l)} |-> loc(w.locs[l])],
      fs |-> w.fs,
      cfg |-> [w.cfg EXCEPT !.locs = [j \in DOMAIN @ |-> loc(w.locs[@[j]])]]]
Cycle(w, op) ==
  LET last(l) == l[Len(l)]
      start == last(Through(w, op.ws, 1))
      states == Through(start, op.ws, 1)
      end == last(states)
      asked(j, k) == [op.qs[j] EXCEPT !.obs = op.qs[j].obs[k]]
      right(j, k) == \E s \in DOMAIN states : DoLoc(states[s], asked(j, k)).ok
      bad == {x \in UNION {{<<j, k>> : k \in DOMAIN op.qs[j].obs} : j \in DOMAIN op.qs} : ~right(x[1], x[2])}
  IN IF Shown(start) # Shown(end) THEN [w |-> end, ok |-> TRUE, want |-> ""]
     ELSE [w |-> end, ok |-> bad = {},
           want |-> {[call |-> asked(x[1], x[2]), want |-> {DoLoc(states[s], asked(x[1], x[2])).want : s \in DOMAIN states}] : x \in bad}]

\* a call on an object that does not exist here: the real one has more than it should
Step1(w, op) ==
  IF "o" \in DOMAIN op /\ op.op # "new" /\ op.o \notin DOMAIN w.objs
    THEN [w |-> w, ok |-> FALSE, want |-> "no such domain"]
  ELSE IF op.op = "cycle" THEN Cycle(w, op)
  ELSE DoLoc(w, op)
=============================================================================
