----------------------------- MODULE CatalogOps -----------------------------
(***************************************************************************)
(* What every call on the catalogues of a world does, and what it answers. *)
(* Do(w, op) judges one recorded call: the world after it, whether the     *)
(* recorded observation is the prescribed one, and what that is.           *)
(***************************************************************************)
EXTENDS MarshalText, Fmt, MoImage

Opt(op, k, d) == IF k \in DOMAIN op THEN op[k] ELSE d
Ctx(op) == Opt(op, "c", "")
Args(op) == Opt(op, "args", <<>>)
Prefix(op) == Opt(op, "pre", "")
\* what fmt makes of a text with the arguments of this call; for arguments that module Fmt does not know,
\* the history says what fmt.Sprintf made of each text there is
Formatted(op, s) ==
  IF "tab" \notin DOMAIN op THEN Format(s, Args(op))
  ELSE IF Args(op) = <<>> THEN s
  ELSE LET js == {j \in 1..Len(op.tab) : op.tab[j][1] = s} IN
       IF js = {} THEN "no text of this history: " \o s ELSE op.tab[CHOOSE j \in js : TRUE][2]

\* a world is the objects by name, and the snapshots taken, by name
Obj(w, op) == w.objs[op.o]
SetObj(w, o, c) == [w EXCEPT !.objs = Put(@, o, c)]
\* After reading a damaged MO image only this is known of an object: its entries are some of these.
SetLoose(w, o, S) == [w EXCEPT !.loose = Put(@, o, S)]
IsLoose(w, op) == op.o \in DOMAIN w.loose

\* result of a step: the new world, whether the observation is right, and what it should have been
Quiet(w) == [w |-> w, ok |-> TRUE, want |-> ""]
See(w, op, want) == [w |-> w, ok |-> op.obs = want, want |-> want]

\* an index is only claimed when the rule is inside the grammar, and n inside what rules are claimed for
IndexKnown(c) == c.rule.k # "unclaimed"
IndexKnownAt(c, n) == IndexKnown(c) /\ (c.rule = NONE \/ ~Wide(n))

Forget(r) == [v \in {"c", "i", "p", "f", "r"} |-> r[v]]

Changes == {"set", "setn", "setrefs", "drop", "res", "parse", "parsemo", "hset", "hadd", "hdel"}

Do(w, op) ==
  CASE op.op = "new" -> Quiet([SetObj(w, op.o, EmptyCat) EXCEPT !.wild = @ \ {op.o}, !.loose = [o \in DOMAIN @ \ {op.o} |-> @[o]]])
    [] op.op = "chaos" -> Quiet([w EXCEPT !.wild = @ \cup {op.o}])
    [] "o" \in DOMAIN op /\ op.o \in w.wild ->   \* nothing is known of it, but a copy of it is as wild
         IF op.op = "bin" THEN Quiet([w EXCEPT !.wild = @ \cup {op.to}]) ELSE Quiet(w)
    [] "o" \in DOMAIN op /\ IsLoose(w, op) /\ op.op # "snap" ->
         IF op.op = "bin" THEN Quiet([w EXCEPT !.wild = @ \cup {op.to}])
         ELSE IF op.op \in Changes THEN Quiet([w EXCEPT !.wild = @ \cup {op.o}])
         ELSE Quiet(w)
    [] op.op \in {"badbin", "parsefile", "nop"} -> Quiet(w)   \* these failed: nothing changes
    [] op.op \in {"cost", "leak"} -> See(w, op, TRUE)
    [] op.op = "same" ->
         LET a == Obj(w, op) b == w.objs[op.to] noRefs(v) == [v EXCEPT !.r = <<>>]
             sn(c) == {noRefs(v) : v \in Snapshot(c, TRUE) \cup Snapshot(c, FALSE)}
         IN [w |-> w, ok |-> sn(a) = sn(b) /\ HdrOf(a) = HdrOf(b) /\ a.lang = b.lang /\ a.pf = b.pf /\ a.rule = b.rule,
             want |-> "the specification gives both files the same meaning"]
    [] op.op = "rule" ->
         LET c == Compile(op.s) IN
        (CASE c.v = "unclaimed" -> Quiet(w)
           [] c.v = "error" -> [w |-> w, ok |-> ~op.obs.ok /\ op.obs.nil, want |-> "an error and no expression"]
           [] c.v = "ok" -> LET v == [j \in 1..Len(op.ns) |-> Eval(c.ast, op.ns[j])]
                            IN [w |-> w, ok |-> op.obs.ok /\ op.obs.vals = v, want |-> v])
    [] op.op = "nfmt" -> See(w, op, NamedFmt(op.s, op.params, Opt(op, "conv", <<>>)))
    [] op.op = "set" -> Quiet(SetObj(w, op.o, Set(Obj(w, op), Ctx(op), op.i, op.s)))
    [] op.op = "setn" /\ ~IndexKnownAt(Obj(w, op), op.n) -> Quiet([w EXCEPT !.wild = @ \cup {op.o}])
    [] op.op = "setn" -> Quiet(SetObj(w, op.o, SetN(Obj(w, op), Ctx(op), op.i, op.p, op.n, op.s)))
    [] op.op = "setrefs" -> Quiet(SetObj(w, op.o, SetRefs(Obj(w, op), op.i, op.r)))
    [] op.op = "drop" -> Quiet(SetObj(w, op.o, Drop(Obj(w, op))))
    [] op.op = "res" -> Quiet(SetObj(w, op.o, SetRes(Obj(w, op), op.r)))
    [] op.op = "parse" -> Quiet(SetObj(w, op.o, ParsePo(Obj(w, op), op.text)))
    [] op.op = "parsemo" ->
         LET m == ReadMo(op.img) d == Obj(w, op) IN
        (CASE m.v = "reject" -> Quiet(w)
           [] m.v = "ok" -> Quiet(SetObj(w, op.o, LoadMo(d, m.msgs)))
           [] m.v = "damaged" -> Quiet(SetLoose(w, op.o, Snapshot(d, TRUE) \cup Snapshot(d, FALSE) \cup
                                        {EntView(x.key, x.ent) : x \in Range(m.msgs)})))
    [] op.op = "bin" ->
         LET c == Obj(w, op) t == w.objs[op.to] IN
         Quiet(SetObj(w, op.to, [c EXCEPT !.res = t.res, !.hc = <<>>,
                                          !.ents = [k \in DOMAIN @ |-> [@[k] EXCEPT !.dirty = FALSE]]]))
    [] op.op = "hset" -> Quiet(SetObj(w, op.o, [Obj(w, op) EXCEPT !.hdr = Put(@, op.k, <<op.s>>)]))
    [] op.op = "hadd" -> Quiet(SetObj(w, op.o, [Obj(w, op) EXCEPT !.hdr = Put(@, op.k, Append(Opt(@, op.k, <<>>), op.s))]))
    [] op.op = "hdel" -> Quiet(SetObj(w, op.o, [Obj(w, op) EXCEPT !.hdr = [k \in DOMAIN @ \ {op.k} |-> @[k]]]))
    [] op.op = "hget" -> See(w, op, HdrGet(Obj(w, op).hdr, op.k))
    [] op.op = "hvals" -> See(w, op, Opt(Obj(w, op).hdr, op.k, <<>>))
    [] op.op = "get" -> See(w, op, Formatted(op, Get(Obj(w, op), Ctx(op), op.i)))
    [] op.op = "append" -> See(w, op, Prefix(op) \o Formatted(op, Get(Obj(w, op), Ctx(op), op.i)))
    [] op.op = "getn" ->
         IF ~IndexKnownAt(Obj(w, op), op.n) THEN Quiet(w)
         ELSE See(w, op, Formatted(op, GetN(Obj(w, op), Ctx(op), op.i, op.p, op.n)))
    [] op.op = "appendn" ->
         IF ~IndexKnownAt(Obj(w, op), op.n) THEN Quiet(w)
         ELSE See(w, op, Prefix(op) \o Formatted(op, GetN(Obj(w, op), Ctx(op), op.i, op.p, op.n)))
    [] op.op = "istr" -> See(w, op, IsTr(Obj(w, op), Ctx(op), op.i))
    [] op.op = "istrn" ->
         IF ~IndexKnownAt(Obj(w, op), op.n) THEN Quiet(w) ELSE See(w, op, IsTrN(Obj(w, op), Ctx(op), op.i, op.n))
    [] op.op = "getrefs" -> See(w, op, Refs(Obj(w, op), op.i))
    [] op.op = "snap" ->
         LET v == Snapshot(Obj(w, op), op.wc)
             got == {EntOfView(x) : x \in Range(op.obs)}
         IN IF IsLoose(w, op) THEN [w |-> w, ok |-> got \subseteq w.loose[op.o],
                                    want |-> [missing |-> {}, toomuch |-> got \ w.loose[op.o]]]
            ELSE [w |-> [w EXCEPT !.snaps = Put(@, op.name, v)],
             ok |-> got = v /\ Len(op.obs) = Cardinality(v),
             want |-> [missing |-> v \ got, toomuch |-> got \ v]]
    [] op.op = "reads" ->   \* what a new catalogue makes of a text
         LET c == ParsePo(EmptyCat, op.text)
             v == Snapshot(c, TRUE) \cup Snapshot(c, FALSE)
             got == {EntOfView(x) : x \in Range(op.obs)}
         IN [w |-> w, ok |-> got = v /\ Len(op.obs) = Cardinality(v), want |-> [missing |-> v \ got, toomuch |-> got \ v]]
    [] op.op = "binsnap" ->   \* what an encoding holds
         LET v == {[x EXCEPT !.s = TRUE] : x \in Snapshot(Obj(w, op), TRUE) \cup Snapshot(Obj(w, op), FALSE)}
             got == {EntOfView(x) : x \in Range(op.obs)}
         IN [w |-> w, ok |-> got = v, want |-> [missing |-> v \ got, toomuch |-> got \ v]]
    [] op.op = "ents" ->   \* these entries, whatever else there is
         LET c == Obj(w, op)
             v == {EntView(k, c.ents[k]) : k \in {k \in Range(op.keys) : k \in DOMAIN c.ents}}
             got == {EntOfView(x) : x \in Range(op.obs)}
         IN [w |-> w, ok |-> got = v, want |-> v]
    [] op.op = "resnap" ->
         LET v == w.snaps[op.name] got == {EntOfView(x) : x \in Range(op.obs)} IN
         [w |-> w, ok |-> got = v, want |-> [missing |-> v \ got, toomuch |-> got \ v]]
    [] op.op = "mutsnap" ->   \* the snapshot is spoilt: nobody looks at it again
         Quiet([w EXCEPT !.snaps = [k \in DOMAIN @ \ {op.name} |-> @[k]]])
    [] op.op = "headers" ->
         LET c == Obj(w, op)
             want == [h |-> HdrOf(c), l |-> c.lang, pf |-> c.pf]
             got == [h |-> {x \in Range(op.obs.h) : x[2] # <<>>}, l |-> op.obs.l, pf |-> op.obs.pf]
         IN [w |-> w, ok |-> got = want, want |-> want]
    [] op.op = "text" ->
         LET v == TextVerdict(Obj(w, op), op.obs) IN
         [w |-> w, ok |-> v = "" /\ Opt(op, "same", TRUE) /\ Opt(op, "fix", TRUE),
          want |-> IF v # "" THEN v ELSE IF ~Opt(op, "same", TRUE) THEN "the same bytes each time"
                   ELSE "the same bytes after parsing and marshalling again"]
    [] op.op = "fmt" -> See(w, op, Formatted(op, op.s))

=============================================================================
