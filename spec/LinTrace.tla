------------------------------ MODULE LinTrace ------------------------------
(***************************************************************************)
(* Linearizability of recorded concurrent histories.                       *)
(*                                                                         *)
(* A history is a list of calls (ops, with what each one returned) and the *)
(* order of their invocations and returns (ev: <<0, j>> call j is invoked, *)
(* <<1, j>> it returns).  Each call takes effect in the specification at   *)
(* some moment between the two, and must return what it returned there.    *)
(* The history is explained if some choice of moments reaches its end.     *)
(*                                                                         *)
(* It is enough to let calls take effect when a return is due: any choice  *)
(* of moments can be delayed to those.                                     *)
(***************************************************************************)
EXTENDS I18n, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Diag == IOEnv.DIAG = "1"

VARIABLES tid, pos, w, open, done,
          mid,   \* loads that have read a file but not installed it: call |-> [cat, no]
          last   \* [no: how many reads there were, at: <<locale, domain>> |-> the read that is installed]
vars == <<tid, pos, w, open, done, mid, last>>
T == Traces[tid]

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ w = World0 /\ open = {} /\ done = {} /\ mid = EmptyFn /\ last = [no |-> 0, at |-> EmptyFn]

\* a call that nothing overlaps
Alone == /\ open = {} /\ done = {} /\ pos < Len(T.ev)
         /\ T.ev[pos][1] = 0 /\ T.ev[pos + 1] = <<1, T.ev[pos][2]>>
OneCall == LET op == T.ops[T.ev[pos][2]] r == Step1(w, op) IN
  /\ Alone
  /\ op.op # "lload"
  /\ "panic" \notin DOMAIN op /\ r.ok
  /\ w' = [r.w EXCEPT !.snaps = EmptyFn]
  /\ pos' = pos + 2 /\ UNCHANGED <<tid, open, done, mid, last>>
  /\ IF Diag THEN PrintT("REACHED " \o ToJson([trace |-> T.id, pos |-> pos + 1])) ELSE TRUE
Invoke == LET e == T.ev[pos] IN
  /\ ~Alone \/ T.ops[e[2]].op = "lload"
  /\ e[1] = 0
  /\ open' = open \cup {e[2]} /\ pos' = pos + 1 /\ UNCHANGED <<tid, w, done, mid, last>>
Return == LET e == T.ev[pos] IN
  /\ e[1] = 1 /\ e[2] \in done
  /\ done' = done \ {e[2]} /\ pos' = pos + 1 /\ UNCHANGED <<tid, w, open, mid, last>>
  /\ IF Diag THEN PrintT("REACHED " \o ToJson([trace |-> T.id, pos |-> pos])) ELSE TRUE
TakeEffect == LET e == T.ev[pos] IN
  /\ e[1] = 1 /\ e[2] \notin done
  /\ \E j \in open :
       LET op == T.ops[j] r == Step1(w, op) IN
       /\ op.op # "lload"
       /\ "panic" \notin DOMAIN op /\ r.ok
       /\ w' = [r.w EXCEPT !.snaps = EmptyFn]
       /\ done' = done \cup {j} /\ open' = open \ {j}
  /\ UNCHANGED <<tid, pos, mid, last>>
\* A load reads the file at one moment and installs it at a later one, but never over what a later
\* reading of the same domain has installed.
ReadFile == LET e == T.ev[pos] IN
  /\ e[1] = 1 /\ e[2] \notin done
  /\ \E j \in open :
       LET op == T.ops[j] f == Search(w, w.locs[op.l], op.d) IN
       /\ op.op = "lload" /\ "panic" \notin DOMAIN op
       /\ mid' = (j :> [some |-> f # <<>>, cat |-> IF f = <<>> THEN EmptyCat ELSE w.fs[f[1].at], no |-> last.no + 1]) @@ mid
       /\ last' = [last EXCEPT !.no = @ + 1]
       /\ open' = open \ {j}
  /\ UNCHANGED <<tid, pos, w, done>>
Install == LET e == T.ev[pos] IN
  /\ e[1] = 1 /\ e[2] \notin done
  /\ \E j \in DOMAIN mid :
       LET op == T.ops[j] m == mid[j] at == <<op.l, op.d>>
           late == at \in DOMAIN last.at /\ last.at[at] > m.no
           as == "ld" \o ToString(j)
       IN /\ IF m.some /\ ~late
                THEN /\ w' = [w EXCEPT !.objs = Put(@, as, m.cat), !.locs[op.l] = Attach(@, op.d, as)]
                     /\ last' = [last EXCEPT !.at = Put(@, at, m.no)]
                ELSE UNCHANGED <<w, last>>
          /\ mid' = [k \in DOMAIN mid \ {j} |-> mid[k]]
          /\ done' = done \cup {j}
  /\ UNCHANGED <<tid, pos, open>>
End == pos = Len(T.ev) + 1 /\ pos' = pos + 1 /\ PrintT("EXPLAINED " \o ToJson([trace |-> T.id]))
       /\ UNCHANGED <<tid, open, done, mid, last>> /\ w' = World0

Next == (pos <= Len(T.ev) /\ (OneCall \/ Invoke \/ Return \/ TakeEffect \/ ReadFile \/ Install)) \/ End
=============================================================================
