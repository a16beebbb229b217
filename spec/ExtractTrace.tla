---------------------------- MODULE ExtractTrace ----------------------------
(***************************************************************************)
(* Runs of xgotext on generated programs, and messages given to its parser *)
(* package in different orders, against module Extract.                    *)
(***************************************************************************)
EXTENDS Extract, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, pos, prog
vars == <<tid, pos, prog>>
Ops == Traces[tid].ops

\* what is wrong with a call, <<>> if nothing
Wrong(op) ==
  CASE op.op = "xprog" -> <<>>
    [] op.op = "xrun" ->
         IF op.rc # 0 THEN <<"exit status", op.rc>>
         ELSE CheckPots(op.files, Messages(prog, op))
    \* the same input gives the same bytes
    [] op.op = "xsame" -> IF op.files = op.again THEN <<>> ELSE <<"the same input, other bytes">>
    \* messages in several orders: one set of files
    [] op.op = "xmsgs" ->
         LET ms == {Msg(c, op.default, c.ref) : c \in {c \in Range(op.calls) : Translatable(c)}}
             d == CheckPots(op.outs[1], ms)
         IN IF d # <<>> THEN d
            ELSE IF \E j \in 1..Len(op.outs) : op.outs[j] # op.outs[1] THEN <<"the order of the messages changes the bytes">>
            ELSE <<>>
    \* what gotext's own parser reads in those files: [c, i, p, r]
    [] op.op = "xback" ->
         LET ms == {Msg(c, op.default, c.ref) : c \in {c \in Range(op.calls) : Translatable(c)}}
             names == {b[1] : b \in Range(op.back)}
             got(d) == UNION {{[c |-> e.c, i |-> e.i, p |-> e.p, r |-> Range(e.r)] : e \in Range(b[2])} : b \in {b \in Range(op.back) : b[1] = d}}
             want(d) == Entries({m \in ms : m.d = d})
             ds == {m.d : m \in ms}
             bad == {d \in ds : d \notin names \/ got(d) # want(d)}
         IN IF bad = {} /\ names = ds THEN <<>> ELSE <<"read back", bad>>

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ prog = <<>>
Next ==
  /\ pos <= Len(Ops)
  /\ LET op == Ops[pos]
         w == IF "panic" \in DOMAIN op THEN <<"panic">> ELSE Wrong(op)
     IN /\ prog' = IF op.op = "xprog" THEN op.prog ELSE prog
        /\ IF w # <<>> THEN PrintT("MISMATCH " \o ToJson([trace |-> Traces[tid].id, step |-> pos, op |-> [op |-> op.op], want |-> w]))
           ELSE TRUE
  /\ pos' = pos + 1
  /\ UNCHANGED tid
=============================================================================
