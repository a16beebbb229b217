---------------------------- MODULE CatalogTrace ----------------------------
(***************************************************************************)
(* Trace validation: histories of calls recorded from real objects are     *)
(* replayed in the specification, and every recorded result is compared    *)
(* with the one the specification prescribes.                              *)
(*                                                                         *)
(* The trace file has one history per line, {id, ops}; the model picks a   *)
(* line and takes one call per step.  Disagreements are printed, and the   *)
(* history goes on from the specification's state.                         *)
(***************************************************************************)
EXTENDS I18n, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

----------------------------------------------------------------------------
VARIABLES tid, pos, w
vars == <<tid, pos, w>>

Ops == Traces[tid].ops

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ w = World0
Next ==
  /\ pos <= Len(Ops)
  /\ LET op == Ops[pos]
         r == Step1(w, op)
         bad == "panic" \in DOMAIN op \/ ~r.ok
     IN /\ w' = r.w
        /\ IF bad THEN PrintT("MISMATCH " \o ToJson([trace |-> Traces[tid].id, step |-> pos, op |-> op, want |-> r.want]))
           ELSE TRUE
  /\ pos' = pos + 1
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Done == pos > Len(Ops)
=============================================================================
