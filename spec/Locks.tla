-------------------------------- MODULE Locks --------------------------------
(***************************************************************************)
(* The locking of a catalogue: two readers-writer locks, tr (entries) and  *)
(* pl (plural rule), taken by three concurrent calls.  The locks are Go's: *)
(* a writer first keeps other writers out, then new readers, then waits    *)
(* for the readers that are in.                                            *)
(*                                                                         *)
(* Calls run code of the user: String methods of arguments, which may look *)
(* up strings themselves, and, holding locks, plural resolvers.  Every     *)
(* call must return if that code does.                                     *)
(*                                                                         *)
(* Each state in which call 1 is inside user code and the other two have   *)
(* been made is printed as a plan: the driver makes the real calls meet    *)
(* there.                                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Calls == 1..3
\* what a kind of call does, step by step
Steps(k) ==
  CASE k = "read"     -> <<"R tr", "r tr", "user string", "R tr", "r tr">>
    [] k = "readn"    -> <<"R tr", "R pl", "user resolver", "r pl", "r tr", "user string", "R tr", "R pl", "r pl", "r tr">>
    [] k = "setn"     -> <<"W tr", "R pl", "user resolver", "r pl", "W pl", "w pl", "w tr">>
    [] k = "write"    -> <<"W tr", "W pl", "w pl", "w tr">>
    [] k = "resolver" -> <<"W pl", "w pl">>
    \* what must not be done: a reader that enters again, here from an argument's String method
    [] k = "nested"   -> <<"R tr", "user string", "R tr", "r tr", "r tr">>
CONSTANT Kinds

VARIABLES kind,    \* kind of each call
          pc,      \* next step of each call, 0 before it is made
          readers, \* lock |-> bag of calls that hold it for reading
          writer,  \* lock |-> call that holds it for writing or waits for the readers to leave, 0 none
          inside   \* lock |-> whether that writer holds it
vars == <<kind, pc, readers, writer, inside>>
Locks == {"tr", "pl"}

Init == /\ kind \in [Calls -> Kinds]
        /\ pc = [c \in Calls |-> 0]
        /\ readers = [l \in Locks |-> [c \in Calls |-> 0]]
        /\ writer = [l \in Locks |-> 0]
        /\ inside = [l \in Locks |-> FALSE]

Prog(c) == Steps(kind[c])
Finished(c) == pc[c] > Len(Prog(c))
At(c, s) == pc[c] \in 1..Len(Prog(c)) /\ Prog(c)[pc[c]] = s
Go(c) == pc' = [pc EXCEPT ![c] = @ + 1]

Make(c) == pc[c] = 0 /\ Go(c) /\ UNCHANGED <<kind, readers, writer, inside>>
User(c) == (At(c, "user string") \/ At(c, "user resolver")) /\ Go(c) /\ UNCHANGED <<kind, readers, writer, inside>>
RLock(c, l) == At(c, "R " \o l) /\ writer[l] = 0 /\ readers' = [readers EXCEPT ![l][c] = @ + 1] /\ Go(c) /\ UNCHANGED <<kind, writer, inside>>
RUnlock(c, l) == At(c, "r " \o l) /\ readers' = [readers EXCEPT ![l][c] = @ - 1] /\ Go(c) /\ UNCHANGED <<kind, writer, inside>>
WAsk(c, l) == At(c, "W " \o l) /\ writer[l] = 0 /\ writer' = [writer EXCEPT ![l] = c] /\ UNCHANGED <<kind, pc, readers, inside>>
WLock(c, l) == At(c, "W " \o l) /\ writer[l] = c /\ (\A d \in Calls : readers[l][d] = 0)
               /\ inside' = [inside EXCEPT ![l] = TRUE] /\ Go(c) /\ UNCHANGED <<kind, readers, writer>>
WUnlock(c, l) == At(c, "w " \o l) /\ writer' = [writer EXCEPT ![l] = 0] /\ inside' = [inside EXCEPT ![l] = FALSE] /\ Go(c) /\ UNCHANGED <<kind, readers>>
Step(c) == Make(c) \/ User(c) \/ \E l \in Locks : RLock(c, l) \/ RUnlock(c, l) \/ WAsk(c, l) \/ WLock(c, l) \/ WUnlock(c, l)
AllDone == (\A c \in Calls : Finished(c)) /\ UNCHANGED vars
Next == (\E c \in Calls : Step(c)) \/ AllDone
Spec == Init /\ [][Next]_vars /\ \A c \in Calls : WF_vars(Step(c))

\* a writer is alone
Exclusive == \A l \in Locks : inside[l] => \A c \in Calls : readers[l][c] = 0
\* changes of the entries and of the rule happen with nobody else inside
Returns == \A c \in Calls : <>Finished(c)

Plan == IF (At(1, "user string") \/ At(1, "user resolver")) /\ pc[2] > 0 /\ pc[3] > 0
        THEN PrintT("PLAN " \o ToJson([k |-> kind, at |-> Prog(1)[pc[1]]])) ELSE TRUE
=============================================================================
