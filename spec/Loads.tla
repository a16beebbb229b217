-------------------------------- MODULE Loads --------------------------------
(***************************************************************************)
(* How the loads of one domain of a locale overlap: reloads (AddDomain),   *)
(* lookups of the package that load the domain if it is not there,         *)
(* translators that are attached, lookups, and the file on disk changing.  *)
(* Only reading a file takes time; everything else is done under a lock.   *)
(*                                                                         *)
(* Each state in which call 1 is reading its file (or about to) and the    *)
(* other calls have been made is printed as a plan: the driver makes the   *)
(* real calls meet there, and LinTrace judges what they return.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT N
Calls == 1..N
Steps(k) ==
  CASE k = "reload" -> <<"lock", "read", "install">>
    [] k = "fresh"  -> <<"write", "lock", "read", "install">>   \* a newer file, then a reload
    [] k = "ensure" -> <<"check", "read", "add", "look">>
    [] k = "attach" -> <<"attach">>
    [] k = "look"   -> <<"look">>
    \* what must not be done: reloads that do not wait for each other, and loads that do not look again
    [] k = "hasty"  -> <<"read", "install">>
    [] k = "rash"   -> <<"check", "read", "install", "look">>
CONSTANTS Kinds, FirstKinds

None == [src |-> "none", v |-> 0]
File(v) == IF v = 0 THEN None ELSE [src |-> "file", v |-> v]
VARIABLES kind,   \* kind of each call
          pc,     \* next step of each call, 0 before it is made
          disk,   \* version of the file, 0 if there is none
          dom,    \* what is installed
          holder, \* call that reloads, 0 none
          got,    \* what each call has read
          asof,   \* the version of the file when the call was made
          begin   \* how it began: [disk, dom]
vars == <<kind, pc, disk, dom, holder, got, asof, begin>>

Init == /\ kind \in [Calls -> Kinds] /\ kind[1] \in FirstKinds
        /\ begin \in {[disk |-> 0, dom |-> None], [disk |-> 1, dom |-> None], [disk |-> 1, dom |-> File(1)], [disk |-> 2, dom |-> File(1)],
                      [disk |-> 1, dom |-> [src |-> "attached", v |-> 0]]}
        /\ disk = begin.disk /\ dom = begin.dom
        /\ pc = [c \in Calls |-> 0] /\ holder = 0
        /\ got = [c \in Calls |-> None] /\ asof = [c \in Calls |-> 0]

Prog(c) == Steps(kind[c])
Finished(c) == pc[c] > Len(Prog(c))
At(c, s) == pc[c] \in 1..Len(Prog(c)) /\ Prog(c)[pc[c]] = s
To(c, n) == pc' = [pc EXCEPT ![c] = n]
Go(c) == To(c, pc[c] + 1)
\* the calls are made in order, as soon as the first is at its file
Make(c) == /\ pc[c] = 0 /\ (c > 1 => pc[c - 1] > 0)
           /\ Go(c) /\ asof' = [asof EXCEPT ![c] = disk] /\ UNCHANGED <<kind, disk, dom, holder, got, begin>>
Lock(c) == At(c, "lock") /\ holder = 0 /\ holder' = c /\ Go(c) /\ UNCHANGED <<kind, disk, dom, got, asof, begin>>
Read(c) == At(c, "read") /\ got' = [got EXCEPT ![c] = File(disk)] /\ Go(c) /\ UNCHANGED <<kind, disk, dom, holder, asof, begin>>
Install(c) == At(c, "install") /\ dom' = (IF got[c] = None THEN dom ELSE got[c]) /\ holder' = (IF holder = c THEN 0 ELSE holder)
              /\ Go(c) /\ UNCHANGED <<kind, disk, got, asof, begin>>
Add(c) == At(c, "add") /\ dom' = (IF dom = None THEN got[c] ELSE dom) /\ Go(c) /\ UNCHANGED <<kind, disk, holder, got, asof, begin>>
Check(c) == At(c, "check") /\ (IF dom = None THEN Go(c) ELSE To(c, Len(Prog(c)))) /\ UNCHANGED <<kind, disk, dom, holder, got, asof, begin>>
Write(c) == At(c, "write") /\ disk' = disk + 1 /\ asof' = [asof EXCEPT ![c] = disk'] /\ Go(c) /\ UNCHANGED <<kind, dom, holder, got, begin>>
AttachIt(c) == At(c, "attach") /\ dom' = [src |-> "attached", v |-> c] /\ Go(c) /\ UNCHANGED <<kind, disk, holder, got, asof, begin>>
Look(c) == At(c, "look") /\ got' = [got EXCEPT ![c] = dom] /\ Go(c) /\ UNCHANGED <<kind, disk, dom, holder, asof, begin>>
Step(c) == Make(c) \/ Lock(c) \/ Read(c) \/ Install(c) \/ Add(c) \/ Check(c) \/ Write(c) \/ AttachIt(c) \/ Look(c)
AllDone == (\A c \in Calls : Finished(c)) /\ UNCHANGED vars
Next == (\E c \in Calls : Step(c)) \/ AllDone
Spec == Init /\ [][Next]_vars /\ \A c \in Calls : WF_vars(Step(c))

Reloads(c) == kind[c] \in {"reload", "fresh", "hasty"}
\* a reload that is over has brought the file that was there when it was made, or a newer one, for good
NotOlder == \A c \in Calls : Reloads(c) /\ Finished(c) /\ dom.src = "file" => dom.v >= asof[c]
\* loading what is missing replaces nothing
OnlyMissing == [][\A c \in Calls : kind[c] \in {"ensure", "rash"} /\ pc'[c] # pc[c] /\ dom # None => dom' = dom]_vars
\* what is attached stays, but for reloads
Attached == (\E c \in Calls : kind[c] = "attach" /\ Finished(c)) /\ (\A c \in Calls : ~Reloads(c)) => dom.src = "attached"
\* a lookup that loads what is missing finds it
Served == \A c \in Calls : kind[c] = "ensure" /\ Finished(c) /\ asof[c] > 0 => got[c] # None
Returns == \A c \in Calls : <>Finished(c)

Plan == IF (\A c \in Calls : pc[c] > 0) /\ (pc[1] <= Len(Prog(1))) /\ (\A c \in Calls \ {1} : pc[c] = 1) /\
           (At(1, "read") \/ At(1, "install") \/ At(1, "add"))
        THEN PrintT("PLAN " \o ToJson([k |-> kind, late |-> ~At(1, "read"), begin |-> begin])) ELSE TRUE
=============================================================================
