------------------------------ MODULE Ms2Life_Gen ------------------------------
(* Histories of operations on miniSEED 2 records, for the real objects.      *)
(* Which operation follows which is what matters here: a slot is live or not,*)
(* and has been spoilt or not.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Depth, Walk
VARIABLES st, hist
vars == <<st, hist>>
Ops1 == {"setf", "time", "rate", "grow", "addb", "delb", "look", "pack", "spoil", "free"}
Apply1(o, s) == CASE o = "spoil" -> [st EXCEPT ![s] = "spoilt"]
                  [] o = "free" -> [st EXCEPT ![s] = "free"]
                  [] OTHER -> st
Act(o, s, t, new) == st' = new /\ hist' = Append(hist, [op |-> o, s |-> s, t |-> t])
Some(S) == IF Walk THEN {RandomElement(S)} ELSE S
Step == \E k \in (IF Walk THEN {RandomElement(1..12)} ELSE {0}) :
  \/ /\ k <= 8
     /\ \E o \in Some(Ops1), s \in Some(Slots) : st[s] # "free" /\ Act(o, s, 0, Apply1(o, s))
  \/ /\ k \in {0, 9}   \* set again what was spoilt
     /\ \E s \in Some(Slots) : st[s] = "spoilt" /\ Act("mend", s, 0, [st EXCEPT ![s] = "live"])
  \/ /\ k \in {0, 10, 11}
     /\ \E o \in Some({"clone", "reread", "restream"}), s \in Some(Slots), t \in Some(Slots) :
          st[s] # "free" /\ s # t /\ Act(o, s, t, [st EXCEPT ![t] = IF st[s] = "live" THEN "live" ELSE "free"])
  \/ /\ k \in {0, 12}
     /\ \E o \in Some({"create", "read"}), t \in Some(Slots) : st[t] = "free" /\ Act(o, 0, t, [st EXCEPT ![t] = "live"])
GenInit == /\ st = [s \in Slots |-> IF s = 1 THEN "live" ELSE "free"]
           /\ hist = <<>>
Out == PrintT("@@GEN " \o ToJson(hist))
GenNext == /\ Len(hist) < Depth
           /\ Step
           /\ IF Len(hist') = Depth THEN (Out)' ELSE TRUE
Stutter == Walk /\ Len(hist) < Depth /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenNext \/ Stutter]_vars
===============================================================================
