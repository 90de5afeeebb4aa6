------------------------------ MODULE Session_Gen ------------------------------
(* Sessions for the real tools: which tool is used on which file.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Depth, Walk
VARIABLES kind, hist
vars == <<kind, hist>>
Kinds == {"none", "two", "three", "hurt"}
Act(o, i, f, new) == kind' = new /\ hist' = Append(hist, [op |-> o, i |-> i, o |-> f])
Some(S) == IF Walk THEN {RandomElement(S)} ELSE S
There(i) == kind[i] # "none"
Set(f, k) == [kind EXCEPT ![f] = k]
Step == \E z \in (IF Walk THEN {RandomElement(1..20)} ELSE {0}) :
  \/ /\ z \in {0, 1, 2, 3}
     /\ \E f \in Some(Names), w \in Some({"write2", "write3"}) :
          /\ ~(kind[f] = "three" /\ w = "write2") /\ ~(kind[f] = "two" /\ w = "write3") /\ kind[f] # "hurt"
          /\ Act(w, 0, f, Set(f, IF w = "write2" THEN "two" ELSE "three"))
  \/ /\ z \in {0, 4, 5, 6}   \* mostly what can work
     /\ \E i \in Some(Names), o \in Some(Names) : kind[i] = "two" /\ i # o /\ Act("convert", i, o, Set(o, "three"))
  \/ /\ z \in {0, 7, 8, 9}
     /\ \E i \in Some(Names), o \in Some(Names) : kind[i] = "three" /\ i # o /\ Act("merge", i, o, Set(o, "three"))
  \/ /\ z \in {0, 10}        \* any, itself included
     /\ \E t \in Some({"convert", "merge"}), i \in Some(Names), o \in Some(Names) :
          Act(t, i, o, IF There(i) /\ i # o THEN Set(o, "three") ELSE kind)
  \/ /\ z \in {0, 11, 12}
     /\ \E i \in Some(Names) : There(i) /\ Act("edit", i, 0, kind)
  \/ /\ z \in {0, 13, 14}
     /\ \E i \in Some(Names), o \in Some(Names) : There(i) /\ i # o /\ kind[i] # "hurt" /\ Act("select", i, o, Set(o, kind[i]))
  \/ /\ z \in {0, 15}
     /\ \E i \in Some(Names), o \in Some(Names) :
          There(i) /\ i # o /\ kind[o] = kind[i] /\ kind[i] # "hurt" /\ Act("cat", i, o, kind)
  \/ /\ z \in {0, 16, 17}
     /\ \E i \in Some(Names), t \in Some({"report", "view"}) : There(i) /\ Act(t, i, 0, kind)
  \/ /\ z \in {0, 18}
     /\ \E i \in Some(Names) : There(i) /\ kind[i] # "hurt" /\ Act("hurt", i, 0, Set(i, "hurt"))
  \/ /\ z \in {0, 19}
     /\ \E t \in Some({"convert", "merge"}), i \in Some(Names), o \in Some(Names) :
          There(i) /\ i # o /\ Act("kill " \o t, i, o, Set(o, "three"))
  \/ /\ z \in {0, 20}
     /\ \E f \in Some(Names) : There(f) /\ Act("remove", 0, f, Set(f, "none"))
GenInit == kind = [f \in Names |-> "none"] /\ hist = <<>>
Out == PrintT("@@GEN " \o ToJson(hist))
GenNext == /\ Len(hist) < Depth
           /\ Step
           /\ IF Len(hist') = Depth THEN (Out)' ELSE TRUE
Stutter == Walk /\ Len(hist) < Depth /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenNext \/ Stutter]_vars
===============================================================================
