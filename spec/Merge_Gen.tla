------------------------------ MODULE Merge_Gen ------------------------------
(* Sequences of records for the real merging code: how each differs from the *)
(* record before and how its start lies relative to the samples before.      *)
EXTENDS Integers, Sequences, Json, TLC, FiniteSets
CONSTANTS Length, Pairs
VARIABLES rs
vars == <<rs>>
\* start of a record relative to what came before it (merged or not)
Gaps == {"on time", "micro late", "micro early", "just in", "just out", "half", "after last", "at last", "before last",
         "same start", "far", "long before"}
Encs == {1, 3, 4, 5, 10, 11, 100}
Changes == {"id", "rate", "ver", "flags"}
Init == \E e \in Encs : rs = << [gap |-> "far", enc |-> e, change |-> {}] >>
Move(m) == /\ rs' = Append(rs, m)
           /\ (Len(rs') = Length => PrintT("@@GEN " \o ToJson(rs')))
\* all pairs
PairNext == \E g \in Gaps, e \in Encs, c \in SUBSET Changes :
              /\ e = rs[1].enc \/ (g \in {"on time", "far"} /\ Cardinality(c) <= 1)
              /\ Move([gap |-> g, enc |-> e, change |-> c])
\* a random walk in which most neighbours fit
InTime == {"on time", "micro late", "micro early", "just in", "after last"}
WalkNext ==
  LET k == RandomElement(1..10)
      e == IF k <= 8 THEN rs[Len(rs)].enc ELSE RandomElement(Encs)
      g == IF RandomElement(1..10) <= 7 THEN RandomElement(InTime) ELSE RandomElement(Gaps)
      c == IF RandomElement(1..10) <= 7 THEN {} ELSE { RandomElement(Changes) }
  IN Move([gap |-> g, enc |-> e, change |-> c])
GenNext == Len(rs) < Length /\ IF Pairs THEN PairNext ELSE WalkNext
Spec == Init /\ [][GenNext]_vars
=============================================================================
