-------------------------------- MODULE Ms2Rep --------------------------------
(* miniSEED 2 records as objects with a header and a list of blockettes: the *)
(* header keeps factor and multiplier it was read with, packing adds the     *)
(* blockette 1000 to the list and the rest of the start time is in blockette *)
(* 1001.  They must hold what Ms2Life says at all times.                     *)
EXTENDS Ms2Life, TLC
CONSTANTS Way,     \* "own" is the design; the others are mistakes
          MaxBlk   \* blockettes of a record but for the 1000
VARIABLES st, rec, hdr, lists
vars == <<st, rec, hdr, lists>>
Rates == {1, 2}
Times == {137, 250}
K1000 == [t |-> 1000]
KMicro(us) == [t |-> 1001, q |-> 0, us |-> us, fc |-> 0]
KOther == [t |-> 300, raw |-> <<>>]
Objs == 1..(2 * Cardinality(Slots))
New(used) == CHOOSE o \in Objs : o \notin used
HNew == New({rec[s].h : s \in Slots})
LNew == New({rec[s].b : s \in Slots})
T(us) == <<0, 0, us>>
Init == /\ st = [s \in Slots |-> Free] /\ rec = [s \in Slots |-> [h |-> 0, b |-> 0]]
        /\ hdr = [o \in Objs |-> [rate |-> 0, factor |-> 0, t |-> 0]] /\ lists = [o \in Objs |-> <<>>]
Holding(n, us, blks) == [f |-> <<>>, exp |-> 9, t |-> T(us), rate |-> [k |-> "fm", f |-> n, m |-> 1], cur |-> 0, blks |-> blks,
                         pl |-> <<>>, bad |-> {}]
Create(s, n, us) ==
  /\ ~Live(st, s) /\ st' = Put(st, s, Holding(n, us, <<>>))
  /\ rec' = [rec EXCEPT ![s] = [h |-> HNew, b |-> LNew]]
  /\ hdr' = [hdr EXCEPT ![HNew] = [rate |-> n, factor |-> 0, t |-> us]]
  /\ lists' = [lists EXCEPT ![LNew] = <<>>]
Rate(s, n) ==
  /\ Live(st, s) /\ st' = SetRate(st, s, n)
  /\ hdr' = [hdr EXCEPT ![rec[s].h].rate = n, ![rec[s].h].factor = IF Way = "stale factor" THEN @ ELSE 0]
  /\ UNCHANGED <<rec, lists>>
Time(s, us) ==
  /\ Live(st, s) /\ st' = SetTime(st, s, T(us)) /\ hdr' = [hdr EXCEPT ![rec[s].h].t = us] /\ UNCHANGED <<rec, lists>>
\* place in the list without the blockette 1000
Index(b, i) == Len(No1000(SubSeq(b, 1, i)))
Append2(s, i, k) ==
  /\ Live(st, s) /\ LET b == lists[rec[s].b] IN
       /\ i <= Len(b) /\ Len(No1000(b)) < MaxBlk
       /\ k.t = 1001 => \A j \in 1..Len(b) : b[j].t # 1001
       /\ LET kk == IF k.t = 1001 THEN KMicro(hdr[rec[s].h].t % 100) ELSE k
          IN lists' = [lists EXCEPT ![rec[s].b] = InsertBlk(@, i, kk)]
       /\ st' = AddBlk(st, s, Index(b, i), IF k.t = 1001 THEN [t |-> 1001, made |-> 1] ELSE k)
  /\ UNCHANGED <<rec, hdr>>
Del(s, i) ==
  /\ Live(st, s) /\ LET b == lists[rec[s].b] IN
       /\ i \in 1..Len(b)
       /\ lists' = [lists EXCEPT ![rec[s].b] = RemoveBlk(@, i)]
       /\ st' = IF b[i].t = 1000 THEN st ELSE DelBlk(st, s, Index(b, i))
  /\ UNCHANGED <<rec, hdr>>
\* what packing writes
WithB1000(b) == IF Way # "adds always" /\ \E i \in 1..Len(b) : b[i].t = 1000 THEN b ELSE <<K1000>> \o b
Head100(s) == LET u == IF Way = "forgets micros" THEN 0 ELSE SumMicros(lists[rec[s].b])
              IN ((hdr[rec[s].h].t - u) \div 100) * 100
Packed(s) == [rate |-> LET h == hdr[rec[s].h] IN IF h.factor # 0 THEN h.factor ELSE h.rate,
              start |-> T(Head100(s) + SumMicros(lists[rec[s].b])), blks |-> WithB1000(lists[rec[s].b])]
Pack(s) ==
  /\ Live(st, s) /\ Len(lists[rec[s].b]) < 4
  /\ lists' = [lists EXCEPT ![rec[s].b] = Packed(s).blks] /\ UNCHANGED <<st, rec, hdr>>
DoClone(s, t) ==
  /\ Live(st, s) /\ s # t
  /\ LET p == Packed(s) IN
       /\ st' = Put(st, t, Holding(p.rate, p.start[3], No1000(p.blks)))
       /\ rec' = [rec EXCEPT ![t] = [h |-> HNew, b |-> IF Way = "clone shares" THEN rec[s].b ELSE LNew]]
       /\ hdr' = [hdr EXCEPT ![HNew] = [rate |-> p.rate, factor |-> p.rate, t |-> p.start[3]]]
       /\ lists' = IF Way = "clone shares" THEN lists ELSE [lists EXCEPT ![rec[s].b] = p.blks, ![LNew] = p.blks]
Next == \E s \in Slots :
          \/ Pack(s)
          \/ \E n \in Rates : Rate(s, n) \/ (\E us \in Times : Create(s, n, us))
          \/ \E us \in Times : Time(s, us)
          \/ \E i \in 0..3 : Del(s, i) \/ (\E k \in {KOther, KMicro(0)} : Append2(s, i, k))
          \/ \E t \in Slots : DoClone(s, t)
Spec == Init /\ [][Next]_vars
Holds(s) ==
  LET p == Packed(s)  r == st[s]
  IN /\ p.rate = (IF r.rate.k = "fm" THEN r.rate.f ELSE r.rate.v)
     /\ StartOk(p, r)
     /\ No1000(p.blks) = r.blks
     /\ Len(SelectSeq(p.blks, LAMBDA b : b.t = 1000)) = 1
Consistent == \A s \in Slots : Live(st, s) => Holds(s)
Sym == Permutations(Slots)
View == <<st, [s \in Slots |-> IF rec[s].h = 0 THEN <<>> ELSE <<hdr[rec[s].h], lists[rec[s].b]>>],
          {p \in Slots \X Slots : rec[p[1]].h = rec[p[2]].h}, {p \in Slots \X Slots : rec[p[1]].b = rec[p[2]].b}>>
\* to be violated: a clone whose rate was set, with microseconds in a blockette after another one
Unreached == ~(\E s, t \in Slots : s # t /\ Live(st, s) /\ Live(st, t) /\ st[s].rate.k = "hz" /\ st[t].rate.k = "fm"
               /\ Len(st[s].blks) = 2 /\ st[s].blks[2].t = 1001 /\ st[s].blks[2].us = 37 /\ st[s].blks # st[t].blks)
===============================================================================
