------------------------------ MODULE Rec3_MC ------------------------------
(* Layout and Parse are inverse, over records of all small shapes.          *)
EXTENDS MSeed3Format
CONSTANT MaxLen
VARIABLES c, id, eh, payload
vars == <<c, id, eh, payload>>
Blank == [f \in ContentFields |-> [i \in 1..Width(f) |-> 0]]
Marked(f) == [Blank EXCEPT ![f] = [i \in 1..Width(f) |-> i + 200]]
Bodies(n) == { [i \in 1..k |-> v] : k \in 0..n, v \in {0, 77, 255} }
Init == c \in {Blank} \cup { Marked(f) : f \in ContentFields } /\ id = <<>> /\ eh = <<>> /\ payload = <<>>
Next == \/ \E v \in {65, 77} : Len(id) < MaxLen /\ id' = Append(id, v) /\ UNCHANGED <<c, eh, payload>>
        \/ \E v \in {123, 3} : Len(eh) < MaxLen /\ eh' = Append(eh, v) /\ UNCHANGED <<c, id, payload>>
        \/ \E v \in {0, 77, 255} : Len(payload) < MaxLen /\ payload' = Append(payload, v) /\ UNCHANGED <<c, id, eh>>
Spec == Init /\ [][Next]_vars
B == Layout(c, id, eh, payload)
ParseOfLayout ==
  LET p == Parse(<<9, 9>> \o B \o <<1>>, 2)
  IN /\ p.why = "" /\ p.crcOk /\ p.size = Len(B)
     /\ p.id = id /\ p.eh = eh /\ p.payload = payload
     /\ \A f \in ContentFields : Get(B, 0, f) = c[f]
ShorterIsRefused == \A n \in 0..Len(B) - 1 : Parse(SubSeq(B, 1, n), 0).why # ""
Size == Len(B) = FixedSize + Len(id) + Len(eh) + Len(payload)
=============================================================================
