------------------------------ MODULE Merge_MC ------------------------------
(* The merging reader over all short sequences of small records: nothing is  *)
(* lost, duplicated, reordered or moved in time, and only what may be joined *)
(* is joined.                                                                *)
EXTENDS Merge
CONSTANTS MaxRecs, Period, TwoEncodings
\* on time, at and just after the last sample, a little late, just too late, far
Gaps == {0, -Period, 1 - Period, 1, Period \div 2, 2 * Period + 1}
VARIABLES todo, st, next, phase
Kinds == { <<3, "plain">>, <<10, "packed">>, <<100, "opaque">> }
         \cup IF TwoEncodings THEN { <<1, "plain">> } ELSE {}
vars == <<todo, st, next, phase>>
\* next: time to which gaps are relative, and number for the next sample

Rec(id, enc, kind, t, n, k) ==
  [id |-> id, rate |-> 1, per |-> <<0, Period>>, enc |-> enc, ver |-> 1, t |-> TNorm(0, t), n |-> n,
   data |-> [i \in 1..n |-> k + i], eh |-> k, kind |-> kind]
Init == todo = <<>> /\ st = Start /\ next = <<0, 0>> /\ phase = "reading"
Read == /\ phase = "reading" /\ Len(todo) < MaxRecs
        /\ \E g \in Gaps, n \in 1..2, id \in {1, 2}, kd \in Kinds :
             LET r == Rec(id, kd[1], kd[2], next[1] + g, n, next[2])
             IN /\ next[1] + g >= 0
                /\ todo' = Append(todo, r)
                /\ st' = Take(st, r)
                /\ next' = <<next[1] + g + n * Period, next[2] + n>>
        /\ UNCHANGED phase
End == /\ phase = "reading" /\ phase' = "done"
       /\ st' = [held |-> <<>>, out |-> Finish(st)] /\ UNCHANGED <<todo, next>>
Next == Read \/ End
Spec == Init /\ [][Next]_vars

Out == Finish(st)
RECURSIVE Flat(_)
\* every sample with identifier and time
Flat(rs) == IF rs = <<>> THEN <<>>
            ELSE [i \in 1..Head(rs).n |-> [x |-> Head(rs).data[i], id |-> Head(rs).id,
                                           t |-> TAdd(Head(rs).t, TScale(Head(rs).per, i - 1))]]
                 \o Flat(Tail(rs))
Nothing == LET a == Flat(todo) b == Flat(Out)
           IN /\ Len(a) = Len(b)
              /\ \A i \in 1..Len(a) : a[i].x = b[i].x /\ a[i].id = b[i].id
\* a sample is told less than half a period early and less than one period late
Times == LET a == Flat(todo) b == Flat(Out)
         IN \A i \in 1..Len(a) : LET d == TSub(a[i].t, b[i].t)
                                 IN TLess(TScale(d, 2), <<0, Period>>) /\ TLess(<<0, 0>>, TAdd(d, <<0, Period>>))
Counts == \A i \in 1..Len(Out) : Len(Out[i].data) = Out[i].n
InPlace == \* records that cannot be decompressed are all there, as they were
  SelectSeq(todo, LAMBDA r : r.kind = "opaque") = SelectSeq(Out, LAMBDA r : r.kind = "opaque")
FirstOnes == \A i \in 1..Len(Out) : \E j \in 1..Len(todo) :
                todo[j].t = Out[i].t /\ todo[j].eh = Out[i].eh /\ todo[j].data[1] = Out[i].data[1]
NoMore == \A i \in 1..Len(Out) - 1 : ~Joinable(Out[i], Out[i + 1])
OneStep == phase = "done" => Out = MergeAll(todo)
\* to be violated
Unreached == ~(phase = "done" /\ Len(todo) = MaxRecs /\ Len(Out) = 1 /\ Out[1].n > 2)
=============================================================================
