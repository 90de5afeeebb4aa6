------------------------------ MODULE SessionRun ------------------------------
(* The tools as processes that read and write records one at a time and can  *)
(* be killed: after every session the files denote what Session says.        *)
EXTENDS Session, FiniteSets
CONSTANTS Names, MaxOps,
          Way    \* "careful" is the design; the others are mistakes
VARIABLES disk, want, run, ops
vars == <<disk, want, run, ops>>
\* a record: channel, time of the first of n samples, which tell themselves apart
Recs == {[c |-> 1, t |-> 1, n |-> 1], [c |-> 1, t |-> 2, n |-> 2], [c |-> 2, t |-> 2, n |-> 1], [c |-> 1, t |-> 9, n |-> 1]}
Val(c, t) == 100 * c + t
Flat1(r) == [j \in 1..r.n |-> <<r.c, r.t + j - 1, Val(r.c, r.t + j - 1)>>]
RECURSIVE Flat(_)
Flat(rs) == IF rs = <<>> THEN <<>> ELSE Flat1(Head(rs)) \o Flat(Tail(rs))
\* disk: [k, recs, bad] - bad: number of records before damage, or -1
Absent == [k |-> "none", recs |-> <<>>, bad |-> -1]
Good(d) == IF d.bad = -1 THEN d.recs ELSE SubSeq(d.recs, 1, d.bad)
Denotes(d) == [k |-> IF d.k # "none" /\ d.recs = <<>> THEN "empty" ELSE d.k, s |-> Flat(Good(d)), whole |-> d.bad = -1]
Idle == [tool |-> "none"]
Contents == UNION { [1..n -> Recs] : n \in 0..2 }
Init == /\ \E f \in Names, k \in {"two", "three"}, rs \in Contents :
             disk = [g \in Names |-> IF g = f THEN [k |-> k, recs |-> rs, bad |-> -1] ELSE Absent]
        /\ want = [g \in Names |-> Denotes(disk[g])]
        /\ run = Idle /\ ops = 0
Joins(a, b) == (a.c = b.c \/ Way = "mixes") /\ b.t = a.t + a.n
Start(tool, i, o) ==
  /\ run = Idle /\ ops < MaxOps /\ disk[i].k # "none" /\ ops' = ops + 1
  /\ IF i = o /\ Way # "careless" THEN UNCHANGED <<disk, want, run>>     \* refused
     ELSE /\ run' = [tool |-> tool, i |-> i, o |-> o, p |-> 1, held |-> <<>>, was |-> want[i]]
          /\ disk' = [disk EXCEPT ![o] = [k |-> "three", recs |-> <<>>, bad |-> -1]]
          /\ UNCHANGED want
\* the tool has ended with output as it is
End(ok) == /\ run' = Idle
           /\ want' = IF ok THEN [want EXCEPT ![run.o] = File("three", run.was.s)]
                      ELSE [want EXCEPT ![run.o] = Denotes(disk[run.o])]
Wants(tool) == IF tool = "convert" THEN "two" ELSE "three"
Read ==
  /\ run.tool # "none" /\ run.p <= Len(disk[run.i].recs)
  /\ LET d == disk[run.i]
         broken == d.k # Wants(run.tool) \/ (d.bad # -1 /\ run.p > d.bad)
         r == d.recs[run.p]
         put(rs) == [disk EXCEPT ![run.o].recs = @ \o rs]
     IN IF broken THEN End(Way = "silent") /\ UNCHANGED disk
        ELSE /\ UNCHANGED want
             /\ IF run.tool = "convert" THEN disk' = put(<<r>>) /\ run' = [run EXCEPT !.p = @ + 1]
                ELSE IF run.held = <<>> THEN run' = [run EXCEPT !.p = @ + 1, !.held = <<r>>] /\ UNCHANGED disk
                ELSE IF Joins(run.held[1], r)
                     THEN run' = [run EXCEPT !.p = @ + 1, !.held = <<[@[1] EXCEPT !.n = @ + r.n]>>] /\ UNCHANGED disk
                ELSE disk' = put(run.held) /\ run' = [run EXCEPT !.p = @ + 1, !.held = <<r>>]
  /\ UNCHANGED ops
Finish == /\ run.tool # "none" /\ run.p > Len(disk[run.i].recs)
          /\ IF run.held # <<>>
             THEN /\ disk' = [disk EXCEPT ![run.o].recs = @ \o (IF Way = "forgets" THEN <<>> ELSE run.held)]
                  /\ run' = [run EXCEPT !.held = <<>>] /\ UNCHANGED want
             ELSE End(TRUE) /\ UNCHANGED disk
          /\ UNCHANGED ops
Die == run.tool # "none" /\ End(FALSE) /\ UNCHANGED <<disk, ops>>
Hurt(f, b) == /\ run = Idle /\ ops < MaxOps /\ disk[f].k # "none" /\ disk[f].bad = -1 /\ b < Len(disk[f].recs)
              /\ disk' = [disk EXCEPT ![f].bad = b]
              /\ want' = [want EXCEPT ![f] = Denotes(disk'[f])]
              /\ ops' = ops + 1 /\ UNCHANGED run
Next == \/ \E t \in {"convert", "merge"}, i \in Names, o \in Names : Start(t, i, o)
        \/ Read \/ Finish \/ Die
        \/ \E f \in Names, b \in 0..1 : Hurt(f, b)
Spec == Init /\ [][Next]_vars

Same(f) == LET d == Denotes(disk[f]) IN d.s = want[f].s /\ d.whole = want[f].whole
Kept == \A f \in Names : (run.tool = "none" \/ f # run.o) => Same(f)
Part == run.tool # "none" /\ run.i # run.o => IsPrefixOf(Denotes(disk[run.o]).s, run.was.s)
\* to be violated
Unreached == ~(ops = MaxOps /\ run = Idle /\ Cardinality({f \in Names : Len(want[f].s) = 3}) = Cardinality(Names))
=============================================================================
