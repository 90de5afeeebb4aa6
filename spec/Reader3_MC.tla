----------------------------- MODULE Reader3_MC -----------------------------
(* The reader as a machine over a stream of small records, of which one may  *)
(* be damaged (one or two bits flipped, or the stream cut).                  *)
EXTENDS Reader3
CONSTANTS TwoBits   \* also flip pairs of bits

Zero(f) == [i \in 1..Width(f) |-> 0]
Content(n) == [f \in ContentFields |-> IF f = "flags" THEN <<n>> ELSE IF f = "encoding" THEN <<3>> ELSE Zero(f)]
RecA == Layout(Content(1), <<65>>, <<>>, <<>>)
RecB == Layout(Content(2), <<66, 67>>, <<123, 125>>, <<1>>)
\* its payload looks like a record by itself
RecC == Layout(Content(3), <<65, 66>>, <<>>, RecA)
Streams == { <<RecA, RecB, RecA>>, <<RecB, RecC>>, <<RecC, RecA>>, <<RecA>> }
Filters == { NoFilter, [t |-> "lit", c |-> 65],
             [t |-> "cat", k |-> << [t |-> "bos"], [t |-> "lit", c |-> 66] >>] }
Concat(rs) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, rs)
Starts(rs) == [i \in 1..Len(rs) |-> Len(Concat(SubSeq(rs, 1, i - 1)))]

FlipBit(bytes, k) == LET i == (k \div 8) + 1
                         b == k % 8
                     IN [bytes EXCEPT ![i] = IF (@ \div 2^b) % 2 = 1 THEN @ - 2^b ELSE @ + 2^b]

VARIABLES recs, bytes, filter, check, fault, pos, got, phase
vars == <<recs, bytes, filter, check, fault, pos, got, phase>>

NBits(rs) == 8 * Len(Concat(rs))
Faults(rs) == { <<"none">> } \cup { <<"flip", k>> : k \in 0..NBits(rs) - 1 }
              \cup { <<"cut", k>> : k \in 1..Len(Concat(rs)) - 1 }
              \cup IF TwoBits /\ Len(rs) = 1
                   THEN { <<"flip2", j, k>> : j \in 0..NBits(rs) - 1, k \in 0..NBits(rs) - 1 } ELSE {}
Damage(b, f) == CASE f[1] = "none" -> b
                  [] f[1] = "flip" -> FlipBit(b, f[2])
                  [] f[1] = "flip2" -> IF f[2] = f[3] THEN b ELSE FlipBit(FlipBit(b, f[2]), f[3])
                  [] f[1] = "cut" -> SubSeq(b, 1, f[2])
\* byte (0 based) where the damage is
DamageAt(f, n) == CASE f[1] = "none" -> n [] f[1] = "cut" -> f[2]
                    [] f[1] = "flip" -> f[2] \div 8
                    [] f[1] = "flip2" -> IF f[2] = f[3] THEN n ELSE IF f[2] < f[3] THEN f[2] \div 8 ELSE f[3] \div 8

Init == /\ recs \in Streams /\ filter \in Filters /\ check \in BOOLEAN
        /\ fault \in Faults(recs)
        /\ bytes = Damage(Concat(recs), fault)
        /\ pos = 0 /\ got = <<>> /\ phase = "reading"
Step == ReadStep(bytes, pos, filter, check)
Deliver == phase = "reading" /\ Step.k = "yield"
           /\ got' = Append(got, pos) /\ pos' = pos + Step.size /\ UNCHANGED <<recs, bytes, filter, check, fault, phase>>
Skip == phase = "reading" /\ Step.k = "skip"
        /\ pos' = pos + Step.size /\ UNCHANGED <<recs, bytes, filter, check, fault, got, phase>>
Eof == phase = "reading" /\ Step.k = "eof"
       /\ phase' = "eof" /\ UNCHANGED <<recs, bytes, filter, check, fault, pos, got>>
Raise == phase = "reading" /\ Step.k = "raise"
         /\ phase' = "raise" /\ UNCHANGED <<recs, bytes, filter, check, fault, pos, got>>
Next == Deliver \/ Skip \/ Eof \/ Raise
Spec == Init /\ [][Next]_vars

IdOf(i) == Parse(Concat(recs), Starts(recs)[i]).id
Wanted == SelectSeq([i \in 1..Len(recs) |-> i], LAMBDA i : Selects(filter, IdOf(i)))
\* undamaged: exactly the selected records, once, in order
CleanComplete == (fault[1] = "none" /\ phase # "reading") =>
   /\ phase = "eof"
   /\ got = [j \in 1..Len(Wanted) |-> Starts(recs)[Wanted[j]]]
\* what is delivered under CRC checking is an undamaged record
NeverDamaged == check => \A j \in 1..Len(got) :
   \E i \in 1..Len(recs) : /\ Starts(recs)[i] = got[j] /\ got[j] + Len(recs[i]) <= Len(bytes)
                           /\ SubSeq(bytes, got[j] + 1, got[j] + Len(recs[i])) = recs[i]
\* everything selected before the damage is delivered, whatever comes later
BeforeDamage == phase # "reading" =>
   \A i \in 1..Len(recs) :
     (Selects(filter, IdOf(i)) /\ Starts(recs)[i] + Len(recs[i]) <= DamageAt(fault, Len(Concat(recs))))
       => \E j \in 1..Len(got) : got[j] = Starts(recs)[i]
\* without filter damage always ends with an exception
DamageNoticed == (check /\ filter = NoFilter /\ phase = "eof") =>
   bytes = Concat(recs) \/ \E n \in 1..Len(recs) : bytes = Concat(SubSeq(recs, 1, n))
MachineIsRun == phase # "reading" => Run(bytes, filter, check) = [got |-> got, end |-> phase, pos |-> pos]
\* (must be violated) damage is noticed also without checking
WithoutCheck == (filter = NoFilter /\ phase = "eof") => bytes = Concat(recs)
=============================================================================
