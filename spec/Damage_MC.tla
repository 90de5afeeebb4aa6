------------------------------ MODULE Damage_MC ------------------------------
(* A reader of miniSEED 2 over all cuts and all changes of a structural byte *)
(* of small streams: it delivers what is whole, one record after another, and *)
(* stops with an error at what is cut or broken; at what is doubtful it may  *)
(* do either.                                                                *)
EXTENDS Damage, TLC
B1000(exp) == [t |-> 1000, enc |-> 1, order |-> 1, len |-> exp]
B100 == [t |-> 100, rate |-> <<65, 32, 0, 0>>]
BUnk == [t |-> 300, raw |-> <<3, 232, 0, 0>>]
Base(blks, big, exp) ==
  [ big |-> big, seq |-> 42, quality |-> <<82>>, network |-> <<65>>, station |-> <<66, 67>>, location |-> <<>>,
    channel |-> <<66, 72, 90>>, bt |-> <<2000, 366, 23, 59, 60, 9999>>, n |-> 3,
    factor |-> 10, multiplier |-> -3, act |-> 1, io |-> 32, qual |-> 128, timeCorr |-> <<255, 255, 255, 254>>,
    blks |-> blks, exp |-> exp, payload |-> <<1, 2, 3, 4, 255, 255>> ]
Recs == { R2!Layout2(Base(<<B1000(7)>>, TRUE, 7), 0, 96), R2!Layout2(Base(<<B1000(6)>>, FALSE, 6), 0, 0),
          R2!Layout2(Base(<<B100, B1000(7), BUnk>>, FALSE, 7), 4, 96) }
Values == {0, 1, 3, 5, 6, 7, 8, 48, 56, 60, 64, 96, 127, 128, 255}
Places == (20..23) \cup {39} \cup (44..70)
VARIABLES bytes, cut, ends, pos, got, phase
vars == <<bytes, cut, ends, pos, got, phase>>
Init == /\ \E a, b \in Recs :
             /\ ends = <<0, Len(a), Len(a) + Len(b)>>
             /\ \/ \E k \in 0..(Len(a) + Len(b)) : bytes = SubSeq(a \o b, 1, k) /\ cut = TRUE
                \/ \E i \in Places, v \in Values : bytes = [a \o b EXCEPT ![i + 1] = v] /\ cut = FALSE
        /\ pos = 0 /\ got = <<>> /\ phase = "reading"
C == Class2(bytes, pos)
Deliver == phase = "reading" /\ C \in {"whole"} /\ got' = Append(got, pos) /\ pos' = pos + R2!Parse2(bytes, pos).size
           /\ UNCHANGED <<bytes, cut, ends, phase>>
End == phase = "reading" /\ C \in {"eof", "tail"} /\ phase' = "end" /\ UNCHANGED <<bytes, cut, ends, pos, got>>
Raise == phase = "reading" /\ C \in {"tail", "cut", "broken", "doubtful"} /\ phase' = "raise" /\ UNCHANGED <<bytes, cut, ends, pos, got>>
Doubt == phase = "reading" /\ C = "doubtful" /\ phase' = "unknown" /\ UNCHANGED <<bytes, cut, ends, pos, got>>
Next == Deliver \/ End \/ Raise \/ Doubt
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* of a stream cut off, exactly what is whole is delivered, and the rest is not silently dropped
CutOff == cut /\ phase # "reading" =>
   /\ got = SelectSeq(SubSeq(ends, 1, 2), LAMBDA s : \E i \in 1..2 : ends[i] = s /\ ends[i + 1] <= Len(bytes))
   /\ phase # "unknown"
   /\ (phase = "end" => \E i \in 1..3 : Len(bytes) >= ends[i] /\ Len(bytes) - ends[i] < 48)
\* whatever is delivered lies within the stream, one after another
Within == \A i \in 1..Len(got) : /\ got[i] = (IF i = 1 THEN 0 ELSE got[i - 1] + R2!Parse2(bytes, got[i - 1]).size)
                                 /\ got[i] + R2!Parse2(bytes, got[i]).size <= Len(bytes)
Agrees == phase # "reading" => Known2(bytes, 0, <<>>).got = got
\* whatever the strict reader of conformant streams delivers first is known
Strict == phase # "reading" => LET r == R2!Run2(bytes, [t |-> "none"]) IN Len(got) <= Len(r.got) /\ got = SubSeq(r.got, 1, Len(got))
Ends == <>(phase # "reading")
\* (must be violated)
NeverBroken == ~(C = "broken")
=============================================================================
