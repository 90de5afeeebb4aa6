------------------------------ MODULE Mseed2_MC ------------------------------
(* The miniSEED 2 reader as a machine over streams of small records of every *)
(* byte order, chain of blockettes and gap, and the format laws.             *)
EXTENDS Reader2, TLC
B1000(enc, order, exp) == [t |-> 1000, enc |-> enc, order |-> order, len |-> exp]
B100 == [t |-> 100, rate |-> <<65, 32, 0, 0>>]          \* 10 Hz
B1001(us) == [t |-> 1001, q |-> 90, us |-> us, fc |-> 7]
BUnk == [t |-> 300, raw |-> <<3, 232, 0, 0>>]            \* its body looks like the head of another
Chains(order) == { <<B1000(1, order, 7)>>, <<B1001(5), B1000(1, order, 7)>>, <<B1000(1, order, 7), B100, B1001(250)>>,
                   <<BUnk, B1000(1, order, 7)>>, <<B100, BUnk, B1000(1, order, 7)>>, <<B1000(1, order, 7), BUnk>> }
Base2(big, chan, blks, n) ==
  [ big |-> big, seq |-> 42, quality |-> <<82>>, network |-> <<65>>, station |-> <<66, 67>>, location |-> <<>>,
    channel |-> <<66, 72, chan>>, bt |-> <<2000, 366, 23, 59, 60, 9999>>, n |-> n,
    factor |-> 10, multiplier |-> -3, act |-> 1, io |-> 32, qual |-> 128, timeCorr |-> <<255, 255, 255, 254>>,
    blks |-> blks, exp |-> 7, payload |-> <<1, 2, 3, 4, 255, 255>> ]
Parts == { [c |-> Base2(big, chan, blks, n), gap |-> gap, doff |-> IF n = 0 THEN 0 ELSE 96] :
             big \in BOOLEAN, chan \in {90, 78}, gap \in {0, 4}, n \in {0, 3},
             blks \in UNION { Chains(o) : o \in {0, 1} } }
Rec(x) == Layout2(x.c, x.gap, x.doff)
Fields2 == {"big", "seq", "quality", "network", "station", "location", "channel", "bt", "n", "factor", "multiplier",
            "act", "io", "qual", "timeCorr", "exp"}
StartOf(k) == <<DayNumber(2001, 1), 0, 999900 + k>>
LayoutParses(x) ==
  LET p == Parse2(Rec(x), 0)
      us == SumUs(x.c.blks, TRUE)
  IN /\ p.why = "" /\ p.size = 128
     /\ \A f \in Fields2 : p[f] = x.c[f]
     /\ Len(p.blks) = Len(x.c.blks)
     /\ \A i \in 1..Len(p.blks) :
          IF p.blks[i].t \in {100, 1000, 1001} THEN p.blks[i] = x.c.blks[i]
          ELSE p.blks[i].t = x.c.blks[i].t /\ SubSeq(p.blks[i].raw, 1, 4) = x.c.blks[i].raw
     /\ p.start = AddMicros(<<DayNumber(2001, 1), 0, 999900>>, us)
     /\ Samples2(p) = [ok |-> TRUE, s |-> IF x.c.n = 0 THEN <<>>
                        ELSE IF p.order = 0 THEN <<513, 1027, -1>> ELSE <<258, 772, -1>>]
     /\ p.nominal = [p |-> 10, q |-> 3]
ASSUME \A f, m \in {-7, -1, 1, 7, 32767, -32767} :
  LET r == NominalRate(f, m) IN r.p >= 1 /\ r.q >= 1 /\ NominalRate(-f, -m) = [p |-> r.q, q |-> r.p]
                                /\ NominalRate(m, f) = r

Filters2 == { [t |-> "none"], [t |-> "cat", k |-> <<[t |-> "lit", c |-> 90], [t |-> "eos"]>>] }
VARIABLES recs, bytes, filter, pos, got, phase
vars == <<recs, bytes, filter, pos, got, phase>>
Firsts == { x \in Parts : x.gap = 4 \/ x.doff = 0 }
Seconds == { x \in Parts : x.gap = 0 /\ x.doff = 96 /\ Len(x.c.blks) = 1 }
Init == /\ \E x \in Parts, y \in Seconds : recs = <<x, y>> \/ (x \in Firsts /\ recs = <<y, x, y>>)
        /\ filter \in Filters2
        /\ bytes = FoldLeft(LAMBDA a, x : a \o Rec(x), <<>>, recs)
        /\ pos = 0 /\ got = <<>> /\ phase = "reading"
Step == ReadStep2(bytes, pos, filter)
Deliver == phase = "reading" /\ Step.k = "yield" /\ got' = Append(got, pos) /\ pos' = pos + Step.size
           /\ UNCHANGED <<recs, bytes, filter, phase>>
Skip == phase = "reading" /\ Step.k = "skip" /\ pos' = pos + Step.size /\ UNCHANGED <<recs, bytes, filter, got, phase>>
Stop == phase = "reading" /\ Step.k \in {"eof", "raise"} /\ phase' = Step.k /\ UNCHANGED <<recs, bytes, filter, pos, got>>
Next == Deliver \/ Skip \/ Stop
Spec == Init /\ [][Next]_vars
WantedRecs == SelectSeq([i \in 1..Len(recs) |-> i], LAMBDA i : filter.t = "none" \/ recs[i].c.channel[3] = 90)
Complete == phase # "reading" => phase = "eof" /\ got = [j \in 1..Len(WantedRecs) |-> (WantedRecs[j] - 1) * 128]
Format == \A i \in 1..Len(recs) : LayoutParses(recs[i])
MachineIsRun2 == phase # "reading" => Run2(bytes, filter) = [got |-> got, end |-> phase]
\* (must be violated) the order of the data is that of the header
OneOrder == \A i \in 1..Len(recs) : LET p == Parse2(Rec(recs[i]), 0) IN p.n = 0 \/ Samples2(p) = SamplesOf(1, p.payload, 3, ~p.big)
=============================================================================
