---------------------------- MODULE Session_Trace ----------------------------
(* Judges recorded sessions: what every file denotes, after every step, from *)
(* its bytes alone.                                                          *)
EXTENDS Session, Calendar, IOUtils, Json, TLC
LOCAL M3 == INSTANCE MSeed3Format
LOCAL R2 == INSTANCE Reader2
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, ok) == IF ok THEN {} ELSE {name}

-----------------------------------------------------------------------------
(* Samples of a record: <<channel, time after e.base, value>>                *)
\* period of a rate (ratio): e.periods lists <<p, q, seconds, microseconds>> for p / q hertz
Periods(e, r) == { k \in 1..Len(e.periods) : R2!Nearly(r, R2!RatioOf(e.periods[k][1], e.periods[k][2])) }
Period(e, r) == IF r.p = <<>> \/ Periods(e, r) = {} THEN <<-1, 0>>
                ELSE LET k == CHOOSE k \in Periods(e, r) : TRUE IN <<e.periods[k][3], e.periods[k][4]>>
\* whole number of the bytes of an IEEE number
NotWhole == 2000000000   \* no sample is this
WholeOf(b) ==
  IF Len(b) = 8
  THEN LET e == (b[1] % 128) * 16 + (b[2] \div 16) - 1023
           m == (b[2] % 16) * 16777216 + b[3] * 65536 + b[4] * 256 + b[5]
       IN IF \A i \in 1..8 : b[i] = 0 THEN 0
          ELSE IF e \notin 0..27 THEN NotWhole
          ELSE IF b[6] # 0 \/ b[7] # 0 \/ b[8] # 0 \/ m % (2 ^ (28 - e)) # 0 THEN NotWhole
          ELSE (IF b[1] >= 128 THEN -1 ELSE 1) * (2 ^ e + (m \div (2 ^ (28 - e))))
  ELSE LET e == (b[1] % 128) * 2 + (b[2] \div 128) - 127
           m == (b[2] % 128) * 65536 + b[3] * 256 + b[4]
       IN IF \A i \in 1..4 : b[i] = 0 THEN 0
          ELSE IF e \notin 0..22 THEN NotWhole
          ELSE IF m % (2 ^ (23 - e)) # 0 THEN NotWhole
          ELSE (IF b[1] >= 128 THEN -1 ELSE 1) * (2 ^ e + (m \div (2 ^ (23 - e))))
Value(enc, v) == IF enc \in {4, 5} THEN WholeOf(v) ELSE v
Items(id, t, per, enc, vals) == [i \in 1..Len(vals) |-> <<id, TAdd(t, TScale(per, i - 1)), Value(enc, vals[i])>>]
\* far off, in time
Elsewhere == <<-1, -1>>
Near(e, day) == day - e.base < 20000 /\ e.base - day < 20000
After(e, t) == IF Near(e, t[1]) THEN <<(t[1] - e.base) * 86400 + t[2], t[3]>> ELSE Elsewhere
NoSamples == << <<<<>>, Elsewhere, 0>> >>
Items2(e, p) == LET v == R2!Samples2(p)
                IN IF ~v.ok THEN NoSamples ELSE Items(R2!Sid2(p), After(e, p.start), Period(e, R2!Rate2(p)), p.encoding, v.s)
Num3(b, at, f) == M3!LeNum(M3!Get(b, at, f))
Rate3(b, at) == LET v == R2!IeeeValue(R2!Rev(M3!Get(b, at, "rate")))
                IN IF v.neg THEN R2!Inv(R2!Ratio(v)) ELSE R2!Ratio(v)
Items3(e, p, b, at) ==
  LET enc == Num3(b, at, "encoding")
      v == R2!SamplesOf(enc, p.payload, Num3(b, at, "numSamples"), TRUE)
      y == Num3(b, at, "year")
      doy == Num3(b, at, "dayOfYear")
      t == IF y \notin 1..9999 \/ ~Near(e, DayNumber(y, doy)) THEN Elsewhere
           ELSE Instant(e.base, y, doy, Num3(b, at, "hour"), Num3(b, at, "minute"), Num3(b, at, "second"),
                        Num3(b, at, "nanosecond") \div 1000)
  IN IF ~v.ok \/ Num3(b, at, "nanosecond") % 1000 # 0 THEN NoSamples
     ELSE Items(p.id, t, Period(e, Rate3(b, at)), enc, v.s)

(* What the bytes b of a file denote                                         *)
RECURSIVE All3(_, _, _, _), All2(_, _, _, _)
All3(e, b, at, s) ==
  IF at >= Len(b) THEN [k |-> "three", s |-> s, whole |-> TRUE]
  ELSE LET p == M3!Parse(b, at)
       IN IF p.why # "" \/ ~p.crcOk THEN [k |-> "three", s |-> s, whole |-> FALSE]
          ELSE All3(e, b, at + p.size, s \o Items3(e, p, b, at))
All2(e, b, at, s) ==
  IF at >= Len(b) THEN [k |-> "two", s |-> s, whole |-> TRUE]
  ELSE LET p == R2!Parse2(b, at)
       IN IF p.why # "" THEN [k |-> "two", s |-> s, whole |-> FALSE]
          ELSE All2(e, b, at + p.size, s \o Items2(e, p))
Denotes(e, b) == IF b = <<>> THEN [k |-> "empty", s |-> <<>>, whole |-> TRUE]
                 ELSE IF b[1] = 77 THEN All3(e, b, 0, <<>>) ELSE All2(e, b, 0, <<>>)
RECURSIVE DenoteAll(_, _)
DenoteAll(e, n) == IF n = 0 THEN <<>> ELSE Append(DenoteAll(e, n - 1), Denotes(e, e.contents[n]))
\* samples of records as listed: <<id, time, <<p, q>> hertz, values>>
RECURSIVE Listed(_, _)
Listed(e, rs) == IF rs = <<>> THEN <<>>
                 ELSE LET r == Head(rs) IN Items(r[1], r[2], Period(e, R2!RatioOf(r[3][1], r[3][2])), 3, r[4]) \o Listed(e, Tail(rs))
\* samples of records as the library presents them: <<id, day and time, double, values>>
RECURSIVE Presented(_, _)
Presented(e, rs) == IF rs = <<>> THEN <<>>
                    ELSE LET r == Head(rs) v == R2!IeeeValue(r[3])
                         IN Items(r[1], After(e, r[2]), Period(e, R2!Ratio(v)), 3, r[4]) \o Presented(e, Tail(rs))
Matching(filter, s) == SelectSeq(s, LAMBDA x : R2!Selects(filter, x[1]))

-----------------------------------------------------------------------------
(* One step: x of op, i, o, k ("ok" or how it failed), obs (content of each  *)
(* file, 0 none), filter; D: what the contents denote; fs: what the files do *)
Seen(D, x, f) == IF x.obs[f] = 0 THEN NoFile ELSE D[x.obs[f]]
Others(D, x, fs, o) == Clause("other files keep what they denote", \A f \in DOMAIN fs \ {o} : Seen(D, x, f) = fs[f])
Done(D, x, now) ==
  UNION { LET d == Seen(D, x, f)
          IN IF d = now[f] THEN {}
             ELSE IF f # x.o THEN {"other files keep what they denote"}
             ELSE Clause("whole records", d.whole = now[f].whole)
                  \cup Clause("number of samples", Len(d.s) = Len(now[f].s))
                  \cup Clause("samples, times, channels and their order", d.s = now[f].s)
                  \cup Clause("format", d.k = now[f].k) : f \in DOMAIN now }
NotDone(D, x, fs) ==
  Others(D, x, fs, x.o)
  \cup (IF x.o = 0 THEN {} ELSE Clause("no more than a part is written", Partial(fs, x.i, x.o, Seen(D, x, x.o))
                                         \/ (fs[x.i].k = "none" /\ Seen(D, x, x.o).s = <<>>)))
Keeps(D, x, fs) == [f \in DOMAIN fs |-> IF f = x.o /\ x.o # 0 THEN Seen(D, x, f) ELSE fs[f]]
Tool(D, x, fs, can, now) ==
  IF x.k = "ok" THEN [bad |-> Clause("failure is told", can) \cup (IF can THEN Done(D, x, now) ELSE {}), fs |-> now]
  ELSE [bad |-> Clause("works", ~can \/ x.killed = 1) \cup NotDone(D, x, fs), fs |-> Keeps(D, x, fs)]
Step(e, D, x, fs) ==
  LET i == x.i  o == x.o
  IN CASE x.op \in {"write2", "write3"} ->
            LET now == [fs EXCEPT ![o] = File(IF x.op = "write2" THEN "two" ELSE "three", fs[o].s \o Listed(e, x.recs))]
            IN [bad |-> Clause("writes", x.k = "ok") \cup Done(D, x, now), fs |-> now]
       [] x.op = "convert" -> Tool(D, x, fs, CanConvert(fs, i, o), Converted(fs, i, o))
       [] x.op = "merge" -> Tool(D, x, fs, CanMerge(fs, i, o), Merged(fs, i, o))
       [] x.op = "edit" -> IF x.k = "ok" THEN Tool(D, x, fs, CanEdit(fs, i), Edited(fs, i))
                           ELSE [bad |-> Clause("works", ~CanEdit(fs, i) \/ Matching(x.filter, fs[i].s) = <<>>)
                                         \cup Others(D, x, fs, 0), fs |-> fs]
       [] x.op = "select" ->
            LET now == Chosen(fs, i, o, Matching(x.filter, fs[i].s))
            IN [bad |-> Clause("works", x.k = "ok") \cup Done(D, x, now), fs |-> now]
       [] x.op = "cat" -> LET now == Joined(fs, i, o) IN [bad |-> Done(D, x, now), fs |-> now]
       [] x.op = "report" ->
            [bad |-> Others(D, x, fs, 0)
                     \cup IF ~fs[i].whole /\ x.filter.t # "none" THEN {}
                     ELSE IF x.k # "ok" THEN Clause("works", ~CanReport(fs, i, x.fmt))
                     ELSE Clause("failure is told", CanReport(fs, i, x.fmt))
                          \cup Clause("number of samples reported", x.total = Len(Matching(x.filter, fs[i].s))),
             fs |-> fs]
       [] x.op = "view" ->
            [bad |-> Others(D, x, fs, 0)
                     \cup Clause("damage is told", x.k = (IF fs[i].whole THEN "ok" ELSE "raise"))
                     \cup Clause("samples as read", Presented(e, x.recs) = fs[i].s),
             fs |-> fs]
       [] x.op = "hurt" -> [bad |-> {}, fs |-> [fs EXCEPT ![i] = Seen(D, x, i)]]
       [] x.op = "remove" -> [bad |-> {}, fs |-> [fs EXCEPT ![o] = NoFile]]
RECURSIVE Run(_, _, _, _)
Run(e, D, n, fs) ==
  IF n > Len(e.steps) THEN {}
  ELSE LET r == Step(e, D, e.steps[n], fs)
       IN IF r.bad # {} THEN { e.steps[n].op \o ": " \o c : c \in r.bad } ELSE Run(e, D, n + 1, r.fs)
Verdict(e) == Run(e, DenoteAll(e, Len(e.contents)), 1, [f \in 1..4 |-> NoFile])
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET bad == Verdict(Trace[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToString(l) \o " " \o ToString(bad))
        /\ IF l = Len(Trace) THEN PrintT("@@DONE " \o ToString(l)) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
