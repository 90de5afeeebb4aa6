------------------------------ MODULE Time_Trace ------------------------------
(* Judges recorded setting and getting of record times.                      *)
EXTENDS IsoTime, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, ok) == IF ok THEN {} ELSE {name}
NoOffset == 1000000

\* the instant that was given
Given(e) ==
  IF e.src = "iso" THEN LET p == IsoParse(e.text) IN IF p.ok THEN [ok |-> TRUE, t |-> UtcOf(p)] ELSE NotIso
  ELSE [ok |-> TRUE, t |-> UtcOf([y |-> e.c[1], m |-> e.c[2], d |-> e.c[3], h |-> e.c[4], mi |-> e.c[5], s |-> e.c[6],
                                  us |-> e.c[7], off |-> IF e.off = NoOffset THEN 0 ELSE e.off])]
\* fields as stored in a header: y, doy, h, m, s, fraction (ns or 1/10 ms)
Exact3(f, t) == /\ OfFields(f[1], f[2], f[3], f[4], f[5], 0) = <<t[1], t[2], 0>>
                /\ f[6] = t[3] * 1000
                /\ f[2] >= 1 /\ f[2] <= DaysIn(f[1]) /\ f[3] < 24 /\ f[4] < 60 /\ f[5] < 60
Near2(f, t) == /\ f[2] >= 1 /\ f[2] <= DaysIn(f[1]) /\ f[3] < 24 /\ f[4] < 60 /\ f[5] < 60 /\ f[6] < 10000
               /\ LET a == Apart(OfFields(f[1], f[2], f[3], f[4], f[5], f[6] * 100), t) IN a > -100 /\ a < 100
\* an instant read back: day, second, microsecond, offset
IsUtc(g, t) == <<g[1], g[2], g[3]>> = t /\ g[4] = 0

SetVerdict(e) ==
  LET w == Given(e)
  IN IF ~w.ok THEN {"case outside of the specification"}
     ELSE IF ~InRange(w.t) THEN {}     \* no year 0 or 10000
     ELSE IF e.out.k # "ok" THEN {"time is accepted"}
     ELSE IF e.fmt = 3
          THEN Clause("fields", Exact3(e.out.f, w.t))
               \cup Clause("packed fields", Exact3(e.out.p, w.t))
               \cup Clause("start time", IsUtc(e.out.g, w.t))
               \cup Clause("start time after reading", IsUtc(e.out.u, w.t))
          ELSE Clause("fields", Near2(e.out.f, w.t))
               \cup Clause("packed fields", Near2(e.out.p, w.t))
               \cup Clause("start time", e.out.g[4] = 0 /\ Apart(e.out.g, w.t) \in -99..99)
               \cup Clause("start time after reading", Len(e.out.u) = 0 \/
                      (e.out.u[4] = 0 /\ Apart(e.out.u, w.t) \in -99..99
                       /\ <<e.out.u[1], e.out.u[2], e.out.u[3]>> =
                          OfFields(e.out.p[1], e.out.p[2], e.out.p[3], e.out.p[4], e.out.p[5], e.out.p[6] * 100)))

\* reading a record with calendar fields f
GetVerdict(e) ==
  LET f == e.f
      t == OfFields(f[1], f[2], f[3], f[4], f[5], IF e.fmt = 3 THEN f[6] \div 1000 ELSE f[6] * 100)
  IN IF ~InRange(t) THEN {}
     ELSE IF e.out.k # "ok" THEN {"time is read"}
     ELSE Clause("start time", IsUtc(e.out.g, t)) \cup Clause("start time of the record", IsUtc(e.out.r, t))

\* end time: k = samples - 1 periods of num/den seconds later
EndVerdict(e) ==
  LET f == e.f
      t == OfFields(f[1], f[2], f[3], f[4], f[5], IF e.fmt = 3 THEN f[6] \div 1000 ELSE f[6] * 100)
      want == IF e.num = 0 THEN t ELSE AddSpan(t, Span(e.n - 1, e.num, e.den))
      near == IF e.fmt = 3 THEN -1..2 ELSE -100..101
  IN IF ~InRange(want) THEN {}
     ELSE IF e.out.k # "ok" THEN {"end time is read"}
     ELSE Clause("end time", \A i \in 1..Len(e.out.ends) : Apart(want, e.out.ends[i]) \in near /\ e.out.ends[i][4] = 0)

\* what denotes no instant is refused and changes nothing
WrongVerdict(e) ==
  IF e.src = "iso" /\ IsoParse(e.text).ok THEN {}
  ELSE Clause("no time from what is none", e.k = "refused") \cup Clause("unchanged after a refusal", e.after = e.before)

\* years 1..2999; day 366 is let through in any year
SaneVerdict(e) ==
  LET f == e.f
      possible == f[2] \in 1..366 /\ f[3] \in 0..23 /\ f[4] \in 0..59 /\ f[5] \in 0..60
  IN Clause("impossible times are told", e.sane = IF possible THEN 1 ELSE 0)
Verdict(e) == CASE e.op = "sane" -> SaneVerdict(e)
                [] e.op = "wrong" -> WrongVerdict(e)
                [] e.op = "set" -> SetVerdict(e)
                [] e.op = "get" -> GetVerdict(e)
                [] e.op = "end" -> EndVerdict(e)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET bad == Verdict(Trace[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToString(l) \o " " \o ToString(bad))
        /\ IF l = Len(Trace) THEN PrintT("@@DONE " \o ToString(l)) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
