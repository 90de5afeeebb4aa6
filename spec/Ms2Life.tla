------------------------------- MODULE Ms2Life -------------------------------
(* What miniSEED 2 record objects hold through a history of operations.  A   *)
(* slot is [f (plain fields), exp, t (start), rate (to be packed), cur (rate *)
(* shown), blks (blockettes but for the 1000, that every packed record has   *)
(* once), pl (payload), bad].  bad names what was set to something a record  *)
(* cannot hold, so that it cannot be packed until that is set again.         *)
EXTENDS Reader2
CONSTANT Slots
Plain == {"seq", "quality", "network", "station", "location", "channel", "act", "io", "qual", "timeCorr", "n",
          "encoding", "order"}
Free == [free |-> TRUE]
Live(st, s) == "f" \in DOMAIN st[s]
No1000(blks) == SelectSeq(blks, LAMBDA b : b.t # 1000)
\* what the parsed record p holds
OfParsed(p) ==
  [f |-> [k \in Plain |-> p[k]], exp |-> p.exp, t |-> p.start, rate |-> [k |-> "fm", f |-> p.factor, m |-> p.multiplier],
   cur |-> [k |-> "parsed", r |-> Rate2(p)], blks |-> No1000(p.blks), pl |-> p.payload, bad |-> {}]
Ratio8(v) == Ratio(IeeeValue(v))
CurRatio(cur) == IF cur.k = "parsed" THEN cur.r ELSE Ratio8(cur.v)

Put(st, s, r) == [st EXCEPT ![s] = r]
SetField(st, s, k, v) == [st EXCEPT ![s].f[k] = v, ![s].bad = @ \ {k}]
SetTime(st, s, t) == [st EXCEPT ![s].t = t]
SetRate(st, s, v) == [st EXCEPT ![s].rate = [k |-> "hz", v |-> v], ![s].cur = [k |-> "hz", v |-> v], ![s].bad = @ \ {"rate"}]
SetExp(st, s, e) == [st EXCEPT ![s].exp = e]
InsertBlk(bs, at, b) == SubSeq(bs, 1, at) \o <<b>> \o SubSeq(bs, at + 1, Len(bs))
RemoveBlk(bs, at) == SubSeq(bs, 1, at - 1) \o SubSeq(bs, at + 1, Len(bs))
\* a blockette that the record makes of what it holds
Made(r, b) == CASE b.t = 1001 -> [t |-> 1001, q |-> 0, us |-> r.t[3] % 100, fc |-> 0]
                [] b.t = 100 -> [t |-> 100, of |-> r.cur]
AddBlk(st, s, at, b) ==
  [st EXCEPT ![s].blks = InsertBlk(@, at, IF "made" \in DOMAIN b THEN Made(st[s], b) ELSE b)]
DelBlk(st, s, at) == [st EXCEPT ![s].blks = RemoveBlk(@, at)]
Spoil(st, s, what) == [st EXCEPT ![s].bad = @ \cup {what}]
CanPack(st, s) == st[s].bad = {}

\* room for what r holds in any layout
RECURSIVE BlksSize(_)
BlksSize(bs) == IF bs = <<>> THEN 0
                ELSE BlksSize(Tail(bs)) + LET b == Head(bs) IN IF b.t \in {100, 1001} THEN BlkSize(b.t) ELSE 4 + Len(b.raw)
Up64(v) == ((v + 63) \div 64) * 64
Room(r) == LET h == FixedSize2 + 8 + BlksSize(r.blks)
           IN (IF r.pl = <<>> THEN h ELSE Up64(h) + Len(r.pl)) <= 2 ^ r.exp

-----------------------------------------------------------------------------
(* p, parsed of packed bytes, is what r holds                                *)
PadEq(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
               IN /\ SubSeq(a, 1, n) = SubSeq(b, 1, n)
                  /\ \A i \in (n + 1)..Len(a) : a[i] = 0
                  /\ \A i \in (n + 1)..Len(b) : b[i] = 0
SameB(p, b) ==
  /\ p.t = b.t
  /\ CASE b.t = 100 -> IF "of" \in DOMAIN b THEN IsFinite(p.rate) /\ p.rate[1] < 128
                            /\ Close(Ratio8(p.rate), CurRatio(b.of), <<1>>, OfInt(8000000))
                       ELSE p.rate = b.rate
       [] b.t = 1001 -> p = b
       [] OTHER -> PadEq(p.raw, b.raw)
RECURSIVE SumMicros(_)
SumMicros(bs) == IF bs = <<>> THEN 0 ELSE SumMicros(Tail(bs)) + IF Head(bs).t = 1001 THEN Head(bs).us ELSE 0
Near100us(a, b) == LET d == (b[1] - a[1]) * 86400 + b[2] - a[2]
                   IN b[1] - a[1] \in -2..2 /\ d \in -2..2
                      /\ LET u == d * 1000000 + b[3] - a[3] IN u > -100 /\ u < 100
\* exact if the blockettes 1001 hold what the header cannot
StartOk(p, r) == IF r.t[3] % 100 = SumMicros(r.blks) % 100 THEN p.start = r.t ELSE Near100us(p.start, r.t)
NominalIs(p, w) == Close(RatioOf(p.nominal.p, p.nominal.q), w, <<1>>, OfInt(20000))
\* a header without nominal rate may get that of the blockette 100
PackedRate(p, rate, cur) ==
  IF rate.k = "fm" THEN \/ p.factor = rate.f /\ p.multiplier = rate.m
                        \/ rate.f = 0 /\ p.factor # 0 /\ CurRatio(cur).p # <<>> /\ NominalIs(p, CurRatio(cur))
  ELSE IF Ratio8(rate.v).p = <<>> THEN p.factor = 0 ELSE NominalIs(p, Ratio8(rate.v))
=============================================================================
