------------------------------ MODULE Ms2_Trace ------------------------------
(* Judges recorded packing, reading and conversion of miniSEED 2 records.    *)
EXTENDS Reader2, IOUtils, Json, TLC
LOCAL M3 == INSTANCE MSeed3Format
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Clause(name, ok) == IF ok THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r

-----------------------------------------------------------------------------
(* A record as the library presents it, against what its bytes denote.       *)
Widen(f) == Ratio(IeeeValue(f))
\* double x (bytes) of a rate whose exact value is ratio w
RateIs(x, w) == IF w.p = <<>> THEN \A i \in 2..8 : x[i] = 0
                ELSE IsFinite(x) /\ x[1] < 128 /\ Nearly(Ratio(IeeeValue(x)), w)
SameBlk(o, w, own) ==
  /\ o.t = w.t
  /\ CASE w.t = 100 -> IsFinite(o.rate) /\ o.rate[1] < 128 /\ RCmp(Ratio(IeeeValue(o.rate)), Widen(w.rate)) = 0
       [] w.t = 1000 -> o.enc = w.enc /\ o.order = w.order /\ o.len = w.len
       [] w.t = 1001 -> o.q = w.q /\ o.us = w.us /\ o.fc = w.fc
       \* what follows the last field of a blockette may be taken for a part of it
       [] OTHER -> /\ Len(o.raw) >= own /\ Len(o.raw) <= Len(w.raw) /\ SubSeq(w.raw, 1, Len(o.raw)) = o.raw
SameBlks(os, ws, lens) == Len(os) = Len(ws) /\ \A i \in 1..Len(ws) : SameBlk(os[i], ws[i], lens[i])
\* lens: how many of the bytes that follow each blockette's heads are its own
Own(p, lens) == [i \in 1..Len(p.blks) |->
   IF p.blks[i].t \in {100, 1000, 1001} THEN p.blks[i]
   ELSE [p.blks[i] EXCEPT !.raw = SubSeq(@, 1, IF lens[i] < Len(@) THEN lens[i] ELSE Len(@))]]
NoneOwn(p) == [i \in 1..Len(p.blks) |-> 0]
TimeClause(got, p) ==
  IF got = p.start THEN {} ELSE IF got = p.startUnsigned THEN {"b1001-signed-micros"} ELSE {"start time"}
Matches2(p, r, lens) ==
  Clause("sequence number and quality", r.seq = p.seq /\ r.q = p.quality)
  \cup Clause("codes", r.net = p.network /\ r.sta = p.station /\ r.loc = p.location /\ r.cha = p.channel /\ r.sid = Sid2(p))
  \cup Clause("number of samples", r.n = p.n)
  \cup Clause("flags", r.act = p.act /\ r.io = p.io /\ r.qual = p.qual)
  \cup Clause("time correction", r.tc = p.timeCorr)
  \cup Clause("encoding and byte orders", r.enc = p.encoding /\ r.order = p.order)
  \cup Clause("record length", r.exp = p.exp /\ r.len = p.size)
  \cup Clause("factor and multiplier", r.factor = p.factor /\ r.mult = p.multiplier)
  \cup Clause("sample rate", RateIs(r.rate, Rate2(p)))
  \cup TimeClause(r.start, p)
  \cup Clause("blockettes", SameBlks(r.blks, p.blks, lens))
  \cup Clause("payload", r.hasData = (IF p.hasData THEN 1 ELSE 0) /\ r.pl = p.payload)
  \cup Clause("samples", Doubtful(p.encoding, p.payload) \/ (~p.hasData /\ p.n > 0)
                \/ (~p.hasData /\ r.smp.k = "none")
                \/ SamplesAgree(p.encoding, Samples2(p), r.smp))

-----------------------------------------------------------------------------
(* read (C16)                                                                *)
ReadVerdict(e) ==
  LET w == Run2(e.bytes, e.filter)
      n == Len(e.out.recs)
      m == IF n < Len(w.got) THEN n ELSE Len(w.got)
      lensAt(pos) == LET k == CHOOSE k \in 1..Len(e.starts) : e.starts[k] = pos IN e.lens[k]
  IN Clause("all records delivered", n >= Len(w.got))
     \cup Clause("no record beyond the expected", n <= Len(w.got))
     \cup Clause("end of reading", e.out.end = w.end)
     \cup UNION { Matches2(Parse2(e.bytes, w.got[i]), e.out.recs[i], lensAt(w.got[i])) : i \in 1..m }

-----------------------------------------------------------------------------
(* rt (C15): create, pack, read                                              *)
OfArray(e) == CASE e.src = "list" -> IF e.enc = -1 THEN FLOAT ELSE e.enc
               [] e.src \in {"i2", "arr:h"} -> SHORT
               [] e.src \in {"i4", "arr:i"} -> INTEGER
               [] e.src \in {"f4", "arr:f"} -> FLOAT
               [] e.src \in {"f8", "arr:d"} -> DOUBLE
               [] e.src = "seg" -> e.segenc
               [] OTHER -> e.enc
Mismatch(e) == e.src \notin {"bytes", "list", "other", "none"} /\ e.enc # -1 /\ e.enc # OfArray(e)
IntsHold(e, enc) == e.kind = "int" /\ e.wide = 0 /\ \A i \in 1..Len(e.items) : FitsSample(enc, e.items[i])
\* integers may be held as other integers, nothing else is what was given
Lossless(e) == e.src # "seg" /\ e.enc \in {SHORT, INTEGER} /\ IntsHold(e, e.enc)
Native(e) == IF Mismatch(e) /\ Lossless(e) THEN e.enc ELSE OfArray(e)
Values(e, enc) == IF e.kind = "int" /\ IsFloatEnc(enc) THEN [i \in 1..Len(e.items) |-> FloatOfInt(enc, e.items[i])]
                  ELSE e.items
Small(v, lo, hi) == v.s = 0 /\ (\A i \in 4..8 : v.b[i] = 0)
                    /\ LET x == v.b[1] + 256 * v.b[2] + 65536 * v.b[3] IN x >= lo /\ x <= hi
Num(v) == v.b[1] + 256 * v.b[2] + 65536 * v.b[3]
Count(e) == IF e.src \in {"bytes", "none"} \/ Num(e.n) # 0 THEN Num(e.n) ELSE e.count
HasB1000(e) == \E i \in 1..Len(e.blks) : e.blks[i].t = 1000
RECURSIVE SizeBlks(_)
SizeBlks(bs) == IF bs = <<>> THEN 0 ELSE Len(BlkBytes(Head(bs), 0, TRUE)) + SizeBlks(Tail(bs))
DataBytes(e) == IF e.src \in {"bytes", "seg"} THEN Len(e.payload) * (IF e.src = "seg" /\ e.segenc \notin {10, 11} THEN 0 ELSE 1)
                     + (IF e.src = "seg" /\ e.segenc \notin {10, 11} THEN e.count * SampleSize(e.segenc) ELSE 0)
                ELSE IF e.src = "none" THEN 0
                ELSE e.count * (IF IsPrimitive(Native(e)) THEN SampleSize(Native(e)) ELSE 1)
HeadBytes(e) == 48 + SizeBlks(e.blks) + IF HasB1000(e) THEN 0 ELSE 8
Up64(v) == ((v + 63) \div 64) * 64
\* not even the densest layout has room / any reasonable layout has room
NoRoom(e) == HeadBytes(e) + DataBytes(e) > 2 ^ e.exp
Room(e) == (IF DataBytes(e) = 0 THEN HeadBytes(e) ELSE Up64(HeadBytes(e)) + DataBytes(e)) <= 2 ^ e.exp
BlkBad(b) == CASE b.t = 1001 -> \E v \in {b.q, b.us, b.fc} : v \notin 0..255
               [] OTHER -> FALSE

Rate(e) == Ratio(IeeeValue(e.rate))
RateGiven(e) == e.rate # Zeros(8)
InRange32000(r) == RCmp(r, RatioOf(1, 32000)) >= 0 /\ RCmp(r, RatioOf(32000, 1)) <= 0
RateOk(w, p, x) ==   \* w wanted (bytes), p record read by the specification, x rate read by the library
  LET rw == Ratio(IeeeValue(w))
      rn == RatioOf(p.nominal.p, p.nominal.q)
      rx == Ratio(IeeeValue(x))
      f == <<1>>  t == OfInt(20000)
  IN Clause("sample rate within 1 / 20000",
            p.factor # 0 /\ p.multiplier # 0 /\ Close(rn, rw, f, t))
     \cup Clause("sample rate read within 1 / 20000", x[1] < 128 /\ IsFinite(x) /\ Close(rx, rw, f, t))
\* kind "hz" / "period": k whole hertz or seconds, to be exact
ExactRate(kind, k, w, p, x) ==
  Clause("whole rate or period is exact",
     /\ (kind = "hz" => p.nominal.p = k * p.nominal.q)
     /\ (kind = "period" => p.nominal.q = k * p.nominal.p)
     /\ x[1] < 128 /\ IsFinite(x) /\ Nearly(Ratio(IeeeValue(x)), Ratio(IeeeValue(w))))

Refuse(e) ==
  \/ Len(e.net) > 2 \/ Len(e.sta) > 5 \/ Len(e.loc) > 2 \/ Len(e.cha) > 3
  \/ ~Small(e.seq, 0, 999999)
  \/ Len(e.q) > 1
  \/ ~Small(e.n, 0, 65535) \/ Count(e) > 65535
  \/ ~Small(e.act, 0, 255) \/ ~Small(e.io, 0, 255) \/ ~Small(e.qual, 0, 255)
  \/ (\E i \in 5..8 : e.tc.b[i] # 0)
  \/ (e.tc.b[4] >= 128 /\ ~(e.tc.s = 1 /\ e.tc.b[4] = 128 /\ e.tc.b[3] = 0 /\ e.tc.b[2] = 0 /\ e.tc.b[1] = 0))
  \/ (e.src = "list" /\ e.enc # -1 /\ ~IsPrimitive(e.enc))
  \/ (e.src = "list" /\ Native(e) \in {SHORT, INTEGER} /\ ~IntsHold(e, Native(e)))
  \/ e.wide = 1
  \/ (Mismatch(e) /\ ~Lossless(e))
  \/ (e.src \notin {"bytes", "none"} /\ Num(e.n) # 0 /\ Num(e.n) # e.count)
  \/ NoRoom(e)
  \/ \E i \in 1..Len(e.blks) : BlkBad(e.blks[i])
MayRefuse(e) ==
  \/ Mismatch(e)
  \/ e.src \in {"other", "i8", "u4", "u8"} \/ (e.src \in {"none", "bytes"} /\ e.enc = -1)
  \/ (e.src = "none" /\ Num(e.n) # 0)
  \/ ~Room(e)
  \/ (RateGiven(e) /\ (e.rate[1] >= 128 \/ ~IsFinite(e.rate)))
  \/ (RateGiven(e) /\ ~InRange32000(Rate(e)))
  \/ (~RateGiven(e) /\ e.factor = 0)
  \/ e.q = <<>>

Within100us(a, b) == LET d == (b[1] - a[1]) * 86400 + b[2] - a[2]
                     IN b[1] - a[1] \in -2..2 /\ d \in -2..2
                        /\ LET u == d * 1000000 + b[3] - a[3] IN u > -100 /\ u < 100
\* four bytes, big endian, of a natural below 2^32
FourBytes(n) == LET a == DivSmall(n, 256)
                    b == DivSmall(a[1], 256)
                    c == DivSmall(b[1], 256)
                IN <<DivSmall(c[1], 256)[2], c[2], b[2], a[2]>>
TcBytes(e) == LET u == [i \in 1..4 |-> e.tc.b[5 - i]]
              IN IF e.tc.s = 0 \/ u = <<0, 0, 0, 0>> THEN u
                 ELSE FourBytes(Sub(Shl(<<1>>, 32), OfBytesBE(u)))
\* the blockettes that were given, as the record is to have them
Wanted(e, enc, order) ==
  LET given == [i \in 1..Len(e.blks) |->
                  IF e.blks[i].t = 1000 THEN [t |-> 1000, enc |-> enc, order |-> order, len |-> e.exp] ELSE e.blks[i]]
  IN given
RtOk(e) ==
  LET o == e.out
      p == Parse2(o.bytes, 0)
      enc == IF e.src = "other" THEN p.encoding ELSE Native(e)
      vals == Values(e, enc)
      r == o.r
      count == Count(e)
  IN IF p.why # "" THEN Clause("record layout", FALSE)
     ELSE
     Clause("record length", p.size = Len(o.bytes) /\ p.exp = e.exp /\ r.len = p.size /\ r.exp = e.exp)
     \cup Clause("codes", /\ p.network = e.net /\ p.station = e.sta /\ p.location = e.loc /\ p.channel = e.cha
                          /\ r.net = e.net /\ r.sta = e.sta /\ r.loc = e.loc /\ r.cha = e.cha)
     \cup Clause("sequence number", p.seq = Num(e.seq) /\ r.seq = Num(e.seq))
     \cup Clause("quality", p.quality = e.q /\ r.q = e.q)
     \cup Clause("start time", Within100us(p.start, e.start) /\ Within100us(r.start, e.start))
     \cup Clause("number of samples", p.n = count /\ r.n = count)
     \cup Clause("flags", /\ p.act = Num(e.act) /\ p.io = Num(e.io) /\ p.qual = Num(e.qual)
                          /\ r.act = p.act /\ r.io = p.io /\ r.qual = p.qual)
     \cup Clause("time correction", p.timeCorr = TcBytes(e) /\ r.tc = p.timeCorr)
     \cup Clause("encoding", p.encoding = enc /\ r.enc = enc /\ r.order = p.order)
     \cup Clause("blockettes",
            LET w == Wanted(e, enc, p.order)
                lens == [i \in 1..Len(w) |-> IF w[i].t \in {100, 1000, 1001} THEN 0 ELSE Len(w[i].raw)]
                i0 == CHOOSE i \in 1..Len(p.blks) : p.blks[i].t = 1000   \* added if not given
                full == IF HasB1000(e) THEN w ELSE SubSeq(w, 1, i0 - 1) \o <<p.blks[i0]>> \o SubSeq(w, i0, Len(w))
                fl == IF HasB1000(e) THEN lens ELSE SubSeq(lens, 1, i0 - 1) \o <<0>> \o SubSeq(lens, i0, Len(w))
            IN Len(p.blks) = Len(full) /\ Own(p, fl) = full /\ SameBlks(r.blks, p.blks, fl))
     \cup (IF ~RateGiven(e) THEN Clause("factor and multiplier", p.factor = e.factor /\ p.multiplier = e.mult
                                         /\ RateIs(r.nrate, RatioOf(p.nominal.p, p.nominal.q)))
           ELSE RateOk(e.rate, p, r.nrate)
                \cup IF e.rk = "any" THEN {} ELSE ExactRate(e.rk, e.rkk, e.rate, p, r.nrate))
     \cup Clause("rate of blockette 100", p.rate100 # <<>> => RateIs(r.rate, Widen(p.rate100)))
     \cup Clause("payload", IF e.src = "bytes" \/ (e.src = "seg" /\ ~IsPrimitive(enc))
                            THEN Len(p.payload) >= Len(e.payload) /\ SubSeq(p.payload, 1, Len(e.payload)) = e.payload
                            ELSE TRUE)
     \cup Clause("samples in the record", e.src \in {"bytes", "none"} \/
            LET s == Samples2(p) IN s.ok /\ SameSamples(enc, s.s, vals))
     \cup Clause("samples read back", e.src \in {"bytes", "none"} \/
            (r.smp.k = "ok" /\ SameSamples(enc, r.smp.v, vals)))
     \cup Clause("reads as packed", Matches2(p, r, NoneOwn(p)) \subseteq {"b1001-signed-micros"})
RtVerdict(e) ==
  IF Refuse(e) THEN Clause("refused", e.out.k # "ok")
  ELSE IF e.out.k # "ok" THEN Clause("packs and reads", MayRefuse(e))
  ELSE RtOk(e)

(* rate (C15): factor and multiplier of a rate                               *)
RateVerdict(e) ==
  IF e.out.k # "ok" THEN Clause("rate is held", ~InRange32000(Ratio(IeeeValue(e.rate))))
  ELSE LET p == [factor |-> e.out.f, multiplier |-> e.out.m, nominal |-> NominalRate(e.out.f, e.out.m)]
       IN RateOk(e.rate, p, e.out.x) \cup IF e.rk = "any" THEN {} ELSE ExactRate(e.rk, e.rkk, e.rate, p, e.out.x)

(* again (C15): read a record made by somebody else, pack it                 *)
AgainVerdict(e) ==
  LET p == Parse2(e.bytes, 0)
      q == Parse2(e.out.bytes, 0)
      need == 48 + FoldLeft(LAMBDA a, x : a + x, 0,
                  [i \in 1..Len(p.blks) |-> IF p.blks[i].t \in {100, 1000, 1001} THEN BlkSize(p.blks[i].t)
                                            ELSE 4 + Len(p.blks[i].raw)])
  IN IF p.why # "" THEN {}
     ELSE IF e.out.k # "ok" THEN Clause("packs again", (IF p.hasData THEN Up64(need) > p.doff ELSE Up64(need) > p.size))
     ELSE IF q.why # "" THEN {"record layout"}
     ELSE Clause("same header", \A f \in {"seq", "quality", "network", "station", "location", "channel", "n", "act", "io", "qual", "timeCorr", "encoding", "order", "exp", "nb"} :
                                   p[f] = q[f])
          \cup Clause("same start time", p.start = q.start)
          \cup Clause("same sample rate", /\ RCmp(Rate2(p), Rate2(q)) = 0
                                          /\ (p.factor # 0 => p.factor = q.factor /\ p.multiplier = q.multiplier))
          \cup Clause("same blockettes", Len(q.blks) = Len(p.blks) /\ Own(q, e.lens) = Own(p, e.lens))
          \cup Clause("same samples", Doubtful(p.encoding, p.payload) \/
                 (IF Samples2(p).ok THEN Samples2(q).ok /\ SameSamples(p.encoding, Samples2(p).s, Samples2(q).s)
                  ELSE SubSeq(q.payload, 1, Len(p.payload)) = p.payload))

-----------------------------------------------------------------------------
(* conv (C17): one record to miniSEED 3.  at: where the converted record is  *)
(* in the output                                                             *)
Num3(b, at, f) == M3!LeNum(M3!Get(b, at, f))
ConvPair(p, w, b3, at, x) ==  \* w: sample rate, x: extra headers, parsed by the harness
  LET t == M3!Parse(b3, at)
  IN IF t.why # "" THEN {"valid record"} ELSE
     LET enc == M3!Get(b3, at, "encoding")[1]
         n3 == Num3(b3, at, "numSamples")
         ns == Num3(b3, at, "nanosecond")
         sec == Num3(b3, at, "hour") * 3600 + Num3(b3, at, "minute") * 60 + Num3(b3, at, "second")
         day == DayNumber(Num3(b3, at, "year"), Num3(b3, at, "dayOfYear"))
         fields == Num3(b3, at, "hour") \in 0..23 /\ Num3(b3, at, "minute") \in 0..59 /\ Num3(b3, at, "second") \in 0..60
                   /\ ns \in 0..999999999
         inst == <<day + (sec \div 86400), sec % 86400, ns \div 1000>>
         r == Rev(M3!Get(b3, at, "rate"))
         rv == IeeeValue(r)
         rr == IF rv.neg THEN Inv(Ratio(rv)) ELSE Ratio(rv)
         flags == M3!Get(b3, at, "flags")[1]
         bit(v, k) == (v \div (2 ^ k)) % 2
         s2 == Samples2(p)
         s3 == SamplesOf(enc, t.payload, n3, TRUE)
     IN Clause("valid record", t.crcOk)
        \cup Clause("identifier", t.id = Sid2(p))
        \cup (IF ~fields \/ ns % 1000 # 0 THEN {"start time"} ELSE TimeClause(inst, p))
        \cup Clause("sample rate", IF w.p = <<>> THEN rv.m = <<>>
                                   ELSE rv.m # <<>> /\ IsFinite(r) /\ Nearly(rr, w))
        \cup Clause("number of samples", n3 = p.n)
        \cup Clause("encoding", enc = p.encoding)
        \cup Clause("flags", /\ bit(flags, 0) = bit(p.act, 0) /\ bit(flags, 1) = bit(p.qual, 7)
                             /\ bit(flags, 2) = bit(p.io, 5) /\ flags < 8)
        \cup Clause("publication version is unknown", M3!Get(b3, at, "publicationVersion") = <<0>>)
        \cup Clause("leap second", p.second = -1 \/ x.leap = (IF p.second = 60 THEN 1 ELSE 0) \/ (p.second = 60 /\ x.leap = 0 /\ \E i \in 1..Len(p.blks) : p.blks[i].t = 1001))
        \cup Clause("samples", Doubtful(p.encoding, p.payload) \/
               (IF s2.ok THEN s3.ok /\ SameSamples(p.encoding, s2.s, s3.s)
                ELSE Len(t.payload) >= Len(p.payload) /\ SubSeq(t.payload, 1, Len(p.payload)) = p.payload))
        \cup Clause("quality", IF p.quality = <<68>> THEN x.dq \in {<<>>, <<68>>} ELSE x.dq = p.quality)
        \cup Clause("nothing is added to the extra headers", x.other = 0)
        \cup Clause("time quality",
               LET q1001 == SelectSeq(p.blks, LAMBDA k : k.t = 1001)
                   q == LastOf([i \in 1..Len(q1001) |-> q1001[i].q], 0)
               IN IF q = 0 THEN x.tq \in {-1, 0} ELSE x.tq = q)
ConvVerdict(e) ==
  LET q == Parse2(e.bytes, 0)
      \* a record that was never packed: its start time and rate are not yet rounded
      p == IF q.why = "" /\ Has(e, "start") THEN [q EXCEPT !.start = e.start, !.startUnsigned = e.start, !.second = -1] ELSE q
  IN IF p.why # "" THEN {}
     ELSE IF e.out.k # "ok" THEN {"converts"}
     ELSE LET t == M3!Parse(e.out.bytes, 0)
          IN Clause("valid record", t.why = "" /\ t.size = Len(e.out.bytes))
             \cup ConvPair(p, IF Has(e, "rate") THEN Ratio(IeeeValue(e.rate)) ELSE Rate2(p), e.out.bytes, 0, e.out.x)
RECURSIVE Starts3(_, _)
Starts3(b, at) == IF at >= Len(b) THEN <<>>
                  ELSE LET t == M3!Parse(b, at) IN IF t.why # "" THEN <<-1>> ELSE <<at>> \o Starts3(b, at + t.size)
ToolVerdict(e) ==
  LET w == Run2(e.bytes, [t |-> "none"])
      s == Starts3(e.out.bytes, 0)
      pairs(n) == UNION { LET p == Parse2(e.bytes, w.got[i]) IN ConvPair(p, Rate2(p), e.out.bytes, s[i], e.out.xs[i]) : i \in 1..n }
  IN IF w.end # "eof" \/ e.cut = 1
     THEN IF e.cut = 0 THEN {}
          \* cut off: converted are whole records only, and what is missing is told
          ELSE IF e.out.k \notin {"ok", "failed"} THEN {"tool runs"}
          ELSE Clause("input unchanged", e.out.same = 1)
               \cup Clause("missing bytes are told", w.end = "raise" => e.out.k = "failed")
               \cup Clause("whole file is converted", w.end = "eof" /\ e.out.k = "ok" => Len(s) = Len(w.got))
               \cup IF Len(s) > Len(w.got) \/ (\E i \in 1..Len(s) : s[i] = -1) \/ Len(e.out.xs) # Len(s)
                    THEN {"only whole records are converted"} ELSE pairs(Len(s))
     ELSE IF e.out.k # "ok" THEN {"tool runs"}
     ELSE Clause("input unchanged", e.out.same = 1)
     \cup IF Len(s) # Len(w.got) \/ (\E i \in 1..Len(s) : s[i] = -1) \/ Len(e.out.xs) # Len(s)
          THEN {"one valid record for each input record"}
          ELSE pairs(Len(s))

Verdict(e) ==
  CASE e.op = "read" -> ReadVerdict(e)
    [] e.op = "rt" -> RtVerdict(e)
    [] e.op = "rate" -> RateVerdict(e)
    [] e.op = "again" -> AgainVerdict(e)
    [] e.op = "conv" -> ConvVerdict(e)
    [] e.op = "tool" -> ToolVerdict(e)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET bad == Verdict(Trace[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToString(l) \o " " \o ToString(bad))
        /\ IF l = Len(Trace) THEN PrintT("@@DONE " \o ToString(l)) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
