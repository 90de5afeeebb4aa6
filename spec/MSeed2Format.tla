---------------------------- MODULE MSeed2Format ----------------------------
(* The miniSEED 2 data record: 48 byte fixed header, chain of blockettes,    *)
(* data.  Header and blockettes have one byte order, which shows in the year,*)
(* the data have the one that blockette 1000 states.                         *)
EXTENDS Samples, Calendar, BigNat

U16(b, i, big) == IF big THEN b[i + 1] * 256 + b[i + 2] ELSE b[i + 2] * 256 + b[i + 1]
S16(b, i, big) == LET u == U16(b, i, big) IN IF u >= 32768 THEN u - 65536 ELSE u
Word(b, i, n, big) == LET w == SubSeq(b, i + 1, i + n) IN IF big THEN w ELSE Rev(w)   \* big endian bytes
SPACE2 == 32
RECURSIVE TrimR(_), TrimL(_)
TrimR(s) == IF s = <<>> THEN <<>> ELSE IF s[Len(s)] = SPACE2 THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
TrimL(s) == IF s = <<>> THEN <<>> ELSE IF Head(s) = SPACE2 THEN TrimL(Tail(s)) ELSE s
Trim(s) == TrimL(TrimR(s))
IsDigits(s) == \A i \in 1..Len(s) : s[i] \in 48..57
RECURSIVE Decimal(_)
Decimal(s) == IF s = <<>> THEN 0 ELSE Decimal(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)] - 48

FixedSize2 == 48
\* offset (from 0) of the fields of the fixed header
Off == [ seq |-> 0, quality |-> 6, station |-> 8, location |-> 13, channel |-> 15, network |-> 18,
         year |-> 20, doy |-> 22, hour |-> 24, minute |-> 25, second |-> 26, tenth |-> 28,
         numSamples |-> 30, factor |-> 32, multiplier |-> 34, act |-> 36, io |-> 37, qual |-> 38,
         numBlockettes |-> 39, timeCorr |-> 40, dataOffset |-> 44, blocketteOffset |-> 46 ]
\* the years for which the byte order can be told
PlausibleYear(y) == y >= 1801 /\ y <= 2054

(* Nominal sample rate p / q hertz of a factor and a multiplier (whole       *)
(* numbers below 2^31); zero factor: no rate                                 *)
Abs(v) == IF v < 0 THEN -v ELSE v
NominalRate(f, m) ==
  IF f = 0 THEN [p |-> 0, q |-> 1]
  ELSE IF m = 0 THEN IF f > 0 THEN [p |-> f, q |-> 1] ELSE [p |-> 1, q |-> -f]
  ELSE [p |-> (IF f > 0 THEN f ELSE 1) * (IF m > 0 THEN m ELSE 1),
        q |-> (IF f > 0 THEN 1 ELSE -f) * (IF m > 0 THEN 1 ELSE -m)]

\* start offsets of the blockettes of the chain; <<-1>> at its end if it is broken
RECURSIVE ChainAt(_, _, _, _, _)
ChainAt(b, at, big, off, left) ==
  IF left = 0 \/ off = 0 THEN IF left = 0 /\ off = 0 THEN <<>> ELSE <<-1>>
  ELSE IF at + off + 4 > Len(b) THEN <<-1>>
  ELSE LET next == U16(b, at + off + 2, big)
       IN IF next # 0 /\ next < off + 4 THEN <<-1>>
          ELSE <<off>> \o ChainAt(b, at, big, next, left - 1)
BlkSize(t) == CASE t = 100 -> 12 [] t = 1000 -> 8 [] t = 1001 -> 8 [] OTHER -> 4
SignedByte(v) == IF v >= 128 THEN v - 256 ELSE v

\* the blockette at offset off of the record, that reaches at most to end
BlkOf(b, at, big, off, end) ==
  LET t == U16(b, at + off, big)
  IN CASE t = 100 -> [t |-> 100, rate |-> Word(b, at + off + 4, 4, big)]
       [] t = 1000 -> [t |-> 1000, enc |-> b[at + off + 5], order |-> b[at + off + 6], len |-> b[at + off + 7]]
       [] t = 1001 -> [t |-> 1001, q |-> b[at + off + 5], us |-> b[at + off + 6], fc |-> b[at + off + 8]]
       [] OTHER -> [t |-> t, raw |-> SubSeq(b, at + off + 5, at + end)]   \* what follows its two heads

\* Add k (-1000..1000) microseconds
AddMicros(t, k) == LET u == t[3] + k
                       s == t[2] + (u \div 1000000)
                   IN <<t[1] + (s \div 86400), s % 86400, u % 1000000>>
RECURSIVE SumUs(_, _)
SumUs(blks, signed) == IF blks = <<>> THEN 0
                       ELSE SumUs(Tail(blks), signed)
                            + IF Head(blks).t # 1001 THEN 0
                              ELSE IF signed THEN SignedByte(Head(blks).us) ELSE Head(blks).us
LastOf(s, d) == IF s = <<>> THEN d ELSE s[Len(s)]

(* The record after `at` bytes.  why = "" if it is a conformant record       *)
Parse2(b, at) ==
  LET have == Len(b) - at
      bad(w) == [why |-> w, size |-> 0]
      yb == U16(b, at + 20, TRUE)
      big == PlausibleYear(yb)
      F(f) == at + Off[f]
  IN IF have < FixedSize2 THEN bad("short")
     ELSE IF ~big /\ ~PlausibleYear(U16(b, at + 20, FALSE)) THEN bad("byte order")
     ELSE
     LET nb == b[F("numBlockettes") + 1]
         doff == U16(b, F("dataOffset"), big)
         offs == IF nb = 0 THEN <<>> ELSE ChainAt(b, at, big, U16(b, F("blocketteOffset"), big), nb)
         seq == SubSeq(b, at + 1, at + 6)
     IN IF ~IsDigits(seq) THEN bad("sequence number")
        ELSE IF offs # <<>> /\ offs[Len(offs)] = -1 THEN bad("blockette chain")
        ELSE LET k1000 == { i \in 1..Len(offs) : U16(b, at + offs[i], big) = 1000 }
             IN IF k1000 = {} THEN bad("no blockette 1000")
                ELSE IF \E i \in 1..Len(offs) : offs[i] + BlkSize(U16(b, at + offs[i], big)) > have THEN bad("short")
                ELSE LET i0 == CHOOSE i \in k1000 : TRUE
                         exp == b[at + offs[i0] + 7]
                         size == IF exp < 20 THEN 2 ^ exp ELSE 0
                         endOf(i) == IF i < Len(offs) THEN offs[i + 1] ELSE IF doff > 0 THEN doff ELSE size
                         blks == [i \in 1..Len(offs) |-> BlkOf(b, at, big, offs[i], endOf(i))]
                         fits == \A i \in 1..Len(offs) :
                                   offs[i] + BlkSize(U16(b, at + offs[i], big)) <= endOf(i)
                         f == S16(b, F("factor"), big)
                         m == S16(b, F("multiplier"), big)
                         r100 == SelectSeq(blks, LAMBDA x : x.t = 100)
                         bt == <<U16(b, F("year"), big), U16(b, F("doy"), big), b[F("hour") + 1],
                                 b[F("minute") + 1], b[F("second") + 1], U16(b, F("tenth"), big)>>
                         t0 == LET sec == bt[3] * 3600 + bt[4] * 60 + bt[5]
                               IN <<DayNumber(bt[1], bt[2]) + (sec \div 86400), sec % 86400, bt[6] * 100>>
                     IN IF size < 64 \/ size > have THEN bad("length")
                        ELSE IF ~fits \/ (doff # 0 /\ (doff < FixedSize2 \/ doff > size)) THEN bad("layout")
                        ELSE [why |-> "", size |-> size, big |-> big, blks |-> blks, offs |-> offs,
                              seq |-> Decimal(seq), quality |-> Trim(<<b[F("quality") + 1]>>),
                              network |-> Trim(SubSeq(b, F("network") + 1, F("network") + 2)),
                              station |-> Trim(SubSeq(b, F("station") + 1, F("station") + 5)),
                              location |-> Trim(SubSeq(b, F("location") + 1, F("location") + 2)),
                              channel |-> Trim(SubSeq(b, F("channel") + 1, F("channel") + 3)),
                              bt |-> bt, t0 |-> t0,
                              second |-> bt[5],
                              start |-> AddMicros(t0, SumUs(blks, TRUE)),
                              startUnsigned |-> AddMicros(t0, SumUs(blks, FALSE)),
                              n |-> U16(b, F("numSamples"), big), factor |-> f, multiplier |-> m,
                              nominal |-> NominalRate(f, m),
                              rate100 |-> LastOf([i \in 1..Len(r100) |-> r100[i].rate], <<>>),
                              act |-> b[F("act") + 1], io |-> b[F("io") + 1], qual |-> b[F("qual") + 1],
                              nb |-> nb, timeCorr |-> Word(b, F("timeCorr"), 4, big),
                              doff |-> doff, boff |-> U16(b, F("blocketteOffset"), big),
                              encoding |-> b[at + offs[i0] + 5], order |-> b[at + offs[i0] + 6], exp |-> exp,
                              hasData |-> doff > 0,
                              payload |-> IF doff > 0 THEN SubSeq(b, at + doff + 1, at + size) ELSE <<>>]

Samples2(p) == SamplesOf(p.encoding, p.payload, p.n, p.order = 0)
\* effective sample rate as a ratio
Rate2(p) == IF p.rate100 # <<>> THEN Ratio(IeeeValue(p.rate100)) ELSE RatioOf(p.nominal.p, p.nominal.q)

\* FDSN source identifier of the codes
UND == <<95>>
Sid2(p) == <<70, 68, 83, 78, 58>> \o p.network \o UND \o p.station \o UND \o p.location \o UND
           \o <<p.channel[1]>> \o UND \o <<p.channel[2]>> \o UND \o <<p.channel[3]>>

-----------------------------------------------------------------------------
(* Laying out a record from its parts (what a conformant writer does)        *)
Put16(v, big) == LET u == v % 65536 IN IF big THEN <<u \div 256, u % 256>> ELSE <<u % 256, u \div 256>>
PutW(w, big) == IF big THEN w ELSE Rev(w)
Pad(s, n) == s \o [i \in 1..(n - Len(s)) |-> SPACE2]
Zeros(n) == [i \in 1..n |-> 0]
Dec6(v) == [i \in 1..6 |-> 48 + ((v \div (10 ^ (6 - i))) % 10)]
BlkBytes(k, next, big) ==
  Put16(k.t, big) \o Put16(next, big)
  \o CASE k.t = 100 -> PutW(k.rate, big) \o Zeros(4)
       [] k.t = 1000 -> <<k.enc, k.order, k.len, 0>>
       [] k.t = 1001 -> <<k.q, k.us, 0, k.fc>>
       [] OTHER -> k.raw
RECURSIVE BlkLayout(_, _, _, _)
\* blockettes from offset off on, gap bytes before each
BlkLayout(blks, off, gap, big) ==
  IF blks = <<>> THEN <<>>
  ELSE LET size == Len(BlkBytes(Head(blks), 0, big))
           next == IF Len(blks) = 1 THEN 0 ELSE off + size + gap
       IN BlkBytes(Head(blks), next, big) \o (IF Len(blks) = 1 THEN <<>> ELSE Zeros(gap))
          \o BlkLayout(Tail(blks), off + size + gap, gap, big)
\* c: the fields of Parse2 that carry content
Layout2(c, gap, doff) ==
  LET boff == FixedSize2 + gap
      blks == BlkLayout(c.blks, boff, gap, c.big)
      head == Dec6(c.seq) \o Pad(c.quality, 1) \o <<32>> \o Pad(c.station, 5) \o Pad(c.location, 2)
              \o Pad(c.channel, 3) \o Pad(c.network, 2)
              \o Put16(c.bt[1], c.big) \o Put16(c.bt[2], c.big) \o <<c.bt[3], c.bt[4], c.bt[5], 0>> \o Put16(c.bt[6], c.big)
              \o Put16(c.n, c.big) \o Put16(c.factor, c.big) \o Put16(c.multiplier, c.big)
              \o <<c.act, c.io, c.qual, Len(c.blks)>> \o PutW(c.timeCorr, c.big)
              \o Put16(doff, c.big) \o Put16(IF c.blks = <<>> THEN 0 ELSE boff, c.big)
              \o Zeros(gap) \o blks
      filled == IF doff > 0 THEN head \o Zeros(doff - Len(head)) \o c.payload ELSE head
  IN filled \o Zeros(2 ^ c.exp - Len(filled))
=============================================================================
