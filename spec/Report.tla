-------------------------------- MODULE Report --------------------------------
(* What the reporting tools mseed3details and mseed2details print, as a      *)
(* function of the bytes of the files, the filter and the mode.              *)
EXTENDS IsoTime, JsonDoc, BigNat
R3 == INSTANCE Reader3
R2 == INSTANCE Reader2
SF3 == INSTANCE Samples

-----------------------------------------------------------------------------
(* The facts of a record *)
Field3(b, at, f) == R3!Get(b, at, f)
Rate3(bytes) == LET v == IeeeValue(bytes) IN IF v.m = <<>> THEN RatioOf(0, 1) ELSE IF v.neg THEN Inv(Ratio(v)) ELSE Ratio(v)
Facts3(b, at) ==
  LET p == R3!Parse(b, at)
      F(f) == R3!LeNum(Field3(b, at, f))
      nbytes == Field3(b, at, "numSamples")
  IN [id |-> R3!Utf8Decode(p.id), start |-> OfFields(F("year"), F("dayOfYear"), F("hour"), F("minute"), F("second"), F("nanosecond") \div 1000),
      n |-> nbytes, rate |-> Rate3([i \in 1..8 |-> Field3(b, at, "rate")[9 - i]]), size |-> p.size,
      pub |-> F("publicationVersion"), flags |-> <<F("flags")>>, crc |-> Field3(b, at, "crc"), ehlen |-> Len(p.eh), dlen |-> Len(p.payload),
      enc |-> F("encoding"), payload |-> p.payload, little |-> TRUE]
Facts2(b, at) ==
  LET p == R2!Parse2(b, at)
  IN [id |-> R2!Sid2(p), codes |-> p.network \o <<46>> \o p.station \o <<46>> \o p.location \o <<46>> \o p.channel,
      start |-> p.start, n |-> <<p.n % 256, p.n \div 256, 0, 0>>, rate |-> R2!Rate2(p), size |-> p.size,
      quality |-> p.quality, flags |-> <<p.act, p.io, p.qual>>, enc |-> p.encoding, payload |-> p.payload, little |-> p.order = 0,
      blks |-> [i \in 1..Len(p.blks) |-> p.blks[i].t]]
\* what the bits of the flags of format 3 are called
BitSays == <<"Calibration", "questionable", "locked", "Undefined", "Undefined", "Undefined", "Undefined", "Undefined">>
BitsOf(flags) == SelectSeq([i \in 1..8 |-> i - 1], LAMBDA i : (flags \div 2^i) % 2 = 1)
\* a word of the name of the encoding
EncSays(enc) == CASE enc = 0 -> "Text" [] enc = 1 -> "16-bit int" [] enc = 3 -> "32-bit int" [] enc = 4 -> "32-bit float"
                  [] enc = 5 -> "64-bit float" [] enc = 10 -> "STEIM-1" [] enc = 11 -> "STEIM-2" [] enc = 19 -> "STEIM-3" [] OTHER -> ""
Contains(s, w) == \E i \in 1..(Len(s) - Len(w) + 1) : SubSeq(s, i, i + Len(w) - 1) = w
NumOf(nbytes) == OfBytesBE(<<nbytes[4], nbytes[3], nbytes[2], nbytes[1]>>)
IntOf(nbytes) == R3!LeNum(nbytes)

\* microseconds since day 0
Micros(t) == Add(Mul(Add(Mul(OfInt(t[1]), OfInt(86400)), OfInt(t[2])), OfInt(1000000)), OfInt(t[3]))
\* end is the time of the last sample, within two microseconds and the resolution of doubles
EndOk(f, t) ==
  LET n == NumOf(f.n)
  IN IF n = <<>> THEN TRUE
     ELSE IF f.rate.p = <<>> THEN Micros(t) = Micros(f.start)
     ELSE LET want == Mul(Mul(Sub(n, <<1>>), f.rate.q), OfInt(1000000))
              have == Mul(Dist(Micros(t), Micros(f.start)), f.rate.p)
          IN /\ Le(Mul(Dist(want, have), Shl(<<1>>, 48)), Add(Mul(f.rate.p, Shl(<<1>>, 49)), want))
             /\ (Micros(t) = Micros(f.start) \/ Le(Micros(f.start), Add(Micros(t), <<2>>)))

-----------------------------------------------------------------------------
(* The records that are reported: of the files in order, up to damage        *)
RunOf(fmt, b, filter) == IF fmt = 3 THEN R3!Run(b, filter, TRUE) ELSE R2!Run2(b, filter)
RECURSIVE Reported(_, _, _, _)
\* [seq of <<file, position>>, whole]
Reported(fmt, files, filter, i) ==
  IF i > Len(files) THEN [got |-> <<>>, whole |-> TRUE, last |-> i - 1]
  ELSE LET r == RunOf(fmt, files[i].bytes, filter)
           here == [k \in 1..Len(r.got) |-> <<i, r.got[k]>>]
       IN IF r.end = "raise" THEN [got |-> here, whole |-> FALSE, last |-> i]
          ELSE LET rest == Reported(fmt, files, filter, i + 1)
               IN [got |-> here \o rest.got, whole |-> rest.whole, last |-> rest.last]
\* files of whole records throughout, whatever the filter
Sound(fmt, files) == \A i \in 1..Len(files) : RunOf(fmt, files[i].bytes, [t |-> "none"]).end = "eof"
RECURSIVE TotalOf(_, _, _)
TotalOf(fmt, files, got) ==
  IF got = <<>> THEN <<>>
  ELSE LET g == Head(got) b == files[g[1]].bytes
       IN Add(NumOf(IF fmt = 3 THEN Facts3(b, g[2]).n ELSE Facts2(b, g[2]).n), TotalOf(fmt, files, Tail(got)))
\* index of the record at a position of a file
RECURSIVE IndexAt(_, _, _, _)
IndexAt(b, at, pos, k) == IF at >= pos THEN k ELSE IndexAt(b, at + R3!Parse(b, at).size, pos, k + 1)
EhOf(files, g) == files[g[1]].ehs[IndexAt(files[g[1]].bytes, 0, g[2], 1)]

(* What get and getall print for the reported records: rows of kinds file,   *)
(* sum (both only if verbose) and value.                                     *)
RECURSIVE GetRows(_, _, _, _, _)
GetRows(files, got, i, all, verbose) ==
  IF i > Len(files) THEN <<>>
  ELSE LET here == SelectSeq(got, LAMBDA g : g[1] = i)
           use == IF all \/ here = <<>> THEN here ELSE <<here[1]>>
           two == [k \in 1..Len(use) |-> <<[k |-> "sum", g |-> use[k]], [k |-> "value", g |-> use[k]]>>]
           flat == IF verbose THEN [j \in 1..(2 * Len(use)) |-> two[(j + 1) \div 2][2 - (j % 2)]]
                   ELSE [j \in 1..Len(use) |-> two[j][2]]
       IN (IF verbose THEN <<[k |-> "file", g |-> <<i, 0>>]>> ELSE <<>>) \o flat
          \o (IF ~all /\ use # <<>> THEN <<>> ELSE GetRows(files, got, i + 1, all, verbose))
=============================================================================
