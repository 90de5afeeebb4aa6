-------------------------------- MODULE Damage --------------------------------
(* Streams that are cut off or hold arbitrary bytes.  What lies at a         *)
(* position of a miniSEED 2 stream:                                          *)
(*   "eof"       nothing                                                     *)
(*   "tail"      less than a fixed header                                    *)
(*   "whole"     a record                                                    *)
(*   "cut"       a record of which bytes are missing                         *)
(*   "broken"    a record that contradicts itself                            *)
(*   "doubtful"  something that may be refused or taken for a record         *)
EXTENDS Integers, Sequences, FiniteSets
R2 == INSTANCE Reader2
R3 == INSTANCE Reader3

Printable(s) == \A i \in 1..Len(s) : s[i] \in 33..126
PlainRate(w) == w[1] < 128 /\ (w[1] * 2 + w[2] \div 128) \in 87..167
\* the contents are nothing unusual
PlainRec(p) ==
  /\ Printable(p.network \o p.station \o p.location \o p.channel \o p.quality)
  /\ Len(p.network) > 0 /\ Len(p.station) > 0 /\ Len(p.channel) = 3
  /\ p.bt[2] \in 1..366 /\ p.bt[3] \in 0..23 /\ p.bt[4] \in 0..59 /\ p.bt[5] \in 0..60 /\ p.bt[6] \in 0..9999
  /\ \A i \in 1..Len(p.blks) : p.blks[i].t = 100 => PlainRate(p.blks[i].rate)
  /\ p.factor # 0 /\ p.multiplier # 0 /\ p.order \in {0, 1}
Small20(v) == IF v < 20 THEN v ELSE 20
\* how the chain of blockettes is broken
RECURSIVE Chain(_, _, _, _, _)
Chain(b, at, big, off, left) ==
  IF left = 0 /\ off = 0 THEN "whole"
  ELSE IF left = 0 \/ off = 0 THEN "doubtful"
  ELSE IF at + off + 4 > Len(b) THEN "cut"
  ELSE LET next == R2!U16(b, at + off + 2, big)
       IN IF next # 0 /\ next < off + 4 THEN "doubtful" ELSE Chain(b, at, big, next, left - 1)
Class2(b, at) ==
  LET have == Len(b) - at
      big == R2!PlausibleYear(R2!U16(b, at + 20, TRUE))
      F(f) == at + R2!Off[f]
  IN IF have = 0 THEN "eof"
     ELSE IF have < R2!FixedSize2 THEN "tail"
     ELSE IF ~big /\ ~R2!PlausibleYear(R2!U16(b, at + 20, FALSE)) THEN "doubtful"
     ELSE IF ~R2!IsDigits(SubSeq(b, at + 1, at + 6)) THEN "doubtful"
     ELSE LET nb == b[F("numBlockettes") + 1]
              boff == R2!U16(b, F("blocketteOffset"), big)
              doff == R2!U16(b, F("dataOffset"), big)
              ch == IF nb = 0 \/ boff < R2!FixedSize2 THEN "doubtful" ELSE Chain(b, at, big, boff, nb)
          IN IF ch # "whole" THEN ch
             ELSE LET offs == R2!ChainAt(b, at, big, boff, nb)
                      type(i) == R2!U16(b, at + offs[i], big)
                      k1000 == { i \in 1..Len(offs) : type(i) = 1000 }
                  IN IF Cardinality(k1000) # 1 THEN "doubtful"
                     ELSE LET i0 == CHOOSE i \in k1000 : TRUE
                              last == Len(offs)
                              reach == offs[last] + R2!BlkSize(type(last))   \* at least to here
                          IN IF at + offs[i0] + 8 > Len(b) \/ (at + reach > Len(b)) THEN "cut"
                             ELSE IF \E i \in 1..(last - 1) : offs[i] + R2!BlkSize(type(i)) > offs[i + 1] THEN "broken"
                             ELSE IF doff # 0 /\ doff < reach THEN "broken"
                             ELSE LET size == 2 ^ Small20(b[at + offs[i0] + 7])
                                  IN IF size < reach \/ size < doff THEN "broken"
                                     ELSE IF size > have THEN "cut"
                                     ELSE LET p == R2!Parse2(b, at)
                                          IN IF p.why = "" /\ PlainRec(p) THEN "whole" ELSE "doubtful"
\* reading: the records that must be delivered, and what then is found
RECURSIVE Known2(_, _, _)
Known2(b, pos, got) ==
  LET c == Class2(b, pos)
  IN IF c = "whole" THEN Known2(b, pos + R2!Parse2(b, pos).size, Append(got, pos)) ELSE [got |-> got, then |-> c, pos |-> pos]
=============================================================================
