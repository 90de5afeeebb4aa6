------------------------------- MODULE BigNat -------------------------------
(* Natural numbers beyond TLC's 32 bit integers, as little endian sequences  *)
(* of limbs 0..4095 without leading zero limbs, and exact values of IEEE     *)
(* numbers and of ratios.                                                    *)
EXTENDS Integers, Sequences

Base == 4096
RECURSIVE Strip(_)
Strip(a) == IF a = <<>> THEN <<>> ELSE IF a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE OfInt(_)   \* of a TLC natural
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o OfInt(n \div Base)
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b

\* carry out what is too large in the limbs of a sequence
RECURSIVE CarryFrom(_, _, _)
CarryFrom(a, i, c) == IF i > Len(a) THEN OfInt(c)
                      ELSE <<(a[i] + c) % Base>> \o CarryFrom(a, i + 1, (a[i] + c) \div Base)
Carry(a) == Strip(CarryFrom(a, 1, 0))

Add(a, b) == Carry([i \in 1..Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) == IF i > Len(a) THEN <<>>
                       ELSE LET d == a[i] - Limb(b, i) - c
                            IN IF d < 0 THEN <<d + Base>> \o SubFrom(a, b, i + 1, 1)
                               ELSE <<d>> \o SubFrom(a, b, i + 1, 0)
Sub(a, b) == Strip(SubFrom(a, b, 1, 0))   \* a >= b
RECURSIVE SumOver(_, _, _, _, _)
SumOver(a, b, k, i, hi) == IF i > hi THEN 0 ELSE a[i] * b[k - i] + SumOver(a, b, k, i + 1, hi)
\* at most 120 limbs in the shorter factor
Mul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Carry([j \in 1..(Len(a) + Len(b) - 1) |->
         SumOver(a, b, j + 1, Max2(1, j + 1 - Len(b)), IF j < Len(a) THEN j ELSE Len(a))])
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i - 1)
\* -1, 0, 1
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))
Le(a, b) == Cmp(a, b) <= 0
Lt(a, b) == Cmp(a, b) < 0
Dist(a, b) == IF Le(a, b) THEN Sub(b, a) ELSE Sub(a, b)
\* a * 2^k
Shl(a, k) == IF a = <<>> THEN <<>> ELSE Carry([i \in 1..(k \div 12) |-> 0] \o [i \in 1..Len(a) |-> a[i] * (2 ^ (k % 12))])
\* a \div 10 and so on by one limb: <<quotient, remainder>>, for d < 2^18
RECURSIVE DivAt(_, _, _, _)
DivAt(a, d, i, r) == IF i = 0 THEN <<<<>>, r>>
                     ELSE LET v == r * Base + a[i]
                              rest == DivAt(a, d, i - 1, v % d)
                          IN <<Append(rest[1], v \div d), rest[2]>>
DivSmall(a, d) == LET q == DivAt(a, d, Len(a), 0) IN <<Strip(q[1]), q[2]>>
RECURSIVE OfBytesBE(_)
OfBytesBE(b) == IF b = <<>> THEN <<>>
                ELSE Add(Mul(OfBytesBE(SubSeq(b, 1, Len(b) - 1)), <<256>>), OfInt(b[Len(b)]))

-----------------------------------------------------------------------------
(* IEEE numbers, from their big endian bytes: [neg, m, x] is +-m * 2^x.      *)
IsFinite(b) == IF Len(b) = 8 THEN ~(b[1] % 128 = 127 /\ b[2] >= 240) ELSE ~(b[1] % 128 = 127 /\ b[2] >= 128)
IeeeValue(b) ==
  IF Len(b) = 8
  THEN LET e == (b[1] % 128) * 16 + b[2] \div 16
           hi == (b[2] % 16) + IF e = 0 THEN 0 ELSE 16
           m == OfBytesBE(<<hi>> \o SubSeq(b, 3, 8))
       IN [neg |-> b[1] >= 128, m |-> m, x |-> (IF e = 0 THEN 1 ELSE e) - 1075]
  ELSE LET e == (b[1] % 128) * 2 + b[2] \div 128
           hi == (b[2] % 128) + IF e = 0 THEN 0 ELSE 128
           m == OfBytesBE(<<hi>> \o SubSeq(b, 3, 4))
       IN [neg |-> b[1] >= 128, m |-> m, x |-> (IF e = 0 THEN 1 ELSE e) - 150]

(* Ratios of naturals: [p, q], q # <<>>                                      *)
Ratio(v) == [p |-> IF v.x >= 0 THEN Shl(v.m, v.x) ELSE v.m, q |-> IF v.x >= 0 THEN <<1>> ELSE Shl(<<1>>, -v.x)]
RatioOf(n, d) == [p |-> OfInt(n), q |-> OfInt(d)]
Inv(r) == [p |-> r.q, q |-> r.p]
RCmp(a, b) == Cmp(Mul(a.p, b.q), Mul(b.p, a.q))
\* |a - b| <= b * n / d
Close(a, b, n, d) == Le(Mul(Dist(Mul(a.p, b.q), Mul(b.p, a.q)), d), Mul(Mul(b.p, a.q), n))
\* within a few units in the last place of a double
Nearly(a, b) == Close(a, b, <<1>>, Shl(<<1>>, 50))

ASSUME /\ OfInt(0) = <<>> /\ OfInt(4096) = <<0, 1>>
       /\ Mul(OfInt(46341), OfInt(46340)) = OfInt(2147441940)
       /\ Sub(Mul(OfInt(2147483647), OfInt(2147483647)), Mul(OfInt(2147483646), OfInt(2147483646)))
            = Add(OfInt(2147483647), OfInt(2147483646))
       /\ DivSmall(Mul(OfInt(2147483647), OfInt(100000)), 100000) = <<OfInt(2147483647), 0>>
       /\ RCmp(Ratio(IeeeValue(<<63, 240, 0, 0, 0, 0, 0, 0>>)), RatioOf(1, 1)) = 0
       /\ RCmp(Ratio(IeeeValue(<<64, 60, 0, 0, 0, 0, 0, 0>>)), RatioOf(28, 1)) = 0
       /\ RCmp(Ratio(IeeeValue(<<192, 32, 0, 0>>)), RatioOf(5, 2)) = 0
       /\ Nearly(Ratio(IeeeValue(<<63, 185, 153, 153, 153, 153, 153, 154>>)), RatioOf(1, 10))
       /\ RCmp(Ratio(IeeeValue(<<63, 185, 153, 153, 153, 153, 153, 154>>)), RatioOf(1, 10)) = 1
=============================================================================
