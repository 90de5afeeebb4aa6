------------------------------ MODULE Primitive ------------------------------
(* Uncompressed sample encodings of SEED / miniSEED: two's complement 16 and *)
(* 32 bit integers, IEEE 32 and 64 bit floats.  An integer sample is a TLC   *)
(* integer, a float sample is the sequence of its IEEE bytes, big endian.    *)
EXTENDS Bits

SHORT == 1
INTEGER == 3
FLOAT == 4
DOUBLE == 5
IsPrimitive(enc) == enc \in {SHORT, INTEGER, FLOAT, DOUBLE}
IsFloatEnc(enc) == enc \in {FLOAT, DOUBLE}
SampleSize(enc) == CASE enc = SHORT -> 2 [] enc = INTEGER -> 4 [] enc = FLOAT -> 4 [] enc = DOUBLE -> 8

\* big endian bytes of one sample
SampleBE(enc, x) ==
  CASE enc = SHORT -> << (x \div 256) % 256, x % 256 >>
    [] enc = INTEGER -> Bytes4(x)
    [] OTHER -> x
\* can the encoding hold integer x
FitsSample(enc, x) == enc # SHORT \/ (x >= -32768 /\ x <= 32767)

Signed16(h, l) == LET u == h * 256 + l IN IF u >= 32768 THEN u - 65536 ELSE u
Signed32(b) == (IF b[1] >= 128 THEN b[1] - 256 ELSE b[1]) * Pow2[24] + b[2] * 65536 + b[3] * 256 + b[4]
\* sample from its big endian bytes
SampleOf(enc, b) ==
  CASE enc = SHORT -> Signed16(b[1], b[2])
    [] enc = INTEGER -> Signed32(b)
    [] OTHER -> b

RECURSIVE EncodeAll(_, _, _)
EncodeAll(enc, s, little) ==
  IF Len(s) = 0 THEN <<>>
  ELSE IF Len(s) = 1 THEN IF little THEN Rev(SampleBE(enc, s[1])) ELSE SampleBE(enc, s[1])
  ELSE LET m == Len(s) \div 2  \* by halves, so that long sequences stay cheap
       IN EncodeAll(enc, SubSeq(s, 1, m), little) \o EncodeAll(enc, SubSeq(s, m + 1, Len(s)), little)
DecodeAll(enc, bytes, n, little) ==
  LET w == SampleSize(enc)
  IN [i \in 1..n |-> LET b == SubSeq(bytes, (i - 1) * w + 1, i * w)
                     IN SampleOf(enc, IF little THEN Rev(b) ELSE b)]

IsNaN(b) == IF Len(b) = 4
            THEN b[1] % 128 = 127 /\ b[2] >= 128 /\ (b[2] > 128 \/ b[3] > 0 \/ b[4] > 0)
            ELSE b[1] % 128 = 127 /\ b[2] >= 240
                 /\ (b[2] > 240 \/ b[3] > 0 \/ b[4] > 0 \/ b[5] > 0 \/ b[6] > 0 \/ b[7] > 0 \/ b[8] > 0)
\* one value for all NaNs, as their payload is not a promise
NormSample(enc, x) == IF IsFloatEnc(enc) /\ IsNaN(x) THEN <<-1>> ELSE x
SameSamples(enc, s, t) ==
  /\ Len(s) = Len(t)
  /\ \A i \in 1..Len(s) : NormSample(enc, s[i]) = NormSample(enc, t[i])

\* IEEE bytes of an integer that the format can hold exactly
RECURSIVE Log2(_, _)
Log2(n, e) == IF n < 2 THEN e ELSE Log2(n \div 2, e + 1)
FloatOfInt(enc, x) ==
  LET w == SampleSize(enc)
      a == IF x < 0 THEN -x ELSE x
      e == Log2(a, 0)
      m == a - Pow2[e]                       \* fraction, e bits
      sign == IF x < 0 THEN 128 ELSE 0
  IN IF x = 0 THEN [i \in 1..w |-> 0]
     ELSE IF enc = FLOAT  \* |x| < 2^24
     THEN LET ex == 127 + e  f == m * Pow2[23 - e]
          IN << sign + ex \div 2, (ex % 2) * 128 + f \div 65536, (f \div 256) % 256, f % 256 >>
     ELSE LET ex == 1023 + e  \* 52 bit fraction: first 20 bits, then 32 bits of which at most 11 are used
              f1 == IF e <= 20 THEN m * Pow2[20 - e] ELSE m \div Pow2[e - 20]
              r  == IF e <= 20 THEN 0 ELSE (m % Pow2[e - 20]) * Pow2[16 - (e - 20)]
          IN << sign + ex \div 16, (ex % 16) * 16 + f1 \div 65536, (f1 \div 256) % 256, f1 % 256,
                r \div 256, r % 256, 0, 0 >>
ASSUME /\ FloatOfInt(FLOAT, 1) = <<63,128,0,0>> /\ FloatOfInt(FLOAT, -3) = <<192,64,0,0>>
       /\ FloatOfInt(DOUBLE, 1) = <<63,240,0,0,0,0,0,0>>
       /\ FloatOfInt(DOUBLE, 2147483647) = <<65,223,255,255,255,192,0,0>>
=============================================================================
