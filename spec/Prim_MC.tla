------------------------------ MODULE Prim_MC ------------------------------
(* Encoding and decoding are inverse in both byte orders: all 16 bit values, *)
(* 32 bit values around powers of two, and float bytes of every exponent.    *)
EXTENDS Primitive
VARIABLES enc, x
vars == <<enc, x>>
P2(k) == IF k = 31 THEN -2147483647 - 1 ELSE Pow2[k]
Ints == UNION { {P2(k), -(P2(k) + 1), P2(k) + 1} : k \in 0..31 }
Init == \/ enc = SHORT /\ x = -32768
        \/ enc = INTEGER /\ x \in Ints
        \/ enc = FLOAT /\ x \in { <<a, b, 0, m>> : a \in 0..255, b \in {0, 127, 128, 255}, m \in {0, 1} }
        \/ enc = DOUBLE /\ x \in { <<a, b, 0, 0, 0, 0, 0, m>> : a \in 0..255, b \in {0, 15, 16, 240, 255}, m \in {0, 1} }
Next == enc = SHORT /\ x < 32767 /\ x' = x + 1 /\ UNCHANGED enc
Spec == Init /\ [][Next]_vars
RoundTrip == \A little \in BOOLEAN :
  LET b == EncodeAll(enc, <<x, x>>, little)
  IN /\ Len(b) = 2 * SampleSize(enc)
     /\ DecodeAll(enc, b, 2, little) = <<x, x>>
     /\ \A i \in 1..Len(b) : b[i] \in 0..255
Mirror == EncodeAll(enc, <<x>>, TRUE) = Rev(EncodeAll(enc, <<x>>, FALSE))
\* float bytes of an integer are those of no other integer
IntFloats == enc = SHORT =>
   /\ FloatOfInt(FLOAT, x) # FloatOfInt(FLOAT, x + 1)
   /\ FloatOfInt(DOUBLE, x)[1] >= 128 <=> x < 0
=============================================================================
