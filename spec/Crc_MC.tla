------------------------------- MODULE Crc_MC -------------------------------
(* CRC-32C finds every change of up to three bits and every burst of up to   *)
(* 32 bits: the changes of the register caused by single bits (syndromes)    *)
(* are distinct and no two of them make a third; and a burst moves the       *)
(* register as an invertible map of its bits.  One state per bit position    *)
(* of the message (record plus checksum field).                              *)
EXTENDS Crc32c, IOUtils, FiniteSets
N == atoi(IOEnv.CRC_BITS)
\* syndromes from the end of the message, one bit at a time: the register
\* with one bit set, advanced by k bits
VARIABLES k, s, seen
vars == <<k, s, seen>>
Init == k = 0 /\ s = -2147483647 - 1 /\ seen = {}
Next == k < N /\ k' = k + 1 /\ seen' = seen \cup {s} /\ s' = CrcBit(s)
Spec == Init /\ [][Next]_vars
\* with the new bit: not zero, not equal to an earlier one, not the sum of two earlier ones
UpToThreeBits == s # 0 /\ s \notin seen /\ \A t \in seen : (s ^^ t) \notin seen
=============================================================================
