------------------------------- MODULE Bits -------------------------------
(* 32 bit two's complement arithmetic and bit field extraction inside       *)
(* TLC's own 32 bit integers (which trap on overflow).                      *)
EXTENDS Integers, Sequences, SequencesExt

Pow2 == [k \in 0..30 |-> 2^k]

\* low / high 16 bit halves; \div is floor division, so both work for negatives
Lo16(a) == a % 65536
Hi16(a) == a \div 65536
W16(h) == LET m == h % 65536 IN IF m >= 32768 THEN m - 65536 ELSE m

\* sum and difference modulo 2^32, as signed value
WAdd(a, b) == LET lo == Lo16(a) + Lo16(b)
              IN W16(Hi16(a) + Hi16(b) + (lo \div 65536)) * 65536 + (lo % 65536)
WSub(a, b) == LET lo == Lo16(a) - Lo16(b)
              IN W16(Hi16(a) - Hi16(b) + (lo \div 65536)) * 65536 + (lo % 65536)

\* does the exact (not wrapped) difference a - b fit into 30 bits signed
DiffFits30(a, b) == LET h == Hi16(a) - Hi16(b) + ((Lo16(a) - Lo16(b)) \div 65536)
                    IN h >= -8192 /\ h <= 8191

\* unsigned / signed value of the n bit field starting at bit s, n <= 30, s <= 30
UField(w, s, n) == (w \div Pow2[s]) % Pow2[n]
SField(w, s, n) == LET u == UField(w, s, n)
                   IN IF u >= Pow2[n-1] THEN u - Pow2[n] ELSE u

\* does v fit into n bits signed
Fits(v, n) == IF n >= 32 THEN TRUE ELSE v >= -Pow2[n-1] /\ v < Pow2[n-1]

\* bytes (0..255), big endian, of a signed 32 bit value
Bytes4(v) == << UField(v, 24, 8), UField(v, 16, 8), UField(v, 8, 8), v % 256 >>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
=============================================================================
