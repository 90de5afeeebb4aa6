------------------------------- MODULE Crc32c -------------------------------
(* CRC-32C (Castagnoli), reflected; 32 bit values are signed TLC integers.  *)
EXTENDS Bits, Bitwise

CrcPoly == -2097792136  \* 0x82F63B78
CrcBit(c) == IF c % 2 = 1 THEN shiftR(c, 1) ^^ CrcPoly ELSE shiftR(c, 1)
CrcTable == [i \in 0..255 |-> FoldLeft(LAMBDA c, k : CrcBit(c), i, <<1,2,3,4,5,6,7,8>>)]
CrcStep(c, b) == shiftR(c, 8) ^^ CrcTable[(c ^^ b) % 256]
\* running register over bytes, starting from register value c
CrcRun(c, bytes) == FoldLeft(CrcStep, c, bytes)
Crc(bytes) == CrcRun(-1, bytes) ^^ (-1)
\* the checksum as little endian bytes
CrcBytes(bytes) == Rev(Bytes4(Crc(bytes)))
\* published check value: "123456789" gives 0xE3069283
ASSUME CrcBytes(<<49,50,51,52,53,54,55,56,57>>) = <<131, 146, 6, 227>>
=============================================================================
