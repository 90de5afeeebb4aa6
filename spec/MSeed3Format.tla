----------------------------- MODULE MSeed3Format -----------------------------
(* The miniSEED 3 record: 40 byte fixed header (little endian), identifier,   *)
(* extra headers, payload.  Everything is a sequence of bytes; 64 and unsigned*)
(* 32 bit fields stay bytes as they exceed TLC's integers.                    *)
EXTENDS Crc32c

FixedSize == 40
\* number from little endian bytes, -1 if it is 2^31 or more
RECURSIVE LeNum(_)
LeNum(b) == IF b = <<>> THEN 0
            ELSE IF Len(b) = 4 /\ b[4] >= 128 THEN -1
            ELSE b[1] + 256 * LeNum(Tail(b))
LeBytes(v, n) == [i \in 1..n |-> IF i <= 4 THEN (v \div (256 ^ (i - 1))) % 256 ELSE 0]

\* [first byte, last byte] of the fields of the fixed header (1 based)
Field == [ mark |-> <<1, 2>>, version |-> <<3, 3>>, flags |-> <<4, 4>>, nanosecond |-> <<5, 8>>,
           year |-> <<9, 10>>, dayOfYear |-> <<11, 12>>, hour |-> <<13, 13>>, minute |-> <<14, 14>>,
           second |-> <<15, 15>>, encoding |-> <<16, 16>>, rate |-> <<17, 24>>, numSamples |-> <<25, 28>>,
           crc |-> <<29, 32>>, publicationVersion |-> <<33, 33>>, identifierLength |-> <<34, 34>>,
           extraHeadersLength |-> <<35, 36>>, dataLength |-> <<37, 40>> ]
\* the fields that carry content (not lengths, checksum or fixed marks)
ContentFields == {"flags", "nanosecond", "year", "dayOfYear", "hour", "minute", "second", "encoding",
                  "rate", "numSamples", "publicationVersion"}
Width(f) == Field[f][2] - Field[f][1] + 1
Get(bytes, at, f) == SubSeq(bytes, at + Field[f][1], at + Field[f][2])

\* The record starting after `at` bytes.  why is "" if the record is complete.
\* A record is [h, id, eh, payload, size, crcOk]
Parse(bytes, at) ==
  LET have == Len(bytes) - at
      bad(w) == [why |-> w, h |-> <<>>, id |-> <<>>, eh |-> <<>>, payload |-> <<>>, size |-> 0, crcOk |-> FALSE]
  IN IF have < FixedSize THEN bad("short header")
     ELSE IF Get(bytes, at, "mark") # <<77, 83>> \/ Get(bytes, at, "version") # <<3>> THEN bad("not a record")
     ELSE LET nid == LeNum(Get(bytes, at, "identifierLength"))
              neh == LeNum(Get(bytes, at, "extraHeadersLength"))
              nda == LeNum(Get(bytes, at, "dataLength"))
              room == have - FixedSize - nid - neh
          IN IF nda < 0 \/ room < nda THEN bad("short body")
             ELSE LET size == FixedSize + nid + neh + nda
                      a == at + FixedSize
                      zeroed == SubSeq(bytes, at + 1, at + 28) \o <<0, 0, 0, 0>> \o SubSeq(bytes, at + 33, at + size)
                  IN [why |-> "", size |-> size,
                      h |-> SubSeq(bytes, at + 1, at + FixedSize),
                      id |-> SubSeq(bytes, a + 1, a + nid),
                      eh |-> SubSeq(bytes, a + nid + 1, a + nid + neh),
                      payload |-> SubSeq(bytes, a + nid + neh + 1, a + nid + neh + nda),
                      crcOk |-> CrcBytes(zeroed) = Get(bytes, at, "crc")]

\* The bytes of a record with content c ([field -> bytes]), identifier, extra headers and payload
Layout(c, id, eh, payload) ==
  LET before == <<77, 83, 3>> \o c["flags"] \o c["nanosecond"] \o c["year"] \o c["dayOfYear"] \o c["hour"]
                \o c["minute"] \o c["second"] \o c["encoding"] \o c["rate"] \o c["numSamples"]
      after == c["publicationVersion"] \o LeBytes(Len(id), 1) \o LeBytes(Len(eh), 2) \o LeBytes(Len(payload), 4)
               \o id \o eh \o payload
  IN before \o CrcBytes(before \o <<0, 0, 0, 0>> \o after) \o after
Holdable(id, eh) == Len(id) <= 255 /\ Len(eh) <= 65535

\* UTF-8 of code points
Utf8Char(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Utf8Flat(_)
Utf8Flat(s) == IF Len(s) = 0 THEN <<>> ELSE IF Len(s) = 1 THEN Utf8Char(s[1])
               ELSE LET m == Len(s) \div 2  \* by halves, so that long sequences stay cheap
                    IN Utf8Flat(SubSeq(s, 1, m)) \o Utf8Flat(SubSeq(s, m + 1, Len(s)))
Utf8(cps) == IF \A i \in 1..Len(cps) : cps[i] < 128 THEN cps ELSE Utf8Flat(cps)
\* code points of UTF-8 bytes; bytes that are not UTF-8 give an entry of -1
Cont(b, i, n) == i + n <= Len(b) /\ \A k \in 1..n : b[i + k] >= 128 /\ b[i + k] < 192
RECURSIVE Utf8DecodeAt(_, _)
Utf8DecodeAt(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE IF b[i] < 128 THEN <<b[i]>> \o Utf8DecodeAt(b, i + 1)
  ELSE IF b[i] >= 194 /\ b[i] < 224 /\ Cont(b, i, 1)
       THEN <<(b[i] - 192) * 64 + b[i + 1] - 128>> \o Utf8DecodeAt(b, i + 2)
  ELSE IF b[i] >= 224 /\ b[i] < 240 /\ Cont(b, i, 2)
       THEN LET c == (b[i] - 224) * 4096 + (b[i + 1] - 128) * 64 + b[i + 2] - 128
            IN IF c < 2048 \/ (c >= 55296 /\ c < 57344) THEN <<-1>> ELSE <<c>> \o Utf8DecodeAt(b, i + 3)
  ELSE IF b[i] >= 240 /\ b[i] < 245 /\ Cont(b, i, 3)
       THEN LET c == (b[i] - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + b[i + 3] - 128
            IN IF c < 65536 \/ c > 1114111 THEN <<-1>> ELSE <<c>> \o Utf8DecodeAt(b, i + 4)
  ELSE <<-1>>
Utf8Decode(b) == IF \A i \in 1..Len(b) : b[i] < 128 THEN b ELSE Utf8DecodeAt(b, 1)
=============================================================================
