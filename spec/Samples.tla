------------------------------- MODULE Samples -------------------------------
(* The samples of a payload, for every encoding that has a meaning here.     *)
EXTENDS Primitive
LOCAL SF == INSTANCE SteimFormat

RECURSIVE PayloadWords(_)
PayloadWords(b) == IF Len(b) < 4 THEN <<>>
                   ELSE IF Len(b) = 4 THEN <<Signed32(b)>>
                   ELSE LET m == (Len(b) \div 8) * 4
                        IN PayloadWords(SubSeq(b, 1, m)) \o PayloadWords(SubSeq(b, m + 1, Len(b)))
Frames(b) == [f \in 1..(Len(b) \div 64) |-> PayloadWords(SubSeq(b, (f - 1) * 64 + 1, f * 64))]
Nothing == [ok |-> FALSE, s |-> <<>>]
SamplesOf(encoding, payload, n, little) ==
  LET enc == IF encoding = 32 THEN SHORT ELSE encoding IN   \* DWWSSN is 16 bit integers
  IF n = 0 THEN [ok |-> TRUE, s |-> <<>>]
  ELSE IF n < 0 THEN Nothing
  ELSE IF IsPrimitive(enc)
       THEN IF Len(payload) \div SampleSize(enc) < n THEN Nothing
            ELSE [ok |-> TRUE, s |-> DecodeAll(enc, payload, n, little)]
  ELSE IF enc \in {10, 11}
       THEN IF Len(payload) % 64 # 0 THEN Nothing
            ELSE LET d == SF!Decode(enc - 9, Frames(payload), n, 0) IN [ok |-> d.ok, s |-> d.s]
  ELSE Nothing
\* observed samples: [k |-> "ok", v] or [k |-> "refused"]
\* (Steim control codes of the words that hold no differences are to be zero;
\* the format says nothing of data where they are not)
Doubtful(enc, payload) == enc \in {10, 11} /\ Len(payload) % 64 = 0 /\ ~SF!ControlOk(Frames(payload))
SamplesAgree(enc, want, got) ==
  IF want.ok THEN got.k = "ok" /\ SameSamples(enc, want.s, got.v) ELSE got.k = "refused"
=============================================================================
