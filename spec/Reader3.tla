------------------------------- MODULE Reader3 -------------------------------
(* Reading a stream of miniSEED 3 records with an optional source id filter  *)
(* and optional CRC checking.                                                *)
EXTENDS MSeed3Format, Regex

\* What reading at position pos does: [k |-> "eof" | "skip" | "yield" | "raise", size]
ReadStep(bytes, pos, filter, check) ==
  IF pos >= Len(bytes) THEN [k |-> "eof", size |-> 0]
  ELSE LET p == Parse(bytes, pos)
       IN IF p.why # "" THEN [k |-> "raise", size |-> 0]
          ELSE LET id == Utf8Decode(p.id)
               IN IF -1 \in { id[i] : i \in 1..Len(id) } THEN [k |-> "raise", size |-> 0]
                  ELSE IF ~Selects(filter, id) THEN [k |-> "skip", size |-> p.size]
                  ELSE IF check /\ ~p.crcOk THEN [k |-> "raise", size |-> 0]
                  ELSE [k |-> "yield", size |-> p.size]

\* positions of the yielded records, how reading ends and where
RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(bytes, pos, filter, check, got) ==
  LET r == ReadStep(bytes, pos, filter, check)
  IN CASE r.k = "eof" -> [got |-> got, end |-> "eof", pos |-> pos]
       [] r.k = "raise" -> [got |-> got, end |-> "raise", pos |-> pos]
       [] r.k = "skip" -> RunFrom(bytes, pos + r.size, filter, check, got)
       [] r.k = "yield" -> RunFrom(bytes, pos + r.size, filter, check, Append(got, pos))
Run(bytes, filter, check) == RunFrom(bytes, 0, filter, check, <<>>)
NoFilter == [t |-> "none"]
=============================================================================
