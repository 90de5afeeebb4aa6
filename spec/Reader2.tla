------------------------------- MODULE Reader2 -------------------------------
(* Reading a stream of miniSEED 2 records with an optional source id filter. *)
EXTENDS MSeed2Format, Regex
ReadStep2(b, pos, filter) ==
  IF Len(b) - pos < FixedSize2 THEN [k |-> "eof", size |-> 0]
  ELSE LET p == Parse2(b, pos)
       IN IF p.why # "" THEN [k |-> "raise", size |-> 0]
          ELSE IF Selects(filter, Sid2(p)) THEN [k |-> "yield", size |-> p.size]
          ELSE [k |-> "skip", size |-> p.size]
RECURSIVE Run2From(_, _, _, _)
Run2From(b, pos, filter, got) ==
  LET r == ReadStep2(b, pos, filter)
  IN CASE r.k = "eof" -> [got |-> got, end |-> "eof"]
       [] r.k = "raise" -> [got |-> got, end |-> "raise"]
       [] r.k = "skip" -> Run2From(b, pos + r.size, filter, got)
       [] r.k = "yield" -> Run2From(b, pos + r.size, filter, Append(got, pos))
Run2(b, filter) == Run2From(b, 0, filter, <<>>)
=============================================================================
