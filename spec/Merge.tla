-------------------------------- MODULE Merge --------------------------------
(* Merging of neighbouring records.  A record is                             *)
(*   [id, rate, per, enc, ver, t, n, data, eh, kind]                         *)
(* per: sample period and t: start, as <<seconds, microseconds>>; data: one  *)
(* item per sample; kind: "plain" (uncompressed), "packed" (compressed, can  *)
(* be decompressed) or "opaque" (cannot be decompressed).                    *)
EXTENDS Calendar

LastTime(r) == TAdd(r.t, TScale(r.per, r.n - 1))
Expected(r) == TAdd(r.t, TScale(r.per, r.n))
\* b starts after the last sample of a, less than half a period later than the next expected
Follows(a, b) ==
  /\ TLess(LastTime(a), b.t)
  /\ LET late == TSub(b.t, Expected(a)) IN TLess(TScale(late, 2), a.per)
Joinable(a, b) ==
  /\ a.kind = "plain" /\ b.kind = "plain"
  /\ a.id = b.id /\ a.rate = b.rate /\ a.enc = b.enc /\ a.ver = b.ver
  /\ Follows(a, b)
Join(a, b) == [a EXCEPT !.n = a.n + b.n, !.data = a.data \o b.data]

\* two records given to the pairwise merge
Pair(a, b) == IF Joinable(a, b) THEN <<Join(a, b)>> ELSE <<a, b>>

\* A reader that merges holds one record back: st is [held, out]
Plain(r) == IF r.kind = "packed" THEN [r EXCEPT !.kind = "plain", !.enc = 3] ELSE r
Start == [held |-> <<>>, out |-> <<>>]
Take(st, rec) ==
  LET r == Plain(rec)
  IN IF r.kind = "opaque" THEN [held |-> <<>>, out |-> Append(st.out \o st.held, r)]
     ELSE IF st.held = <<>> THEN [st EXCEPT !.held = <<r>>]
     ELSE LET p == Pair(st.held[1], r)
          IN IF Len(p) = 1 THEN [st EXCEPT !.held = p]
             ELSE [held |-> <<r>>, out |-> Append(st.out, st.held[1])]
Finish(st) == st.out \o st.held
RECURSIVE TakeAll(_, _)
TakeAll(st, rs) == IF rs = <<>> THEN st ELSE TakeAll(Take(st, Head(rs)), Tail(rs))
MergeAll(rs) == Finish(TakeAll(Start, rs))
=============================================================================
