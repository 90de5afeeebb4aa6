----------------------------- MODULE Damage_Trace -----------------------------
(* Judges recorded reading of cut and arbitrary streams, in both formats.    *)
EXTENDS Damage, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, ok) == IF ok THEN {} ELSE {name}
Pick2(a, b) == IF a < b THEN a ELSE b
SameBlk(x, y) == x.t = y.t /\ (IF x.t \in {1000, 1001} THEN x = y ELSE TRUE)
Same2(p, r) ==
  Clause("sequence number and quality", r.seq = p.seq /\ r.q = p.quality)
  \cup Clause("codes", r.net = p.network /\ r.sta = p.station /\ r.loc = p.location /\ r.cha = p.channel)
  \cup Clause("number of samples", r.n = p.n)
  \cup Clause("flags", r.act = p.act /\ r.io = p.io /\ r.qual = p.qual)
  \cup Clause("time correction", r.tc = p.timeCorr)
  \cup Clause("encoding and byte orders", r.enc = p.encoding /\ r.order = p.order)
  \cup Clause("record length", r.exp = p.exp /\ r.len = p.size)
  \cup Clause("factor and multiplier", r.factor = p.factor /\ r.mult = p.multiplier)
  \cup Clause("start time", r.start \in {p.start, p.startUnsigned})
  \cup Clause("blockettes", Len(r.blks) = Len(p.blks) /\ \A i \in 1..Len(p.blks) : SameBlk(r.blks[i], p.blks[i]))
  \cup Clause("payload", r.hasData = (IF p.hasData THEN 1 ELSE 0) /\ r.pl = p.payload)
\* read2: a stream; out.recs, out.end
Read2Verdict(e) ==
  LET w == Known2(e.bytes, 0, <<>>)
      sel == SelectSeq(w.got, LAMBDA p : R2!Selects(e.filter, R2!Sid2(R2!Parse2(e.bytes, p))))
      n == Len(e.out.recs)
  IN Clause("reading ends", e.out.end \in {"eof", "raise"})
     \cup Clause("whole records are delivered", n >= Len(sel))
     \cup UNION { Same2(R2!Parse2(e.bytes, sel[i]), e.out.recs[i]) : i \in 1..Pick2(n, Len(sel)) }
     \cup Clause("nothing but whole records", w.then = "doubtful" \/ n <= Len(sel))
     \cup Clause("missing and contradictory bytes are an error", w.then \in {"cut", "broken"} => e.out.end = "raise")
     \cup Clause("no error in sound streams", w.then = "eof" => e.out.end = "eof")
\* one2: a single record from bytes
One2Verdict(e) ==
  LET c == Class2(e.bytes, 0)
  IN CASE c = "whole" -> IF e.out.k # "ok" THEN {"whole record is read"} ELSE Same2(R2!Parse2(e.bytes, 0), e.out.r)
       [] c = "doubtful" -> {}
       [] OTHER -> Clause("what is not a whole record is refused", e.out.k = "refused")
\* read3, one3
Same3(b, at, r) ==
  LET p == R3!Parse(b, at) IN
  Clause("header fields", \A f \in DOMAIN r.f : r.f[f] = R3!Get(b, at, f))
  \cup Clause("identifier", R3!Utf8(r.id) = p.id)
  \cup Clause("payload", r.pl = p.payload)
Utf8Ok(b) == LET d == R3!Utf8Decode(b) IN -1 \notin { d[i] : i \in 1..Len(d) }
RECURSIVE FirstOdd(_, _, _)
\* the first of these records whose extra headers are no text: it may be refused
FirstOdd(b, ps, i) == IF i > Len(ps) THEN i ELSE IF ~Utf8Ok(R3!Parse(b, ps[i]).eh) THEN i ELSE FirstOdd(b, ps, i + 1)
Read3Verdict(e) ==
  LET w == R3!Run(e.bytes, e.filter, e.check = 1)
      n == Len(e.out.recs)
      odd == FirstOdd(e.bytes, w.got, 1)
      \* missing bytes of a record that is not selected, or whose identifier is not all there, may go unnoticed
      nid == e.bytes[w.pos + 34]
      id == R3!Utf8Decode(SubSeq(e.bytes, w.pos + 41, w.pos + 40 + nid))
      unseen == /\ w.end = "raise" /\ e.filter.t # "none" /\ Len(e.bytes) - w.pos >= 40
                /\ R3!Get(e.bytes, w.pos, "mark") = <<77, 83>> /\ R3!Get(e.bytes, w.pos, "version") = <<3>>
                /\ R3!Parse(e.bytes, w.pos).why # ""
                /\ (Len(e.bytes) - w.pos < 40 + nid \/ ~R3!Selects(e.filter, id))
      stopped == odd <= Len(w.got) /\ n = odd - 1 /\ e.out.end = "raise"
  IN Clause("whole records are delivered", n >= Len(w.got) \/ stopped)
     \cup Clause("nothing but whole records", n <= Len(w.got))
     \cup UNION { Same3(e.bytes, w.got[i], e.out.recs[i]) : i \in 1..Pick2(n, Len(w.got)) }
     \cup Clause("end of reading", stopped \/ e.out.end = w.end \/ (unseen /\ e.out.end = "eof"))
One3Verdict(e) ==
  LET p == R3!Parse(e.bytes, 0)
  IN IF p.why # "" \/ ~Utf8Ok(p.id) \/ (e.check = 1 /\ ~p.crcOk) THEN Clause("what is not a whole record is refused", e.out.k = "refused")
     ELSE IF e.out.k # "ok" THEN Clause("whole record is read", e.out.k = "refused" /\ ~Utf8Ok(p.eh))
     ELSE Same3(e.bytes, 0, e.out.r)
Verdict(e) == CASE e.op = "read2" -> Read2Verdict(e)
                [] e.op = "one2" -> One2Verdict(e)
                [] e.op = "read3" -> Read3Verdict(e)
                [] e.op = "one3" -> One3Verdict(e)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET bad == Verdict(Trace[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToString(l) \o " " \o ToString(bad))
        /\ IF l = Len(Trace) THEN PrintT("@@DONE " \o ToString(l)) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
