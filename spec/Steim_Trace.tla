----------------------------- MODULE Steim_Trace -----------------------------
(* Judges recorded encode and decode calls of the implementation.            *)
(* An event is one call with its inputs and outcome; the verdict is the set  *)
(* of clauses that the call breaks.                                          *)
EXTENDS SteimFormat, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Clause(name, ok) == IF ok THEN {} ELSE {name}
Tail1(s, off) == SubSeq(s, off + 1, Len(s))

(* encode: [op, v, s, limit, bias, off, in, out]                             *)
(*  in.k  "ints" (fit in 32 bits, one dimensional), "bad" otherwise          *)
(*  out.k "ok" with n, frames, dec (decoded by implementation), padded       *)
(*        (frames of the padded form), or "codec" or another exception type  *)
BadInput(e) == e.in # "ints" \/ Len(e.s) = 0 \/ e.limit < 0 \/ e.off < 0 \/ e.off >= Len(e.s)

EncodeOk(e) ==
  LET o == e.out
      s == Tail1(e.s, e.off)
      b == BlockDiffs(e.v, o.frames)
      want == Diffs(s, e.bias)
      shape == \A f \in 1..Len(o.frames) : Len(o.frames[f]) = 16
  IN Clause("whole frames", shape /\ o.rest = 0 /\ Len(o.frames) > 0)
     \cup IF ~shape \/ Len(o.frames) = 0 THEN {} ELSE
     Clause("within frame limit", e.limit > 0 => Len(o.frames) <= e.limit)
     \cup Clause("control codes", ControlOk(o.frames))
     \cup Clause("defined codes", b.ok)
     \cup Clause("sample count", o.n >= 1 /\ o.n <= Len(s) /\ (b.ok => Len(b.d) >= o.n /\ Len(b.d) <= o.n + 3))
     \cup IF ~b.ok \/ o.n < 1 \/ o.n > Len(s) \/ Len(b.d) < o.n THEN {} ELSE
     \* the last word of a Steim1 series may hold up to 3 unused differences
     Clause("differences", SubSeq(b.d, 1, o.n) = SubSeq(want, 1, o.n))
     \cup Clause("forward constant", o.frames[1][2] = s[1])
     \cup Clause("reverse constant", o.frames[1][3] = s[o.n])
     \cup Clause("stops only when full",
                 o.n < Len(s) => e.limit > 0 /\ Len(o.frames) = e.limit /\ b.empty = 0)
     \cup Clause("decodes to samples", o.dec = SubSeq(s, 1, o.n))
     \cup Clause("padded form", o.padded = "same")

EncodeVerdict(e) ==
  IF BadInput(e) THEN Clause("bad input refused", e.out.k = "codec")
  ELSE IF e.out.k = "ok" THEN EncodeOk(e)
  ELSE IF e.v = 2 /\ ~DiffsFit30(Tail1(e.s, e.off), e.bias)
       THEN Clause("refused with codec error", e.out.k = "codec")
       ELSE {"encodes"}

(* chain: consecutive frame limited blocks of one series                     *)
(*  [op, v, s, mode, limit, parts: seq of [n, dec], out]                     *)
ChainVerdict(e) ==
  IF e.out.k # "ok" THEN IF e.v = 2 /\ ~DiffsFit30(e.s, 0) THEN {} ELSE {"encodes"}
  ELSE Clause("chain is the series", FoldLeft(LAMBDA acc, p : acc \o p.dec, <<>>, e.parts) = e.s)
       \cup Clause("counts", \A i \in 1..Len(e.parts) : e.parts[i].n = Len(e.parts[i].dec) /\ e.parts[i].n > 0)

(* decode: [op, v, frames, rest, n, bias, out]; rest is bytes beyond frames  *)
DecodeVerdict(e) ==
  IF e.rest # 0 THEN Clause("partial frame refused", e.out.k = "codec")
  ELSE LET d == Decode(e.v, e.frames, e.n, e.bias)
       IN IF d.ok THEN IF e.out.k = "ok" THEN Clause("decoded samples", e.out.s = d.s)
                       ELSE {"decodes"}
          ELSE Clause(d.why \o " refused", e.out.k = "codec")

(* spec: behaviour of the encoder machine (Steim_Gen) decoded by the         *)
(* implementation                                                            *)
SpecVerdict(e) ==
  IF e.out.k # "ok" THEN {"decodes"} ELSE Clause("decoded samples", e.out.s = e.s)
  
Verdict(e) ==
  CASE e.op = "encode" -> EncodeVerdict(e)
    [] e.op = "chain" -> ChainVerdict(e)
    [] e.op = "decode" -> DecodeVerdict(e)
    [] e.op = "spec" -> SpecVerdict(e)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET bad == Verdict(Trace[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToString(l) \o " " \o ToString(bad))
        /\ IF l = Len(Trace) THEN PrintT("@@DONE " \o ToString(l)) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
