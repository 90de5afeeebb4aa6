----------------------------- MODULE Merge_Trace -----------------------------
(* Judges recorded merging of real records: pairwise, while reading, and by  *)
(* the merge tool.                                                           *)
EXTENDS Merge, MSeed3Format, Primitive, Regex, IOUtils, Json, TLC
LOCAL SF == INSTANCE SteimFormat
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, ok) == IF ok THEN {} ELSE {name}

RECURSIVE Words(_)
Words(b) == IF Len(b) < 4 THEN <<>>
            ELSE IF Len(b) = 4 THEN <<Signed32(b)>>
            ELSE LET m == (Len(b) \div 8) * 4
                 IN Words(SubSeq(b, 1, m)) \o Words(SubSeq(b, m + 1, Len(b)))
Frames(b) == [f \in 1..(Len(b) \div 64) |-> Words(SubSeq(b, (f - 1) * 64 + 1, f * 64))]

\* sample period of the rate or period field r: the event lists those in use
PeriodOf(e, r) == LET k == CHOOSE k \in 1..Len(e.periods) : e.periods[k][1] = r
                  IN <<e.periods[k][2], e.periods[k][3]>>
Known(e, r) == \E k \in 1..Len(e.periods) : e.periods[k][1] = r
B1(p, f) == LeNum(SubSeq(p.h, Field[f][1], Field[f][2]))
RecOf(e, p, eh) ==
  LET enc == B1(p, "encoding")
      n == B1(p, "numSamples")
      rate == SubSeq(p.h, Field["rate"][1], Field["rate"][2])
      ns == B1(p, "nanosecond")
      kind == IF IsPrimitive(enc) THEN "plain" ELSE IF enc \in {10, 11} THEN "packed" ELSE "opaque"
  IN [id |-> p.id, rate |-> rate, per |-> IF Known(e, rate) THEN PeriodOf(e, rate) ELSE <<0, 0>>,
      enc |-> enc, ver |-> B1(p, "publicationVersion"),
      t |-> Instant(e.base, B1(p, "year"), B1(p, "dayOfYear"), B1(p, "hour"), B1(p, "minute"), B1(p, "second"), ns \div 1000),
      ns |-> ns, flags |-> B1(p, "flags"), n |-> n, kind |-> kind, eh |-> eh,
      data |-> CASE kind = "plain" -> IF n * SampleSize(enc) > Len(p.payload) THEN <<>> ELSE DecodeAll(enc, p.payload, n, TRUE)
                 [] kind = "packed" -> SF!Decode(enc - 9, Frames(p.payload), n, 0).s
                 [] OTHER -> p.payload]

RECURSIVE ParseAll(_, _)
ParseAll(bytes, at) ==
  IF at >= Len(bytes) THEN <<>>
  ELSE LET p == Parse(bytes, at)
       IN IF p.why # "" THEN <<p>> ELSE <<p>> \o ParseAll(bytes, at + p.size)
Records(e, bytes, ehs) == LET ps == ParseAll(bytes, 0)
                          IN [i \in 1..Len(ps) |-> RecOf(e, ps[i], ehs[i])]
Sound(bytes, ehs) == LET ps == ParseAll(bytes, 0)
                     IN Len(ps) = Len(ehs) /\ \A i \in 1..Len(ps) : ps[i].why = "" /\ ps[i].crcOk

Same(want, got) ==
  IF Len(want) # Len(got) THEN {"records joined exactly where they may be"}
  ELSE UNION { Clause("identifier", want[i].id = got[i].id)
               \cup Clause("start time", want[i].t = got[i].t /\ want[i].ns = got[i].ns)
               \cup Clause("sample rate, encoding, version, flags",
                      want[i].rate = got[i].rate /\ want[i].enc = got[i].enc /\ want[i].ver = got[i].ver /\ want[i].flags = got[i].flags)
               \cup Clause("number of samples", want[i].n = got[i].n)
               \cup Clause("samples", want[i].data = got[i].data)
               \cup Clause("extra headers", want[i].eh = got[i].eh) : i \in 1..Len(want) }

PairVerdict(e) ==
  IF e.out.k # "ok" THEN {"merges or returns both"}
  ELSE IF ~Sound(e.out.bytes, e.out.ehs) THEN {"valid records"}
  ELSE Clause("inputs unchanged", e.out.kept = 1)
       \cup IF e.one # 0 THEN Clause("single record passes", e.out.bytes = e.ins)
       ELSE LET ins == Records(e, e.ins, e.ehs)
                want == Pair(ins[1], ins[2])
            IN Same(want, Records(e, e.out.bytes, e.out.ehs))
               \cup Clause("unmerged records unchanged", Len(want) = 2 => e.out.bytes = e.ins)

ReadVerdict(e) ==
  IF e.out.k # "ok" THEN {"reads to the end"}
  ELSE IF ~Sound(e.out.bytes, e.out.ehs) THEN {"valid records"}
  ELSE LET ins == SelectSeq(Records(e, e.ins, e.ehs), LAMBDA r : Selects(e.filter, r.id))
       IN Same(MergeAll(ins), Records(e, e.out.bytes, e.out.ehs))
          \cup Clause("input file unchanged", e.out.kept = 1)

\* with records that have no samples, or fewer than they say: the samples are the
\* same, in order, and nothing is joined to a record that does not hold its samples
RECURSIVE Samples(_)
Samples(rs) == IF rs = <<>> THEN <<>>
               ELSE [i \in 1..Len(Head(rs).data) |-> <<Head(rs).id, ToString(Head(rs).data[i])>>] \o Samples(Tail(rs))
Short(r) == r.kind = "plain" /\ r.n > 0 /\ r.data = <<>>
LooseVerdict(e) ==
  IF e.out.k # "ok" THEN Clause("merges or returns both", e.short = 1)
  ELSE IF ~Sound(e.out.bytes, e.out.ehs) THEN {"valid records"}
  ELSE LET ins == Records(e, e.ins, e.ehs)
           outs == Records(e, e.out.bytes, e.out.ehs)
       IN Clause("inputs unchanged", e.out.kept = 1)
          \cup Clause("nothing lost, duplicated or reordered", Samples(ins) = Samples(outs))
          \cup Clause("records that lack samples are left alone", \A i \in 1..Len(outs) : Short(outs[i]) => \E j \in 1..Len(ins) : ins[j] = outs[i])

Verdict(e) == CASE e.short # 0 -> LooseVerdict(e)
                [] e.op = "pair" -> PairVerdict(e)
                [] e.op \in {"read", "tool"} -> ReadVerdict(e)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET bad == Verdict(Trace[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToString(l) \o " " \o ToString(bad))
        /\ IF l = Len(Trace) THEN PrintT("@@DONE " \o ToString(l)) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
