------------------------------ MODULE Rec3_Trace ------------------------------
(* Judges recorded packing, unpacking, reading, encoding and decoding of     *)
(* miniSEED 3 records and uncompressed samples.                              *)
EXTENDS Reader3, Samples, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Clause(name, ok) == IF ok THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r

-----------------------------------------------------------------------------
(* An observed record r: f (field -> bytes as read from the attributes of    *)
(* the header), id (code points), pl (payload), smp, rp (packed again)       *)
AllFields == ContentFields \cup {"crc", "identifierLength", "extraHeadersLength", "dataLength"}
Matches(bytes, pos, p, r) ==
  Clause("header fields", \A f \in AllFields : r.f[f] = Get(bytes, pos, f))
  \cup Clause("identifier", Utf8(r.id) = p.id)
  \cup Clause("payload", r.pl = p.payload)
  \cup Clause("packs to the same bytes", r.rp = SubSeq(bytes, pos + 1, pos + p.size))
  \cup IF ~Has(r, "smp") THEN {} ELSE
       Clause("samples", LET enc == Get(bytes, pos, "encoding")[1] IN
                \/ Doubtful(enc, p.payload)
                \/ SamplesAgree(enc, SamplesOf(enc, p.payload, LeNum(Get(bytes, pos, "numSamples")), TRUE), r.smp))

-----------------------------------------------------------------------------
(* rt: create, pack, read back                                               *)
NumOk(v, w) == (v.s = 0 \/ \A i \in 1..8 : v.b[i] = 0) /\ \A i \in w + 1..8 : v.b[i] = 0
HeaderNums == {"flags", "nanosecond", "year", "dayOfYear", "hour", "minute", "second", "publicationVersion"}
Native(e) == CASE e.src = "list" -> IF e.enc = -1 THEN FLOAT ELSE e.enc
               [] e.src \in {"i2", "arr:h"} -> SHORT
               [] e.src \in {"i4", "i8", "u4", "u8", "arr:i"} -> INTEGER
               [] e.src \in {"f4", "arr:f"} -> FLOAT
               [] e.src \in {"f8", "arr:d"} -> DOUBLE
               [] e.src = "seg" -> e.segenc
               [] e.src = "none" -> IF e.enc = -1 THEN 0 ELSE e.enc
               [] OTHER -> e.enc
Values(e, enc) == IF e.kind = "int" /\ IsFloatEnc(enc) THEN [i \in 1..Len(e.items) |-> FloatOfInt(enc, e.items[i])]
                  ELSE e.items
IntsHold(e, enc) == e.kind = "int" /\ e.wide = 0 /\ \A i \in 1..Len(e.items) : FitsSample(enc, e.items[i])
CountBytes(e) == IF e.src \in {"bytes"} THEN SubSeq(e.ns.b, 1, 4) ELSE LeBytes(e.count, 4)

Refuse(e) ==  \* the format cannot hold it, or it contradicts itself
  \/ \E f \in HeaderNums : ~NumOk(e.f[f], Width(f))
  \/ Len(Utf8(e.id)) > 255
  \/ e.ehk = "bad"
  \/ (e.ehk = "text" /\ Len(Utf8(e.eht)) > 65535)
  \/ (e.ehk = "dict" /\ e.ehmin > 65535)
  \/ (e.src = "bytes" /\ (e.enc < 0 \/ e.enc > 255 \/ ~NumOk(e.ns, 4)))
  \/ (e.src = "list" /\ e.enc # -1 /\ ~IsPrimitive(e.enc))
  \/ (e.src = "list" /\ Native(e) \in {SHORT, INTEGER} /\ ~IntsHold(e, Native(e)))
  \/ e.wide = 1
  \/ (e.src \notin {"bytes", "list", "other", "none"} /\ e.enc # -1 /\ e.enc # Native(e))
  \/ (e.src # "bytes" /\ (\E i \in 1..8 : e.ns.b[i] # 0)
                      /\ (SubSeq(e.ns.b, 1, 4) # LeBytes(e.count, 4) \/ ~NumOk(e.ns, 4)))
MayRefuse(e) == \/ e.src = "other"
                \/ (e.src = "none" /\ e.enc \notin {-1, 0})
                \/ (e.ehk = "dict" /\ e.ehmax > 65535)

RtOk(e) ==
  LET o == e.out
      p == Parse(o.bytes, 0)
  IN IF p.why # "" \/ p.size # Len(o.bytes) THEN {"layout"} ELSE
     LET enc == IF e.src = "other" THEN Get(o.bytes, 0, "encoding")[1] ELSE Native(e)
         content == [f \in ContentFields |->
            CASE f \in HeaderNums -> SubSeq(e.f[f].b, 1, Width(f))
              [] f = "encoding" -> <<enc>>
              [] f = "rate" -> e.rate
              [] f = "numSamples" -> CountBytes(e)]
         vals == Values(e, enc)
     IN Clause("content fields", \A f \in ContentFields : Get(o.bytes, 0, f) = content[f])
        \cup Clause("identifier bytes", p.id = Utf8(e.id))
        \cup Clause("extra header bytes", e.ehk = "text" => p.eh = Utf8(e.eht))
        \cup Clause("no extra header bytes", e.ehk = "none" => p.eh = <<>>)
        \cup Clause("extra headers as written", o.ehw = e.ehc)
        \cup Clause("payload bytes",
               IF e.src \in {"bytes", "seg"} /\ ~(e.src = "seg" /\ IsPrimitive(enc)) THEN p.payload = e.payload
               ELSE IF e.src = "none" THEN p.payload = <<>>
               ELSE IF IsFloatEnc(enc) THEN /\ Len(p.payload) = Len(vals) * SampleSize(enc)
                                            /\ SameSamples(enc, DecodeAll(enc, p.payload, Len(vals), TRUE), vals)
               ELSE p.payload = EncodeAll(enc, vals, TRUE))
        \cup Clause("record layout", o.bytes = Layout(content, p.id, p.eh, p.payload))
        \cup Matches(o.bytes, 0, p, o.r)
        \cup Clause("extra headers", o.r.ehc = e.ehc)
        \cup Clause("samples read back", e.src \in {"bytes", "none"} \/
                      (o.r.smp.k = "ok" /\ SameSamples(enc, o.r.smp.v, vals)))
        \cup Clause("same from stream", o.stream = "same")

RtVerdict(e) ==
  IF Refuse(e) THEN Clause("refused", e.out.k # "ok")
  ELSE IF e.out.k # "ok" THEN Clause("packs and reads", MayRefuse(e))
  ELSE RtOk(e)

-----------------------------------------------------------------------------
(* foreign: a record laid out by somebody else                               *)
UnpackVerdict(e) ==
  LET p == Parse(e.bytes, 0)
      good == p.why = "" /\ (e.check = 0 \/ p.crcOk)
  IN IF good
     THEN IF e.out.k # "ok" THEN {"good record is read"}
          ELSE (Matches(e.bytes, 0, p, e.out.r) \ (IF p.crcOk THEN {} ELSE {"packs to the same bytes"}))
               \cup Clause("extra headers", Has(e, "ehc") => e.out.r.ehc = e.ehc)
     ELSE IF e.check = 1 THEN Clause("bad record is refused", e.out.k # "ok") ELSE {}

\* packed: any bytes that the library made
PackedVerdict(e) ==
  LET p == Parse(e.bytes, 0)
  IN Clause("record layout", p.why = "" /\ p.size = Len(e.bytes))
     \cup Clause("crc", p.why = "" => p.crcOk)
     \cup Clause("payload holds the samples", p.why = "" /\ IsPrimitive(p.h[16]) /\ e.exact = 1 =>
                   Len(p.payload) = SampleSize(p.h[16]) * LeNum(Get(e.bytes, 0, "numSamples")))

-----------------------------------------------------------------------------
(* read: a stream.  out.recs, out.end; if damaged, starts are the positions  *)
(* and lengths of its records before it was damaged at byte dpos             *)
SameRec(bytes, pos, r) == LET p == Parse(bytes, pos) IN Matches(bytes, pos, p, r)
StrictRead(e) ==
  LET w == Run(e.bytes, e.filter, e.check = 1)
      n == Len(e.out.recs)
      m == IF n < Len(w.got) THEN n ELSE Len(w.got)
  IN Clause("all records delivered", n >= Len(w.got))
     \cup Clause("no record beyond the expected", n <= Len(w.got))
     \cup UNION { SameRec(e.bytes, w.got[i], e.out.recs[i]) : i \in 1..m }
     \cup Clause("end of reading", e.out.end = w.end)
\* with a filter damage may hide a record or shift what follows, but nothing bad may come out
SelectedStarts(e) ==
  SelectSeq([i \in 1..Len(e.starts) |-> e.starts[i]],
            LAMBDA s : Selects(e.filter, Utf8Decode(Parse(e.clean, s[1]).id)))
RECURSIVE InOrder(_, _)
\* is the sequence of byte sequences a embedded in b, in order
InOrder(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                 ELSE IF Head(a) = Head(b) THEN InOrder(Tail(a), Tail(b)) ELSE InOrder(a, Tail(b))
FilteredRead(e) ==
  LET sel == SelectedStarts(e)
      recb(s) == SubSeq(e.clean, s[1] + 1, s[1] + s[2])
      hurt(s) == IF s[1] + s[2] > Len(e.bytes) THEN TRUE ELSE SubSeq(e.bytes, s[1] + 1, s[1] + s[2]) # recb(s)
      good == SelectSeq(sel, LAMBDA s : ~hurt(s))
      before == SelectSeq(sel, LAMBDA s : s[1] + s[2] <= e.dpos)
      got == [i \in 1..Len(e.out.recs) |-> e.out.recs[i].rp]
  IN Clause("only undamaged records", InOrder(got, [i \in 1..Len(good) |-> recb(good[i])]))
     \cup Clause("records before the damage", Len(got) >= Len(before)
                  /\ \A i \in 1..Len(before) : got[i] = recb(before[i]))
     \cup Clause("read to an end", e.out.end \in {"eof", "raise"})
ReadVerdict(e) == IF e.damaged = 1 /\ e.filter.t # "none" THEN FilteredRead(e) ELSE StrictRead(e)

-----------------------------------------------------------------------------
(* enc / dec: seedcodec                                                      *)
EncVerdict(e) ==
  LET enc == IF e.enc = -1 THEN Native(e) ELSE e.enc
      must == ~IsPrimitive(enc) \/ e.wide = 1
              \/ (enc \in {SHORT, INTEGER} /\ (e.kind # "int" \/ ~IntsHold(e, enc)))
      may == e.src = "other"
      vals == Values(e, enc)
  IN IF must THEN Clause("refused", e.out.k # "ok")
     ELSE IF e.out.k # "ok" THEN Clause("encodes", may)
     ELSE Clause("sample count", e.out.n = Len(vals) /\ Len(e.out.bytes) = Len(vals) * SampleSize(enc))
          \cup Clause("encoded bytes", Len(e.out.bytes) = Len(vals) * SampleSize(enc)
                 /\ IF IsFloatEnc(enc) THEN SameSamples(enc, DecodeAll(enc, e.out.bytes, Len(vals), e.le = 1), vals)
                    ELSE e.out.bytes = EncodeAll(enc, vals, e.le = 1))
          \cup Clause("described", e.out.enc = enc /\ e.out.le = e.le)
          \cup Clause("decodes to the values", e.out.dec.k = "ok" /\ SameSamples(enc, e.out.dec.v, vals))
DecVerdict(e) ==
  LET enc == IF e.enc = 32 THEN SHORT ELSE e.enc
      want == IF IsPrimitive(enc) \/ e.n = 0 THEN SamplesOf(enc, e.bytes, e.n, e.le = 1) ELSE Nothing
  IN IF want.ok THEN IF e.out.k # "ok" THEN {"decodes"}
                     ELSE Clause("decoded values", SameSamples(enc, want.s, e.out.v))
     ELSE Clause("refused", e.out.k # "ok")

\* what is told of an encoding
KindVerdict(e) ==
  Clause("float encodings are told", e.float = IsFloatEnc(e.enc))
  \cup Clause("primitive encodings are told", e.prim = IsPrimitive(e.enc))
  \cup Clause("decompressable encodings are told", e.enc # 32 => e.can = (IsPrimitive(e.enc) \/ e.enc \in {10, 11}))
  \cup Clause("bytes are not encoded again", e.again = "refused")
Verdict(e) ==
  CASE e.op = "kind" -> KindVerdict(e)
    [] e.op = "rt" -> RtVerdict(e)
    [] e.op = "unpack" -> UnpackVerdict(e)
    [] e.op = "packed" -> PackedVerdict(e)
    [] e.op = "read" -> ReadVerdict(e)
    [] e.op = "enc" -> EncVerdict(e)
    [] e.op = "dec" -> DecVerdict(e)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET bad == Verdict(Trace[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToString(l) \o " " \o ToString(bad))
        /\ IF l = Len(Trace) THEN PrintT("@@DONE " \o ToString(l)) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
