----------------------------- MODULE Report_Trace -----------------------------
(* Judges recorded runs of the reporting tools.                              *)
EXTENDS Report, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, ok) == IF ok THEN {} ELSE {name}
Pick2(a, b) == IF a < b THEN a ELSE b
FactsOf(e, g) == IF e.fmt = 3 THEN Facts3(e.files[g[1]].bytes, g[2]) ELSE Facts2(e.files[g[1]].bytes, g[2])
IsTime(s, t) == <<s[1], s[2], s[3]>> = t /\ s[4] = 0

\* one line of the summary
SumRow(e, f, row) ==
  Clause("identifier of the line", row.id = IF e.fmt = 3 THEN f.id ELSE f.codes)
  \cup Clause("start time of the line", IsTime(row.start, f.start))
  \cup Clause("end time of the line", row.end[4] = 0 /\ EndOk(f, row.end))
  \cup Clause("number of samples of the line", row.n = f.n \o <<0, 0, 0, 0>>)
RateShown(x, w) == IF w.p = <<>> THEN \A i \in 2..8 : x[i] = 0
                   ELSE IsFinite(x) /\ x[1] < 128 /\ Nearly(Ratio(IeeeValue(x)), w)
\* the description of a record
DetRow(e, f, g, row) ==
  Clause("identifier described", row.id = f.id)
  \cup Clause("size described", row.size = f.size)
  \cup Clause("start time described", IsTime(row.start, f.start))
  \cup Clause("number of samples described", row.n = f.n \o <<0, 0, 0, 0>>)
  \cup Clause("sample rate described", RateShown(row.rate, f.rate))
  \cup Clause("flags described", row.flags = f.flags)
  \cup Clause("encoding described", row.enc = f.enc)
  \cup Clause("name of the encoding", Contains(row.encname, EncSays(f.enc)))
  \cup Clause("format described", row.fmt = e.fmt)
  \cup Clause("day of the year described", f.start[2] \in {0, 86399} \/ row.day = f.start[1] - DaysBefore(YearOf(f.start[1])) + 1)
  \cup (IF e.fmt = 3 THEN LET bs == BitsOf(f.flags[1]) IN
           Clause("meaning of the flags", Len(row.bits) = Len(bs) /\ \A i \in 1..Len(bs) :
                     row.bits[i].bit = bs[i] /\ Contains(row.bits[i].says, BitSays[bs[i] + 1])) ELSE {})
  \cup (IF e.fmt = 2 THEN Clause("quality described", row.quality = f.quality)
                          \cup Clause("blockettes described", Len(row.blks) = Len(f.blks) /\ \A i \in 1..Len(f.blks) :
                                         row.blks[i] = 0 \/ row.blks[i] = f.blks[i])
        ELSE Clause("version described", row.pub = f.pub)
             \cup Clause("crc described", row.crc = f.crc)
             \cup Clause("lengths described", row.ehlen = f.ehlen /\ row.dlen = f.dlen)
             \cup Clause("extra headers described",
                    LET eh == EhOf(e.files, g) IN IF e.eh = 1 /\ eh.m # <<>> THEN row.eh.k = "doc" /\ JEq(row.eh.v, eh) ELSE row.eh.k = "none"))
  \cup Clause("samples described",
         IF e.data = 0 THEN row.smp.k = "none"
         ELSE LET w == SF3!SamplesOf(f.enc, f.payload, IntOf(f.n), f.little)
              IN SF3!Doubtful(f.enc, f.payload) \/ (w.ok /\ row.smp.k = "ok" /\ SF3!SameSamples(f.enc, w.s, row.smp.v)))

ListVerdict(e) ==
  IF e.filter.t # "none" /\ ~Sound(e.fmt, e.files) THEN Clause("files unchanged", e.out.same = 1)
  ELSE
  LET w == Reported(e.fmt, e.files, e.filter, 1)
      n == Len(e.out.rows)
      m == Pick2(n, Len(w.got))
  IN Clause("a line for every matching record", n >= Len(w.got))
     \cup Clause("no line but for matching records", n <= Len(w.got))
     \cup UNION { LET f == FactsOf(e, w.got[i]) IN
                  IF e.mode = "summary" THEN SumRow(e, f, e.out.rows[i]) ELSE DetRow(e, f, w.got[i], e.out.rows[i]) : i \in 1..m }
     \cup Clause("success is told", (e.out.k = "ok") = w.whole)
     \cup Clause("totals", IF w.whole THEN /\ Len(e.out.total) = 1
                                           /\ e.out.total[1].records = Len(w.got)
                                           /\ OfBytesBE([i \in 1..8 |-> e.out.total[1].samples[9 - i]]) = TotalOf(e.fmt, e.files, w.got)
                           ELSE e.out.total = <<>>)
     \cup Clause("files unchanged", e.out.same = 1)

\* what a row of get is to show
ValueOk(e, g, row) ==
  LET toks == Tokens(e.ptr).toks
      eh == EhOf(e.files, g)
      v == GetAt(eh, toks)
  IN IF v.ok THEN \/ row.k = "value" /\ row.found = 1 /\ JEq(row.v, v.v)
                  \/ eh.m = <<>> /\ toks = <<>> /\ row.k = "value" /\ row.found = 0   \* no extra headers
     ELSE row.k = "value" /\ row.found = 0
GetVerdict(e) ==
  LET all == e.mode = "getall"
      w == Reported(e.fmt, e.files, e.filter, 1)
      rows == GetRows(e.files, w.got, 1, all, e.verbose = 1)
      seen == e.out.rows
      \* with an output file, values go there
      want == IF e.outfile = 1 THEN SelectSeq(rows, LAMBDA r : r.k # "value") ELSE rows
      vals == IF e.outfile = 1 THEN SelectSeq(rows, LAMBDA r : r.k = "value") ELSE <<>>
      OneOk(x, row) == CASE x.k = "file" -> row.k = "file" /\ row.file = x.g[1]
                         [] x.k = "sum" -> row.k = "sum" /\ SumRow(e, FactsOf(e, x.g), row) = {}
                         [] x.k = "value" -> ValueOk(e, x.g, row)
      Agree(xs, rs) == Len(xs) = Len(rs) /\ \A i \in 1..Len(xs) : OneOk(xs[i], rs[i])
  IN IF ~Tokens(e.ptr).ok THEN Clause("no value for what is not a pointer", \A i \in 1..Len(seen \o e.out.file) : (seen \o e.out.file)[i].k # "value"
                                        \/ (seen \o e.out.file)[i].found = 0)
                               \cup Clause("files unchanged", e.out.same = 1)
     ELSE IF ~Sound(e.fmt, e.files) THEN Clause("files unchanged", e.out.same = 1)
     ELSE Clause("values of the records in order", Agree(want, seen) /\ Agree(vals, e.out.file))
          \cup Clause("success is told", e.out.k = "ok")
          \cup Clause("files unchanged", e.out.same = 1)

\* the reader of the output went away: it got the beginning of the report
PipeVerdict(e) ==
  (IF e.out.k # "ok" THEN {"the tool ends"}
   ELSE Clause("beginning of the report", e.out.got = e.out.all /\ (Len(e.out.got) = e.take \/ Len(e.out.got) = e.out.size))
        \cup Clause("unfinished report is told", e.out.size > e.out.room => e.out.status # 0)
        \cup Clause("no noise", e.out.fine = 0 \/ e.out.silent = 1))
  \cup Clause("files unchanged", e.same = 1)
Verdict(e) == IF e.mode = "pipe" THEN PipeVerdict(e) ELSE IF e.mode \in {"summary", "details"} THEN ListVerdict(e) ELSE GetVerdict(e)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET bad == Verdict(Trace[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToString(l) \o " " \o ToString(bad))
        /\ IF l = Len(Trace) THEN PrintT("@@DONE " \o ToString(l)) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
