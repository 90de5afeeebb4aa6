--------------------------- MODULE CodeTool_Trace ---------------------------
(* Judges recorded runs of the fdsnsourceid tool and descriptions of codes.  *)
EXTENDS CodeTool, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, ok) == IF ok THEN {} ELSE {name}
Plain(rows) == SelectSeq(rows, LAMBDA r : r.k # "Rate")
Bare(rows) == [i \in 1..Len(rows) |-> RowOf(rows[i].k, rows[i].code)]
ToolVerdict(e) ==
  LET n == TellsUpTo(e.asked, 1)
      known == SelectSeq(SubSeq(e.asked, 1, n), LAMBDA r : r.k # "sps")
      want == RowsOfAll(known, 1)
      sps == SelectSeq(e.asked, LAMBDA r : r.k = "sps")
      got == Bare(Plain(e.rows))
      rates == SelectSeq(e.rows, LAMBDA r : r.k = "Rate")
      of(k) == SelectSeq(e.rows, LAMBDA r : r.k = k)
  IN Clause("succeeds exactly if everything asked can be told", (e.status = "ok") = (e.asked # <<>> /\ n = Len(e.asked)))
     \cup Clause("prints the codes asked for, in order",
            IF e.status = "ok" THEN got = want ELSE IsPrefixOf(got, want) \/ IsPrefixOf(want, got))
     \cup Clause("band codes of the rate", IF sps = <<>> THEN rates = <<>>
            ELSE { Letter(rates[i].code) : i \in 1..Len(rates) } \in RateCodes(IeeeValue(sps[1].rate))
                 /\ Len(rates) = Cardinality({ Letter(rates[i].code) : i \in 1..Len(rates) }))
     \cup Clause("prints the rate asked for", \A i \in 1..Len(rates) : rates[i].num = sps[1].rate)
     \cup Clause("band codes are described", \A i \in 1..Len(e.rows) : e.rows[i].k \in {"Band", "Rate"}
            => Describes(e.rows[i].says, BandTable, Letter(e.rows[i].code)))
     \cup Clause("source codes are described", \A i \in 1..Len(e.rows) : e.rows[i].k = "Source"
            => Describes(e.rows[i].says, SourceTable, Letter(e.rows[i].code)))
     \cup Clause("full description of a source", \A i \in 1..Len(e.rows) : (e.rows[i].k = "Source" /\ e.rows[i].full # "")
            => e.rows[i].full = e.rows[i].pub)
DescribeVerdict(e) ==
  LET t == IF e.what = "band" THEN BandTable ELSE SourceTable
      c == Letter(e.text)
  IN IF c \in CodesIn(t)
     THEN IF e.out.k # "ok" THEN {"known code is described"} ELSE Clause("description of the code", Describes(e.out.says, t, c))
                                                          \cup Clause("information on the code", e.out.info = e.text)
     ELSE Clause("unknown code is refused", e.out.k = "refused")
Verdict(e) == CASE e.op = "tool" -> ToolVerdict(e)
                [] e.op = "describe" -> DescribeVerdict(e)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET bad == Verdict(Trace[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToString(l) \o " " \o ToString(bad))
        /\ IF l = Len(Trace) THEN PrintT("@@DONE " \o ToString(l)) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
