------------------------------ MODULE Sid_Trace ------------------------------
(* Judges recorded calls on source identifiers and band codes.               *)
EXTENDS Sid, BandCode, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, ok) == IF ok THEN {} ELSE {name}

\* a text that was parsed
ParseVerdict(e) ==
  LET p == Parse(e.text)
  IN IF ~p.ok THEN Clause("refused", e.out.k = "refused")
     ELSE IF e.out.k # "ok" THEN {"text is accepted"}
     ELSE Clause("codes of the text", e.out.codes = p.codes)
          \cup Clause("level of the text", e.out.level = Len(p.codes))
          \cup Clause("prints the text", e.out.str = e.text)
\* the SEED codes of an identifier
ToNslcVerdict(e) ==
  IF e.out.k # "ok" THEN {"identifier has SEED codes"}
  ELSE Clause("SEED codes of the identifier", e.out.back = ToNslc(e.codes) /\ e.out.short = ToNslc(e.codes)[4])
       \cup Clause("identifier keeps its codes", e.out.same = 1)
\* a record with the text as its identifier
IdentVerdict(e) ==
  LET p == Parse(e.text)
  IN IF ~p.ok THEN Clause("identifier of the record refused", e.out.k # "ok")
     ELSE IF e.out.k # "ok" THEN {"identifier of the record is accepted"}
     ELSE Clause("codes of the record's identifier", e.out.codes = p.codes /\ e.out.level = Len(p.codes))
\* an identifier made from codes
CodesVerdict(e) ==
  LET c == e.codes
      plain == \A k \in 1..Len(c) : \A i \in 1..Len(c[k]) : c[k][i] # Sep
  IN Clause("keeps its codes", e.out.codes = c /\ e.out.level = Len(c))
     \cup Clause("prints its codes", e.out.str = ToText(c))
     \cup Clause("validates exactly by the rules", e.out.valid = Valid(c))
     \cup Clause("reason for being invalid", ~e.out.valid => e.out.reason > 0)
     \cup Clause("parses back equal", plain => e.out.back.k = "ok" /\ e.out.back.codes = c /\ e.out.back.eq)
     \cup Clause("enclosing identifiers",
            \A i \in 1..Len(e.out.enc) : LET x == e.out.enc[i] IN x.codes = Enclosing(c, x.level) /\ x.eq)
     \cup Clause("every enclosing level",
            { e.out.enc[i].level : i \in 1..Len(e.out.enc) } = { k \in {1, 2, 3} : k < Len(c) })
EqVerdict(e) ==
  Clause("equal exactly if all codes are equal", e.ab = (e.a = e.b) /\ e.ba = (e.a = e.b))
  \cup Clause("different exactly if not equal", e.ne = (e.a # e.b))
\* a behaviour of Sid_Gen followed by a real identifier
WalkVerdict(e) ==
  IF Len(e.seen) # Len(e.hist) THEN {"history can be followed"}
  ELSE UNION { LET w == e.hist[i].codes s == e.seen[i] IN
         Clause("codes after a step of a history", s.codes = w /\ s.level = Len(w))
         \cup Clause("text after a step of a history", s.str = ToText(w))
         \cup Clause("valid after a step of a history", s.valid = Valid(w))
         \cup Clause("equal to its past exactly if of the same codes",
                \A j \in 1..Len(s.eqs) : s.eqs[j] = (e.hist[j].codes = w)) : i \in 1..Len(e.hist) }

\* SEED codes
Num4(s) == IF Len(s) = 4 /\ \A i \in 1..4 : Digit(s[i]) THEN (s[1] - 48) * 1000 + (s[2] - 48) * 100 + (s[3] - 48) * 10 + s[4] - 48 ELSE -1
YearOk(e) == e.year = <<>> \/ Num4(e.year) \in 1880..2100
NslcVerdict(e) ==
  LET known == IsChannel(e.n[4])
      w == FromNslc(e.n, e.year)
  IN IF ~known
     THEN Clause("channel code is kept or refused", e.out.k = "ok" => \/ e.out.back[4] = e.n[4]
                                                                        \/ (Extended(e.n[4]) /\ SubSeq(e.out.codes, 4, 6) = Split(e.n[4])))
     ELSE IF ~YearOk(e) THEN {}
     ELSE IF e.out.k # "ok" THEN {"codes are accepted"}
     ELSE Clause("codes of the identifier", e.out.codes = w)
          \cup Clause("SEED codes back", e.out.back = ToNslc(w))
          \cup Clause("SEED codes back are as given",
                 e.out.back = <<NetFor(e.n[1], e.year), e.n[2], e.n[3], e.n[4]>>
                   \/ (Len(e.n[4]) = 5 /\ Len(e.out.back[4]) = 3 /\ FromChannel(e.out.back[4]) = FromChannel(e.n[4])
                       /\ SubSeq(e.out.back, 1, 3) = <<NetFor(e.n[1], e.year), e.n[2], e.n[3]>>))
          \cup Clause("same identifier again", e.out.again)
\* a text of n codes separated by a separator
ShortVerdict(e) == Clause("fewer than four codes are refused", e.n < 4 => e.k = "refused")
                   \cup Clause("not an identifier of the same codes", e.same = 0)
NetVerdict(e) ==
  LET n == NetFor(e.net, e.year)
      bad == TempSeed(e.net) /\ e.year # <<>> /\ (Len(e.year) # 4 \/ (e.num = 1 /\ ~YearOk(e)))
  IN IF bad THEN Clause("start year is four digits", e.out.k = "refused")
     ELSE IF TempSeed(e.net) /\ ~YearOk(e) THEN {}
     ELSE IF e.out.k # "ok" THEN {"network is accepted"}
     ELSE Clause("network code with start year", e.out.code = n)
          \cup Clause("two character temporary network", e.out.seed = TempSeed(n))
          \cup Clause("historical temporary network", e.out.hist = TempHistorical(n))
          \cup Clause("temporary network convention", e.out.conv = TempConvention(n))
          \cup Clause("temporary network", e.out.temp = Temporary(n))
          \cup Clause("valid network", e.out.valid = ValidNet(n))

\* band codes
Number(b) == IF b = <<>> THEN [none |-> TRUE] ELSE [none |-> FALSE, v |-> IeeeValue(b)]
\* the published table, as read by the harness: bounds are [op, p, q], op in ge, gt, lt, no
HoldsFor(v, b) ==
  IF b.op = "no" THEN TRUE
  ELSE LET r == RatioOf(b.p, b.q)
       IN Unsure(v, r) \/ (At(v, r) /\ b.op # "lt") \/ (IF b.op = "lt" THEN Side(v, r) < 0 ELSE Side(v, r) > 0)
BandVerdict(e) ==
  LET rate == Number(e.rate)
      resp == Number(e.resp)
      want == BandCodes(rate, resp)
  IN Clause("band code of the table", e.code \in want)
     \cup Clause("same band code in an unknown source id", e.unknown = e.code)
     \cup Clause("codes of an unknown source id", Len(e.codes) = 6
            /\ e.codes[1] = (IF e.given[1] = <<>> THEN <<88, 88>> ELSE e.given[1])
            /\ e.codes[2] = (IF e.given[2] = <<>> THEN <<65, 66, 67>> ELSE e.given[2])
            /\ <<e.codes[3], e.codes[5], e.codes[6]>> = <<e.given[3], e.given[4], e.given[5]>>)
     \cup Clause("published rates of the band code", e.code = "I" \/ rate.none \/ rate.v.m = <<>> \/ e.info.kind # "range" \/ (
            HoldsFor(rate.v, e.info.lo) /\ HoldsFor(rate.v, e.info.hi)))
     \cup Clause("published response of the band code", e.info.resp = "no" \/ Broad(resp) = {TRUE, FALSE}
            \/ (e.info.resp = "ge") = (Broad(resp) = {TRUE}))
     \cup Clause("published kind of the band code", (e.code = "I") = (e.info.kind = "irregular")
                     /\ (e.code = "L") = (e.info.kind = "about"))
\* a rate and its equivalent period: the number r and -1/r as the nearest number
PairVerdict(e) == Clause("a rate and its period agree", e.same \/ \E b \in { Rows[i].at : i \in 1..(Len(Rows) - 1) } :
                           Nearly(Ratio(IeeeValue(e.rate)), b))


Verdict(e) == CASE e.op = "parse" -> ParseVerdict(e)
                [] e.op = "codes" -> CodesVerdict(e)
                [] e.op = "eq" -> EqVerdict(e)
                [] e.op = "walk" -> WalkVerdict(e)
                [] e.op = "nslc" -> NslcVerdict(e)
                [] e.op = "net" -> NetVerdict(e)
                [] e.op = "short" -> ShortVerdict(e)
                [] e.op = "toNslc" -> ToNslcVerdict(e)
                [] e.op = "ident" -> IdentVerdict(e)
                [] e.op = "band" -> BandVerdict(e)
                [] e.op = "pair" -> PairVerdict(e)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET bad == Verdict(Trace[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToString(l) \o " " \o ToString(bad))
        /\ IF l = Len(Trace) THEN PrintT("@@DONE " \o ToString(l)) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
