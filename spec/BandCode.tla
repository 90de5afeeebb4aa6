------------------------------- MODULE BandCode -------------------------------
(* The table of band codes of FDSN source identifiers, rates in hertz, over  *)
(* exact values of floating point numbers.                                   *)
EXTENDS BigNat, FiniteSets

\* lower bounds of the rows, fastest first; L is the row about 1 Hz, which
\* covers rates above 0.5 up to 1, what is above 1 is in the row of M
Rows == << [at |-> RatioOf(5000, 1),    lo |-> "J", bb |-> "J"],
           [at |-> RatioOf(1000, 1),    lo |-> "G", bb |-> "F"],
           [at |-> RatioOf(250, 1),     lo |-> "D", bb |-> "C"],
           [at |-> RatioOf(80, 1),      lo |-> "E", bb |-> "H"],
           [at |-> RatioOf(10, 1),      lo |-> "S", bb |-> "B"],
           [at |-> RatioOf(1, 1),       lo |-> "M", bb |-> "M"],     \* above
           [at |-> RatioOf(1, 2),       lo |-> "L", bb |-> "L"],     \* above
           [at |-> RatioOf(1, 10),      lo |-> "V", bb |-> "V"],
           [at |-> RatioOf(1, 100),     lo |-> "U", bb |-> "U"],
           [at |-> RatioOf(1, 1000),    lo |-> "W", bb |-> "W"],
           [at |-> RatioOf(1, 10000),   lo |-> "R", bb |-> "R"],
           [at |-> RatioOf(1, 100000),  lo |-> "P", bb |-> "P"],
           [at |-> RatioOf(1, 1000000), lo |-> "T", bb |-> "T"],
           [at |-> RatioOf(0, 1),       lo |-> "Q", bb |-> "Q"] >>
Strict == {6, 7}
TenSec == RatioOf(1, 10)

(* A number given is [neg, m, x], a rate, or a period if negative.  It is at *)
(* a bound if it is the floating point number nearest to the bound or to its *)
(* reciprocal.                                                               *)
Nearest(v, r) == LET a == Ratio(v) IN
  \* | a - r | <= half of the last place of v
  Le(Mul(Mul(Dist(Mul(a.p, r.q), Mul(r.p, a.q)), <<2>>), IF v.x >= 0 THEN <<1>> ELSE Shl(<<1>>, -v.x)),
     Mul(Mul(a.q, r.q), IF v.x >= 0 THEN Shl(<<1>>, v.x) ELSE <<1>>))
Hertz(v) == IF v.neg THEN Inv(Ratio(v)) ELSE Ratio(v)
At(v, r) == r.p # <<>> /\ Nearest(v, IF v.neg THEN Inv(r) ELSE r)
\* the reciprocal of a period is rounded to a floating point number: next to a bound it may round to it
Unsure(v, r) == v.neg /\ r.p # <<>> /\ ~At(v, r) /\ Nearly(Hertz(v), r)
Side(v, r) == IF At(v, r) THEN 0 ELSE RCmp(Hertz(v), r)      \* below, at, above
InRow(v, i) == \/ Side(v, Rows[i].at) > 0
               \/ i \notin Strict /\ Side(v, Rows[i].at) = 0
RECURSIVE RowFrom(_, _)
RowFrom(v, i) == IF i = Len(Rows) \/ InRow(v, i) THEN i ELSE RowFrom(v, i + 1)
RowsOf(v) == LET i == RowFrom(v, 1) IN
  {i} \cup (IF i > 1 /\ Unsure(v, Rows[i - 1].at) THEN {i - 1} ELSE {})
      \cup (IF i < Len(Rows) /\ Unsure(v, Rows[i].at) THEN {i + 1} ELSE {})
\* lower bound of the response: broadband if at most 0.1 Hz; [none] or a number
Broad(r) == IF r.none THEN {FALSE}
            ELSE IF r.v.m = <<>> THEN {TRUE}
            ELSE IF Unsure(r.v, TenSec) THEN {TRUE, FALSE}
            ELSE {Side(r.v, TenSec) <= 0}
CodesOf(v, r) == { IF b THEN Rows[i].bb ELSE Rows[i].lo : i \in RowsOf(v), b \in Broad(r) }
\* rate is [none] or a number
BandCodes(rate, r) == IF rate.none THEN {"I"} ELSE IF rate.v.m = <<>> THEN {"I"} ELSE CodesOf(rate.v, r)
=============================================================================
