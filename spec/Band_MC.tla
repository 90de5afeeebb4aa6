-------------------------------- MODULE Band_MC --------------------------------
(* The rows are disjoint, cover every rate, and get slower.  Numbers are the *)
(* floating point numbers next to every bound and to its reciprocal and      *)
(* numbers of every binary order of magnitude.                               *)
EXTENDS BandCode, TLC
CONSTANT Around
\* nearest double to p/q: m in 2^52..2^53-1 (as limbs), by long division bit by bit
RECURSIVE ScaleUp(_, _, _), ScaleDown(_, _, _)
ScaleUp(p, q, k) == IF Le(Mul(q, Shl(<<1>>, 52)), Shl(p, k)) THEN k ELSE ScaleUp(p, q, k + 1)
ScaleDown(p, q, k) == IF Lt(p, Mul(q, Shl(<<1>>, 53 + k))) THEN k ELSE ScaleDown(p, q, k + 1)
\* greatest m with m * q <= n, m < 2^54
RECURSIVE Quot(_, _, _, _)
Quot(n, q, bit, acc) == IF bit < 0 THEN acc
  ELSE LET t == Add(acc, Shl(<<1>>, bit)) IN Quot(n, q, bit - 1, IF Le(Mul(t, q), n) THEN t ELSE acc)
Double(r) == LET k == ScaleUp(r.p, r.q, 0)
                 m == Quot(Shl(r.p, k), r.q, 53, <<>>)
                 rem == Sub(Shl(r.p, k), Mul(m, r.q))
                 up == Lt(r.q, Mul(rem, <<2>>))
             IN [neg |-> FALSE, m |-> IF up THEN Add(m, <<1>>) ELSE m, x |-> -k]
Step(v, d) == [v EXCEPT !.m = IF d >= 0 THEN Add(@, OfInt(d)) ELSE Sub(@, OfInt(-d))]
Bounds == { Rows[i].at : i \in 1..(Len(Rows) - 1) }
Near == { Step(Double(b), d) : b \in Bounds \cup { Inv(c) : c \in Bounds }, d \in (-Around)..Around }
Orders == { [neg |-> FALSE, m |-> Shl(<<1>>, 52), x |-> x - 52] : x \in (-40)..20 }
          \cup { [neg |-> FALSE, m |-> Shl(<<3>>, 51), x |-> x - 51] : x \in (-40)..20 }
VARIABLES v, looked
Init == v \in { [w EXCEPT !.neg = n] : w \in Near \cup Orders, n \in BOOLEAN } /\ looked = FALSE
Next == ~looked /\ looked' = TRUE /\ UNCHANGED v
Spec == Init /\ [][Next]_<<v, looked>>
NoResp == [none |-> TRUE]
\* exactly one row contains a number, and only next to a bound is there doubt
OneRow == looked => Cardinality({ i \in 1..Len(Rows) : InRow(v, i) /\ (i = 1 \/ ~InRow(v, i - 1)) }) = 1
Nested == looked => \A i \in 1..(Len(Rows) - 1) : InRow(v, i) => InRow(v, i + 1)
Few == looked => Cardinality(RowsOf(v)) <= 2 /\ (~v.neg => Cardinality(RowsOf(v)) = 1)
\* a rate and its reciprocal as a period agree
Agree == looked => LET d == Double(Inv(Ratio(v)))
             w == [d EXCEPT !.neg = ~v.neg]
         IN (\A b \in Bounds : At(v, b) \/ ~Nearly(Hertz(v), b)) => RowsOf(v) \cap RowsOf(w) # {}
Faster == looked => \A w \in {[neg |-> FALSE, m |-> Shl(<<1>>, 52), x |-> 6 * i - 52] : i \in (-6)..3} : (RCmp(Hertz(v), Hertz(w)) > 0) => RowFrom(v, 1) <= RowFrom(w, 1)
Broadband == looked => LET c == CodesOf(v, [none |-> FALSE, v |-> [neg |-> TRUE, m |-> OfInt(10), x |-> 0]])
                 n == CodesOf(v, NoResp)
             IN (c # n) <=> (RowsOf(v) \cap {2, 3, 4, 5} # {})
=============================================================================
