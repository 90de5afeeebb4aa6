-------------------------------- MODULE Regex --------------------------------
(* Meaning of the regular expressions used as source id filters, as search   *)
(* anywhere in the text.  A node is a record with field t:                   *)
(*  lit c | any | set (neg, ranges: seq of <<lo, hi>>) | cat (seq) | alt(seq)*)
(*  star | plus | opt (a) | bos | eos                                        *)
EXTENDS Integers, Sequences, FiniteSets

InSet(n, c) == LET in == \E i \in 1..Len(n.ranges) : n.ranges[i][1] <= c /\ c <= n.ranges[i][2]
               IN IF n.neg = 1 THEN ~in ELSE in

RECURSIVE Ends(_, _, _), EndsCat(_, _, _, _), EndsStar(_, _, _, _)
\* set of positions (0..Len(s)) where a match of node n starting at position i can end
Ends(n, s, i) ==
  CASE n.t = "lit" -> IF i < Len(s) /\ s[i + 1] = n.c THEN {i + 1} ELSE {}
    [] n.t = "any" -> IF i < Len(s) /\ s[i + 1] # 10 THEN {i + 1} ELSE {}
    [] n.t = "set" -> IF i < Len(s) /\ InSet(n, s[i + 1]) THEN {i + 1} ELSE {}
    [] n.t = "bos" -> IF i = 0 THEN {i} ELSE {}
    [] n.t = "eos" -> IF i = Len(s) THEN {i} ELSE {}
    [] n.t = "opt" -> {i} \cup Ends(n.a, s, i)
    [] n.t = "star" -> EndsStar(n.a, s, {i}, {i})
    [] n.t = "plus" -> LET first == Ends(n.a, s, i) IN EndsStar(n.a, s, first, first)
    [] n.t = "alt" -> UNION { Ends(n.k[j], s, i) : j \in 1..Len(n.k) }
    [] n.t = "cat" -> EndsCat(n.k, 1, s, {i})
EndsCat(k, j, s, from) ==
  IF j > Len(k) \/ from = {} THEN from
  ELSE EndsCat(k, j + 1, s, UNION { Ends(k[j], s, i) : i \in from })
EndsStar(a, s, new, all) ==
  IF new = {} THEN all
  ELSE LET more == UNION { Ends(a, s, i) : i \in new } \ all
       IN EndsStar(a, s, more, all \cup more)

Found(n, s) == \E i \in 0..Len(s) : Ends(n, s, i) # {}
\* a filter is [t |-> "none"] or a node
Selects(n, s) == n.t = "none" \/ Found(n, s)
=============================================================================
