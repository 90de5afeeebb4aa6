------------------------------- MODULE JsonDoc -------------------------------
(* JSON values and JSON pointers (RFC 6901).  A value is                     *)
(*   [t |-> "obj", m |-> << <<key, value>>, ... >>]  (keys distinct)         *)
(*   [t |-> "arr", m |-> <<value, ...>>]                                     *)
(*   [t |-> "str", v |-> codes] or [t |-> "lit", v |-> text] (numbers, true, *)
(*   false, null).  Keys and texts are sequences of character codes.         *)
EXTENDS Integers, Sequences, FiniteSets

EmptyObj == [t |-> "obj", m |-> <<>>]
RECURSIVE JEq(_, _)
JEq(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "obj" -> /\ Len(a.m) = Len(b.m)
                         /\ \A i \in 1..Len(a.m) : \E j \in 1..Len(b.m) :
                              a.m[i][1] = b.m[j][1] /\ JEq(a.m[i][2], b.m[j][2])
       [] a.t = "arr" -> Len(a.m) = Len(b.m) /\ \A i \in 1..Len(a.m) : JEq(a.m[i], b.m[i])
       [] OTHER -> a.v = b.v
IndexOf(o, k) == IF \E i \in 1..Len(o.m) : o.m[i][1] = k
                 THEN CHOOSE i \in 1..Len(o.m) : o.m[i][1] = k ELSE 0

\* pointers: "" or /token/token, with ~1 for / and ~0 for ~
SLASH == 47   TILDE == 126   HYPHEN == 45
RECURSIVE Unescape(_)
Unescape(s) == IF s = <<>> THEN [ok |-> TRUE, s |-> <<>>]
               ELSE IF s[1] # TILDE
                    THEN LET r == Unescape(Tail(s)) IN [r EXCEPT !.s = <<s[1]>> \o @]
               ELSE IF Len(s) = 1 THEN [ok |-> FALSE, s |-> <<>>]
               ELSE IF s[2] \notin {48, 49} THEN [ok |-> FALSE, s |-> <<>>]
               ELSE LET r == Unescape(SubSeq(s, 3, Len(s)))
                    IN [r EXCEPT !.s = <<(IF s[2] = 48 THEN TILDE ELSE SLASH)>> \o @]
RECURSIVE SplitTokens(_, _)
SplitTokens(s, cur) == IF s = <<>> THEN <<cur>>
                       ELSE IF s[1] = SLASH THEN <<cur>> \o SplitTokens(Tail(s), <<>>)
                       ELSE SplitTokens(Tail(s), Append(cur, s[1]))
Tokens(p) ==
  IF p = <<>> THEN [ok |-> TRUE, toks |-> <<>>]
  ELSE IF p[1] # SLASH THEN [ok |-> FALSE, toks |-> <<>>]
  ELSE LET raw == SplitTokens(Tail(p), <<>>)
           un == [i \in 1..Len(raw) |-> Unescape(raw[i])]
       IN IF \A i \in 1..Len(un) : un[i].ok THEN [ok |-> TRUE, toks |-> [i \in 1..Len(un) |-> un[i].s]]
          ELSE [ok |-> FALSE, toks |-> <<>>]

IsIndex(k) == /\ Len(k) >= 1 /\ Len(k) <= 6 /\ \A i \in 1..Len(k) : k[i] >= 48 /\ k[i] <= 57
              /\ (k[1] # 48 \/ Len(k) = 1)
RECURSIVE Num(_)
Num(k) == IF k = <<>> THEN 0 ELSE Num(SubSeq(k, 1, Len(k) - 1)) * 10 + k[Len(k)] - 48

NoValue == [ok |-> FALSE]
RECURSIVE GetAt(_, _)
GetAt(d, toks) ==
  IF toks = <<>> THEN [ok |-> TRUE, v |-> d]
  ELSE LET k == Head(toks) IN
       CASE d.t = "obj" -> LET i == IndexOf(d, k) IN IF i = 0 THEN NoValue ELSE GetAt(d.m[i][2], Tail(toks))
         [] d.t = "arr" -> IF ~IsIndex(k) THEN NoValue
                           ELSE IF Num(k) >= Len(d.m) THEN NoValue ELSE GetAt(d.m[Num(k) + 1], Tail(toks))
         [] OTHER -> NoValue

\* Put a value at a place.  may: it is the end of an array, which may be refused or appended to
Failed == [ok |-> FALSE, may |-> FALSE, v |-> EmptyObj]
Done(x) == [ok |-> TRUE, may |-> FALSE, v |-> x]
RECURSIVE PutAt(_, _, _)
PutAt(d, toks, x) ==
  IF toks = <<>> THEN Done(x)
  ELSE LET k == Head(toks)  last == Len(toks) = 1 IN
       CASE d.t = "obj" ->
              LET i == IndexOf(d, k)
              IN IF i = 0 THEN IF last THEN Done([d EXCEPT !.m = Append(@, <<k, x>>)]) ELSE Failed
                 ELSE LET r == PutAt(d.m[i][2], Tail(toks), x)
                      IN [r EXCEPT !.v = [d EXCEPT !.m[i] = <<k, r.v>>]]
         [] d.t = "arr" ->
              IF k = <<HYPHEN>> THEN IF last THEN [ok |-> TRUE, may |-> TRUE, v |-> [d EXCEPT !.m = Append(@, x)]] ELSE Failed
              ELSE IF ~IsIndex(k) THEN Failed
              ELSE IF Num(k) < Len(d.m)
                   THEN LET r == PutAt(d.m[Num(k) + 1], Tail(toks), x)
                        IN [r EXCEPT !.v = [d EXCEPT !.m[Num(k) + 1] = r.v]]
              ELSE IF Num(k) = Len(d.m) /\ last THEN [ok |-> TRUE, may |-> TRUE, v |-> [d EXCEPT !.m = Append(@, x)]]
              ELSE Failed
         [] OTHER -> Failed
=============================================================================
