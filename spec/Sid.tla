--------------------------------- MODULE Sid ---------------------------------
(* FDSN source identifiers and SEED channel codes.  Text is a sequence of    *)
(* character codes.  An identifier is the sequence of its codes: of length   *)
(* 1 for a network, 2 for a station, 3 for a location and 6 for a channel.   *)
EXTENDS Integers, Sequences

Sep == 95                          \* _
Prefix == <<70, 68, 83, 78, 58>>   \* FDSN:
Levels == {1, 2, 3, 6}

-----------------------------------------------------------------------------
(* Printing and parsing *)
RECURSIVE Join(_, _)
Join(codes, sep) == IF Len(codes) = 1 THEN codes[1] ELSE codes[1] \o sep \o Join(Tail(codes), sep)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, j) == \* item starts at i, look at j
  IF j > Len(s) THEN <<SubSeq(s, i, j - 1)>>
  ELSE IF s[j] = Sep THEN <<SubSeq(s, i, j - 1)>> \o SplitFrom(s, j + 1, j + 1)
  ELSE SplitFrom(s, i, j + 1)
Split(s) == SplitFrom(s, 1, 1)

ToText(codes) == Prefix \o Join(codes, <<Sep>>)
NoId == [ok |-> FALSE]
HasPrefix(s) == Len(s) >= 5 /\ SubSeq(s, 1, 5) = Prefix
Parse(s) ==
  IF ~HasPrefix(s) THEN NoId
  ELSE LET items == Split(SubSeq(s, 6, Len(s)))
       IN IF Len(items) \in Levels THEN [ok |-> TRUE, codes |-> items] ELSE NoId

-----------------------------------------------------------------------------
(* Validation *)
Upper(c) == c \in 65..90
Digit(c) == c \in 48..57
AlNum(c) == Upper(c) \/ Digit(c)
AlNumDash(c) == AlNum(c) \/ c = 45
ValidNet(s) == Len(s) \in 1..8 /\ \A i \in 1..Len(s) : AlNum(s[i])
ValidSta(s) == Len(s) \in 1..8 /\ \A i \in 1..Len(s) : AlNumDash(s[i])
ValidLoc(s) == Len(s) \in 0..8 /\ (\A i \in 1..Len(s) : AlNumDash(s[i])) /\ s # <<45, 45>>
ValidChanCode(s) == \A i \in 1..Len(s) : AlNum(s[i])
Valid(c) == /\ Len(c) \in Levels
            /\ ValidNet(c[1])
            /\ (Len(c) >= 2 => ValidSta(c[2]))
            /\ (Len(c) >= 3 => ValidLoc(c[3]))
            /\ (Len(c) = 6 => /\ \A k \in 4..6 : ValidChanCode(c[k])
                              /\ c[5] # <<>>)

-----------------------------------------------------------------------------
(* Levels: the enclosing identifiers, and identifiers within one.            *)
Enclosing(c, level) == SubSeq(c, 1, level)
Within(c, more) == c \o more

-----------------------------------------------------------------------------
(* SEED codes: network, station, location, channel *)
\* is a two character temporary network code
TempSeed(s) == /\ Len(s) = 2 /\ (Digit(s[1]) \/ s[1] \in 88..90) /\ AlNum(s[2])
               /\ s # <<88, 88>>
Year4(s) == Len(s) >= 4 /\ \A i \in (Len(s) - 3)..Len(s) : Digit(s[i])
\* two character code followed by its start year
TempHistorical(s) == Len(s) = 6 /\ TempSeed(SubSeq(s, 1, 2)) /\ Year4(s)
\* code of one to four characters followed by a year
TempConvention(s) == Len(s) \in 5..8 /\ Year4(s) /\ \A i \in 1..Len(s) : AlNum(s[i])
Temporary(s) == TempSeed(s) \/ TempHistorical(s) \/ TempConvention(s)
\* year is text, empty for none
NetFor(net, year) == IF TempSeed(net) THEN net \o year ELSE net

\* three characters, or band (one character) _ source _ subsource
Extended(ch) == LET it == Split(ch) IN Len(it) = 3 /\ Len(it[1]) = 1 /\ it[2] # <<>>
FromChannel(ch) == IF Len(ch) = 3 THEN <<<<ch[1]>>, <<ch[2]>>, <<ch[3]>>>> ELSE Split(ch)
IsChannel(ch) == (IF Len(ch) = 3 THEN TRUE ELSE Extended(ch)) /\ \A k \in 1..3 : ValidChanCode(FromChannel(ch)[k])
ToChannel(b, s, ss) == IF Len(b) = 1 /\ Len(s) = 1 /\ Len(ss) = 1 THEN b \o s \o ss
                       ELSE b \o <<Sep>> \o s \o <<Sep>> \o ss
FromNslc(n, year) == <<NetFor(n[1], year), n[2], n[3]>> \o FromChannel(n[4])
ToNslc(c) == <<c[1], c[2], c[3], ToChannel(c[4], c[5], c[6])>>
=============================================================================
