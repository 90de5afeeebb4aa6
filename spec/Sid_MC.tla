-------------------------------- MODULE Sid_MC --------------------------------
(* All texts over a small alphabet, and walks between identifier levels.     *)
EXTENDS Sid, TLC
CONSTANTS MaxText, MaxCode
Chars == {65, 57, 88, 45, Sep}       \* A 9 X - _
Upto(S, n) == UNION { [1..k -> S] : k \in 0..n }
Codes == Upto({65, 88, 57}, MaxCode)
VARIABLES text, codes, up
vars == <<text, codes, up>>
\* a text is grown character by character; identifiers are walked up and down
Init == \/ text = <<>> /\ codes = <<>> /\ up = <<>>
        \/ text = <<0>> /\ codes \in { <<c>> : c \in Codes } /\ up = <<>>
Grow == text # <<0>> /\ Len(text) < MaxText /\ \E c \in Chars : text' = Append(text, c) /\ UNCHANGED <<codes, up>>
Down == /\ codes # <<>> /\ Len(codes) \in 1..3
        /\ IF Len(codes) < 3 THEN \E c \in Codes : codes' = Within(codes, <<c>>)
           ELSE \E b \in {<<>>, <<65>>}, s \in Codes, t \in {<<>>, <<57>>} : codes' = Within(codes, <<b, s, t>>)
        /\ up' = codes /\ UNCHANGED text
Up == /\ Len(codes) > 1 /\ \E k \in {1, 2, 3} : k < Len(codes) /\ codes' = Enclosing(codes, k) /\ up' = <<>>
      /\ UNCHANGED text
Next == Grow \/ Down \/ Up
Spec == Init /\ [][Next]_vars

\* every accepted text is the print of what it means, and only such
ParsePrint == text # <<0>> =>
  LET p == Parse(Prefix \o text)
      n == Len(SelectSeq(text, LAMBDA c : c = Sep))
  IN p.ok = (n \in {0, 1, 2, 5}) /\ (p.ok => ToText(p.codes) = Prefix \o text)
\* printing codes without separator and parsing gives them back
PrintParse == codes # <<>> => Parse(ToText(codes)) = [ok |-> TRUE, codes |-> codes]
Enclosed == up # <<>> => Enclosing(codes, Len(up)) = up
ValidUp == (Len(codes) > 1 /\ Valid(codes)) => \A k \in {1, 2, 3} : k < Len(codes) => Valid(Enclosing(codes, k))
\* channel codes
ThreeOrMore == Len(codes) = 6 => LET ch == ToChannel(codes[4], codes[5], codes[6])
                                 IN (Len(codes[4]) = 1 /\ codes[5] # <<>> => IsChannel(ch) /\ FromChannel(ch) = SubSeq(codes, 4, 6))
NslcBack == (Len(codes) = 6 /\ Len(codes[4]) = 1 /\ codes[5] # <<>>) => FromNslc(ToNslc(codes), <<>>) = codes
Networks == Len(codes) = 1 =>
  LET n == codes[1] IN
  /\ TempSeed(n) => ValidNet(n) /\ TempHistorical(NetFor(n, <<49, 57, 57, 52>>))
  /\ ~TempSeed(n) => NetFor(n, <<49, 57, 57, 52>>) = n
  /\ ~(TempSeed(n) /\ TempConvention(n))
\* a text that means a channel has one meaning
OneMeaning == text # <<0>> /\ IsChannel(text) => LET c == FromChannel(text) IN
  /\ FromChannel(ToChannel(c[1], c[2], c[3])) = c
  /\ (ToChannel(c[1], c[2], c[3]) = text \/ (Len(text) = 5 /\ Len(ToChannel(c[1], c[2], c[3])) = 3))
ASSUME /\ Parse(ToText(<<<<>>>>)).codes = <<<<>>>>
       /\ ~Parse(<<70, 68, 83, 78, 59, 65>>).ok
       /\ TempHistorical(<<88, 68, 49, 57, 57, 52>>) /\ ~TempHistorical(<<88, 88, 49, 57, 57, 52>>)
=============================================================================
