------------------------------- MODULE Sid_Gen -------------------------------
(* Histories of identifiers: parsed, extended to a lower level, reduced to   *)
(* an enclosing one, converted to SEED codes and back.                       *)
EXTENDS Sid, TLC, Json
CONSTANT Depth
VARIABLES codes, hist
A(n) == [i \in 1..n |-> RandomElement((65..90) \cup (48..57))]
Net(h) == RandomElement({A(2), A(2), A(1), A(3), A(8), <<88, 68>>, <<55, 65>>, <<88, 68, 49, 57, 57, 52>>, <<88, 88>>})
Sta(h) == RandomElement({A(4), A(5), A(8), A(1), A(3) \o <<45>> \o A(1)})
Loc(h) == RandomElement({A(2), <<>>, A(8), <<45>>, <<48, 48>>})
Chan(h) == RandomElement({<<A(1), A(1), A(1)>>, <<A(1), A(2), A(1)>>, <<A(1), A(1), <<>>>>, <<<<>>, A(1), A(1)>>, <<A(2), A(3), A(2)>>})
Init == codes = <<>> /\ hist = <<>>
Go(o, c) == codes' = c /\ hist' = Append(hist, [op |-> o, codes |-> c])
Next == /\ Len(hist) < Depth
        /\ IF codes = <<>> THEN Go("new", <<Net(hist)>>) ELSE
           \E k \in {RandomElement(1..6)} :
           \/ k \in {1, 2} /\ Len(codes) = 1 /\ Go("down", Within(codes, <<Sta(hist)>>))
           \/ k \in {1, 2} /\ Len(codes) = 2 /\ Go("down", Within(codes, <<Loc(hist)>>))
           \/ k \in {1, 2} /\ Len(codes) = 3 /\ Go("down", Within(codes, Chan(hist)))
           \/ k = 3 /\ Go("text", codes)
           \/ ( \/ k = 4 /\ Len(codes) = 1
                \/ k = 5 /\ (IF Len(codes) < 6 THEN TRUE ELSE Len(codes[4]) # 1)
                \/ k \in {1, 2} /\ Len(codes) = 6 )
              /\ Go("text", codes)
           \/ k = 4 /\ Len(codes) > 1 /\ \E j \in {RandomElement(1..(IF Len(codes) = 6 THEN 3 ELSE Len(codes) - 1))} : Go("up", Enclosing(codes, j))
           \/ k = 5 /\ Len(codes) = 6 /\ Len(codes[4]) = 1 /\ Go("nslc", FromNslc(ToNslc(codes), <<>>))
           \/ k = 6 /\ Go("renew", codes)
        /\ IF Len(hist') = Depth THEN PrintT("@@GEN " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_<<codes, hist>>
=============================================================================
