----------------------------- MODULE CodeTool_MC -----------------------------
(* The tool as a machine over every short list of requests: what it has      *)
(* printed is always the beginning of what was asked for, in order, and it   *)
(* ends with all of it or with a refusal at the first that cannot be told.   *)
EXTENDS CodeTool, TLC
CONSTANT Most
Texts == { Prefix \o t : t \in { <<67>>, <<67, 95, 66>>, <<67, 95, 66, 95>>, <<67, 95, 66, 95, 95, 72, 95, 72, 95, 90>>,
                                 <<67, 95, 66, 95, 95, 95, 72, 82, 95>>, <<67, 95, 66, 95, 48, 95, 72>> } } \cup { <<67>> }
Requests == { [k |-> "sid", text |-> t] : t \in Texts }
            \cup { [k |-> "band", text |-> t] : t \in { <<66>>, <<66, 72>>, <<90>>, <<66, 90>> } }
            \cup { [k |-> "source", text |-> t] : t \in { <<72>>, <<49>> } }
            \cup { [k |-> "allbands"], [k |-> "allsources"] }
VARIABLES asked, at, printed, status
vars == <<asked, at, printed, status>>
Init == /\ asked \in UNION { [1..n -> Requests] : n \in 0..Most }
        /\ at = 1 /\ printed = <<>> /\ status = "run"
Tell == /\ status = "run" /\ at <= Len(asked) /\ Tells(asked[at])
        /\ printed' = printed \o RowsFor(asked[at]) /\ at' = at + 1 /\ UNCHANGED <<asked, status>>
Refuse == /\ status = "run" /\ at <= Len(asked) /\ ~Tells(asked[at])
          /\ status' = "refused" /\ UNCHANGED <<asked, at, printed>>
Finish == /\ status = "run" /\ at > Len(asked) /\ status' = "ok" /\ UNCHANGED <<asked, at, printed>>
Next == Tell \/ Refuse \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Known == SubSeq(asked, 1, TellsUpTo(asked, 1))
Beginning == IsPrefixOf(printed, RowsOfAll(Known, 1))
Complete == status # "run" => printed = RowsOfAll(Known, 1)
RefusedOnlyThen == (status = "refused") => TellsUpTo(asked, 1) < Len(asked)
OkOnlyThen == (status = "ok") => TellsUpTo(asked, 1) = Len(asked)
EndsUp == <>(status # "run")
\* must be violated: some requests are told before a refusal
NeverRefusedLate == ~(status = "refused" /\ Len(printed) > 2)
\* each code of a table once, and every text of an identifier can be put together from its rows
Tables == /\ Len(BandTable) = 21 /\ Len(SourceTable) = 26
          /\ \A i, j \in 1..Len(BandTable) : BandTable[i].code = BandTable[j].code => i = j
          /\ \A i, j \in 1..Len(SourceTable) : SourceTable[i].code = SourceTable[j].code => i = j
          /\ { Rows[i].lo : i \in 1..Len(Rows) } \cup { Rows[i].bb : i \in 1..Len(Rows) } \cup {"I"} \subseteq CodesIn(BandTable)
          /\ \A i, j \in 1..Len(BandTable) : i # j => BandTable[i].says # BandTable[j].says
FromRows == \A t \in Texts : Parse(t).ok =>
              LET r == RowsFor([k |-> "sid", text |-> t])
              IN ToText([i \in 1..(Len(r) - 1) |-> r[i + 1].code]) = t /\ r[1].code = t
=============================================================================
