------------------------------- MODULE ReportRun -------------------------------
(* The reporting tool as a machine: it reads the files one record at a time,  *)
(* prints rows, and never writes to its inputs.  Records are abstract:        *)
(* whether the filter selects it, whether the pointer finds a value, samples. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxFiles, MaxRecs, Sizes
VARIABLES files, mode, verbose, pc, i, j, rows, looking, samples, records, disk
vars == <<files, mode, verbose, pc, i, j, rows, looking, samples, records, disk>>
Recs == [sel : BOOLEAN, has : BOOLEAN, n : Sizes]
SeqsUpTo(S, k) == UNION { [1..m -> S] : m \in 0..k }
Init == /\ files \in (SeqsUpTo(SeqsUpTo(Recs, MaxRecs), MaxFiles) \ {<<>>})
        /\ mode \in {"list", "get", "getall"}
        /\ verbose \in BOOLEAN
        /\ pc = "file" /\ i = 1 /\ j = 1 /\ rows = <<>> /\ looking = TRUE /\ samples = 0 /\ records = 0
        /\ disk = files
Keep == UNCHANGED <<files, mode, verbose, disk>>
Open == /\ pc = "file" /\ i <= Len(files)
        /\ rows' = IF mode # "list" /\ verbose THEN Append(rows, <<"file", i, 0>>) ELSE rows
        /\ pc' = "record" /\ j' = 1
        /\ UNCHANGED <<i, looking, samples, records>> /\ Keep
Read == /\ pc = "record" /\ j <= Len(files[i])
        /\ j' = j + 1
        /\ LET r == files[i][j]
               wanted == r.sel /\ (mode # "get" \/ looking)
           IN IF ~wanted THEN UNCHANGED <<rows, looking, samples, records>>
              ELSE IF mode = "list"
                   THEN /\ rows' = Append(rows, <<"sum", i, j>>)
                        /\ samples' = samples + r.n /\ records' = records + 1 /\ UNCHANGED looking
                   ELSE /\ rows' = (IF verbose THEN Append(rows, <<"sum", i, j>>) ELSE rows)
                                   \o << <<IF r.has THEN "value" ELSE "none", i, j>> >>
                        /\ looking' = FALSE /\ UNCHANGED <<samples, records>>
        /\ UNCHANGED <<pc, i>> /\ Keep
Close == /\ pc = "record" /\ j > Len(files[i])
         /\ i' = i + 1
         /\ pc' = IF mode = "get" /\ ~looking THEN "done" ELSE "file"
         /\ UNCHANGED <<j, rows, looking, samples, records>> /\ Keep
Finish == /\ pc = "file" /\ i > Len(files)
          /\ rows' = IF mode = "list" THEN Append(rows, <<"total", samples, records>>) ELSE rows
          /\ pc' = "done" /\ UNCHANGED <<i, j, looking, samples, records>> /\ Keep
Next == Open \/ Read \/ Close \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* what is to be printed, said without the machine
RECURSIVE All(_)
All(k) == IF k > Len(files) THEN <<>>
          ELSE LET at == [m \in 1..Len(files[k]) |-> <<k, m>>]
               IN SelectSeq(at, LAMBDA p : files[p[1]][p[2]].sel) \o All(k + 1)
Values == SelectSeq(rows, LAMBDA r : r[1] \in {"value", "none"})
Lines == SelectSeq(rows, LAMBDA r : r[1] = "sum")
RECURSIVE SumOf(_)
SumOf(ps) == IF ps = <<>> THEN 0 ELSE files[ps[1][1]][ps[1][2]].n + SumOf(Tail(ps))
Min2(a, b) == IF a < b THEN a ELSE b
Right ==
  pc = "done" =>
    LET want == All(1)
        some == IF mode = "get" THEN SubSeq(want, 1, Min2(1, Len(want))) ELSE want
    IN /\ mode = "list" => /\ [k \in 1..Len(Lines) |-> <<Lines[k][2], Lines[k][3]>>] = want
                           /\ rows[Len(rows)] = <<"total", SumOf(want), Len(want)>>
       /\ mode # "list" => /\ [k \in 1..Len(Values) |-> <<Values[k][2], Values[k][3]>>] = some
                           /\ \A k \in 1..Len(Values) : (Values[k][1] = "value") = files[Values[k][2]][Values[k][3]].has
                           /\ verbose => Len(Lines) = Len(Values)
InOrder == \A a, b \in 1..Len(rows) : a < b /\ rows[a][1] # "total" /\ rows[b][1] # "total" =>
             rows[a][2] < rows[b][2] \/ (rows[a][2] = rows[b][2] /\ rows[a][3] <= rows[b][3])
ReadOnly == disk = files
Ends == <>(pc = "done")
\* reachable: a get that finds nothing, and one answered by a later file
NoLateGet == ~(pc = "done" /\ mode = "get" /\ Values # <<>> /\ Values[1][2] > 1)
=============================================================================
