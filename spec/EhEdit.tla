-------------------------------- MODULE EhEdit --------------------------------
(* Editing the extra headers of records in files, as a machine that can be   *)
(* killed, or fail, at every step.  The file is written anew beside the old  *)
(* one, through a buffer, and takes its name when it is complete.            *)
EXTENDS Integers, Sequences
CONSTANTS MaxRecs,   \* records per file
          Way        \* "replace" is the design; the others are mistakes
VARIABLES old, disk, tmp, buf, all, f, k, looking, phase
vars == <<old, disk, tmp, buf, all, f, k, looking, phase>>

\* a record: selected by the filter, its extra headers, damaged, edit not possible
Recs == [sel : BOOLEAN, eh : {0}, bad : BOOLEAN, stuck : BOOLEAN]
Contents == UNION { [1..n -> Recs] : n \in 0..MaxRecs }
Files == {1, 2}
Edit(r) == [r EXCEPT !.eh = 1]

Init == /\ old \in [Files -> Contents] /\ disk = old /\ tmp = <<>> /\ buf = <<>> /\ all \in BOOLEAN
        /\ f = 1 /\ k = 1 /\ looking = TRUE /\ phase = "open"
Open == /\ phase = "open" /\ phase' = "copy" /\ k' = 1 /\ tmp' = <<>> /\ buf' = <<>>
        /\ disk' = IF Way = "in place" THEN [disk EXCEPT ![f] = <<>>] ELSE disk
        /\ UNCHANGED <<old, all, f, looking>>
Wanted(r) == r.sel /\ (looking \/ all)
Copy == /\ phase = "copy" /\ k <= Len(old[f])
        /\ LET r == old[f][k]
           IN IF r.bad \/ (Wanted(r) /\ r.stuck)
              THEN phase' = "failed" /\ UNCHANGED <<buf, k, looking>>
              ELSE /\ k' = k + 1
                   /\ buf' = IF Way = "filtered" /\ ~r.sel THEN buf ELSE Append(buf, IF Wanted(r) THEN Edit(r) ELSE r)
                   /\ looking' = IF Wanted(r) THEN FALSE ELSE looking
                   /\ UNCHANGED phase
        /\ UNCHANGED <<old, disk, tmp, all, f>>
Flush == /\ phase \in {"copy", "close", "late"} /\ buf # <<>>
         /\ IF Way = "in place" \/ phase = "late" THEN disk' = [disk EXCEPT ![f] = Append(@, Head(buf))] /\ UNCHANGED tmp
            ELSE tmp' = Append(tmp, Head(buf)) /\ UNCHANGED disk
         /\ buf' = Tail(buf) /\ UNCHANGED <<old, all, f, k, looking, phase>>
Close == /\ phase = "copy" /\ k > Len(old[f]) /\ phase' = "close"
         /\ UNCHANGED <<old, disk, tmp, buf, all, f, k, looking>>
After == IF f = 2 \/ (~looking /\ ~all) THEN "done" ELSE "open"
Rename == /\ phase = "close" /\ (buf = <<>> \/ Way = "early")
          /\ disk' = IF Way = "in place" THEN disk ELSE [disk EXCEPT ![f] = tmp]
          /\ tmp' = <<>>
          /\ IF buf = <<>> THEN phase' = After /\ f' = IF After = "open" THEN f + 1 ELSE f
             ELSE phase' = "late" /\ f' = f
          /\ UNCHANGED <<old, buf, all, k, looking>>
Late == /\ phase = "late" /\ buf = <<>> /\ phase' = After /\ f' = (IF After = "open" THEN f + 1 ELSE f)
        /\ UNCHANGED <<old, disk, tmp, buf, all, k, looking>>
\* killed, interrupted, out of space: nothing more is written
Die == phase \notin {"done", "dead"} /\ phase' = "dead" /\ UNCHANGED <<old, disk, tmp, buf, all, f, k, looking>>
Next == Open \/ Copy \/ Flush \/ Close \/ Rename \/ Late \/ Die
Spec == Init /\ [][Next]_vars /\ WF_vars(Open \/ Copy \/ Flush \/ Close \/ Rename \/ Late)

\* what is asked for
Before(g) == \E h \in 1..g - 1 : \E i \in 1..Len(old[h]) : old[h][i].sel
FirstOf(g) == CHOOSE i \in 1..Len(old[g]) : old[g][i].sel /\ \A j \in 1..i - 1 : ~old[g][j].sel
Chosen(g, i) == old[g][i].sel /\ (all \/ (~Before(g) /\ i = FirstOf(g)))
Asked(g) == [i \in 1..Len(old[g]) |-> IF Chosen(g, i) THEN Edit(old[g][i]) ELSE old[g][i]]
Possible(g) == \A i \in 1..Len(old[g]) : ~old[g][i].bad /\ ~(Chosen(g, i) /\ old[g][i].stuck)
Unopened(g) == ~all /\ Before(g)   \* not even looked at

OldOrNew == \A g \in Files : disk[g] = old[g] \/ (Possible(g) /\ disk[g] = Asked(g))
Success == phase = "done" => \A g \in Files : disk[g] = Asked(g) /\ (Possible(g) \/ Unopened(g))
Failure == phase = "failed" => \E g \in Files : ~Possible(g)
OneWay == [][\A g \in Files : disk[g] # old[g] => disk'[g] = disk[g]]_vars
Terminates == <>(phase \in {"done", "failed", "dead"})
\* to be violated: both files are changed
Unreached == ~(phase = "done" /\ disk[1] # old[1] /\ disk[2] # old[2])
===============================================================================
