------------------------------- MODULE Session -------------------------------
(* What the files of a user denote through a session with the tools.  A file *)
(* is [k, s, whole]: its format ("none": there is no file, "empty", "two",   *)
(* "three"), the samples it holds in order, each <<channel, time, value>>,   *)
(* and whether nothing but whole records is in it.                           *)
EXTENDS Integers, Sequences
NoFile == [k |-> "none", s |-> <<>>, whole |-> TRUE]
File(k, s) == [k |-> IF s = <<>> THEN "empty" ELSE k, s |-> s, whole |-> TRUE]
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* which files a tool can do its work on
Readable(f, k) == f.k \in {k, "empty"} /\ f.whole
CanConvert(fs, i, o) == i # o /\ Readable(fs[i], "two")
CanMerge(fs, i, o) == i # o /\ Readable(fs[i], "three")
CanEdit(fs, i) == Readable(fs[i], "three")
CanReport(fs, i, k) == Readable(fs[i], k)

\* what the files denote when the tool is done
Converted(fs, i, o) == [fs EXCEPT ![o] = File("three", fs[i].s)]
Merged(fs, i, o) == [fs EXCEPT ![o] = File("three", fs[i].s)]
Edited(fs, i) == fs
Chosen(fs, i, o, s) == [fs EXCEPT ![o] = File(fs[i].k, s)]
Joined(fs, i, o) == [fs EXCEPT ![o] = File(IF fs[o].k \in {"none", "empty"} THEN fs[i].k ELSE fs[o].k, fs[o].s \o fs[i].s)]
\* when it is not (it refused, failed or was killed), o may hold a part
Partial(fs, i, o, got) == got = fs[o] \/ (i # o /\ IsPrefixOf(got.s, fs[i].s))
=============================================================================
