----------------------------- MODULE EhTool_Trace -----------------------------
(* Judges recorded edits of extra headers in files: what is in the files     *)
(* after them, and at every moment and failure on the way.                   *)
EXTENDS JsonDoc, MSeed3Format, Regex, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, ok) == IF ok THEN {} ELSE {name}

RECURSIVE ParseAll(_, _)
\* records with where they start; damage ends it
ParseAll(bytes, at) ==
  IF at >= Len(bytes) THEN <<>>
  ELSE LET p == Parse(bytes, at)
       IN <<[p |-> p, at |-> at]>> \o (IF p.why # "" THEN <<>> ELSE ParseAll(bytes, at + p.size))
Sound(recs) == \A i \in 1..Len(recs) : recs[i].p.why = "" /\ recs[i].p.crcOk

-----------------------------------------------------------------------------
(* e: files (seq of [bytes, ehs]), filter, all, ptr, value, badjson, toobig  *)
Matching(e, recs) == { i \in 1..Len(recs) : recs[i].p.why = "" /\ Selects(e.filter, Utf8Decode(recs[i].p.id)) }
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
\* the plan of an edit: for each file its records, whether it is opened, and the new extra headers of the selected ones
Plan(e) ==
  LET toks == Tokens(e.ptr)
      root == e.ptr \in {<<>>, <<SLASH>>}
      badargs == e.badjson = 1 \/ (root /\ e.value.t # "obj") \/ (~root /\ ~toks.ok)
      N == Len(e.files)
      recs == [f \in 1..N |-> ParseAll(e.files[f].bytes, 0)]
      match == [f \in 1..N |-> Matching(e, recs[f])]
      some == { f \in 1..N : match[f] # {} }
      opened(f) == e.all = 1 \/ some = {} \/ f <= Least(some)
      sel(f) == IF e.all = 1 THEN match[f] ELSE IF some # {} /\ f = Least(some) THEN {Least(match[f])} ELSE {}
      put(f, i) == IF e.files[f].ehs[i].t # "obj" THEN Failed
                   ELSE IF root THEN Done(e.value) ELSE PutAt(e.files[f].ehs[i], toks.toks, e.value)
  IN [badargs |-> badargs, none |-> some = {},
      file |-> [f \in 1..N |->
        LET s == sel(f)
            new == [i \in s |-> IF badargs THEN Failed ELSE put(f, i)]
        IN [recs |-> recs[f], opened |-> opened(f), sel |-> s, new |-> new,
            bad |-> opened(f) /\ (~Sound(recs[f]) \/ (\E i \in s : ~new[i].ok) \/ (s # {} /\ e.toobig = 1)),
            may |-> \E i \in s : new[i].may]]]

HeaderKept == ContentFields \cup {"mark", "version", "identifierLength", "dataLength"}
\* content c ([bytes, ehs]) of file f of e is what was asked for
IsNew(e, plan, f, c) ==
  LET was == plan.file[f].recs
      now == ParseAll(c.bytes, 0)
      slice(b, r) == SubSeq(b, r.at + 1, r.at + r.p.size)
  IN /\ Len(now) = Len(was) /\ Sound(now)
     /\ \A i \in 1..Len(was) :
          IF i \notin plan.file[f].sel
          THEN slice(c.bytes, now[i]) = slice(e.files[f].bytes, was[i])
          ELSE /\ \A k \in HeaderKept : Get(c.bytes, now[i].at, k) = Get(e.files[f].bytes, was[i].at, k)
               /\ now[i].p.id = was[i].p.id /\ now[i].p.payload = was[i].p.payload
               /\ plan.file[f].new[i].ok
               /\ JEq(c.ehs[i], plan.file[f].new[i].v)
\* "old", "new", "both" (nothing is to change) or "neither"
StatusOf(e, plan, f, c) ==
  LET old == c.missing = 0 /\ c.bytes = e.files[f].bytes
      new == IF ~plan.file[f].opened THEN old
             ELSE c.missing = 0 /\ ~plan.file[f].bad /\ IsNew(e, plan, f, c)
  IN IF old /\ new THEN "both" ELSE IF old THEN "old" ELSE IF new THEN "new" ELSE "neither"
MustFail(plan) == (plan.badargs /\ ~plan.none) \/ \E f \in DOMAIN plan.file : plan.file[f].bad
MayFail(plan) == plan.none \/ \E f \in DOMAIN plan.file : plan.file[f].may

\* where the change that was asked for went wrong
Wrong(e, plan, f, c) ==
  LET was == plan.file[f].recs
      now == ParseAll(c.bytes, 0)
      slice(b, r) == SubSeq(b, r.at + 1, r.at + r.p.size)
  IN IF c.missing = 1 THEN {"file is there"}
     ELSE IF ~Sound(now) THEN {"records are valid"}
     ELSE IF Len(now) # Len(was) THEN {"every record remains"}
     ELSE Clause("unselected records unchanged", \A i \in 1..Len(was) : i \in plan.file[f].sel
                   \/ slice(c.bytes, now[i]) = slice(e.files[f].bytes, was[i]))
          \cup Clause("other content unchanged", \A i \in plan.file[f].sel :
                   /\ \A k \in HeaderKept : Get(c.bytes, now[i].at, k) = Get(e.files[f].bytes, was[i].at, k)
                   /\ now[i].p.id = was[i].p.id /\ now[i].p.payload = was[i].p.payload)
          \cup Clause("only the addressed location changed", \A i \in plan.file[f].sel :
                   plan.file[f].new[i].ok /\ JEq(c.ehs[i], plan.file[f].new[i].v))

EditVerdict(e) ==
  LET plan == Plan(e)
      n == Len(e.files)
      st == [f \in 1..n |-> StatusOf(e, plan, f, e.out.files[f])]
  IN Clause("no other file changed", e.out.others = 1)
     \cup IF e.out.k = "ok"
     THEN Clause("reported as failed", ~MustFail(plan))
          \cup UNION { IF st[f] \in {"new", "both"} \/ MustFail(plan) THEN {}
                       ELSE {"the edit is done"} \cup Wrong(e, plan, f, e.out.files[f]) : f \in 1..n }
     ELSE Clause("succeeds", MustFail(plan) \/ MayFail(plan))
          \cup Clause("each file whole", \A f \in 1..n : st[f] # "neither")

-----------------------------------------------------------------------------
(* crash: e.contents[f] are the distinct contents seen, e.runs the order in  *)
(* which they were seen in each run: [seen |-> seq of seq of index into      *)
(* contents, end |-> "ok" / "failed" / "stopped", kept |-> others unchanged] *)
CrashVerdict(e) ==
  LET plan == Plan(e)
      n == Len(e.files)
      st == [f \in 1..n |-> [c \in 1..Len(e.contents[f]) |-> StatusOf(e, plan, f, e.contents[f][c])]]
      oneWay(s) == \A i \in 1..Len(s), j \in 1..Len(s) : i < j /\ s[i] = "new" => s[j] # "old"
      stat(r, f) == [i \in 1..Len(r.seen[f]) |-> st[f][r.seen[f][i]]]
  IN UNION { Clause("whole at every moment", \A f \in 1..n : \A i \in 1..Len(r.seen[f]) : st[f][r.seen[f][i]] # "neither")
             \cup Clause("changed once", \A f \in 1..n : oneWay(stat(r, f)))
             \cup Clause("other files keep their content", r.kept = 1)
             \cup Clause("done when it says so", r.end = "ok" =>
                    ~MustFail(plan) /\ \A f \in 1..n : stat(r, f)[Len(r.seen[f])] \in {"new", "both"})
             : r \in {e.runs[k] : k \in 1..Len(e.runs)} }

Verdict(e) == CASE e.op = "edit" -> EditVerdict(e)
                [] e.op = "crash" -> CrashVerdict(e)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET bad == Verdict(Trace[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToString(l) \o " " \o ToString(bad))
        /\ IF l = Len(Trace) THEN PrintT("@@DONE " \o ToString(l)) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
