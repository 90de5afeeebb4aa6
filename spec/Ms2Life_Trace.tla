---------------------------- MODULE Ms2Life_Trace ----------------------------
(* Judges recorded histories of operations on miniSEED 2 record objects:     *)
(* after every step, what each would pack to and shows.                      *)
EXTENDS Ms2Life, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, ok) == IF ok THEN {} ELSE {name}
(* e.contents: distinct packed records (bytes); e.steps: the history.        *)
(* x.obs[s]: 0 no record in the slot, -1 would not pack, else a content;     *)
(* x.start[s], x.rate[s], x.shows[s]: what it shows; x.again[s]: what a       *)
(* record read from what it packs to shows                                   *)
Why(p, r, size) ==
  IF ~(p.why = "" /\ p.size = size) THEN {"valid record"}
  ELSE Clause("plain fields", \A k \in Plain : p[k] = r.f[k])
       \cup Clause("record length", p.exp = r.exp)
       \cup Clause("start time", StartOk(p, r))
       \cup Clause("sample rate", PackedRate(p, r.rate, r.cur))
       \cup Clause("one blockette 1000", Len(SelectSeq(p.blks, LAMBDA b : b.t = 1000)) = 1)
       \cup Clause("blockettes", LET bs == No1000(p.blks)
                                 IN Len(bs) = Len(r.blks) /\ \A i \in 1..Len(bs) : SameB(bs[i], r.blks[i]))
       \cup Clause("data", PadEq(p.payload, r.pl))
RateShown(v, cur) == LET w == CurRatio(cur)
                     IN IF w.p = <<>> THEN \A i \in 2..8 : v[i] = 0
                        ELSE IsFinite(v) /\ v[1] < 128 /\ Nearly(Ratio8(v), w)
See(e, P, x, st) ==
  UNION { IF ~Live(st, s) THEN {}
          ELSE (IF st[s].bad # {} THEN Clause("what a record cannot hold is refused", x.obs[s] = -1)
                ELSE IF x.obs[s] <= 0 THEN Clause("packs", ~Room(st[s]))
                ELSE Why(P[x.obs[s]], st[s], Len(e.contents[x.obs[s]])))
               \cup Clause("shows what it packs to", x.shows[s] = x.again[s])
               \cup Clause("shows its start time", x.start[s] = st[s].t)
               \cup Clause("shows its sample rate", "rate" \in st[s].bad \/ RateShown(x.rate[s], st[s].cur)) : s \in Slots }
After(e, P, x, st) ==
  LET o == x.op  s == x.s  t == x.t
      nice(u) == x.obs[u] > 0 /\ P[x.obs[u]].why = ""
  IN CASE o = "create" ->
            IF x.k # "ok" \/ ~nice(t) THEN Put(st, t, Free)
            ELSE LET r == OfParsed(P[x.obs[t]])
                 IN Put(st, t, [r EXCEPT !.t = x.at0, !.cur = IF x.hz = <<>> THEN [k |-> "parsed", r |-> RatioOf(P[x.obs[t]].nominal.p, P[x.obs[t]].nominal.q)]
                                                             ELSE [k |-> "hz", v |-> x.hz]])
       [] o = "read" -> IF x.k # "ok" \/ P[x.c].why # "" THEN Put(st, t, Free) ELSE Put(st, t, OfParsed(P[x.c]))
       [] o = "setf" -> SetField(st, s, x.name, x.v)
       [] o = "time" -> SetTime(st, s, x.at0)
       [] o = "rate" -> SetRate(st, s, x.v)
       [] o = "grow" -> SetExp(st, s, x.exp)
       [] o = "addb" -> IF x.blk.t = 1000 THEN st ELSE AddBlk(st, s, x.at, x.blk)
       [] o = "delb" -> IF x.at = 0 THEN st ELSE DelBlk(st, s, x.at)
       [] o = "spoil" -> Spoil(st, s, x.what)
       [] o \in {"clone", "reread", "restream"} ->
            IF x.k = "ok" /\ nice(s) THEN Put(st, t, OfParsed(P[x.obs[s]])) ELSE Put(st, t, Free)
       [] o = "free" -> Put(st, s, Free)
       [] OTHER -> st
Given(e, P, x, st) ==
  LET o == x.op  s == x.s
  IN CASE o = "read" -> Clause("reads", x.k = "ok")
       [] o \in {"setf", "time", "rate", "grow", "addb", "delb"} -> Clause("can be set", x.k = "ok")
       [] o \in {"clone", "reread", "restream"} -> Clause("clones what can be packed", (x.k = "ok") <=> (x.obs[s] > 0))
       [] o = "pack" -> IF ~CanPack(st, s) THEN Clause("what a record cannot hold is refused", x.k # "ok")
                        ELSE IF x.k # "ok" THEN Clause("packs", ~Room(st[s]))
                        ELSE Why(P[x.c], st[s], Len(e.contents[x.c]))
       [] OTHER -> {}
RECURSIVE Run(_, _, _, _)
Run(e, P, i, st) ==
  IF i > Len(e.steps) THEN {}
  ELSE LET x == e.steps[i]
           now == After(e, P, x, st)
           bad == Given(e, P, x, st) \cup See(e, P, x, now)
       IN IF bad # {} THEN bad ELSE Run(e, P, i + 1, now)
Verdict(e) ==
  LET P == [i \in 1..Len(e.contents) |-> Parse2(e.contents[i], 0)]
  IN Run(e, P, 1, [s \in Slots |-> Free])
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET bad == Verdict(Trace[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToString(l) \o " " \o ToString(bad))
        /\ IF l = Len(Trace) THEN PrintT("@@DONE " \o ToString(l)) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
