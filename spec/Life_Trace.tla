------------------------------ MODULE Life_Trace ------------------------------
(* Judges recorded histories of operations on record objects: after every    *)
(* step, what each would pack to.                                            *)
EXTENDS RecordLife, MSeed3Format, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, ok) == IF ok THEN {} ELSE {name}

(* e.contents: distinct packed records, [bytes, eh]; e.steps: the history.   *)
(* shows: what a record read from it shows; x.shows[s]: what s shows         *)
(* x.obs[s]: 0 no record in the slot, -1 would not pack, else a content      *)
FieldsOf(bytes) == [f \in ContentFields |-> Get(bytes, 0, f)]
Holds(c, p, r) ==  \* content c, parsed to p, is what r holds
  /\ p.why = "" /\ p.size = Len(c.bytes) /\ p.crcOk
  /\ \A f \in ContentFields : Get(c.bytes, 0, f) = r.fields[f]
  /\ p.id = r.id /\ p.payload = r.data /\ JEq(c.eh, r.eh)
Why(c, p, r) ==
  IF ~(p.why = "" /\ p.size = Len(c.bytes) /\ p.crcOk) THEN {"valid record"}
  ELSE Clause("header fields", \A f \in ContentFields : Get(c.bytes, 0, f) = r.fields[f])
       \cup Clause("identifier", p.id = r.id) \cup Clause("payload", p.payload = r.data)
       \cup Clause("extra headers", JEq(c.eh, r.eh))
See(e, P, x, st) ==
  UNION { IF ~Live(st, s) THEN {}
          ELSE IF st[s].bad # {} THEN Clause("what a record cannot hold is refused", x.obs[s] = -1)
          ELSE IF x.obs[s] <= 0 THEN {"packs"}
          ELSE Why(e.contents[x.obs[s]], P[x.obs[s]], st[s])
               \cup Clause("shows what it packs to", x.shows[s] = e.contents[x.obs[s]].shows) : s \in Slots }

FreeSlot(st, t) == [Part(st, t) EXCEPT ![t] = Free]
\* the state after x; new records take their data from what is seen
After(e, P, x, st) ==
  LET o == x.op  s == x.s  t == x.t
      seen(u) == e.contents[x.obs[u]]
      nice(u) == x.obs[u] > 0 /\ P[x.obs[u]].why = ""
  IN CASE o \in {"create", "follow"} ->
            IF x.k # "ok" \/ ~nice(t) THEN FreeSlot(st, t)
            ELSE Fresh(st, t, SetAll(FieldsOf(seen(t).bytes), x.sets), x.id, x.eh, P[x.obs[t]].payload)
       [] o = "unpack" ->
            IF x.k # "ok" THEN FreeSlot(st, t)
            ELSE LET c == e.contents[x.c]
                 IN Fresh(st, t, FieldsOf(c.bytes), P[x.c].id, c.eh, P[x.c].payload)
       [] o \in {"set", "time", "rate", "period"} -> Fields(st, s, x.sets)
       [] o \in {"spoilf", "spoilid", "spoilrate"} -> Spoil(st, s, x.what)
       [] o = "spoileh" -> Spoil(Eh(st, s, EmptyObj), s, "eh")
       [] o = "ident" -> Ident(st, s, x.id)
       [] o \in {"ehtext", "ehdict", "ehnone", "ehdel"} -> Eh(st, s, x.eh)
       [] o \in {"mut", "mutdeep"} -> [st EXCEPT ![s].eh = PutAt(@, x.toks, x.v).v]
       [] o \in {"clone", "reread", "restream"} -> IF x.k = "ok" THEN Clone(st, s, t) ELSE FreeSlot(st, t)
       [] o = "dec" ->
            IF x.k # "ok" \/ ~nice(t) THEN FreeSlot(st, t)
            ELSE Derived(st, s, t, [st[s].fields EXCEPT !["encoding"] = Get(seen(t).bytes, 0, "encoding")], P[x.obs[t]].payload)
       [] o = "merge" ->
            IF x.k # "one" \/ ~nice(x.u) THEN FreeSlot(st, x.u)
            ELSE Fresh(st, x.u, [st[s].fields EXCEPT !["numSamples"] = Get(seen(x.u).bytes, 0, "numSamples")],
                       st[s].id, st[s].eh, P[x.obs[x.u]].payload)
       [] o = "free" -> FreeSlot(st, s)
       [] OTHER -> st
\* what the operation itself should have given
Given(e, P, x, st) ==
  LET o == x.op  s == x.s
  IN CASE o \in {"create", "follow"} -> Clause("creates", x.k = "ok")
       [] o = "unpack" -> Clause("reads", x.k = "ok")
       [] o \in {"clone", "reread", "restream"} -> Clause("clones what can be packed", (x.k = "ok") <=> CanPack(st, s))
       [] o = "pack" ->
            IF ~CanPack(st, s) THEN Clause("what a record cannot hold is refused", x.k # "ok")
            ELSE IF x.k # "ok" THEN {"packs"}
            ELSE Why(e.contents[x.c], P[x.c], st[s])
                 \cup Clause("header describes the packed bytes", x.hp = SubSeq(e.contents[x.c].bytes, 1, FixedSize))
       [] o = "geteh" -> IF "eh" \in st[s].bad THEN {} ELSE Clause("extra headers as last set", x.k = "ok" /\ JEq(x.eh, st[s].eh))
       [] o = "hclone" -> Clause("clone of the header is equal", x.k = "ok" /\ x.now = x.was)
       [] o \in {"mut", "mutdeep"} -> Clause("extra headers can be edited", x.k = "ok")
       [] OTHER -> {}
RECURSIVE Run(_, _, _, _)
Run(e, P, i, st) ==
  IF i > Len(e.steps) THEN {}
  ELSE LET x == e.steps[i]
           now == After(e, P, x, st)
           bad == Given(e, P, x, st) \cup See(e, P, x, now)
       IN IF bad # {} THEN bad ELSE Run(e, P, i + 1, now)
Verdict(e) ==
  LET P == [i \in 1..Len(e.contents) |-> Parse(e.contents[i].bytes, 0)]
  IN Run(e, P, 1, [s \in Slots |-> Free])
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET bad == Verdict(Trace[l])
           IN IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToString(l) \o " " \o ToString(bad))
        /\ IF l = Len(Trace) THEN PrintT("@@DONE " \o ToString(l)) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
