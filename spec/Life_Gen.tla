------------------------------- MODULE Life_Gen -------------------------------
(* Histories of operations on records, for the real objects.                 *)
EXTENDS RecordLife, TLC, Json
CONSTANTS Depth, Walk
VARIABLES st, hist
vars == <<st, hist>>
New(t) == Fresh(st, t, [f |-> 0], 0, EmptyObj, 0)
Ops1 == {"set", "time", "rate", "period", "ident", "ehtext", "ehdict", "ehnone", "ehdel", "geteh", "mut", "mutdeep",
         "pack", "look", "details", "decompress", "hclone", "spoilf", "spoilid", "spoileh", "spoilrate", "free"}
Apply1(o, s) ==
  CASE o = "set" -> Fields(st, s, <<<<"f", 0>>>>)
    [] o \in {"time"} -> st
    [] o \in {"rate", "period"} -> [st EXCEPT ![s].bad = @ \ {"rate"}]
    [] o = "ident" -> Ident(st, s, 0)
    [] o \in {"ehtext", "ehdict", "ehnone", "ehdel"} -> Eh(st, s, EmptyObj)
    [] o = "spoilf" -> Spoil(st, s, "f")
    [] o = "spoilid" -> Spoil(st, s, "id")
    [] o = "spoileh" -> Spoil(Eh(st, s, EmptyObj), s, "eh")
    [] o = "spoilrate" -> Spoil(st, s, "rate")
    [] o = "spoilrate" -> Spoil(st, s, "rate")
    [] o = "free" -> [Part(st, s) EXCEPT ![s] = Free]
    [] OTHER -> st
Can1(o, s) == /\ Live(st, s)
              /\ CASE o \in {"mut", "mutdeep"} -> CanMutate(st, s) [] o = "geteh" -> "eh" \notin st[s].bad [] OTHER -> TRUE
Act(o, s, t, u, new) == st' = new /\ hist' = Append(hist, [op |-> o, s |-> s, t |-> t, u |-> u])
Some(S) == IF Walk THEN {RandomElement(S)} ELSE S
\* the kinds of operations, by how often they are tried
Step == \E k \in (IF Walk THEN {RandomElement(1..16)} ELSE {0}) :
  \/ /\ k <= 9
     /\ \E o \in Some(Ops1), s \in Some(Slots) : Can1(o, s) /\ Act(o, s, 0, 0, Apply1(o, s))
  \/ /\ k \in {0, 10, 11}
     /\ \E o \in Some({"clone", "reread", "restream"}), s \in Some(Slots), t \in Some(Slots) :
          Live(st, s) /\ s # t /\ Act(o, s, t, 0, IF CanPack(st, s) THEN Clone(st, s, t) ELSE [Part(st, t) EXCEPT ![t] = Free])
  \/ /\ k \in {0, 12}
     /\ \E s \in Some(Slots), t \in Some(Slots) :
          Live(st, s) /\ s # t /\ CanPack(st, s) /\ Act("dec", s, t, 0, Derived(st, s, t, st[s].fields, 0))
  \/ /\ k \in {0, 13, 14}
     /\ \E s \in Some(Slots), t \in Some(Slots), u \in Some(Slots) :
          Live(st, s) /\ s # t /\ CanPack(st, s) /\ Cardinality({s, t, u}) = 3 /\ Act("merge", s, t, u, New(u))
  \/ /\ k \in {0, 15}
     /\ \E s \in Some(Slots), t \in Some(Slots) : Live(st, s) /\ s # t /\ CanPack(st, s) /\ Act("follow", s, t, 0, New(t))
  \/ /\ k \in {0, 16}
     /\ \E o \in Some({"create", "unpack"}), t \in Some(Slots) : ~Live(st, t) /\ Act(o, 0, t, 0, New(t))
GenInit == /\ st = [s \in Slots |-> IF s = 1 THEN [fields |-> [f |-> 0], id |-> 0, eh |-> EmptyObj, data |-> 0, bad |-> {}, kin |-> {}]
                                    ELSE Free]
           /\ hist = <<>>
Out == PrintT("@@GEN " \o ToJson(hist))
GenNext == /\ Len(hist) < Depth
           /\ Step
           /\ IF Len(hist') = Depth THEN (Out)' ELSE TRUE
\* with Walk a step whose random choice is not possible is tried again, up to some number of times
Stutter == Walk /\ Len(hist) < Depth /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenNext \/ Stutter]_vars
===============================================================================
