------------------------------ MODULE RecordLife ------------------------------
(* What record objects hold through a history of operations.  A slot is      *)
(*  [fields (name -> value), id, eh (JSON), data, bad, kin]:                 *)
(* bad names what was set to something a record cannot hold, so that it      *)
(* cannot be packed until that is set again; kin are the slots that may      *)
(* share its extra headers (a decompressed record and what it came from),    *)
(* whose extra headers are then not edited in place.                         *)
EXTENDS JsonDoc
CONSTANT Slots
Free == [free |-> TRUE]
Live(st, s) == "fields" \in DOMAIN st[s]
SetKey(o, k, v) == LET i == IndexOf(o, k)
                   IN IF i = 0 THEN [o EXCEPT !.m = Append(@, <<k, v>>)] ELSE [o EXCEPT !.m[i] = <<k, v>>]
Part(st, s) == [t \in Slots |-> IF Live(st, t) THEN [st[t] EXCEPT !.kin = @ \ {s}] ELSE st[t]]

RECURSIVE SetAll(_, _)
SetAll(fields, sets) == IF sets = <<>> THEN fields
                        ELSE SetAll([fields EXCEPT ![sets[1][1]] = sets[1][2]], Tail(sets))
Names(sets) == { sets[i][1] : i \in 1..Len(sets) }
Fields(st, s, sets) == [st EXCEPT ![s].fields = SetAll(@, sets), ![s].bad = @ \ Names(sets)]
Spoil(st, s, what) == [st EXCEPT ![s].bad = @ \cup {what}]
Ident(st, s, id) == [st EXCEPT ![s].id = id, ![s].bad = @ \ {"id"}]
Eh(st, s, v) == [Part(st, s) EXCEPT ![s].eh = v, ![s].bad = @ \ {"eh"}, ![s].kin = {}]
CanMutate(st, s) == st[s].kin = {} /\ "eh" \notin st[s].bad /\ st[s].eh.t = "obj"
Mutate(st, s, k, v) == [st EXCEPT ![s].eh = SetKey(@, k, v)]
CanPack(st, s) == st[s].bad = {}
Clone(st, s, t) == [Part(st, t) EXCEPT ![t] = [st[s] EXCEPT !.kin = {}]]
\* a new record with other data and the rest of s
Derived(st, s, t, fields, data) ==
  LET p == Part(st, t)
      family == (p[s].kin \cup {s}) \ {t}
  IN [u \in Slots |-> IF u = t THEN [st[s] EXCEPT !.fields = fields, !.data = data, !.kin = family]
                     ELSE IF u \in family THEN [p[u] EXCEPT !.kin = @ \cup {t}] ELSE p[u]]
Fresh(st, t, fields, id, eh, data) ==
  [Part(st, t) EXCEPT ![t] = [fields |-> fields, id |-> id, eh |-> eh, data |-> data, bad |-> {}, kin |-> {}]]
===============================================================================
