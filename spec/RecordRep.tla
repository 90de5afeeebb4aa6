------------------------------- MODULE RecordRep -------------------------------
(* Records as objects that share: headers, and extra headers that are text   *)
(* until first looked at.  They must hold what RecordLife says at all times. *)
EXTENDS RecordLife, TLC
CONSTANT Way   \* "own" is the design; the others are mistakes
VARIABLES st, rec, hdr, ehs
vars == <<st, rec, hdr, ehs>>
K == <<107>>
Val(n) == [t |-> "lit", v |-> <<48 + n>>]
Obj(n) == [t |-> "obj", m |-> <<<<K, Val(n)>>>>]
Nums == {0, 1}
\* heaps of headers and of extra headers; 0 is no extra headers
Objs == 1..(3 * Cardinality(Slots))
NoRec == [h |-> 0, e |-> 0, d |-> "none", id |-> 0]
NewIn(used) == CHOOSE o \in Objs : o \notin used
HNew == NewIn({rec[s].h : s \in Slots})
ENew == NewIn({rec[s].e : s \in Slots})
Text(v) == [form |-> "text", v |-> v]
Dict(v) == [form |-> "dict", v |-> v]
Init == /\ st = [s \in Slots |-> Free] /\ rec = [s \in Slots |-> NoRec]
        /\ hdr = [o \in Objs |-> 0] /\ ehs = [o \in Objs |-> Text(EmptyObj)]
Create(t, n, text) ==
  /\ ~Live(st, t)
  /\ st' = Fresh(st, t, [ver |-> n], 1, Obj(n), "packed")
  /\ rec' = [rec EXCEPT ![t] = [h |-> HNew, e |-> ENew, d |-> "packed", id |-> 1]]
  /\ hdr' = [hdr EXCEPT ![HNew] = n]
  /\ ehs' = [ehs EXCEPT ![ENew] = IF text THEN Text(Obj(n)) ELSE Dict(Obj(n))]
SetField(s, n) ==
  /\ Live(st, s) /\ st' = Fields(st, s, <<<<"ver", n>>>>)
  /\ hdr' = [hdr EXCEPT ![rec[s].h] = n] /\ UNCHANGED <<rec, ehs>>
SpoilField(s) ==
  /\ Live(st, s) /\ st' = Spoil(st, s, "ver")
  /\ hdr' = [hdr EXCEPT ![rec[s].h] = -1] /\ UNCHANGED <<rec, ehs>>
SetEh(s, n, how) ==
  /\ Live(st, s)
  /\ st' = Eh(st, s, IF how = "none" THEN EmptyObj ELSE Obj(n))
  /\ rec' = [rec EXCEPT ![s].e = IF how = "none" THEN 0 ELSE ENew]
  /\ ehs' = [ehs EXCEPT ![ENew] = IF how = "text" THEN Text(Obj(n)) ELSE Dict(Obj(n))]
  /\ UNCHANGED hdr
\* looking at text makes it a dict, of this record only
Look(s) ==
  /\ Live(st, s) /\ rec[s].e # 0 /\ ehs[rec[s].e].form = "text" /\ UNCHANGED <<st, hdr>>
  /\ ehs' = [ehs EXCEPT ![ENew] = Dict(ehs[rec[s].e].v)]
  /\ rec' = [rec EXCEPT ![s].e = ENew]
Mut(s, n) ==
  /\ Live(st, s) /\ CanMutate(st, s) /\ rec[s].e # 0 /\ ehs[rec[s].e].form = "dict"
  /\ st' = Mutate(st, s, K, Val(n))
  /\ ehs' = [ehs EXCEPT ![rec[s].e].v = SetKey(@, K, Val(n))]
  /\ UNCHANGED <<rec, hdr>>
DoClone(s, t) ==
  /\ Live(st, s) /\ s # t /\ CanPack(st, s)
  /\ st' = Clone(st, s, t)
  /\ LET shareEh == Way = "clone shares extra headers" /\ rec[s].e # 0
         shareH == Way = "clone shares header"
     IN /\ rec' = [rec EXCEPT ![t] = [rec[s] EXCEPT !.h = IF shareH THEN @ ELSE HNew,
                                                    !.e = IF shareEh \/ @ = 0 THEN @ ELSE ENew]]
        /\ hdr' = IF shareH THEN hdr ELSE [hdr EXCEPT ![HNew] = hdr[rec[s].h]]
        /\ ehs' = IF shareEh \/ rec[s].e = 0 THEN ehs ELSE [ehs EXCEPT ![ENew] = Text(ehs[rec[s].e].v)]
Decompress(s, t) ==
  /\ Live(st, s) /\ s # t /\ "ver" \notin st[s].bad
  /\ st' = Derived(st, s, t, st[s].fields, "plain")
  /\ rec' = [rec EXCEPT ![t] = [rec[s] EXCEPT !.h = IF Way = "decompressed shares header" THEN @ ELSE HNew, !.d = "plain"],
                        ![s].d = IF Way = "decompresses itself" THEN "plain" ELSE @]
  /\ hdr' = IF Way = "decompressed shares header" THEN hdr ELSE [hdr EXCEPT ![HNew] = hdr[rec[s].h]]
  /\ UNCHANGED ehs
Merge(s, t, u) ==
  /\ Live(st, s) /\ Live(st, t) /\ Cardinality({s, t, u}) = 3 /\ rec[s].d = "plain" /\ rec[t].d = "plain"
  /\ CanPack(st, s) /\ CanPack(st, t) /\ st[s].fields = st[t].fields
  /\ st' = Fresh(st, u, st[s].fields, 1, st[s].eh, "plain")
  /\ LET share == Way = "merge shares extra headers" /\ rec[s].e # 0
         asDict == IF rec[s].e = 0 THEN ehs ELSE [ehs EXCEPT ![ENew] = Dict(ehs[rec[s].e].v)]
     IN /\ rec' = [rec EXCEPT ![u] = [h |-> HNew, e |-> IF share \/ rec[s].e = 0 THEN rec[s].e ELSE ENew, d |-> "plain", id |-> 1]]
        /\ hdr' = [hdr EXCEPT ![HNew] = hdr[rec[s].h]]
        /\ ehs' = IF share THEN ehs ELSE asDict
Next == \E s \in Slots :
          \/ SpoilField(s) \/ Look(s) \/ SetEh(s, 0, "none")
          \/ \E n \in Nums : \/ Create(s, n, TRUE) \/ Create(s, n, FALSE) \/ SetField(s, n) \/ Mut(s, n)
                           \/ SetEh(s, n, "text") \/ SetEh(s, n, "dict")
          \/ \E t \in Slots : DoClone(s, t) \/ Decompress(s, t) \/ (\E u \in Slots : Merge(s, t, u))
Spec == Init /\ [][Next]_vars

Holds(s) ==
  /\ IF "ver" \in st[s].bad THEN hdr[rec[s].h] = -1 ELSE hdr[rec[s].h] = st[s].fields.ver
  /\ JEq(st[s].eh, IF rec[s].e = 0 THEN EmptyObj ELSE ehs[rec[s].e].v)
  /\ rec[s].d = st[s].data
\* which objects are used does not matter, only what they hold and who shares them
View == <<st, [s \in Slots |-> <<rec[s].d, (IF rec[s].h = 0 THEN 0 ELSE hdr[rec[s].h]), IF rec[s].e = 0 THEN 0 ELSE ehs[rec[s].e]>>],
          {p \in Slots \X Slots : rec[p[1]].h = rec[p[2]].h}, {p \in Slots \X Slots : rec[p[1]].e = rec[p[2]].e}>>
Sym == Permutations(Slots)
Consistent == \A s \in Slots : Live(st, s) => Holds(s)
\* to be violated: a merged record whose extra headers were edited apart from both
Unreached == ~(\E s, t \in Slots : s # t /\ Live(st, s) /\ Live(st, t) /\ st[s].data = "plain" /\ st[t].data = "plain"
               /\ st[s].kin = {} /\ st[t].kin = {} /\ st[s].eh # st[t].eh /\ st[s].fields # st[t].fields)
===============================================================================
