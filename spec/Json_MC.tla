------------------------------- MODULE Json_MC -------------------------------
(* What is put at a pointer is found there, and nothing else moves.          *)
EXTENDS JsonDoc
VARIABLES doc, ptr, val
vars == <<doc, ptr, val>>
L(x) == [t |-> "lit", v |-> x]
Obj(m) == [t |-> "obj", m |-> m]
Arr(m) == [t |-> "arr", m |-> m]
A == <<97>>   B == <<98>>   ZERO == <<48>>   SL == <<47>>
Leaf == { L(<<49>>), [t |-> "str", v |-> A] }
D1 == Leaf \cup {EmptyObj, Arr(<<>>)} \cup { Obj(<< <<A, x>> >>) : x \in Leaf } \cup { Arr(<<x>>) : x \in Leaf }
D2 == D1 \cup { Obj(<< <<A, x>>, <<k, y>> >>) : x \in D1, y \in Leaf, k \in {B, ZERO, SL} }
         \cup { Arr(<<x, y>>) : x \in D1, y \in Leaf }
D3 == D2 \cup { Obj(<< <<k, x>> >>) : x \in D2, k \in {A, SL} }
Toks == { A, B, ZERO, SL, <<49>>, <<45>>, <<>> }
Paths == { <<>> } \cup { <<a>> : a \in Toks } \cup { <<a, b>> : a, b \in Toks } \cup { <<a, b, c>> : a, b, c \in {A, ZERO, SL, <<45>>} }
Init == doc \in D3 /\ ptr \in Paths /\ val \in {L(<<50>>), EmptyObj}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
R == PutAt(doc, ptr, val)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Apart(p, q) == ~Prefix(p, q) /\ ~Prefix(q, p)
PutGet == R.ok /\ ~R.may => LET g == GetAt(R.v, ptr) IN g.ok /\ JEq(g.v, val)
Others == R.ok => \A q \in Paths : Apart(ptr, q) /\ ~(R.may /\ Prefix(SubSeq(ptr, 1, Len(ptr) - 1), q)) =>
             LET a == GetAt(doc, q)  b == GetAt(R.v, q)
             IN a.ok = b.ok /\ (a.ok => JEq(a.v, b.v))
GetThenPut == LET g == GetAt(doc, ptr) IN g.ok => LET r == PutAt(doc, ptr, g.v) IN r.ok /\ JEq(r.v, doc)
Escapes == \A p \in Paths : LET esc(k) == IF k = SL THEN <<126, 49>> ELSE k
                                text == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN <<47>> \o esc(p[1])
                                        ELSE IF Len(p) = 2 THEN <<47>> \o esc(p[1]) \o <<47>> \o esc(p[2])
                                        ELSE <<47>> \o esc(p[1]) \o <<47>> \o esc(p[2]) \o <<47>> \o esc(p[3])
                            IN Tokens(text) = [ok |-> TRUE, toks |-> p]
ASSUME Escapes
=============================================================================
