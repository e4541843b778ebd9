------------------------------ MODULE FMapTrace ------------------------------
(* Is a recorded concurrent history of the real map linearizable?  Every operation carries the times just before
   and just after it; a behaviour of FMap must perform each of them once between these. *)
EXTENDS FMap
Hs == JsonDeserialize("traces.json")

VARIABLES i, done
Ops == Hs[i].hist
JInit == /\ i \in DOMAIN Hs /\ done = {}
         /\ m = [k \in 1..Hs[i].keys |-> 0] /\ act = 0
JNext == \E x \in DOMAIN Ops \ done :
           /\ \A y \in DOMAIN Ops \ done : Ops[y].e >= Ops[x].b
           /\ Ret(m, Ops[x].o, Ops[x].k, Ops[x].v) = Ops[x].r
           /\ m' = After(m, Ops[x].o, Ops[x].k, Ops[x].v)
           /\ done' = done \cup {x} /\ UNCHANGED <<i, act>>
Report == done = DOMAIN Ops /\ m = Hs[i].final => PrintT(ToJson([acc |-> i]))
=============================================================================
