------------------------------ MODULE L10nTrace ------------------------------
(* Is a recorded concurrent history of selections and lookups linearizable?  serves[i]: the locale that request i
   selects (0: none); texts[l][k]: what key k reads in locale l, 0 being the start. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Hs == JsonDeserialize("traces.json")

VARIABLES i, done, cur
Ops == Hs[i].hist
Init == i \in DOMAIN Hs /\ done = {} /\ cur = 1
Next == \E x \in DOMAIN Ops \ done :
           /\ \A y \in DOMAIN Ops \ done : Ops[y].e >= Ops[x].b
           /\ IF Ops[x].o = "select"
              THEN LET s == Hs[i].serves[Ops[x].i] IN
                   /\ Ops[x].r = IF s = 0 THEN "no" ELSE "yes"
                   /\ cur' = IF s = 0 THEN cur ELSE s
              ELSE Ops[x].r = Hs[i].texts[cur][Ops[x].i] /\ cur' = cur
           /\ done' = done \cup {x} /\ UNCHANGED i
Report == done = DOMAIN Ops => PrintT(ToJson([acc |-> i]))
=============================================================================
