------------------------------ MODULE FMapSeq ------------------------------
(* Judges long sequential histories over many keys, with the listings of shards and of the consumed map. *)
EXTENDS FMap, SequencesExt
Hs == JsonDeserialize("traces.json")

VARIABLES i, pos
H == Hs[i].hist
Listing == {<<k, m[k]>> : k \in {k \in DOMAIN m : m[k] # 0}}
JInit == /\ i \in DOMAIN Hs /\ pos = 1
         /\ m = [k \in 1..Hs[i].keys |-> 0] /\ act = 0
JNext == /\ pos <= Len(H)
         /\ LET x == H[pos] IN
            IF x.o \in {"slice", "items"}
            THEN /\ Len(x.l) = Cardinality(Listing) /\ ToSet(x.l) = Listing
                 /\ m' = IF x.o = "items" THEN [k \in DOMAIN m |-> 0] ELSE m
            ELSE /\ Ret(m, x.o, x.k, x.v) = x.r
                 /\ m' = After(m, x.o, x.k, x.v)
         /\ pos' = pos + 1 /\ UNCHANGED <<i, act>>
Report == /\ pos = Len(H) + 1 => PrintT(ToJson([acc |-> i]))
          /\ pos <= Len(H) /\ ~ENABLED JNext => PrintT(ToJson([stuck |-> i, pos |-> pos, x |-> H[pos]]))
=============================================================================
