------------------------------ MODULE FMap ------------------------------
(***************************************************************************)
(* A fingerprint-keyed map is one map: its shards do not show.  Keys stand *)
(* for distinct fingerprints, chosen by the binding to collide in whatever *)
(* the implementation may look at.  0 stands for "no entry".               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Vals
VARIABLES m, act
vars == <<m, act>>

View == m
Empty == [k \in Keys |-> 0]
\* What an operation returns and leaves: insert, insert if absent, remove, look up, ask for presence.
Ret(mm, o, k, v) == CASE o = "put" -> mm[k]
                      [] o = "ini" -> IF mm[k] = 0 THEN v ELSE mm[k]
                      [] o = "del" -> mm[k]
                      [] o = "get" -> mm[k]
                      [] o = "has" -> IF mm[k] = 0 THEN 0 ELSE 1
After(mm, o, k, v) == CASE o = "put" -> [mm EXCEPT ![k] = v]
                        [] o = "ini" -> IF mm[k] = 0 THEN [mm EXCEPT ![k] = v] ELSE mm
                        [] o = "del" -> [mm EXCEPT ![k] = 0]
                        [] OTHER -> mm

Do(o, k, v) == /\ act' = [o |-> o, k |-> k, v |-> v, r |-> Ret(m, o, k, v)]
               /\ m' = After(m, o, k, v)
\* Seeing every shard in turn shows each entry once and changes nothing; consuming the map leaves a new one.
Slice == act' = [o |-> "slice", k |-> 0, v |-> 0, r |-> 0] /\ m' = m
Items == act' = [o |-> "items", k |-> 0, v |-> 0, r |-> 0] /\ m' = Empty

Init == m = Empty /\ act = [o |-> "new", k |-> 0, v |-> 0, r |-> 0]
Next == \/ \E k \in Keys, v \in Vals, o \in {"put", "ini"} : Do(o, k, v)
        \/ \E k \in Keys, o \in {"del", "get", "has"} : Do(o, k, 0)
        \/ Slice \/ Items
Spec == Init /\ [][Next]_vars

TypeOK == m \in [Keys -> Vals \cup {0}]
\* An operation touches only its own key.
Local == [][\A k \in Keys : act'.o \notin {"items"} /\ m'[k] # m[k] => act'.k = k /\ act'.o \in {"put", "ini", "del"}]_vars
Reads == [][act'.o = "get" => act'.r = m[act'.k]]_vars
Emit == PrintT(ToJson([f |-> m, a |-> act', t |-> m']))
=============================================================================
