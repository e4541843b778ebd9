------------------------------ MODULE Catalogue ------------------------------
(***************************************************************************)
(* A catalogue file over its life: the tool updates it from the messages   *)
(* used in the program, translators add and change translations.           *)
(* file[k] = locale -> text (0: none); "en" holds the source text.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Keys, Others, Texts
VARIABLES file, act
vars == <<file, act>>
View == file
Locs == {"en"} \cup Others
None == [l \in Locs |-> 0]
Has(f, k) == f[k] # None

Init == file = [k \in Keys |-> None] /\ act = [o |-> "start"]
Updated(f, used) == [k \in Keys |-> IF k \in DOMAIN used THEN [f[k] EXCEPT !["en"] = used[k]] ELSE None]
Update(used) == /\ act' = [o |-> "update", used |-> SetToSeq({[k |-> k, t |-> used[k]] : k \in DOMAIN used})]
                /\ file' = Updated(file, used)
Translate(k, l, t) == /\ Has(file, k) /\ file[k][l] # t
                      /\ act' = [o |-> "translate", k |-> k, l |-> l, t |-> t]
                      /\ file' = [file EXCEPT ![k][l] = t]
Next == \/ \E ks \in SUBSET Keys : \E used \in [ks -> Texts] : Update(used)
        \/ \E k \in Keys, l \in Others, t \in Texts \cup {0} : Translate(k, l, t)
Spec == Init /\ [][Next]_vars

Sources == \A k \in Keys : Has(file, k) => file[k]["en"] # 0
UsedKeys == {u.k : u \in ToSet(act'.used)}
Keeps == [][act'.o = "update" => \A k \in UsedKeys, l \in Others : file'[k][l] = file[k][l]]_vars
Drops == [][act'.o = "update" => {k \in Keys : Has(file', k)} = UsedKeys]_vars
Idempotent == \A ks \in SUBSET Keys : \A used \in [ks -> Texts] : Updated(Updated(file, used), used) = Updated(file, used)
Emit == PrintT(ToJson([f |-> file, a |-> act', t |-> file']))
=============================================================================
