------------------------------ MODULE FpBuilderJudge ------------------------------
(* Judges what real builders returned: res lists the pairs of item and fingerprint, FpBuilder's Unique must hold of it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
Rs == JsonDeserialize("traces.json")
Item(r, i) == r.items[r.res[i][1]]
Unique(r) == \A i, j \in DOMAIN r.res : (Item(r, i) = Item(r, j)) <=> (r.res[i][2] = r.res[j][2])
Ok(r) == Unique(r) /\ \A i \in DOMAIN r.res : r.res[i][2] # "panic"
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
ASSUME PrintT(ToJson([bad |-> SetToSeq({i \in DOMAIN Rs : ~Ok(Rs[i])}), n |-> Len(Rs)]))
=============================================================================
