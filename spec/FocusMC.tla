------------------------------ MODULE FocusMC -------------------------------
(* Every transition from every state, with a way to get there: printed once each. *)
EXTENDS Focus, TLC, Json
VARIABLE way
View == <<main, focus, pos, byUser, byPreview, browsing, manual, active>>
MCInit == Init /\ way = <<>>
MCNext == Next /\ way' = Append(way, [act |-> act', main |-> main', focus |-> focus', pos |-> pos'])
MCSpec == MCInit /\ [][MCNext]_<<vars, way>>
Emit == PrintT(ToJson(way'))
Last == Len(way') = 40 => Emit
=============================================================================
