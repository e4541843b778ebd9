------------------------------- MODULE RootsMC -------------------------------
(* Every transition of Roots.tla, with a way to it. *)
EXTENDS Roots, Json
VARIABLE way
MCInit == Init /\ way = <<>>
MCNext == Next /\ way' = Append(way, [act |-> act', got |-> got'])
MCSpec == MCInit /\ [][MCNext]_<<vars, way>>
View == <<cfg, toml, cached>>
Emit == PrintT(ToJson([cfg |-> cfg, way |-> way']))
AtEnd == Len(way') = 40 => Emit
=============================================================================
