------------------------------- MODULE VfsSim -------------------------------
(* Random behaviours of Vfs, printed whole. *)
EXTENDS Vfs
VARIABLE hist
SInit == Init /\ hist = <<>>
SNext == Next /\ hist' = Append(hist, act')
Whole == n = MaxSteps => PrintT(ToJson(hist))
Good == good
=============================================================================
