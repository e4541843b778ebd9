------------------------------ MODULE RmJudge ------------------------------
(* Judges what the real removals left behind: is there a behaviour ending so? *)
EXTENDS RmTree
Rs == JsonDeserialize("traces.json")

VARIABLES i
JInit == /\ i \in DOMAIN Rs
         /\ par = Rs[i].par /\ kind = Rs[i].kind /\ tgt = Rs[i].tgt /\ op = Rs[i].op /\ user = Rs[i].user
         /\ alive = 1..Len(Rs[i].par) /\ res = "-"
JNext == (Finish \/ \E n \in ToSet(Rs[i].dead) : Unlink(n)) /\ i' = i
Report == res = Rs[i].res /\ alive = (1..Len(par)) \ ToSet(Rs[i].dead) /\ Rs[i].intact => PrintT(ToJson([acc |-> i]))
=============================================================================
