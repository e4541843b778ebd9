------------------------------- MODULE LockMC -------------------------------
(* Changes one after another, and what is done to the file besides: histories of any contents are what matters. *)
EXTENDS LockState, TLC, Json
CONSTANTS Names, Vals, Len0
VARIABLES s, is, way, act
vars == <<s, is, way, act>>
Docs == [id : Names, v : Vals]
Tasks == [id : Names, doc : Names, v : Vals]
Routes == [id : Names, v : {1}]
One == {[docs |-> <<d>>, tasks |-> <<>>, routes |-> <<>>] : d \in Docs}
       \cup {[docs |-> <<>>, tasks |-> <<t>>, routes |-> <<>>] : t \in Tasks}
       \cup {[docs |-> <<>>, tasks |-> <<>>, routes |-> <<r>>] : r \in Routes}
Init == s = Nothing /\ is = "none" /\ way = <<>> /\ act = [op |-> "none"]
Update(c, f) == /\ is' = IF is \in {"none", "blank"} THEN IF f THEN "blank" ELSE "ok" ELSE is
                /\ s' = IF f \/ is = "bad" THEN s ELSE Changed(s, c)
                /\ act' = [op |-> "update", c |-> c, fail |-> f]
Foreign(k) == s' = Nothing /\ is' = (IF k = "blank" THEN "blank" ELSE "bad") /\ act' = [op |-> "put", kind |-> k]
Next == /\ Len(way) < Len0
        /\ \/ \E c \in One, f \in BOOLEAN : Update(c, f)
           \/ Update([docs |-> <<>>, tasks |-> <<>>, routes |-> <<>>], FALSE)
           \/ \E k \in {"blank", "future", "past", "garbage", "wrong"} : Foreign(k)
        /\ way' = Append(way, act')
Spec == Init /\ [][Next]_vars
View == <<s, is>>
Emit == PrintT(ToJson(way'))
All == Len(way') = Len0 => Emit
=============================================================================
