------------------------------ MODULE OwnerMC ------------------------------
(* Two files in a directory and two below it; histories with what owns each file. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0
VARIABLES inc, lock, made, way
Files == {"a", "b", "s/x", "s/y"}
DirsOf(f) == IF f \in {"s/x", "s/y"} THEN <<"s", ".">> ELSE <<".">>
May(f) == CASE f = "a" -> {"b", "s/x"} [] f = "b" -> {"s/y"} [] f = "s/x" -> {"s/y"} [] OTHER -> {}
Docs(d) == IF d = "." THEN {"a", "b", "s/x"} ELSE {"s/x", "s/y"}
O == INSTANCE Owner WITH Dirs <- {".", "s"}, None <- "none"
Init == O!Init /\ way = <<>>
Owners == [f \in Files |-> O!Owner(f)]
Next == /\ Len(way) < Len0
        /\ \/ \E f \in Files, g \in Files \cup {"none"} : O!Edit(f, g) /\ way' = Append(way, [op |-> "edit", f |-> f, g |-> g, due |-> Owners'])
           \/ \E d \in {".", "s"}, f \in Files : O!Export(d, f) /\ way' = Append(way, [op |-> "export", dir |-> d, f |-> f, due |-> Owners'])
Spec == Init /\ [][Next]_<<inc, lock, made, way>>
Bare == O!Init /\ way = <<>> /\ [][O!Next /\ UNCHANGED way]_<<inc, lock, made, way>>
View == <<inc, lock, made>>
Emit == PrintT(ToJson(way'))
All == Len(way') = Len0 => Emit
Once == O!Once
Own == O!Own
Takes == O!Takes
Stays == O!Stays
=============================================================================
