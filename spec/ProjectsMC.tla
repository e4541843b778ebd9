----------------------------- MODULE ProjectsMC -----------------------------
(* All behaviours of Projects, in the small. *)
EXTENDS Projects
C(l, i, e) == [lit |-> l, inc |-> i, err |-> e]
SmallOf == ("a" :> {C("a1", "b", ""), C("a2", "", "ea2")}) @@ ("b" :> {C("b1", "", ""), Empty})
SmallDisk == ("a" :> C("a1", "b", "")) @@ ("b" :> C("b1", "", ""))
=============================================================================
