---------------------------- MODULE ProjectsSim -----------------------------
(* Random behaviours of Projects, printed whole, with what the user sees wherever everything has come to rest. *)
EXTENDS Projects, Json
VARIABLE hist
C(l, i, e) == [lit |-> l, inc |-> i, err |-> e]
SimOf == ("a" :> {C("a1", "b", ""), C("a2", "c", ""), C("a3", "b", "ea3"), C("a4", "", "")})
         @@ ("b" :> {C("b1", "c", ""), C("b2", "", ""), C("b3", "c", "eb3"), Empty})
         @@ ("c" :> {C("c1", "", ""), C("c2", "", "ec2"), Empty})
SimDisk == ("a" :> C("a1", "b", "")) @@ ("b" :> C("b1", "c", "")) @@ ("c" :> C("c1", "", ""))
SimNoC == [SimDisk EXCEPT !["c"] = None]
J(c) == IF c = None THEN [has |-> FALSE, lit |-> "", inc |-> "", err |-> ""] ELSE [has |-> TRUE, lit |-> c.lit, inc |-> c.inc, err |-> c.err]
Main(p) == IF proj[p].entry = None THEN "" ELSE proj[p].entry
Seen == [op |-> "rest", view |-> [f \in Files |-> J(Truth[f])], live |-> [p \in Live(proj) |-> Main(p)], due |-> duty]
Act == IF "t" \in DOMAIN act THEN [act EXCEPT !.t = J(@)]
       ELSE IF act.op = "focus" THEN [act EXCEPT !.f = IF @ = None THEN "" ELSE @] ELSE act
SInit == Init /\ hist = <<[op |-> "disk", disk |-> [f \in Files |-> J(disk[f])]]>>
(* The user acts now and then; everything else goes on meanwhile, in any order. *)
SNext == /\ IF AtRest \/ (n < MaxEnv /\ RandomElement(1..3) = 1) THEN User ELSE Internal
         /\ hist' = IF AtRest' THEN hist \o <<Act', Seen'>> ELSE Append(hist, Act')
Whole == n = MaxEnv /\ AtRest => PrintT(ToJson(hist))
Good == Converged /\ Screened /\ StatusLine /\ Watched /\ Forward /\ Exported /\ MainKept
=============================================================================
