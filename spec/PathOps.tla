----------------------------- MODULE PathOps -----------------------------
(***************************************************************************)
(* Lexical paths: what a path denotes, its canonical form, relative paths, *)
(* ancestors.  A path is [abs, comps]; components are ".", ".." or names.  *)
(* The state machine reads a path component by component, like a kernel    *)
(* resolving it in a file system without symbolic links: `ups` directories *)
(* above the starting point, then down through `stk`.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json

CONSTANTS Names, MaxLen

VARIABLES abs, comps, ups, stk
vars == <<abs, comps, ups, stk>>

Init == abs \in BOOLEAN /\ comps = <<>> /\ ups = 0 /\ stk = <<>>

Down(u, s, a, c) ==
  CASE c = "."  -> <<u, s>>
    [] c = ".." -> IF s # <<>> THEN <<u, Front(s)>> ELSE IF a THEN <<u, s>> ELSE <<u + 1, s>>
    [] OTHER    -> <<u, Append(s, c)>>

Read(c) ==
  /\ Len(comps) < MaxLen
  /\ comps' = Append(comps, c)
  /\ ups' = Down(ups, stk, abs, c)[1] /\ stk' = Down(ups, stk, abs, c)[2]
  /\ abs' = abs

Next == \E c \in Names \cup {".", ".."} : Read(c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What a path denotes: <<absolute, levels up, way down>>.
RECURSIVE Walk(_, _, _)
Walk(loc, a, cs) == IF cs = <<>> THEN loc ELSE Walk(Down(loc[1], loc[2], a, Head(cs)), a, Tail(cs))
Denote(a, cs) == LET l == Walk(<<0, <<>>>>, a, cs) IN <<a, l[1], l[2]>>

\* Following path (a, cs) from a location.
Follow(loc, a, cs) == IF a THEN Denote(a, cs)
                      ELSE LET l == Walk(<<loc[2], loc[3]>>, loc[1], cs) IN <<loc[1], l[1], l[2]>>

Dots(n) == [i \in 1..n |-> ".."]
Canon(a, cs) == LET l == Denote(a, cs) IN Dots(l[2]) \o l[3]

NoDot(cs) == SelectSeq(cs, LAMBDA c : c # ".")

IsCanon(a, cs) ==
  \E n \in 0..Len(cs) :
     /\ \A i \in 1..n : cs[i] = ".."
     /\ \A i \in (n + 1)..Len(cs) : cs[i] \notin {".", ".."}
     /\ a => n = 0

\* A relative path from base to target exists lexically (within the same kind of paths).
HasRel(a, cs, ba, bcs) ==
  IF a # ba THEN a
  ELSE Denote(ba, bcs)[2] <= Denote(a, cs)[2]

-----------------------------------------------------------------------------
Denotes       == Denote(abs, comps) = <<abs, ups, stk>>
CanonDenotes  == Denote(abs, Canon(abs, comps)) = Denote(abs, comps)
CanonIsCanon  == IsCanon(abs, Canon(abs, comps))
CanonFixed    == Canon(abs, Canon(abs, comps)) = Canon(abs, comps)
NoDotDenotes  == Denote(abs, NoDot(comps)) = Denote(abs, comps)
\* The canonical form is the only canonical path to its location.
CanonUnique   == IsCanon(abs, comps) => comps = Canon(abs, comps)
Resolution    == [][\A c \in {comps'[Len(comps')]} : Denote(abs', comps') = Follow(<<abs, ups, stk>>, FALSE, <<c>>)]_vars

Emit == PrintT(ToJson([a |-> abs, c |-> comps]))
EmitInv == Emit
=============================================================================
