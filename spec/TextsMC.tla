------------------------------ MODULE TextsMC -------------------------------
(* The editor changes its text and tells the server each change by positions; the server changes its own text there. *)
EXTENDS Texts
CONSTANTS Kinds, MaxLen, MaxEdits
VARIABLES mine, its, enc, n
vars == <<mine, its, enc, n>>
Texts(k) == UNION {[1..l -> Kinds] : l \in 0..k}
Init == /\ mine \in Texts(MaxLen) /\ its = mine /\ enc \in {"utf8", "utf16"} /\ n = 0
(* Some editors say "the next line" for the end of the text and a large column for the end of a line. *)
Says(i) == {Pos(mine, i, enc)}
           \cup (IF i = Len(mine) THEN {<<NLines(mine, TRUE), 0>>} ELSE {})
           \cup (LET l == LineOf(mine, i, TRUE) IN IF i = End(mine, l, TRUE) THEN {<<l, 99>>} ELSE {})
Change(i, j, with) ==
  /\ n < MaxEdits /\ n' = n + 1 /\ Len(mine) - (j - i) + Len(with) <= MaxLen
  /\ mine' = Splice(mine, i, j, with)
  /\ \E p \in Says(i), q \in Says(j) :
       its' = LET a == Server(its, p, enc) b == Server(its, q, enc) IN Splice(its, a, IF b < a THEN a ELSE b, with)
  /\ UNCHANGED enc
Replace(with) == n < MaxEdits /\ n' = n + 1 /\ mine' = with /\ its' = with /\ UNCHANGED enc
Next == \/ \E i, j \in 0..Len(mine) : i <= j /\ ~Splits(mine, i) /\ ~Splits(mine, j) /\ \E with \in Texts(1) : Change(i, j, with)
        \/ \E with \in Texts(1) : Replace(with)
Spec == Init /\ [][Next]_vars
Same == its = mine
(* A position said is one place, and the server takes it for that. *)
Agreed == \A i \in 0..Len(mine) : ~Splits(mine, i) => /\ Offsets(mine, Pos(mine, i, enc), enc) = {i}
                                                      /\ Server(mine, Pos(mine, i, enc), enc) = i
Allowed == \A l \in 0..(NLines(mine, TRUE) + 1), c \in 0..(4 * MaxLen) : Server(mine, <<l, c>>, enc) \in Offsets(mine, <<l, c>>, enc)
=============================================================================
