----------------------------- MODULE TextsJudge -----------------------------
(* Judges what the real code takes positions for, what it says offsets are, and what is left of texts after changes. Known are texts with a
   character that ends lines for typst only: `own` is FALSE where a record agrees with typst's lines. *)
EXTENDS Texts, TLC, Json, SequencesExt
Rs == JsonDeserialize("traces.json")
Valid(t) == {i \in 0..Len(t) : ~Splits(t, i)}
At(bytes, t) == IF \E i \in 0..Len(t) : Bytes(t, i) = bytes THEN CHOOSE i \in 0..Len(t) : Bytes(t, i) = bytes ELSE 9999
(* at: [line, column, byte offset or -1]; is: [characters before, line, column]. *)
Positions(r) ==
  /\ \A k \in DOMAIN r.at : LET os == Offsets(r.t, <<r.at[k][1], r.at[k][2]>>, r.enc) IN
       IF r.at[k][3] = -1 THEN Cardinality(os) > 1 ELSE At(r.at[k][3], r.t) \in os
  /\ \A k \in DOMAIN r.is : r.is[k][1] \in Valid(r.t) => <<r.is[k][2], r.is[k][3]>> = Pos(r.t, r.is[k][1], r.enc)
RECURSIVE Follows(_, _, _)
Follows(t, steps, enc) ==
  IF steps = <<>> THEN TRUE
  ELSE Head(steps).now \in Applied(t, Head(steps).changes, enc) /\ Follows(Head(steps).now, Tail(steps), enc)
Good(r) == IF r.k = "positions" THEN Positions(r) ELSE Follows(r.t, r.steps, r.enc)
Bad == {i \in DOMAIN Rs : ~Good(Rs[i])}
ASSUME PrintT(ToJson([bad |-> SetToSeq(Bad), n |-> Len(Rs)]))
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
