------------------------------ MODULE Compile -------------------------------
(* What a main file makes of a view of the files. A content is [lit |-> text of its own, inc |-> a file it includes or "", err |-> an
   error of its own or ""]; includes lead to later files only. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT None       \* no file, no buffer, no project
Empty == [lit |-> "", inc |-> "", err |-> ""]

RECURSIVE Reach(_, _)
Reach(v, f) == {f} \cup (IF v[f] = None THEN {} ELSE IF v[f].inc = "" THEN {} ELSE Reach(v, v[f].inc))
Result(v, main) == [f \in Reach(v, main) |-> v[f]]
(* Errors of a result: a file with an error of its own, and a missing file at the place that includes it. *)
Errors(r, main) ==
  {<<f, r[f].err>> : f \in {f \in DOMAIN r : IF r[f] = None THEN FALSE ELSE r[f].err # ""}}
    \cup {<<f, "missing">> : f \in {f \in DOMAIN r : IF r[f] = None THEN f = main
                                                    ELSE IF r[f].inc = "" THEN FALSE ELSE r[r[f].inc] = None}}
RECURSIVE Words(_, _)
(* The text of a result without errors. *)
Words(r, f) == (IF r[f].lit = "" THEN <<>> ELSE <<r[f].lit>>) \o (IF r[f].inc = "" THEN <<>> ELSE Words(r, r[f].inc))
Over(b, d) == [f \in DOMAIN b |-> IF b[f] # None THEN b[f] ELSE d[f]]
=============================================================================
