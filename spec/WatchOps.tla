------------------------------ MODULE WatchOps ------------------------------
(* What the actor that watches the files makes of what it finds. w is what it knows of a file: [known |-> whether it was asked about it,
   on |-> whether the system tells it of changes, prev |-> what it last told (Unk: nothing yet), st |-> "stable" or "empty": the file was
   found empty or gone, which may be an editor that is just writing it, and pay |-> what was found, to be told if it is still so when the
   recheck made at tick at comes]. *)
EXTENDS Compile
CONSTANTS Unk, PrevIsSent   \* it compares with what it last told, not with what it is waiting to tell
NoWatch == [known |-> FALSE, on |-> FALSE, prev |-> Unk, st |-> "stable", at |-> 0, pay |-> None]
(* Having found c at a tick: what it knows then, what it tells (Unk: nothing), and whether to recheck. *)
Suspicious(w, c, tick) == [w |-> [w EXCEPT !.st = "empty", !.at = tick, !.pay = c, !.prev = IF PrevIsSent THEN @ ELSE c], tell |-> Unk,
                           again |-> TRUE]
Tells(w, c) == [w |-> [w EXCEPT !.st = "stable", !.prev = c], tell |-> c, again |-> FALSE]
Quiet(w) == [w |-> w, tell |-> Unk, again |-> FALSE]
Looks(w, c, tick) ==
  IF w.prev = Unk THEN Tells(w, c)
  ELSE IF w.prev = None /\ c # None THEN Tells(w, c)
  ELSE IF c = None
  THEN IF w.st = "stable" THEN (IF PrevIsSent /\ w.prev = None THEN Quiet(w) ELSE Suspicious(w, c, tick))
       ELSE Quiet([w EXCEPT !.pay = c])
  ELSE IF w.prev = c THEN Quiet(IF PrevIsSent THEN [w EXCEPT !.st = "stable"] ELSE w)
  ELSE IF c = Empty THEN (IF w.st = "stable" THEN Suspicious(w, c, tick) ELSE Quiet(IF PrevIsSent THEN [w EXCEPT !.pay = c] ELSE w))
  ELSE Tells(w, c)
=============================================================================
