--------------------------- MODULE AtomicTrace ---------------------------
(* Checks what was observed after every system call of real writers.       *)
EXTENDS AtomicWrite, Sequences, Json

VARIABLES tr, i
Traces == JsonDeserialize("traces.json")
T == Traces[tr]

TInit ==
  /\ tr \in DOMAIN Traces /\ i = 0
  /\ target = [who |-> IF T.old THEN -1 ELSE 0, kept |-> TRUE]
  /\ tmp = [w \in Writers |-> -1] /\ perm = [w \in Writers |-> "unread"]
  /\ pc = [w \in Writers |-> "idle"]

E == T.ev[i + 1]

\* A fault the test put where the cleaning up happens may leave the temporary file behind.
Litter(w) == /\ T.litter /\ pc[w] = "fail" /\ pc' = [pc EXCEPT ![w] = "err"] /\ UNCHANGED <<target, tmp, perm>>

Hidden ==
  /\ i < Len(T.ev) /\ E.w > 0
  /\ Act(E.w) \/ Litter(E.w)
  /\ perm'[E.w] = "blind" => T.blind
  /\ UNCHANGED <<tr, i>>

Matches ==
  /\ target.who = E.who
  /\ E.same \/ ~target.kept
  /\ E.lit <=> (\E w \in Writers : tmp[w] >= 0)
  /\ E.intact
  /\ E.w > 0 => IF E.r = "" THEN pc[E.w] \in {"idle", "run", "done", "fail"} ELSE pc[E.w] = E.r

Observe == i < Len(T.ev) /\ Matches /\ i' = i + 1 /\ UNCHANGED <<vars, tr>>

TNext == Hidden \/ Observe
TSpec == TInit /\ [][TNext]_<<vars, tr, i>>

Report == /\ i = Len(T.ev) => PrintT(ToJson([acc |-> tr]))
          /\ T.diag => PrintT(ToJson([far |-> tr, i |-> i]))
=============================================================================
