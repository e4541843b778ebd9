--------------------------- MODULE AtomicWrite ---------------------------
(***************************************************************************)
(* Writers replacing one file atomically, step by step, with I/O errors    *)
(* and crashes at any step.  The target is seen by readers at all times.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Writers, Chunks, HadOld, Faulty

VARIABLES target,   \* [who |-> 0 absent, -1 old content, w: content of w;  kept |-> mode is the old one]
          tmp,      \* tmp[w]: chunks in w's temporary file, or -1
          perm,     \* perm[w]: what w knows of the permissions: "unread", "known", "blind", "set"
          pc        \* "idle", "run", "done", "fail", "ok", "err", "dead"
vars == <<target, tmp, perm, pc>>

Init ==
  /\ target = [who |-> IF HadOld THEN -1 ELSE 0, kept |-> TRUE]
  /\ tmp = [w \in Writers |-> -1]
  /\ perm = [w \in Writers |-> "unread"]
  /\ pc = [w \in Writers |-> "idle"]

Begin(w) ==
  /\ pc[w] = "idle" /\ pc' = [pc EXCEPT ![w] = "run"]
  /\ \E b \in (IF Faulty THEN {"known", "blind"} ELSE {"known"}) : perm' = [perm EXCEPT ![w] = b]
  /\ UNCHANGED <<target, tmp>>

Create(w) ==
  /\ pc[w] = "run" /\ tmp[w] = -1 /\ tmp' = [tmp EXCEPT ![w] = 0]
  /\ UNCHANGED <<target, perm, pc>>

WriteChunk(w) ==
  /\ pc[w] = "run" /\ tmp[w] \in 0..(Chunks - 1) /\ tmp' = [tmp EXCEPT ![w] = @ + 1]
  /\ UNCHANGED <<target, perm, pc>>

SetPerm(w) ==
  /\ pc[w] = "run" /\ tmp[w] >= 0 /\ perm[w] = "known" /\ perm' = [perm EXCEPT ![w] = "set"]
  /\ UNCHANGED <<target, tmp, pc>>

\* The only step that changes what readers see.
Publish(w) ==
  /\ pc[w] = "run" /\ tmp[w] = Chunks /\ perm[w] \in {"set", "blind"}
  /\ target' = [who |-> w, kept |-> perm[w] = "set"]
  /\ tmp' = [tmp EXCEPT ![w] = -1] /\ pc' = [pc EXCEPT ![w] = "done"]
  /\ UNCHANGED perm

Fail(w) ==
  /\ Faulty /\ pc[w] \in {"run", "done"} /\ pc' = [pc EXCEPT ![w] = "fail"]
  /\ UNCHANGED <<target, tmp, perm>>

CleanUp(w) ==
  /\ pc[w] = "fail" /\ tmp[w] >= 0 /\ tmp' = [tmp EXCEPT ![w] = -1]
  /\ UNCHANGED <<target, perm, pc>>

Return(w) ==
  /\ \/ pc[w] = "done" /\ pc' = [pc EXCEPT ![w] = "ok"]
     \/ pc[w] = "fail" /\ tmp[w] = -1 /\ pc' = [pc EXCEPT ![w] = "err"]
  /\ UNCHANGED <<target, tmp, perm>>

Crash(w) ==
  /\ Faulty /\ pc[w] \in {"idle", "run", "done", "fail"} /\ pc' = [pc EXCEPT ![w] = "dead"]
  /\ UNCHANGED <<target, tmp, perm>>

Act(w) == \/ Begin(w) \/ Create(w) \/ WriteChunk(w) \/ SetPerm(w) \/ Publish(w)
          \/ Fail(w) \/ CleanUp(w) \/ Return(w) \/ Crash(w)
Next == \E w \in Writers : Act(w)
Fair == \A w \in Writers : WF_vars(Begin(w) \/ Create(w) \/ WriteChunk(w) \/ SetPerm(w) \/ Publish(w) \/ CleanUp(w) \/ Return(w))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
\* Old state or a complete new content; absent only if nothing was ever written.
Whole == target.who \in (IF HadOld THEN {-1} ELSE {0}) \cup Writers
\* A complete content is there because its writer got that far.
Earned == target.who \in Writers => pc[target.who] \in {"done", "fail", "ok", "err", "dead"}
OkWrote == (\E w \in Writers : pc[w] = "ok") => target.who \in Writers
LastWins == (\A w \in Writers : pc[w] \in {"ok", "idle"}) /\ (\E w \in Writers : pc[w] = "ok")
              => target.who \in {w \in Writers : pc[w] = "ok"}
NoLitter == \A w \in Writers : pc[w] \in {"ok", "err", "idle"} => tmp[w] = -1
ModeKept == (\A w \in Writers : perm[w] # "blind") => target.kept
\* Readers see changes only as whole replacements by some writer's complete content.
Atomic == [][target' # target => \E w \in Writers : target'.who = w /\ tmp[w] = Chunks]_vars
NeverBack == [][target'.who \notin {0, -1} \/ target' = target]_vars
Ends == \A w \in Writers : <>(pc[w] \in {"ok", "err", "dead"})
=============================================================================
