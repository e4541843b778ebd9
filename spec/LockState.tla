----------------------------- MODULE LockState -----------------------------
(***************************************************************************)
(* What a lock file says: documents and tasks by name, and routes, of      *)
(* which later ones take precedence. Changes replace what has their name.  *)
(***************************************************************************)
EXTENDS Sequences, FiniteSets, Integers, SequencesExt

Nothing == [docs |-> {}, tasks |-> {}, routes |-> <<>>]
Put(S, x) == {y \in S : y.id # x.id} \cup {x}
Move(s, x) == Append(SelectSeq(s, LAMBDA y : y.id # x.id), x)
\* c: sequences of documents, tasks and routes
Changed(s, c) == [docs |-> FoldLeft(Put, s.docs, c.docs), tasks |-> FoldLeft(Put, s.tasks, c.tasks), routes |-> FoldLeft(Move, s.routes, c.routes)]
ChangedAll(s, cs) == FoldLeft(Changed, s, cs)

OncePerName(s) == /\ \A S \in {s.docs, s.tasks} : \A x, y \in S : x.id = y.id => x = y
                  /\ \A i, j \in DOMAIN s.routes : s.routes[i].id = s.routes[j].id => i = j
=============================================================================
