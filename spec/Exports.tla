------------------------------ MODULE Exports -------------------------------
(* Exporting what is compiled. A compilation whose cause calls for it is handed to a queue with one worker: what waits for a project is
   replaced by a later result of that project. An export takes as long as it takes; the editor goes on meanwhile. Projects may have the
   same main file, and then write the same file.

   What the user relies on: a file exported never goes back to something older, and once the worker has nothing more to do every file is
   what the last result for it was. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Projects, Shared,   \* Shared: the projects with one and the same main file
          Most, None,
          PerProject,         \* what waits for a project is compared with results of that project only
          Requeues,           \* a later result goes to the end of the queue
          OneQueue            \* the queue outlives a reload of the projects
VARIABLES
  rev,       \* [Projects -> revision of the last result]
  now,       \* how many results there have been
  queue,     \* what waits: [p, rev, c]
  busy,      \* what the worker writes, or None
  old,       \* what the workers of earlier queues still have to do
  file,      \* [files -> what was written last]
  last,      \* [files -> the last result for it]
  act
vars == <<rev, now, queue, busy, old, file, last, act>>
File(p) == IF p \in Shared THEN "shared" ELSE p
Files == {File(p) : p \in Projects}

Init == /\ rev = [p \in Projects |-> 1] /\ now = 0 /\ queue = <<>> /\ busy = None /\ old = {}
        /\ file = [f \in Files |-> 0] /\ last = file /\ act = [op |-> "init"]

Take(q) == IF q = <<>> THEN busy' = None /\ queue' = q ELSE busy' = Head(q) /\ queue' = Tail(q)
Without(q, p) == SelectSeq(q, LAMBDA t : t.p # p)
(* A result of p at revision r is handed in. *)
Queued(p, r) ==
  LET t == [p |-> p, rev |-> r, c |-> now']
      hit == {i \in DOMAIN queue : PerProject => queue[i].p = p} IN
  IF hit = {} THEN Append(queue, t)
  ELSE LET i == CHOOSE i \in hit : TRUE IN
       IF queue[i].rev >= r THEN queue
       ELSE IF Requeues /\ PerProject THEN Append(Without(queue, p), t) ELSE [queue EXCEPT ![i] = t]
(* p's main file is edited and compiled; d: revisions that gave no result in between. *)
Compile(p, d) ==
  /\ now < Most /\ now' = now + 1
  /\ rev' = [rev EXCEPT ![p] = @ + d]
  /\ last' = [last EXCEPT ![File(p)] = now']
  /\ LET q == Queued(p, rev'[p]) IN IF busy = None THEN Take(q) ELSE queue' = q /\ UNCHANGED busy
  /\ UNCHANGED <<old, file>>
  /\ act' = [op |-> "compile", p |-> p, d |-> d]
Finish ==
  /\ busy # None
  /\ file' = [file EXCEPT ![File(busy.p)] = busy.c] /\ Take(queue)
  /\ UNCHANGED <<rev, now, old, last>> /\ act' = [op |-> "export"]
(* The configuration changes: the projects are made anew, and compile. *)
Reload ==
  /\ now < Most /\ ~OneQueue
  /\ old' = old \cup {(IF busy = None THEN <<>> ELSE <<busy>>) \o queue}
  /\ busy' = None /\ queue' = <<>>
  /\ UNCHANGED <<rev, now, file, last>> /\ act' = [op |-> "reload"]
FinishOld ==
  \E q \in old : /\ q # <<>>
                 /\ file' = [file EXCEPT ![File(Head(q).p)] = Head(q).c]
                 /\ old' = (old \ {q}) \cup {Tail(q)}
                 /\ UNCHANGED <<rev, now, queue, busy, last>> /\ act' = [op |-> "export"]
Next == (\E p \in Projects, d \in 1..3 : Compile(p, d)) \/ Finish \/ Reload \/ FinishOld
Spec == Init /\ [][Next]_vars

AtRest == busy = None /\ queue = <<>> /\ old \subseteq {<<>>}
UpToDate == AtRest => file = last
Forward == [][\A f \in Files : file'[f] >= file[f]]_vars
(* The worker never idles while something waits, and there is at most one thing waiting for a project. *)
Works == (busy = None => queue = <<>>) /\ \A p \in Projects : Cardinality({i \in DOMAIN queue : queue[i].p = p}) <= 1
=============================================================================
