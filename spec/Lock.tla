-------------------------------- MODULE Lock --------------------------------
(***************************************************************************)
(* Processes that change and read one lock file. A change reads the file,  *)
(* makes a new content of what it read, and writes that over the old one,  *)
(* which has no moment at which both are there. A file that somebody else  *)
(* has written, which cannot be read, is left as it is.                    *)
(***************************************************************************)
EXTENDS LockState, TLC
CONSTANTS Procs, Changes, N, Locks   \* how often every process does something; whether they lock the file meanwhile
VARIABLES file, \* a content, or what it is instead of one
          st,   \* st[p]: what p is doing, and with what
          n,    \* how often p has done something
          done, \* the changes that were made since the file was put
          base  \* what the file was then
vars == <<file, st, n, done, base>>

No == [is |-> "none", s |-> Nothing]
Bad == [is |-> "bad", s |-> Nothing]
Cut == [is |-> "cut", s |-> Nothing]
Of(s) == [is |-> "ok", s |-> s]
Idle == [at |-> "idle", c |-> <<>>, saw |-> No, fails |-> FALSE]

\* Small changes to check with.
Doc(i, v) == [id |-> i, v |-> v]
MCChanges == {[docs |-> <<Doc("a", 1)>>, tasks |-> <<>>, routes |-> <<Doc("a", 1)>>],
              [docs |-> <<Doc("a", 2)>>, tasks |-> <<[id |-> "a", doc |-> "a", v |-> 1]>>, routes |-> <<>>],
              [docs |-> <<>>, tasks |-> <<>>, routes |-> <<Doc("b", 1)>>]}

Init == /\ base \in {No, Bad} /\ file = base /\ done = <<>>
        /\ st = [p \in Procs |-> Idle] /\ n = [p \in Procs |-> 0]

Holds(p) == st[p].at \in {"ex", "read", "cutting", "sh", "seen"}
May(p, k) == ~Locks \/ \A q \in Procs \ {p} : Holds(q) => k = "sh" /\ st[q].at \in {"sh", "seen"}
To(p, s) == st' = [st EXCEPT ![p] = s]

Change(p, c, f) == /\ st[p].at = "idle" /\ n[p] < N /\ May(p, "ex")
                   /\ To(p, [at |-> "ex", c |-> c, saw |-> No, fails |-> f])
                   /\ n' = [n EXCEPT ![p] = @ + 1] /\ UNCHANGED <<file, done, base>>
Look(p) == st[p].at = "ex" /\ To(p, [st[p] EXCEPT !.at = "read", !.saw = file]) /\ UNCHANGED <<file, n, done, base>>
\* Nothing is written where the content could not be read, the change failed or changed nothing.
New(p) == Changed(st[p].saw.s, st[p].c)
Same(p) == st[p].saw = Of(New(p))
GiveUp(p) == /\ st[p].at = "read" /\ (st[p].saw.is \in {"bad", "cut"} \/ st[p].fails \/ Same(p))
             /\ done' = IF Same(p) /\ ~st[p].fails THEN Append(done, st[p].c) ELSE done
             /\ To(p, Idle) /\ UNCHANGED <<file, n, base>>
Begin(p) == /\ st[p].at = "read" /\ st[p].saw.is \in {"none", "ok"} /\ ~st[p].fails /\ ~Same(p)
            /\ file' = Cut /\ To(p, [st[p] EXCEPT !.at = "cutting"]) /\ UNCHANGED <<n, done, base>>
Write(p) == /\ st[p].at = "cutting" /\ file' = Of(New(p)) /\ done' = Append(done, st[p].c)
            /\ To(p, Idle) /\ UNCHANGED <<n, base>>
Read(p) == /\ st[p].at = "idle" /\ n[p] < N /\ May(p, "sh")
           /\ To(p, [Idle EXCEPT !.at = "sh"]) /\ n' = [n EXCEPT ![p] = @ + 1] /\ UNCHANGED <<file, done, base>>
See(p) == st[p].at = "sh" /\ To(p, [st[p] EXCEPT !.at = "seen", !.saw = file]) /\ UNCHANGED <<file, n, done, base>>
End(p) == st[p].at = "seen" /\ To(p, Idle) /\ UNCHANGED <<file, n, done, base>>
Next == \E p \in Procs : \/ \E c \in Changes, f \in BOOLEAN : Change(p, c, f)
                         \/ Look(p) \/ GiveUp(p) \/ Begin(p) \/ Write(p) \/ Read(p) \/ See(p) \/ End(p)
Spec == Init /\ [][Next]_vars

\* Nothing that was made is lost, and nothing else is there.
Kept == file # Cut => IF done = <<>> THEN file = base ELSE file = Of(ChangedAll(Nothing, done))
Whole == \A p \in Procs : st[p].at \in {"seen", "read"} => st[p].saw # Cut
Unreadable == base = Bad => file = Bad
Once == OncePerName(file.s)
\* What was changed last takes precedence.
Newest == \A i \in DOMAIN done : LET c == done[i].routes IN
            (\A k \in i + 1 .. Len(done) : done[k].routes = <<>>) /\ c # <<>> /\ file # Cut => Last(file.s.routes) = Last(c)
=============================================================================
