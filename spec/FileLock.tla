----------------------------- MODULE FileLock -----------------------------
(***************************************************************************)
(* Threads of several processes locking files through Filesystem/FileLock. *)
(* Requests, results and deaths are visible; taking and releasing a lock   *)
(* happen somewhere between a request and its result.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs, Threads, Files, Vals

Agents == Procs \X Threads
Kinds == {"ex", "shc", "sh", "tryex", "trysh"}
Creating == Kinds \ {"sh"}
Trying == {"tryex", "trysh"}
Absent == "absent"
Empty == "empty"

VARIABLES st,     \* st[a] = [s |-> where a is, k |-> kind of its lock, f |-> file, v |-> result or value]
          file    \* content of every file
vars == <<st, file>>

Idle == [s |-> "idle", k |-> "", f |-> 0, v |-> ""]
Init == st = [a \in Agents |-> Idle] /\ file \in [Files -> {Absent, Empty} \cup Vals]

Excl(a) == st[a].k \in {"ex", "tryex"}
Holds(a, f) == /\ st[a].f = f
               /\ \/ st[a].s \in {"hold", "reading", "writing", "written", "dropping"}
                  \/ st[a].s = "result" /\ st[a].v = "got"
Conflict(a) == \E b \in Agents \ {a} : Holds(b, st[a].f) /\ (Excl(a) \/ Excl(b))

-----------------------------------------------------------------------------
\* Visible: requests
Ask(a, k, f) == st[a].s = "idle" /\ st' = [st EXCEPT ![a] = [s |-> "want", k |-> k, f |-> f, v |-> ""]] /\ UNCHANGED file
Drop(a)      == st[a].s = "hold" /\ st' = [st EXCEPT ![a].s = "dropping"] /\ UNCHANGED file
Read(a)      == st[a].s = "hold" /\ st' = [st EXCEPT ![a].s = "reading"] /\ UNCHANGED file
Write(a, v)  == st[a].s = "hold" /\ Excl(a) /\ st' = [st EXCEPT ![a].s = "writing", ![a].v = v] /\ UNCHANGED file
Kill(p)      == /\ \A t \in Threads : st[<<p, t>>].s # "writing"
                /\ st' = [a \in Agents |-> IF a[1] = p THEN Idle ELSE st[a]] /\ UNCHANGED file

\* Hidden
Make(a)    == /\ st[a].s = "want" /\ st[a].k \in Creating /\ file[st[a].f] = Absent
              /\ file' = [file EXCEPT ![st[a].f] = Empty] /\ UNCHANGED st
Take(a)    == /\ st[a].s = "want" /\ file[st[a].f] # Absent /\ ~Conflict(a)
              /\ st' = [st EXCEPT ![a].s = "result", ![a].v = "got"] /\ UNCHANGED file
Refuse(a)  == /\ st[a].s = "want" /\ st[a].k \in Trying /\ file[st[a].f] # Absent /\ Conflict(a)
              /\ st' = [st EXCEPT ![a].s = "result", ![a].v = "busy"] /\ UNCHANGED file
Miss(a)    == /\ st[a].s = "want" /\ st[a].k = "sh" /\ file[st[a].f] = Absent
              /\ st' = [st EXCEPT ![a].s = "result", ![a].v = "err"] /\ UNCHANGED file
Release(a) == st[a].s = "dropping" /\ st' = [st EXCEPT ![a].s = "dropped"] /\ UNCHANGED file
Put(a)     == /\ st[a].s = "writing" /\ file' = [file EXCEPT ![st[a].f] = st[a].v]
              /\ st' = [st EXCEPT ![a].s = "written"]

\* Visible: results
Result(a, v)  == /\ st[a].s = "result" /\ st[a].v = v
                 /\ st' = [st EXCEPT ![a] = IF v = "got" THEN [@ EXCEPT !.s = "hold"] ELSE Idle] /\ UNCHANGED file
Dropped(a)    == st[a].s = "dropped" /\ st' = [st EXCEPT ![a] = Idle] /\ UNCHANGED file
IsRead(a, v)  == st[a].s = "reading" /\ v = file[st[a].f] /\ st' = [st EXCEPT ![a].s = "hold"] /\ UNCHANGED file
Written(a)    == st[a].s = "written" /\ st' = [st EXCEPT ![a].s = "hold"] /\ UNCHANGED file

Hidden(a) == Make(a) \/ Take(a) \/ Refuse(a) \/ Miss(a) \/ Release(a) \/ Put(a)
Out(a)    == (\E v \in {"got", "busy", "err"} : Result(a, v)) \/ Dropped(a) \/ IsRead(a, file[st[a].f]) \/ Written(a)
In(a)     == (\E k \in Kinds, f \in Files : Ask(a, k, f)) \/ Drop(a) \/ Read(a) \/ \E v \in Vals : Write(a, v)
Next == (\E a \in Agents : Hidden(a) \/ (st[a].f \in Files /\ Out(a)) \/ In(a)) \/ \E p \in Procs : Kill(p)

\* Nothing is on its way: every request has its result, except the blocking ones that really conflict.
Quiet == \A a \in Agents : st[a].s \in {"idle", "hold"} \/ (st[a].s = "want" /\ st[a].k \notin Trying /\ Conflict(a))

Fair == \A a \in Agents : WF_vars(Make(a) \/ Refuse(a) \/ Miss(a) \/ Release(a) \/ Put(a)) /\ SF_vars(Take(a))
                          /\ WF_vars(st[a].f \in Files /\ Out(a)) /\ SF_vars(Drop(a))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
Exclusion == \A f \in Files : LET H == {a \in Agents : Holds(a, f)} IN
               (\E a \in H : Excl(a)) => Cardinality(H) = 1
TypeOK == \A a \in Agents : st[a].s = "idle" <=> st[a].f = 0
HeldExists == \A a \in Agents, f \in Files : Holds(a, f) => file[f] # Absent
OnlyExWrites == [][\A f \in Files : file'[f] # file[f] =>
                     \/ file[f] = Absent /\ file'[f] = Empty
                     \/ \E a \in Agents : Holds(a, f) /\ Excl(a)]_vars
TryReturns == \A a \in Agents : st[a].s = "want" /\ st[a].k \in Trying ~> st[a].s # "want"
BlockReturns == \A a \in Agents : st[a].s = "want" ~> st[a].s # "want"
=============================================================================
