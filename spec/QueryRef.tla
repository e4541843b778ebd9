----------------------------- MODULE QueryRef -----------------------------
(***************************************************************************)
(* Callers sharing one lazily computed value.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Callers, Outcomes, Given    \* Given: NoValue, or the outcome the cell starts with

NoValue == <<"none">>
Running == <<"running">>
Fresh == NoValue
TwoOutcomes == {<<"ok", 1>>, <<"err", 2>>}

VARIABLES st,    \* st[c]: "idle", "asked", "entered", "computing", "finishing", "answered", "looking", "looked", "showing"
          val,   \* val[c]: the outcome c is about to finish with, or to report
          cell,  \* NoValue, Running or the outcome
          runs   \* how often a computation was started
vars == <<st, val, cell, runs>>

Init == /\ st = [c \in Callers |-> "idle"] /\ val = [c \in Callers |-> NoValue]
        /\ cell = Given /\ runs = 0

Settled == cell \notin {NoValue, Running}

\* Visible: requests
Call(c)      == st[c] = "idle" /\ st' = [st EXCEPT ![c] = "asked"] /\ UNCHANGED <<val, cell, runs>>
Get(c)       == st[c] = "idle" /\ st' = [st EXCEPT ![c] = "looking"] /\ UNCHANGED <<val, cell, runs>>
Show(c)      == st[c] = "idle" /\ st' = [st EXCEPT ![c] = "showing"] /\ UNCHANGED <<val, cell, runs>>
Finish(c, o) == /\ st[c] = "computing" /\ st' = [st EXCEPT ![c] = "finishing"]
                /\ val' = [val EXCEPT ![c] = o] /\ UNCHANGED <<cell, runs>>

\* Hidden
Enter(c)  == /\ st[c] = "asked" /\ cell = NoValue
             /\ st' = [st EXCEPT ![c] = "entered"] /\ cell' = Running /\ runs' = runs + 1 /\ UNCHANGED val
Settle(c) == /\ st[c] = "finishing" /\ cell' = val[c] /\ st' = [st EXCEPT ![c] = "asked"] /\ UNCHANGED <<val, runs>>
Answer(c) == /\ st[c] = "asked" /\ Settled /\ val' = [val EXCEPT ![c] = cell]
             /\ st' = [st EXCEPT ![c] = "answered"] /\ UNCHANGED <<cell, runs>>
Look(c)   == /\ st[c] = "looking" /\ val' = [val EXCEPT ![c] = IF Settled THEN cell ELSE NoValue]
             /\ st' = [st EXCEPT ![c] = "looked"] /\ UNCHANGED <<cell, runs>>

\* Visible: results
Start(c)  == st[c] = "entered" /\ st' = [st EXCEPT ![c] = "computing"] /\ UNCHANGED <<val, cell, runs>>
Ret(c, o) == st[c] = "answered" /\ val[c] = o /\ st' = [st EXCEPT ![c] = "idle"] /\ UNCHANGED <<val, cell, runs>>
Got(c, o) == st[c] = "looked" /\ val[c] = o /\ st' = [st EXCEPT ![c] = "idle"] /\ UNCHANGED <<val, cell, runs>>
Shown(c)  == st[c] = "showing" /\ st' = [st EXCEPT ![c] = "idle"] /\ UNCHANGED <<val, cell, runs>>

Hidden(c) == Enter(c) \/ Settle(c) \/ Answer(c) \/ Look(c)
Out(c) == Start(c) \/ Ret(c, val[c]) \/ Got(c, val[c]) \/ Shown(c)
In(c) == Call(c) \/ Get(c) \/ Show(c) \/ \E o \in Outcomes : Finish(c, o)
Next == \E c \in Callers : Hidden(c) \/ Out(c) \/ In(c)

\* Nothing is on its way: callers wait only for a computation that is waiting itself.
Quiet == \A c \in Callers : st[c] \in {"idle", "computing"} \/ (st[c] = "asked" /\ cell = Running)

Fair == \A c \in Callers : WF_vars(Hidden(c)) /\ WF_vars(Out(c)) /\ WF_vars(\E o \in Outcomes : Finish(c, o))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
Once == runs <= 1 /\ (Given # NoValue => runs = 0)
OneRunner == Cardinality({c \in Callers : st[c] \in {"entered", "computing", "finishing"}}) <= 1
Waits == cell = Running <=> \E c \in Callers : st[c] \in {"entered", "computing", "finishing"}
SameAnswer == \A c \in Callers : st[c] = "answered" => val[c] = cell
NeverChanges == [][Settled => cell' = cell]_vars
LookNeverRuns == [][\A c \in Callers : st[c] \in {"looking", "looked"} => runs' = runs \/ \E d \in Callers : Enter(d)]_vars
Returns == \A c \in Callers : st[c] \in {"asked", "looking", "showing"} ~> st[c] = "idle"
=============================================================================
