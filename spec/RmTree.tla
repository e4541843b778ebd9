------------------------------ MODULE RmTree ------------------------------
(***************************************************************************)
(* Removing a directory tree, or the siblings of a lock file, in a file    *)
(* system with links and unwritable directories.                           *)
(*                                                                         *)
(* Node 1 is named in the call.  Nodes 2 (a file), 3 (a directory) and 4   *)
(* (a file in 3) lie outside; nodes above 4 lie somewhere below node 1.    *)
(* Kinds: f file, r read-only file, d directory, o directory that cannot   *)
(* be written, x directory that cannot be listed, l symbolic link to node  *)
(* t (0: to nothing).                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS N,          \* highest node
          RootKinds, InnerKinds, Ops, Users, Explore

VARIABLES par, kind, tgt, op, user, alive, res
vars == <<par, kind, tgt, op, user, alive, res>>
Nodes == 1..N
Inner == 5..N
Dirs == {"d", "o", "x"}

Init ==
  /\ \E rk \in RootKinds, ik \in [Inner -> InnerKinds] :
        kind = [n \in Nodes |-> IF n = 1 THEN rk ELSE IF n = 2 THEN "r" ELSE IF n = 3 THEN "o" ELSE IF n = 4 THEN "r" ELSE ik[n]]
  /\ \E ip \in [Inner -> {1} \cup Inner] :
        /\ \A n \in Inner : ip[n] < n /\ kind[ip[n]] \in Dirs
        /\ par = [n \in Nodes |-> IF n \in Inner THEN ip[n] ELSE IF n = 4 THEN 3 ELSE 0]
  /\ \E t \in [{1} \cup Inner -> 0..N] :
        /\ \A n \in {1} \cup Inner : kind[n] # "l" => t[n] = 0
        /\ tgt = [n \in Nodes |-> IF n \in {1} \cup Inner THEN t[n] ELSE 0]
  /\ op \in Ops /\ user \in Users
  /\ op = "siblings" => kind[1] \in {"d", "o"}
  /\ alive = Nodes /\ res = "-"

RECURSIVE Below(_)
Below(n) == LET cs == {m \in DOMAIN par : par[m] = n} IN cs \cup UNION {Below(m) : m \in cs}

Victims == CASE op = "tree"     -> {1} \cup Below(1)
             [] op = "siblings" -> Below(1)
             [] op = "file"     -> IF kind[1] \in Dirs THEN {} ELSE {1}

Permit(n) == IF user = "root" \/ par[n] = 0 THEN TRUE ELSE kind[par[n]] # "o"
Visible(n) == IF user = "root" \/ par[n] = 0 THEN TRUE ELSE kind[par[n]] # "x"

\* Links are never followed: what counts is where a node is, not what points to it.
Unlink(n) ==
  /\ res = "-" /\ n \in alive \cap Victims
  /\ \A m \in alive : par[m] # n
  /\ Permit(n) /\ Visible(n)
  /\ alive' = alive \ {n} /\ UNCHANGED <<par, kind, tgt, op, user, res>>

\* It gives up only at something in its way.
Hindered(n) == ~Permit(n) \/ ~Visible(n) \/ (user # "root" /\ kind[n] = "x")
Hindrance == \/ op = "file" /\ kind[1] \in Dirs
             \/ op = "tree" /\ kind[1] \in {"f", "r"}
             \/ \E n \in alive \cap Victims : Hindered(n)
Finish ==
  /\ res = "-"
  /\ \/ alive \cap Victims = {} /\ ~(op = "file" /\ kind[1] \in Dirs) /\ res' = "ok"
     \/ Hindrance /\ res' = "err"
  /\ UNCHANGED <<par, kind, tgt, op, user, alive>>

Next == Explore /\ (Finish \/ \E n \in DOMAIN par : Unlink(n))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Outside == {2, 3, 4} \subseteq alive
ClosedUpwards == \A n \in alive : par[n] # 0 => par[n] \in alive
OkIsAll == res = "ok" => alive = Nodes \ Victims
RootCanAll == user = "root" /\ res = "err" => op = "file" \/ kind[1] \in {"f", "r"}
LockDirStays == op = "siblings" => 1 \in alive
Ends == Explore => <>(res # "-")
EmitInv == res = "-" /\ alive = Nodes =>
   PrintT(ToJson([par |-> par, kind |-> kind, tgt |-> tgt, op |-> op, user |-> user]))
=============================================================================
