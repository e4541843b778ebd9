------------------------------ MODULE FpBuilder ------------------------------
(***************************************************************************)
(* A fingerprint builder: an item gets a short fingerprint (its fast hash) *)
(* if it is the first with that hash, and the full one otherwise.  Many    *)
(* threads resolve items at once.  Looking up who owns a short fingerprint *)
(* and claiming it is one step; with Split it is two, and then two items   *)
(* can end up with the same fingerprint.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Items, Threads, Steps, Fast(_), Split
VARIABLES owner, at, res, left
vars == <<owner, at, res, left>>
Hashes == {Fast(i) : i \in Items}

Init == /\ owner = [h \in Hashes |-> 0]
        /\ at = [t \in Threads |-> 0]       \* item found unowned (Split only)
        /\ res = {}
        /\ left = [t \in Threads |-> Steps]
Give(t, i, f) == res' = res \cup {<<i, f>>} /\ left' = [left EXCEPT ![t] = @ - 1]
Short(i) == <<Fast(i), 0>>
Full(i) == <<i, 1>>
Resolve(t, i) ==
  /\ left[t] > 0 /\ at[t] = 0
  /\ CASE owner[Fast(i)] = i -> Give(t, i, Short(i)) /\ UNCHANGED <<owner, at>>
       [] owner[Fast(i)] = 0 ->
            IF Split THEN at' = [at EXCEPT ![t] = i] /\ UNCHANGED <<owner, res, left>>
            ELSE owner' = [owner EXCEPT ![Fast(i)] = i] /\ Give(t, i, Short(i)) /\ UNCHANGED at
       [] OTHER -> Give(t, i, Full(i)) /\ UNCHANGED <<owner, at>>
Put(t) ==
  /\ at[t] # 0
  /\ owner' = [owner EXCEPT ![Fast(at[t])] = at[t]]
  /\ Give(t, at[t], Short(at[t])) /\ at' = [at EXCEPT ![t] = 0]
Next == \E t \in Threads : Put(t) \/ \E i \in Items : Resolve(t, i)
Spec == Init /\ [][Next]_vars

Unique == \A x, y \in res : (x[1] = y[1]) <=> (x[2] = y[2])
OwnerKept == [][\A h \in Hashes : owner[h] # 0 => owner'[h] = owner[h]]_vars
FastMod(i) == i % 2
=============================================================================
