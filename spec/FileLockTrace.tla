-------------------------- MODULE FileLockTrace --------------------------
EXTENDS FileLock, Json
VARIABLES tr, i
Traces == JsonDeserialize("traces.json")
T == Traces[tr]
E == T.ev[i + 1]
A == <<E.p, E.t>>

TInit == /\ tr \in DOMAIN Traces /\ i = 0
         /\ st = [a \in Agents |-> Idle]
         /\ file = [f \in Files |-> T.file[f]]

Seen == CASE E.e = "ask"     -> Ask(A, E.k, E.f)
          [] E.e = "drop"    -> Drop(A)
          [] E.e = "read?"   -> Read(A)
          [] E.e = "write"   -> Write(A, E.v)
          [] E.e = "kill"    -> Kill(E.p)
          [] E.e \in {"got", "busy", "err"} -> Result(A, E.e)
          [] E.e = "dropped" -> Dropped(A)
          [] E.e = "read"    -> IsRead(A, E.v)
          [] E.e = "wrote"   -> Written(A)
          [] E.e = "quiet"   -> Quiet /\ UNCHANGED vars
          [] OTHER           -> FALSE

TNext == /\ i < Len(T.ev) /\ tr' = tr
         /\ \/ Seen /\ i' = i + 1
            \/ (\E a \in Agents : Hidden(a)) /\ i' = i
TSpec == TInit /\ [][TNext]_<<vars, tr, i>>
Report == /\ i = Len(T.ev) => PrintT(ToJson([acc |-> tr]))
          /\ T.diag => PrintT(ToJson([far |-> tr, i |-> i]))
=============================================================================
