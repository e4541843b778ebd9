---------------------------- MODULE QueryTrace ----------------------------
EXTENDS QueryRef, Json
VARIABLES tr, i
Traces == JsonDeserialize("traces.json")
T == Traces[tr]
E == T.ev[i + 1]

TInit == /\ tr \in DOMAIN Traces /\ i = 0
         /\ st = [c \in Callers |-> "idle"] /\ val = [c \in Callers |-> NoValue]
         /\ cell = T.given /\ runs = 0

Seen == CASE E.e = "call"   -> Call(E.c)
          [] E.e = "get"    -> Get(E.c)
          [] E.e = "show"   -> Show(E.c)
          [] E.e = "finish" -> Finish(E.c, E.o)
          [] E.e = "start"  -> Start(E.c) /\ E.ctx
          [] E.e = "ret"    -> Ret(E.c, E.o) /\ E.at
          [] E.e = "got"    -> Got(E.c, E.o) /\ E.at
          [] E.e = "shown"  -> Shown(E.c)
          [] E.e = "quiet"  -> Quiet /\ UNCHANGED vars
          [] OTHER          -> FALSE

TNext == /\ i < Len(T.ev) /\ tr' = tr
         /\ \/ Seen /\ i' = i + 1
            \/ (\E c \in Callers : Hidden(c)) /\ i' = i
TSpec == TInit /\ [][TNext]_<<vars, tr, i>>
Report == /\ i = Len(T.ev) => PrintT(ToJson([acc |-> tr]))
          /\ T.diag => PrintT(ToJson([far |-> tr, i |-> i]))
=============================================================================
