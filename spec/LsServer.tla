---------------------------- MODULE LsServer ----------------------------
(***************************************************************************)
(* A session of the sync-ls language server / debug adapter driver.        *)
(*                                                                         *)
(* One action per critical section of the code: the driver thread handles  *)
(* one inbox message or internal event per step (register, dispatch,       *)
(* synchronous answer); an asynchronous handler's completion is a separate *)
(* step of its task; a "late" answer is one given through the client       *)
(* handle by hand; server->client requests and notifications are steps of  *)
(* whatever thread sends them.                                             *)
(*                                                                         *)
(* `act` records the step taken and what a client, or a handler, observes  *)
(* of it (act.o); it is what conformance compares with the implementation  *)
(* and is hidden by VIEW.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Proto,       \* "lsp" or "dap"
  Ids,         \* ids the client draws its request ids from
  MaxOut,      \* bound on server->client requests
  ReqKinds,    \* kinds of client request (see Outcome)
  NoteKinds,   \* kinds of client notification
  EvKinds,     \* kinds of internal event
  HasShutdown, \* is a handler registered for shutdown / disconnect?
  Replay,      \* does the session run in replay mode?
  CanGiveUp,   \* can the replay timeout pass?
  Linger       \* do client handles outlive the connection?

VARIABLES
  phase,   \* "uninit" | "initializing" | "ready" | "shutting" | "ended" | "failed" | "returned" | "closed"
  pend,    \* [Ids -> {"free","async","late"}]: answered/unused, or who owes the answer
  nout,    \* next id for a server->client request
  outp,    \* ids of unanswered server->client requests
  births,  \* number of times the service was created
  owed,    \* history: [Ids -> Nat], requests received minus answers sent, per id
  act

vars == <<phase, pend, nout, outp, births, owed, act>>
View == [phase |-> phase, pend |-> pend, nout |-> nout, outp |-> outp]

NotInit    == "not_init"     \* -32002
InvalidReq == "invalid_req"  \* -32600
NoMethod   == "no_method"    \* -32601
BadParams  == "bad_params"   \* -32602
Failed     == "failed"       \* the error the handler itself gives

Alive == phase \notin {"ended", "failed", "returned", "closed"}

(***************************************************************************)
(* What a request of a kind does in a running session: which handler is    *)
(* called (or "none") and how it is answered: "ok", "null", an error, or   *)
(* "async"/"late" when the answer comes from a later step.                 *)
(***************************************************************************)
Outcome(k) ==
  CASE k = "ok"          -> [h |-> "req",    r |-> "ok"]
    [] k = "err"         -> [h |-> "req",    r |-> Failed]
    [] k = "reject"      -> [h |-> "req",    r |-> Failed]
    [] k = "async"       -> [h |-> "req",    r |-> "async"]
    [] k = "null"        -> [h |-> "raw",    r |-> "null"]
    [] k = "late"        -> [h |-> "raw",    r |-> "late"]
    [] k = "rawerr"      -> [h |-> "raw",    r |-> Failed]
    [] k = "tnull"       -> [h |-> "treq",   r |-> "null"]
    [] k = "tlate"       -> [h |-> "treq",   r |-> "late"]
    [] k = "bad"         -> [h |-> "none",   r |-> InvalidReq]
    [] k = "tbad"        -> [h |-> "none",   r |-> InvalidReq]
    [] k = "unknown"     -> [h |-> "none",   r |-> NoMethod]
    [] k = "cmd"         -> [h |-> "cmd",    r |-> "ok"]
    [] k = "cmdasync"    -> [h |-> "cmd",    r |-> "async"]
    [] k = "cmderr"      -> [h |-> "cmd",    r |-> Failed]
    [] k = "rawcmd"      -> [h |-> "rawcmd", r |-> "null"]
    [] k = "rawcmdlate"  -> [h |-> "rawcmd", r |-> "late"]
    [] k = "cmdunknown"  -> [h |-> "none",   r |-> NoMethod]
    [] k = "cmdbad"      -> [h |-> "none",   r |-> BadParams]
    [] k = "res"         -> [h |-> "res",    r |-> "ok"]
    [] k = "resasync"    -> [h |-> "res",    r |-> "async"]
    [] k = "rawres"      -> [h |-> "rawres", r |-> "null"]
    [] k = "resunknown"  -> [h |-> "none",   r |-> NoMethod]
    [] k = "resbad"      -> [h |-> "none",   r |-> BadParams]
    [] k = "resempty"    -> [h |-> "none",   r |-> BadParams]

InitKinds     == {"init", "initasync", "initerr", "initbad"}
ShutdownKinds == {"shutdown", "shutasync", "shuterr"}

\* observations
Call(h, i) == [e |-> "call", h |-> h, i |-> i]
Resp(i, r) == [e |-> "resp", i |-> i, r |-> r]

(***************************************************************************)
(* The step common to all requests: register, maybe call, maybe answer.    *)
(***************************************************************************)
Serve(i, h, r) ==
  /\ IF r \in {"async", "late"}
     THEN /\ pend' = [pend EXCEPT ![i] = r]
          /\ owed' = [owed EXCEPT ![i] = @ + 1]
     ELSE /\ pend' = pend
          /\ owed' = owed          \* +1 registered, -1 answered
  /\ UNCHANGED <<nout, outp>>

Obs(i, h, r) ==
  (IF h = "none" THEN <<>> ELSE <<Call(h, i)>>) \o
  (IF r \in {"async", "late"} THEN <<>> ELSE <<Resp(i, r)>>)

Request(i, k) ==
  /\ Alive /\ pend[i] = "free"
  /\ LET reject(r) ==
           /\ Serve(i, "none", r)
           /\ UNCHANGED <<phase, births>>
           /\ act' = [n |-> "Request", i |-> i, k |-> k, o |-> Obs(i, "none", r)]
         take(h, r, ph, b) ==
           /\ Serve(i, h, r)
           /\ phase' = ph /\ births' = b
           /\ act' = [n |-> "Request", i |-> i, k |-> k, o |-> Obs(i, h, r)]
     IN CASE k \in InitKinds ->
               IF phase = "uninit"
               THEN IF k = "initbad" THEN reject(InvalidReq)
                    ELSE take("init",
                              IF k = "init" THEN "ok" ELSE IF k = "initasync" THEN "async" ELSE Failed,
                              IF Proto = "lsp" THEN "initializing" ELSE "ready",
                              births + 1)
               ELSE IF phase = "initializing" THEN reject(NotInit)
               ELSE reject(InvalidReq)
          [] k \notin InitKinds /\ phase \in {"uninit", "initializing"} -> reject(NotInit)
          [] k \notin InitKinds /\ phase = "shutting" -> reject(InvalidReq)
          [] k \in ShutdownKinds /\ phase = "ready" ->
               IF HasShutdown
               THEN take("shutdown",
                         IF k = "shutdown" THEN "null" ELSE IF k = "shutasync" THEN "async" ELSE Failed,
                         "shutting", births)
               ELSE reject(NoMethod)
          [] OTHER -> take(Outcome(k).h, Outcome(k).r, "ready", births)

(***************************************************************************)
(* Answers given outside the driver thread.                                *)
(***************************************************************************)
Answer(i, how, r) ==
  /\ pend[i] = how
  /\ Alive \/ (Replay /\ phase \in {"ended", "failed"})   \* otherwise the session is returning already
  /\ pend' = [pend EXCEPT ![i] = "free"]
  /\ owed' = [owed EXCEPT ![i] = @ - 1]
  /\ act' = [n |-> "Answer", i |-> i, k |-> how, r |-> r, o |-> <<Resp(i, r)>>]
  /\ UNCHANGED <<phase, nout, outp, births>>

\* Answering again, or answering an id never asked: nothing is sent.
AnswerAgain(i) ==
  /\ Alive /\ pend[i] = "free"
  /\ act' = [n |-> "AnswerAgain", i |-> i, k |-> "again", o |-> <<>>]
  /\ UNCHANGED <<phase, pend, nout, outp, births, owed>>

(***************************************************************************)
(* Client notifications (DAP: events).                                     *)
(***************************************************************************)
Note(k) ==
  /\ Alive
  /\ LET obs == CASE k \in {"note", "notefail"} -> <<Call("note", 0)>>
                  [] k = "rawnote" -> <<Call("rawnote", 0)>>
                  [] k = "initialized" -> <<Call("initialized", 0)>>
                  [] OTHER -> <<>>
         ph == IF k = "initialized" /\ phase = "initializing" THEN "ready"
               ELSE IF k = "exit" THEN "ended" ELSE phase
         runs == phase = "ready" \/ ph = "ready"
     IN /\ phase' = ph
        /\ act' = [n |-> "Note", k |-> k,
                   o |-> (IF runs THEN obs ELSE <<>>) \o
                         (IF k = "exit" THEN <<[e |-> "end", r |-> "ok"]>> ELSE <<>>)]
  /\ UNCHANGED <<pend, nout, outp, births, owed>>

(***************************************************************************)
(* Client answers to server requests; j outside outp is a bogus answer,    *)
(* "str" one with an id of the other type.                                 *)
(***************************************************************************)
Response(j) ==
  /\ Alive
  /\ LET hit == phase = "ready" /\ j \in outp
     IN /\ outp' = IF hit THEN outp \ {j} ELSE outp
        /\ act' = [n |-> "Response", i |-> j, o |-> IF hit THEN <<[e |-> "cont", i |-> j]>> ELSE <<>>]
  /\ UNCHANGED <<phase, pend, nout, births, owed>>

BogusResponse ==
  /\ Alive
  /\ act' = [n |-> "BogusResponse", o |-> <<>>]
  /\ UNCHANGED <<phase, pend, nout, outp, births, owed>>

(***************************************************************************)
(* The server talks to the client.                                         *)
(***************************************************************************)
SrvRequest ==
  /\ Alive /\ nout < MaxOut
  /\ nout' = nout + 1
  /\ outp' = outp \cup {nout}
  /\ act' = [n |-> "SrvRequest", o |-> <<[e |-> "srvreq", i |-> nout]>>]
  /\ UNCHANGED <<phase, pend, births, owed>>

SrvNote ==
  /\ Alive
  /\ act' = [n |-> "SrvNote", o |-> <<[e |-> "srvnote"]>>]
  /\ UNCHANGED <<phase, pend, nout, outp, births, owed>>

(***************************************************************************)
(* Internal events.                                                        *)
(***************************************************************************)
SeenState == IF phase = "uninit" THEN "args" ELSE "service"

Event(k) ==
  /\ Alive
  /\ LET handled == k \in {"ev", "everr"} /\ phase /= "shutting"
         fails == handled /\ k = "everr"
     IN /\ phase' = IF fails THEN "failed" ELSE phase
        /\ act' = [n |-> "Event", k |-> k,
                   o |-> (IF handled THEN <<[e |-> "event", k |-> k, s |-> SeenState]>> ELSE <<>>) \o
                         (IF fails THEN <<[e |-> "end", r |-> "err"]>> ELSE <<>>)]
  /\ UNCHANGED <<pend, nout, outp, births, owed>>

(***************************************************************************)
(* End of input, and the return of the session loop.                       *)
(***************************************************************************)
Eof ==
  /\ Alive
  /\ phase' = "ended"
  /\ act' = [n |-> "Eof", o |-> <<[e |-> "end", r |-> "ok"]>>]
  /\ UNCHANGED <<pend, nout, outp, births, owed>>

Return ==
  /\ phase \in {"ended", "failed"}
  /\ Replay => \A i \in Ids : pend[i] = "free"
  /\ phase' = "returned"
  /\ act' = [n |-> "Return", o |-> <<[e |-> "return"]>>]
  /\ UNCHANGED <<pend, nout, outp, births, owed>>

\* The replay timeout passes while answers are still owed.
GiveUp ==
  /\ CanGiveUp /\ Replay
  /\ phase \in {"ended", "failed"}
  /\ \E i \in Ids : pend[i] # "free"
  /\ phase' = "returned"
  /\ act' = [n |-> "GiveUp", o |-> <<[e |-> "return"]>>]
  /\ UNCHANGED <<pend, nout, outp, births, owed>>

(***************************************************************************)
(* The transport finishes once the session has returned; client handles    *)
(* that remain can be used without any effect.                             *)
(***************************************************************************)
Close ==
  /\ Linger /\ phase = "returned"
  /\ phase' = "closed"
  /\ act' = [n |-> "Close", o |-> <<>>]
  /\ UNCHANGED <<pend, nout, outp, births, owed>>

UseKinds == {"srvreq", "srvnote", "event", "again"}
ClosedUse(k) ==
  /\ phase = "closed" /\ k \in UseKinds \ (IF Proto = "dap" THEN {"srvreq"} ELSE {})
  /\ act' = [n |-> "ClosedUse", k |-> k, o |-> <<>>]
  /\ UNCHANGED <<phase, pend, nout, outp, births, owed>>
ClosedAnswer(i) ==
  /\ phase = "closed" /\ pend[i] # "free"
  /\ pend' = [pend EXCEPT ![i] = "free"]
  /\ owed' = [owed EXCEPT ![i] = @ - 1]     \* dropped: nobody is there to be answered
  /\ act' = [n |-> "ClosedAnswer", i |-> i, k |-> pend[i], o |-> <<>>]
  /\ UNCHANGED <<phase, nout, outp, births>>

Init ==
  /\ phase = "uninit" /\ pend = [i \in Ids |-> "free"]
  /\ nout = 0 /\ outp = {} /\ births = 0
  /\ owed = [i \in Ids |-> 0]
  /\ act = [n |-> "Init", o |-> <<>>]

Next ==
  \/ \E i \in Ids, k \in ReqKinds : Request(i, k)
  \/ \E i \in Ids, how \in {"async", "late"}, r \in {"ok", Failed} : Answer(i, how, r)
  \/ \E i \in Ids : AnswerAgain(i)
  \/ \E k \in NoteKinds : Note(k)
  \/ \E j \in 0..MaxOut : Response(j)
  \/ BogusResponse
  \/ SrvRequest \/ SrvNote
  \/ \E k \in EvKinds : Event(k)
  \/ Eof \/ Return \/ GiveUp \/ Close
  \/ \E k \in UseKinds : ClosedUse(k)
  \/ \E i \in Ids : ClosedAnswer(i)

Spec == Init /\ [][Next]_vars /\ WF_vars(Return)
             /\ \A i \in Ids : WF_vars(\E h \in {"async", "late"} : Answer(i, h, "ok"))

-----------------------------------------------------------------------------
(* Properties. Those about a step are action properties over act', so that *)
(* TLC evaluates them on every transition, also those into a known state.  *)

TypeOK ==
  /\ phase \in {"uninit", "initializing", "ready", "shutting", "ended", "failed", "returned", "closed"}
  /\ pend \in [Ids -> {"free", "async", "late"}]
  /\ nout \in 0..MaxOut /\ outp \subseteq 0..(MaxOut - 1)

\* C01: an id is owed an answer exactly while somebody is going to give it; never two, never a stray one.
AnsweredOnce == \A i \in Ids : owed[i] = (IF pend[i] = "free" THEN 0 ELSE 1)

Evs(e) == {j \in DOMAIN act'.o : act'.o[j].e = e}

\* C01: a step answers only the id it is about, at most once; a request is answered at once or stays owed.
StepAnswers ==
  [][ /\ \A j \in Evs("resp") : act'.n \in {"Request", "Answer"} /\ act'.o[j].i = act'.i
      /\ Cardinality(Evs("resp")) <= 1
      /\ act'.n = "Request" => (Cardinality(Evs("resp")) = 1) # (pend'[act'.i] # "free")
      /\ act'.n = "Answer"  => Cardinality(Evs("resp")) = 1 ]_vars

\* C02/C03: user handlers only in the window, the service created once
Calls == {act'.o[j].h : j \in Evs("call")}
HandlersGated ==
  [][ Calls # {} =>
        \/ Calls = {"init"} /\ births = 0 /\ births' = 1
        \/ "init" \notin Calls /\ births = 1 /\ births' = 1
           /\ phase' \in {"ready", "shutting"} /\ phase # "shutting"
           /\ (phase = "ready" \/ act'.k = "initialized") ]_vars
BornOnce == births <= 1
ReadyOnlyAfterInit == phase \in {"initializing", "ready", "shutting"} => births = 1
RejectedOutside ==
  [][ act'.n = "Request" /\ phase # "ready" =>
        \/ Calls = {"init"}
        \/ act'.o[1].r = (IF phase = "shutting" THEN InvalidReq
                           ELSE IF phase = "uninit" /\ act'.k \in InitKinds THEN InvalidReq ELSE NotInit) ]_vars
PhaseOrder ==
  LET rank(p) == CASE p = "uninit" -> 0 [] p = "initializing" -> 1 [] p = "ready" -> 2 [] p = "shutting" -> 3
                   [] p \in {"ended", "failed"} -> 4 [] p = "returned" -> 5
                   [] p = "closed" -> 6
  IN [][ /\ rank(phase') >= rank(phase)
         /\ ~(phase = "initializing" /\ phase' = "shutting")
         /\ phase' = "initializing" => Proto = "lsp" ]_vars
NothingAfterEnd == [][ (phase \in {"ended", "failed", "returned", "closed"} =>
                          act'.n \in {"Return", "Answer", "GiveUp", "Close", "ClosedUse", "ClosedAnswer"}) ]_vars
\* C06: a closed connection stays silent
SilentWhenClosed == [][ (phase \in {"returned", "closed"} => act'.o = <<>>) ]_vars

\* C05
OutIdsFresh == \A j \in outp : j < nout
ContOnlyForOutstanding ==
  [][ /\ \A j \in Evs("cont") : act'.o[j].i \in outp /\ act'.o[j].i \notin outp'
      /\ \A j \in Evs("srvreq") : act'.o[j].i >= nout ]_vars

\* C07
EventsGated == [][ \A j \in Evs("event") : /\ phase # "shutting"
                                          /\ act'.o[j].s = "args" <=> births = 0 ]_vars

\* C08
ReplayDrains == Replay /\ ~CanGiveUp /\ phase = "returned" => \A i \in Ids : pend[i] = "free"
Drained == (phase \in {"ended", "failed"}) ~> (phase = "returned")
EveryRequestAnswered == \A i \in Ids : (Replay /\ pend[i] # "free") ~> pend[i] = "free"

Emit == PrintT(ToJson([f |-> View, a |-> act', t |-> View']))
=============================================================================
