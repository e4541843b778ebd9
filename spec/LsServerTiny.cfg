CONSTANTS Proto = "lsp"
 Ids = {1,2}
 MaxOut = 2
 ReqKinds = {"ok","async","late","bad","unknown","init","initbad","shutdown"}
 NoteKinds = {"initialized","note","exit"}
 EvKinds = {"ev","everr"}
 HasShutdown = TRUE
 Replay = TRUE
 CanGiveUp = FALSE
 Linger = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK AnsweredOnce BornOnce ReadyOnlyAfterInit OutIdsFresh ReplayDrains
PROPERTIES StepAnswers HandlersGated RejectedOutside PhaseOrder NothingAfterEnd ContOnlyForOutstanding EventsGated Drained EveryRequestAnswered
CHECK_DEADLOCK FALSE
