------------------------------ MODULE Projects ------------------------------
(* The projects of the language server: the editor's buffers over the files on disk, the actor that watches the files, the main loop with
   its primary project and its dedicated ones (a preview each), compilations on other threads, and the actor that shows diagnostics.

   Every part runs by itself and they talk in queues. What the user relies on is where all that comes to rest: every project that is
   there shows what its main file makes of the buffers over the disk as they are now, the diagnostics on the screen are those of the
   projects that are there, and nothing is still said to be compiling.

   A file created after it was looked for in vain is noticed at the next compilation only (the watcher does not watch what does not
   exist): Create therefore compiles.

   Each switch puts one part of the design out of action. *)
EXTENDS WatchOps, TLC

CONSTANTS Files, Deds,
          Of,                       \* Of[f]: the contents f may have
          Init0, Entry0,            \* the disk and the main file at first
          MaxEnv,
          Does,                     \* what the user does
          TicksGrow,                \* a delayed memory event is told from earlier ones
          KeepsOthers,              \* an upstream update leaves the watches of other files alone
          WatchesAgain,             \* a replaced file is watched again
          RevisionsGoOn,            \* a restarted project's revisions follow those of the one removed
          DropsLate,                \* diagnostics of an earlier revision are not shown over later ones
          TakesOver,                \* after a reload what the old projects have under way is ignored
          Rechecks,                 \* a recheck concerns the emptiness it was made for
          DelaysAreEdits,           \* a delayed memory event counts as an edit, not as a save
          KeepsMain                 \* the main file outlives a reload

Primary == "primary"
Ids == {Primary} \cup Deds

VARIABLES
  disk, buf,         \* the truth: files on disk, and the editor's buffers over them
  shadow, notif,     \* what the main loop knows of them
  dirty, tick, tick0,\* memory events delayed through the watcher
  proj,              \* [Ids -> project or None]
  floor,             \* revisions up to here belong to removed projects
  jobs, events,      \* compilations under way; the main loop's queue
  inbox, notices, rechecks,          \* the watcher's queues
  oldbox,            \* what a replaced watcher still has to do
  watch,             \* [Files -> [known, on, seen, prev, st, at, pay]]
  wtick,
  notified,          \* [Ids -> last revision whose result was passed on]
  equeue, shown, erev,
  status, srev,      \* the status line (of the primary project)
  typed, saved,      \* [Ids -> the last result of a compilation for an edit (a save), as is exported on type (on save)]
  duty,              \* [Ids -> which of the two must show what is true now: {"type", "save"}]
  mixed,             \* what the user did since the last rest: "mem" (in the editor), "disk", "entry" (chose what is compiled)
  main,              \* the main file the user chose
  n, act
sys == <<shadow, notif, dirty, tick, tick0, proj, floor, jobs, events, inbox, notices, rechecks, oldbox, watch, wtick, notified, equeue,
         shown, erev, status, srev, typed, saved>>
vars == <<disk, buf, sys, duty, mixed, main, n, act>>

NewProject(rev, e) == [entry |-> e, rev |-> rev, reason |-> {"entry"}, compiling |-> FALSE,
                       last |-> None, lastMain |-> None, lastRev |-> 0, committed |-> rev - 1, deps |-> {},
                       since |-> {}]         \* files touched since the last compilation began

Live(pr) == {p \in Ids : pr[p] # None}

(* --- what happens after every interrupt: projects with a reason compile --- *)
(* Nothing the last result is made of has been touched. *)
Clean(q) == q.last # None /\ q.lastMain = q.entry /\ DOMAIN q.last \cap q.since = {}
Wants(q) == q # None /\ q.reason # {} /\ ~q.compiling
Skips(q) == "entry" \notin q.reason /\ Clean(q)
Compiles(q) == Wants(q) /\ ~Skips(q) /\ q.entry # None
Settled(pr) ==
  [p \in Ids |-> LET q == pr[p] IN
     IF ~Wants(q) THEN q
     ELSE IF Skips(q) THEN [q EXCEPT !.reason = {}]
     ELSE IF q.entry = None THEN q
     ELSE [q EXCEPT !.reason = {}, !.since = {}, !.compiling = TRUE]]
Order == <<Primary>> \o (CHOOSE s \in [1..Cardinality(Deds) -> Deds] : \A i, j \in DOMAIN s : i # j => s[i] # s[j])
Job(p, q, sh, nt) == [p |-> p, rev |-> q.rev, sig |-> q.reason, main |-> q.entry, shadow |-> sh, notif |-> nt]
NewJobs(pr, sh, nt) ==
  LET s == SelectSeq(Order, LAMBDA p : Compiles(pr[p])) IN [i \in DOMAIN s |-> Job(s[i], pr[s[i]], sh, nt)]

(* The main loop after an interrupt: pr are the projects, sh and nt what is known of the files. *)
After(pr, sh, nt) ==
  /\ proj' = Settled(pr)
  /\ jobs' = jobs \o NewJobs(pr, sh, nt)
  /\ shadow' = sh /\ notif' = nt
Because(pr, why, fs) == [p \in Ids |-> IF pr[p] = None THEN None ELSE [pr[p] EXCEPT !.rev = @ + 1, !.reason = @ \cup why, !.since = @ \cup fs]]
Apply(sh, e) == [sh EXCEPT ![e.f] = e.c]
WithEntry(q, e) == [q EXCEPT !.entry = e, !.rev = @ + 1, !.reason = @ \cup {"entry"}]

Init ==
  /\ disk = Init0 /\ buf = [f \in Files |-> None]
  /\ shadow = buf /\ notif = [f \in Files |-> Unk]
  /\ dirty = 0 /\ tick = 1 /\ tick0 = 0
  /\ LET pr == [p \in Ids |-> IF p = Primary THEN NewProject(2, Entry0) ELSE None] IN
     proj = Settled(pr) /\ jobs = NewJobs(pr, shadow, notif)
  /\ floor = 0
  /\ events = <<>> /\ inbox = <<>> /\ notices = <<>> /\ rechecks = {} /\ oldbox = <<>>
  /\ watch = [f \in Files |-> NoWatch] /\ wtick = 1
  /\ notified = [p \in Ids |-> 0]
  /\ equeue = <<>> /\ shown = [p \in Ids |-> {}] /\ erev = [p \in Ids |-> 0]
  /\ status = <<"compiling", None>> /\ srev = 0
  /\ typed = [p \in Ids |-> None] /\ saved = typed /\ duty = [p \in Ids |-> IF p = Primary THEN {"type", "save"} ELSE {}] /\ mixed = {"entry"} /\ main = Entry0
  /\ n = 0 /\ act = [op |-> "init"]

AtRest == jobs = <<>> /\ events = <<>> /\ inbox = <<>> /\ notices = <<>> /\ rechecks = {} /\ oldbox = <<>> /\ equeue = <<>>

Truth == Over(buf, disk)

(* --- the user --- *)
Env == n < MaxEnv /\ n' = n + 1
Same == UNCHANGED main
Free == duty' = [p \in Ids |-> {}] /\ mixed' = {"mem", "disk"}
(* Compilations for edits are shown on type, those for saves on save, those for another main file in either case. Where the user edits
   and saves at once nothing can be told. *)
Due(kind, of(_)) ==
  /\ mixed' = IF AtRest THEN {kind} ELSE mixed \cup {kind}
  /\ duty' = [p \in Ids |-> ((IF "disk" \in mixed' THEN {} ELSE {"type"}) \cup (IF "mem" \in mixed' THEN {} ELSE {"save"})) \cap of(p)]
Keeps(p) == IF AtRest THEN {} ELSE duty[p]
All == {"type", "save"}
(* The files of p other than f, if it knows their content: those it does not use may have changed unnoticed. *)
Told(fs) == \A g \in fs : notif[g] \in {Unk, disk[g]} \/ watch[g].on
Uses(p, v) == IF proj[p] = None THEN {} ELSE IF proj[p].entry = None THEN {} ELSE Reach(v, proj[p].entry)
(* f becomes something else for the projects that use it. *)
Calls(kind, changes, f, v) ==
  Due(kind, LAMBDA p : IF ~Told(Uses(p, v) \ {f}) THEN {} ELSE IF f \notin Uses(p, v) THEN Keeps(p) ELSE IF changes THEN All ELSE {})
(* p is to compile f. *)
Enters(p, f) ==
  Due("entry", LAMBDA q : IF q # p THEN Keeps(q) ELSE IF f = None THEN {} ELSE IF Told(Reach(Truth, f)) THEN All ELSE {})
(* A memory event: at once if nothing has to be looked up on disk and nothing is delayed, otherwise by way of the watcher. *)
Memory(f, c) ==
  /\ buf' = [buf EXCEPT ![f] = c]
  /\ IF c # None /\ dirty = 0
     THEN /\ After(IF shadow[f] = c THEN proj ELSE Because(proj, {"mem"}, {f}), Apply(shadow, [f |-> f, c |-> c]), notif)
          /\ UNCHANGED <<dirty, tick, inbox>>
     ELSE /\ tick' = IF TicksGrow THEN tick + 1 ELSE tick
          /\ dirty' = tick'
          /\ inbox' = Append(inbox, [t |-> "ups", inv |-> IF c = None THEN {f} ELSE {}, e |-> [f |-> f, c |-> c], tick |-> tick'])
          /\ After(proj, shadow, notif)
  /\ UNCHANGED <<disk, tick0, floor, events, notices, rechecks, oldbox, watch, wtick, notified, equeue, shown, erev, status, srev, typed, saved>>
Edit(f, c) == Env /\ Same /\ buf[f] # c /\ Memory(f, c) /\ Calls("mem", Over(buf, disk)[f] # c, f, Over(buf', disk)) /\ act' = [op |-> IF buf[f] = None THEN "open" ELSE "edit", f |-> f, t |-> c]
Close(f) == Env /\ Same /\ buf[f] # None /\ Memory(f, None) /\ Calls("mem", disk[f] # buf[f], f, Over(buf', disk)) /\ act' = [op |-> "close", f |-> f]

Notice(f, kind) == notices' = IF watch[f].on THEN Append(notices, [f |-> f, kind |-> kind]) ELSE notices
UserDisk == UNCHANGED <<buf, shadow, notif, dirty, tick, tick0, floor, inbox, rechecks, oldbox, wtick, notified, equeue, shown, erev,
                        status, srev, events, typed, saved>>
Write(f, c) ==
  /\ Env /\ Same /\ disk[f] # None /\ disk[f] # c
  /\ disk' = [disk EXCEPT ![f] = c] /\ Notice(f, "modify") /\ UserDisk
  /\ Calls("disk", watch[f].on /\ notif[f] # c, f, Over(buf, disk')) /\ UNCHANGED <<proj, jobs, watch>>
  /\ act' = [op |-> "write", f |-> f, t |-> c, kind |-> "modify"]
(* Another file takes its place: the watch went with the old one. *)
Replace(f, c) ==
  /\ Env /\ Same /\ disk[f] # None
  /\ disk' = [disk EXCEPT ![f] = c] /\ Notice(f, "remove") /\ UserDisk /\ Free /\ UNCHANGED <<proj, jobs, watch>>
  /\ act' = [op |-> "write", f |-> f, t |-> c, kind |-> "remove"]
Remove(f) ==
  /\ Env /\ Same /\ disk[f] # None
  /\ disk' = [disk EXCEPT ![f] = None] /\ Notice(f, "remove") /\ UserDisk /\ Free /\ UNCHANGED <<proj, jobs, watch>>
  /\ act' = [op |-> "remove", f |-> f, kind |-> "remove"]
Create(f, c) ==
  /\ Env /\ Same /\ disk[f] = None
  /\ disk' = [disk EXCEPT ![f] = c]
  /\ LET pr == Because(proj, {"entry"}, {}) IN
     proj' = Settled(pr) /\ jobs' = jobs \o NewJobs(pr, shadow, notif)
  /\ UserDisk /\ Free /\ UNCHANGED <<watch, notices>>
  /\ act' = [op |-> "create", f |-> f, t |-> c]

Focus(f) ==
  /\ Env /\ main' = f /\ proj[Primary].entry # f
  /\ LET pr == [proj EXCEPT ![Primary] = WithEntry(@, f)] q == pr[Primary] IN
     /\ After(pr, shadow, notif)
     /\ IF f = None
        THEN /\ equeue' = equeue \o <<[t |-> "diag", p |-> Primary, rev |-> q.rev, d |-> {}],
                                      [t |-> "status", s |-> <<"success", None>>]>>
             /\ srev' = q.rev
        ELSE UNCHANGED <<equeue, srev>>
  /\ UNCHANGED <<disk, buf, dirty, tick, tick0, floor, events, inbox, notices, rechecks, oldbox, watch, wtick, notified, shown, erev, status,
                 typed, saved>>
  /\ Enters(Primary, f) /\ act' = [op |-> "focus", f |-> f]

Deps(pr) == UNION {pr[p].deps : p \in Live(pr)}
Sync(pr) == [t |-> "sync", deps |-> Deps(pr)]
Removal(q) == IF RevisionsGoOn THEN (IF q.rev + 1 > floor THEN q.rev + 1 ELSE floor) ELSE 0
(* p goes: its diagnostics go, and what it still computes is nobody's. *)
Goes(p) ==
  /\ floor' = Removal(proj[p])
  /\ notified' = [notified EXCEPT ![p] = IF RevisionsGoOn THEN floor' ELSE 0]
  /\ equeue' = Append(equeue, [t |-> "diag", p |-> p, rev |-> IF RevisionsGoOn THEN floor' ELSE notified[p], d |-> {}])
  /\ inbox' = Append(inbox, Sync([proj EXCEPT ![p] = None]))
DedRest == UNCHANGED <<disk, buf, dirty, tick, tick0, events, notices, rechecks, oldbox, watch, wtick, shown, erev, status, srev, typed, saved>>
Settle(p) ==
  /\ Env /\ Same /\ p # Primary /\ proj[p] # None
  /\ Goes(p) /\ After([proj EXCEPT ![p] = None], shadow, notif)
  /\ duty' = [duty EXCEPT ![p] = {}] /\ UNCHANGED mixed
  /\ DedRest /\ act' = [op |-> "settle", id |-> p]
Start(p, f) ==
  /\ Env /\ Same /\ p # Primary
  /\ IF proj[p] # None THEN Goes(p) ELSE UNCHANGED <<floor, notified, equeue, inbox>>
  /\ After([proj EXCEPT ![p] = [NewProject(floor' + 2, f) EXCEPT !.committed = floor']], shadow, notif)
  /\ Enters(p, f) /\ DedRest /\ act' = [op |-> "start", id |-> p, f |-> f]

(* The configuration changed: new projects, the primary only; a new watcher. *)
Reload ==
  /\ Env /\ Same
  /\ LET revs == {proj[p].rev + 1 : p \in Live(proj)} \cup {floor}
         top == CHOOSE r \in revs : \A s \in revs : s <= r
         gone == SelectSeq(Order, LAMBDA p : proj[p] # None) IN
     /\ floor' = IF TakesOver THEN top ELSE 0
     /\ notified' = [p \in Ids |-> IF TakesOver /\ proj[p] # None THEN top ELSE IF TakesOver THEN notified[p] ELSE 0]
     /\ equeue' = IF TakesOver THEN equeue \o [i \in DOMAIN gone |-> [t |-> "diag", p |-> gone[i], rev |-> top, d |-> {}]] ELSE equeue
     /\ LET pr == [p \in Ids |-> IF p = Primary THEN [NewProject(floor' + 3, IF KeepsMain THEN proj[Primary].entry ELSE None) EXCEPT !.committed = floor']
                                 ELSE None] IN
        proj' = Settled(pr) /\ jobs' = jobs \o NewJobs(pr, buf, [f \in Files |-> Unk])
     /\ srev' = IF TakesOver THEN top ELSE 0
  /\ shadow' = buf /\ notif' = [f \in Files |-> Unk]
  /\ dirty' = 0 /\ tick' = (IF TakesOver THEN tick ELSE 1) /\ tick0' = (IF TakesOver THEN tick ELSE 0)
  /\ oldbox' = oldbox \o SelectSeq(inbox, LAMBDA m : m.t = "ups") /\ inbox' = <<>> /\ notices' = <<>> /\ rechecks' = {}
  /\ watch' = [f \in Files |-> NoWatch] /\ wtick' = 1
  /\ Enters(Primary, IF KeepsMain THEN proj[Primary].entry ELSE None) /\ UNCHANGED <<disk, buf, events, shown, erev, status, typed, saved>>
  /\ act' = [op |-> "reload"]

(* --- the watcher --- *)
Fs(changes, ups) == [t |-> "fs", changes |-> changes, ups |-> ups]
(* It looks at all of fs, ws being its knowledge; ups goes along. *)
LooksAt(fs, ws, ups) ==
  LET r == [f \in fs |-> Looks(ws[f], disk[f], wtick')]
      told == {f \in fs : r[f].tell # Unk} IN
  /\ watch' = [f \in Files |-> IF f \in fs THEN r[f].w ELSE ws[f]]
  /\ rechecks' = rechecks \cup {[f |-> f, at |-> wtick'] : f \in {f \in fs : r[f].again}}
  /\ events' = IF told = {} /\ ups = None THEN events ELSE Append(events, Fs([f \in told |-> r[f].tell], ups))
WatchRest == UNCHANGED <<disk, buf, shadow, notif, dirty, tick, tick0, proj, floor, jobs, oldbox, notified, equeue, shown, erev, status,
                         srev, typed, saved, duty, mixed, n>>
Watches(ws, fs) == [f \in Files |-> IF f \in fs THEN [ws[f] EXCEPT !.known = TRUE, !.on = @ \/ disk[f] # None] ELSE ws[f]]
Unwatches(ws, fs) == [f \in Files |-> IF f \in fs THEN ws[f] ELSE [ws[f] EXCEPT !.on = FALSE]]
WatcherMsg ==
  /\ inbox # <<>> /\ inbox' = Tail(inbox) /\ wtick' = wtick + 1 /\ UNCHANGED notices
  /\ LET m == Head(inbox) IN
     IF m.t = "sync" THEN LooksAt(m.deps, Unwatches(Watches(watch, m.deps), m.deps), None)
     ELSE LooksAt(m.inv, LET ws == Watches(watch, m.inv) IN IF KeepsOthers THEN ws ELSE Unwatches(ws, m.inv), m)
  /\ WatchRest /\ act' = [op |-> "watcher"]
WatcherNotice ==
  /\ notices # <<>> /\ notices' = Tail(notices) /\ wtick' = wtick + 1 /\ UNCHANGED inbox
  /\ LET m == Head(notices)
         w == watch[m.f]
         ws == IF m.kind = "remove" THEN [watch EXCEPT ![m.f].on = w.on /\ WatchesAgain /\ disk[m.f] # None] ELSE watch IN
     IF w.known THEN LooksAt({m.f}, ws, None) ELSE UNCHANGED <<watch, rechecks, events>>
  /\ WatchRest /\ act' = [op |-> "watcher"]
WatcherRecheck ==
  /\ inbox = <<>> /\ notices = <<>>      \* a recheck comes late
  /\ \E r \in rechecks :
     /\ rechecks' = rechecks \ {r}
     /\ LET w == watch[r.f] IN
        IF w.st = "empty" /\ (w.at = r.at \/ ~Rechecks)
        THEN IF w.at = r.at /\ w.pay # w.prev
             THEN /\ watch' = [watch EXCEPT ![r.f].st = "stable", ![r.f].prev = w.pay]
                  /\ events' = Append(events, Fs([f \in {r.f} |-> w.pay], None))
             ELSE watch' = [watch EXCEPT ![r.f].st = "stable"] /\ UNCHANGED events
        ELSE UNCHANGED <<watch, events>>
  /\ wtick' = wtick + 1 /\ UNCHANGED <<inbox, notices>> /\ WatchRest
  /\ act' = [op |-> "recheck"]
OldWatcher ==
  /\ oldbox # <<>> /\ oldbox' = Tail(oldbox)
  /\ events' = Append(events, Fs(<<>>, Head(oldbox)))
  /\ UNCHANGED <<disk, buf, shadow, notif, dirty, tick, tick0, proj, floor, jobs, inbox, notices, rechecks, watch, wtick, notified, equeue,
                 shown, erev, status, srev, typed, saved, duty, mixed, n>>
  /\ act' = [op |-> "watcher"]

(* --- compilations, on any thread --- *)
Without(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
Run(i) ==
  LET j == jobs[i]
      r == Result(Over(j.shadow, [f \in Files |-> IF j.notif[f] = Unk THEN disk[f] ELSE j.notif[f]]), j.main)
      d == Errors(r, j.main) IN
  /\ jobs' = Without(jobs, i)
  /\ IF notified[j.p] >= j.rev THEN UNCHANGED <<notified, events, equeue, typed, saved>>
     ELSE /\ notified' = [notified EXCEPT ![j.p] = j.rev]
          /\ typed' = [typed EXCEPT ![j.p] = IF j.sig \cap {"mem", "entry"} # {} THEN <<j.main, r>> ELSE @]
          /\ saved' = [saved EXCEPT ![j.p] = IF j.sig \cap {"fs", "entry"} # {} THEN <<j.main, r>> ELSE @]
          /\ events' = Append(events, [t |-> "done", p |-> j.p, rev |-> j.rev, main |-> j.main, r |-> r])
          /\ equeue' = equeue \o (IF j.p = Primary /\ j.rev >= srev
                                  THEN <<[t |-> "status", s |-> <<IF d = {} THEN "success" ELSE "error", j.main>>]>> ELSE <<>>)
                              \o <<[t |-> "diag", p |-> j.p, rev |-> j.rev, d |-> d]>>
  /\ srev' = IF j.p = Primary /\ j.rev >= srev THEN j.rev ELSE srev
  /\ UNCHANGED <<disk, buf, shadow, notif, dirty, tick, tick0, proj, floor, inbox, notices, rechecks, oldbox, watch, wtick, shown, erev,
                 status, duty, mixed, n>>
  /\ act' = [op |-> "job", n |-> i - 1]

(* --- the main loop --- *)
DeliverDone(m) ==
  LET q == proj[m.p] IN
  IF q = None \/ (IF RevisionsGoOn THEN q.committed >= m.rev ELSE q.lastRev >= m.rev)
  THEN After(proj, shadow, notif) /\ UNCHANGED inbox
  ELSE LET pr == [proj EXCEPT ![m.p] = [@ EXCEPT !.compiling = FALSE, !.last = m.r, !.lastMain = m.main, !.lastRev = m.rev, !.committed = m.rev,
                                                 !.deps = DOMAIN m.r]] IN
       After(pr, shadow, notif) /\ inbox' = Append(inbox, Sync(pr))
DeliverFs(m) ==
  LET ups == IF m.ups # None /\ m.ups.tick <= tick0 THEN None ELSE m.ups
      sh == IF ups = None THEN shadow ELSE Apply(shadow, ups.e)
      nt == [f \in Files |-> IF f \in DOMAIN m.changes THEN m.changes[f] ELSE notif[f]] IN
  /\ dirty' = IF ups # None /\ ups.tick = dirty THEN 0 ELSE dirty
  /\ After(Because(proj, IF DelaysAreEdits THEN (IF ups # None THEN {"mem"} ELSE {}) \cup (IF DOMAIN m.changes # {} THEN {"fs"} ELSE {}) ELSE {"fs"},
                   DOMAIN m.changes \cup (IF ups = None THEN {} ELSE {ups.e.f})), sh, nt)
Deliver ==
  /\ events # <<>> /\ events' = Tail(events)
  /\ LET m == Head(events) IN
     IF m.t = "done" THEN DeliverDone(m) /\ UNCHANGED dirty ELSE DeliverFs(m) /\ UNCHANGED inbox
  /\ UNCHANGED <<disk, buf, tick, tick0, floor, notices, rechecks, oldbox, watch, wtick, notified, equeue, shown, erev, status, srev, typed, saved,
                 duty, mixed, n>>
  /\ act' = [op |-> "deliver"]

(* --- the screen --- *)
Screen ==
  /\ equeue # <<>> /\ equeue' = Tail(equeue)
  /\ LET m == Head(equeue) IN
     IF m.t = "status" THEN status' = m.s /\ UNCHANGED <<shown, erev>>
     ELSE /\ UNCHANGED status
          /\ IF DropsLate /\ m.rev < erev[m.p] THEN UNCHANGED <<shown, erev>>
             ELSE shown' = [shown EXCEPT ![m.p] = m.d] /\ erev' = [erev EXCEPT ![m.p] = m.rev]
  /\ UNCHANGED <<disk, buf, shadow, notif, dirty, tick, tick0, proj, floor, jobs, events, inbox, notices, rechecks, oldbox, watch, wtick,
                 notified, srev, typed, saved, duty, mixed, n>>
  /\ act' = [op |-> "editor"]

User ==
  \/ \E f \in Files : \/ "edit" \in Does /\ ((\E c \in Of[f] : Edit(f, c)) \/ Close(f))
                      \/ "disk" \in Does /\ ((\E c \in Of[f] : Write(f, c) \/ Create(f, c) \/ Replace(f, c)) \/ Remove(f))
                      \/ "focus" \in Does /\ Focus(f)
                      \/ "ded" \in Does /\ \E p \in Deds : Start(p, f)
  \/ "focus" \in Does /\ Focus(None)
  \/ "reload" \in Does /\ Reload
  \/ "ded" \in Does /\ \E p \in Deds : Settle(p)
Internal == Same /\ (WatcherMsg \/ WatcherNotice \/ WatcherRecheck \/ OldWatcher \/ (\E i \in DOMAIN jobs : Run(i)) \/ Deliver \/ Screen)
Next == User \/ Internal
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Internal)

(* --- what is relied on --- *)
Active == {p \in Live(proj) : proj[p].entry # None}
Converged == AtRest => \A p \in Active : /\ ~proj[p].compiling
                                         /\ proj[p].last = Result(Truth, proj[p].entry)
MainKept == proj[Primary].entry = main
Screened == AtRest => \A p \in Ids : shown[p] = IF p \in Active THEN Errors(Result(Truth, proj[p].entry), proj[p].entry) ELSE {}
StatusLine == AtRest /\ Primary \in Active =>
                status = <<IF Errors(Result(Truth, proj[Primary].entry), proj[Primary].entry) = {} THEN "success" ELSE "error",
                           proj[Primary].entry>>
Watched == AtRest => {f \in UNION {proj[p].deps : p \in Active} : disk[f] # None} \subseteq {f \in Files : watch[f].on}
(* What the main loop knows of the buffers is behind the editor by what is still under way to it, in order... *)
RECURSIVE Catch(_, _)
Catch(sh, es) == IF es = <<>> THEN sh ELSE Catch(Apply(sh, Head(es)), Tail(es))
Ups(s) == SelectSeq(s, LAMBDA m : m.t = "ups")
UpsOf(s) == LET t == SelectSeq(s, LAMBDA m : IF m.t = "fs" THEN (IF m.ups = None THEN FALSE ELSE m.ups.tick > tick0) ELSE FALSE) IN
            [i \in DOMAIN t |-> t[i].ups]
Pending == LET s == UpsOf(events) \o Ups(inbox) IN [i \in DOMAIN s |-> s[i].e]
(* ... and a project has one compilation under way at most. *)
UnderWay(p) == Cardinality({i \in DOMAIN jobs : jobs[i].p = p /\ jobs[i].rev > proj[p].committed})
               + Cardinality({i \in DOMAIN events : events[i].t = "done" /\ (IF events[i].t = "done" THEN events[i].p = p /\ events[i].rev > proj[p].committed ELSE FALSE)})
Forward == Catch(shadow, Pending) = buf /\ \A p \in Live(proj) : UnderWay(p) = IF proj[p].compiling THEN 1 ELSE 0
(* What is exported on type (on save) is what was typed (saved) last. *)
Exported == AtRest => \A p \in Active : LET now == <<proj[p].entry, Result(Truth, proj[p].entry)>> IN
                      ("type" \in duty[p] => typed[p] = now) /\ ("save" \in duty[p] => saved[p] = now)
Rests == <>[]AtRest
(* The watcher's ticks matter only in that a recheck is for the present emptiness or for an earlier one. *)
View == <<disk, buf, shadow, notif, dirty, tick, tick0, proj, floor, jobs, events, inbox, notices, oldbox, notified, equeue, shown, erev,
          status, srev, n,
          [f \in Files |-> [watch[f] EXCEPT !.at = 0]],
          {<<r.f, r.at = watch[r.f].at>> : r \in rechecks}>>
ViewExports == <<View, typed, saved, duty, IF AtRest THEN {} ELSE mixed>>
(* The screen only shows: when it does so makes no difference to the others. *)
Eager == equeue = <<>> \/ act'.op = "editor"
=============================================================================
