----------------------------- MODULE LockTrace ------------------------------
(***************************************************************************)
(* Judges what processes saw of a lock file. There has to be an order of   *)
(* the operations in which each saw what the file was then.                 *)
(* An operation: [op, phase, proc, k, ...]. Phases don't overlap, nor do   *)
(* the operations of a process.                                            *)
(* A text, and the time the file was last written, are those of the        *)
(* content: it's written only where it changes, and as one text.           *)
(***************************************************************************)
EXTENDS LockState, TLC, Json, TLCExt
Recs == JsonDeserialize("traces.json")
VARIABLES r,    \* which recording
          done, \* what of it took place
          s, is, text, at, \* the content, and what is known of the file (0: nothing)
          texts \* what text each content had
vars == <<r, done, s, is, text, at, texts>>
Ops == Recs[r]
AsState(j) == [docs |-> ToSet(j.docs), tasks |-> ToSet(j.tasks), routes |-> j.routes]
Distinct(q) == \A i, k \in DOMAIN q : q[i].id = q[k].id => i = k
IsState(j, x) == AsState(j) = x /\ Distinct(j.docs) /\ Distinct(j.tasks)

Init == /\ r \in DOMAIN Recs /\ done = {} /\ s = Nothing /\ is = "none" /\ text = 0 /\ at = 0 /\ texts = {}
May(i) == /\ i \notin done
          /\ \A k \in DOMAIN Ops \ done : k = i \/ (Ops[k].phase >= Ops[i].phase /\ ~(Ops[k].phase = Ops[i].phase /\ Ops[k].proc = Ops[i].proc /\ Ops[k].k < Ops[i].k))
Update(o) == IF is = "bad"
             THEN ~o.ok /\ ~o.called /\ UNCHANGED <<s, is, text, at, texts>>
             ELSE /\ o.called /\ IsState(o.saw, s) /\ o.ok = ~o.fail
                  /\ IF o.fail
                     THEN \* The file is there now, if it wasn't.
                          /\ UNCHANGED <<s, texts>> /\ is' = (IF is = "none" THEN "blank" ELSE is)
                          /\ IF is = "none" THEN text' = 0 /\ at' = 0 ELSE UNCHANGED <<text, at>>
                     ELSE /\ s' = Changed(s, o.c) /\ is' = "ok" /\ UNCHANGED texts
                          \* A file of ours with that content already stays untouched.
                          /\ IF is = "ok" /\ s' = s THEN UNCHANGED <<text, at>> ELSE text' = 0 /\ at' = 0
Read(o) == /\ UNCHANGED <<s, is, text, at, texts>>
           /\ CASE is = "ok" -> o.ok /\ IsState(o.saw, s)
                [] is = "blank" -> o.ok => IsState(o.saw, Nothing)
                [] OTHER -> ~o.ok
Foreign(o) == s' = Nothing /\ is' = o.kind /\ text' = 0 /\ at' = 0 /\ UNCHANGED texts
Text(o) == /\ UNCHANGED <<s, is>>
           /\ (text # 0 => text = o.text) /\ (at # 0 => at = o.at)
           /\ text' = o.text /\ at' = o.at
           /\ is = "ok" => \A t \in texts : (t.s = s) <=> (t.text = o.text)
           /\ texts' = IF is = "ok" THEN texts \cup {[s |-> s, text |-> o.text]} ELSE texts
Next == \E i \in DOMAIN Ops :
          /\ May(i) /\ done' = done \cup {i} /\ UNCHANGED r
          /\ LET o == Ops[i] IN CASE o.op = "update" -> Update(o) [] o.op = "read" -> Read(o)
                                  [] o.op = "put" -> Foreign(o) [] o.op = "text" -> Text(o)
Spec == Init /\ [][Next]_vars
\* Printed: how far each recording can be explained.
Deep == PrintT(ToJson([r |-> r', n |-> Cardinality(done'), done |-> SetToSeq(done')]))
Done == done' = DOMAIN Ops => PrintT(ToJson([r |-> r']))
View == <<r, done, s, is, text, at>>
=============================================================================
