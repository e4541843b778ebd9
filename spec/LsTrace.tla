----------------------------- MODULE LsTrace -----------------------------
(***************************************************************************)
(* Checks recorded executions of the real driver, in which asynchronous    *)
(* handlers, sender threads and the client run freely, against LsServer.   *)
(*                                                                         *)
(* A trace holds what the client sent (in), what it received (out), what   *)
(* the handlers logged (log), and how these orders constrain each other:   *)
(*   in[n].rb   outputs the client had received when it sent input n;      *)
(*   out[m].sb  inputs the client had sent when it received output m.      *)
(* The specification must have a behaviour with exactly these observations *)
(* in which every output is emitted after the inputs before it and before  *)
(* the inputs after it, and every thread's messages keep their order.      *)
(***************************************************************************)
EXTENDS LsServer

CONSTANTS Threads

VARIABLES tr, k, o, l, tp, te, tg, ot

Traces == JsonDeserialize("traces.json")
T == Traces[tr]

IsLog(x) == x.e \in {"call", "cont", "event"}
IsOut(x) == x.e \in {"resp", "srvreq", "srvnote"}

OutOk(x, m) ==
  /\ m.e = x.e
  /\ k' <= m.sb
  /\ x.e = "resp" => /\ m.i = x.i /\ m.r = x.r
                     /\ m.r \in {"ok", Failed} => m.tag = tg'[x.i]
  /\ x.e = "srvreq" => m.i = x.i

LogOk(x, m, tag) ==
  /\ m.e = x.e
  /\ x.e = "call" => m.h = x.h /\ m.tag = tag
  /\ x.e = "cont" => m.i = x.i /\ m.tag = ot[x.i] /\ m.ans = tag
  /\ x.e = "event" => m.k = x.k /\ m.s = x.s /\ m.tag = tag

\* The step's observations are the next ones recorded.
Follow(tag) ==
  LET ls == SelectSeq(act'.o, IsLog)
      os == SelectSeq(act'.o, IsOut)
  IN /\ l + Len(ls) <= Len(T.log) /\ o + Len(os) <= Len(T.out)
     /\ \A j \in DOMAIN ls : LogOk(ls[j], T.log[l + j], tag)
     /\ \A j \in DOMAIN os : OutOk(os[j], T.out[o + j])
     /\ l' = l + Len(ls) /\ o' = o + Len(os)

Input ==
  /\ k < Len(T.in)
  /\ LET x == T.in[k + 1] IN
       /\ o >= x.rb
       /\ k' = k + 1
       /\ CASE x.n = "Request"  -> Request(x.i, x.k) /\ tg' = [tg EXCEPT ![x.i] = x.tag]
            [] x.n = "Note"     -> Note(x.k) /\ tg' = tg
            [] x.n = "Response" -> Response(x.i) /\ tg' = tg
            [] x.n = "Bogus"    -> BogusResponse /\ tg' = tg
            [] x.n = "Eof"      -> Eof /\ tg' = tg
       /\ Follow(x.tag)
  /\ UNCHANGED <<tr, tp, te, ot>>

\* Input that arrives after the end has no effect.
Ignored ==
  /\ ~Alive /\ k < Len(T.in) /\ k' = k + 1
  /\ UNCHANGED <<vars, tr, o, l, tp, te, tg, ot>>

\* The next output is an asynchronous answer.
Async ==
  /\ o < Len(T.out)
  /\ LET m == T.out[o + 1] IN
       /\ m.e = "resp"
       /\ \E how \in {"async", "late"} : Answer(m.i, how, m.r)
       /\ k' = k /\ tg' = tg
       /\ Follow(0)
  /\ UNCHANGED <<tr, tp, te, ot>>

\* The next output is thread m.th's next message.
Thread ==
  /\ o < Len(T.out)
  /\ LET m == T.out[o + 1] IN
       /\ m.e \in {"srvreq", "srvnote"}
       /\ m.sq = tp[m.th] + 1
       /\ tp' = [tp EXCEPT ![m.th] = m.sq]
       /\ k' = k /\ tg' = tg
       /\ IF m.e = "srvreq" THEN SrvRequest /\ ot' = [ot EXCEPT ![nout] = m.tag] ELSE SrvNote /\ ot' = ot
       /\ Follow(0)
  /\ UNCHANGED <<tr, te>>

\* The driver's next observation is thread m.th's next event.
Evt ==
  /\ l < Len(T.log)
  /\ LET m == T.log[l + 1] IN
       /\ m.e = "event"
       /\ m.sq = te[m.th] + 1
       /\ te' = [te EXCEPT ![m.th] = m.sq]
       /\ Event(m.k)
       /\ k' = k /\ tg' = tg
       /\ Follow(m.tag)
  /\ UNCHANGED <<tr, tp, ot>>

TInit ==
  /\ Init
  /\ tr \in DOMAIN Traces
  /\ k = 0 /\ o = 0 /\ l = 0
  /\ tp = [t \in Threads |-> 0] /\ te = [t \in Threads |-> 0]
  /\ tg = [i \in Ids |-> 0] /\ ot = [j \in 0..MaxOut |-> 0]

TNext == Input \/ Ignored \/ Async \/ Thread \/ Evt

tvars == <<vars, tr, k, o, l, tp, te, tg, ot>>
TView == <<phase, pend, outp, tr, k, o, l, tp, te>>
TSpec == TInit /\ [][TNext]_tvars

Done == /\ k = Len(T.in) /\ o = Len(T.out) /\ l = Len(T.log)
        /\ \A i \in Ids : pend[i] = "free"
        /\ \A t \in Threads : tp[t] = T.sent[t] /\ te[t] = T.evs[t]

\* Not an invariant: reports how far each trace can be followed.
Report == /\ Done => PrintT(ToJson([acc |-> tr]))
          /\ T.diag = 1 => PrintT(ToJson([far |-> tr, k |-> k, o |-> o, l |-> l, phase |-> phase, pend |-> pend]))
=============================================================================
