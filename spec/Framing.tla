----------------------------- MODULE Framing -----------------------------
(***************************************************************************)
(* The framed message stream: a peer puts tokens (header lines, blank      *)
(* lines, bodies, or faulty pieces of these) on the wire, the reader takes *)
(* them one by one in whatever pieces they arrive, keeps a mirror of what  *)
(* it consumed, and delivers messages until the input ends, is faulty, or  *)
(* says exit.                                                              *)
(*                                                                         *)
(* Peer = "writer": the other end is this library's writer, which turns    *)
(* each message it is given into one well-formed frame.                    *)
(* Peer = "any": the other end may send anything.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Proto, Peer, MaxTok, MsgKinds

VARIABLES
  wire,      \* tokens put on the wire and not consumed yet
  total,     \* number of tokens put on the wire
  closed,    \* has the peer closed its end?
  sent,      \* messages that were completely and correctly put on the wire
  faulty,    \* has a fault been put on the wire?
  rs,        \* reader: "head", "body", "end" (clean), "err"
  size,      \* what the last Content-Length said: "none", "right", "off", "huge"
  got,       \* delivered messages
  consumed,  \* tokens consumed
  mirror,    \* tokens recorded by the mirror
  pos,       \* peer's position in its frame: "head" or "body"
  psize,     \* the length the peer announced in this frame
  act

vars == <<wire, total, closed, sent, faulty, rs, size, got, consumed, mirror, pos, psize, act>>
\* What distinguishes states for the generation of behaviours.
View == [wire |-> IF rs \in {"head", "body"} THEN wire ELSE <<>>, closed |-> closed, rs |-> rs, size |-> size,
         pos |-> pos, psize |-> psize]

LenLines  == {"len", "lencase", "lenoff", "lenhuge"}
BadLines  == {"lenbad", "nosep", "lf", "bin"}
FineLines == {"other"}
BadBodies == {"nonutf8", "nonjson", "notmsg"}
Last      == {"cutline", "cutbody", "ioerr"}    \* the peer's last words

Size(t) == CASE t \in {"len", "lencase"} -> "right" [] t = "lenoff" -> "off" [] t = "lenhuge" -> "huge"

Reading == rs \in {"head", "body"}

(***************************************************************************)
(* The peer.                                                               *)
(***************************************************************************)
Put(t) ==
  /\ ~closed /\ total < MaxTok
  /\ CASE t \in LenLines -> /\ pos = "head" /\ psize' = Size(t)
                            /\ pos' = pos /\ UNCHANGED <<sent, faulty>>
       [] t \in FineLines -> /\ pos = "head" /\ UNCHANGED <<pos, psize, sent, faulty>>
       [] t \in BadLines -> /\ pos = "head" /\ faulty' = TRUE /\ UNCHANGED <<pos, psize, sent>>
       [] t = "blank" -> /\ pos = "head" /\ pos' = "body"
                         /\ faulty' = (faulty \/ psize # "right")
                         /\ UNCHANGED <<psize, sent>>
       [] t \in MsgKinds -> /\ pos = "body" /\ pos' = "head" /\ psize' = "none"
                            /\ sent' = IF faulty THEN sent ELSE Append(sent, t)
                            /\ faulty' = faulty
       [] t \in BadBodies -> /\ pos = "body" /\ pos' = "head" /\ psize' = "none"
                             /\ faulty' = TRUE /\ UNCHANGED sent
       [] t = "cutline" -> /\ pos = "head" /\ faulty' = TRUE /\ UNCHANGED <<pos, psize, sent>>
       [] t = "cutbody" -> /\ pos = "body" /\ faulty' = TRUE /\ UNCHANGED <<pos, psize, sent>>
       [] t = "ioerr" -> /\ faulty' = TRUE /\ UNCHANGED <<pos, psize, sent>>
  /\ wire' = Append(wire, t) /\ total' = total + 1
  /\ closed' = (t \in Last)
  /\ act' = [n |-> "Put", t |-> t]
  /\ UNCHANGED <<rs, size, got, consumed, mirror>>

CloseWire ==
  /\ ~closed /\ closed' = TRUE
  /\ faulty' = (faulty \/ pos = "body")     \* a frame without its body
  /\ act' = [n |-> "CloseWire"]
  /\ UNCHANGED <<wire, total, sent, rs, size, got, consumed, mirror, pos, psize>>

\* The library's writer: one well-formed frame per message, piece by piece.
WriterPut ==
  \/ pos = "head" /\ psize = "none" /\ Put("len")
  \/ pos = "head" /\ psize # "none" /\ Put("blank")
  \/ pos = "body" /\ \E m \in MsgKinds : Put(m)

(***************************************************************************)
(* The reader.                                                             *)
(***************************************************************************)
Consume(t) ==
  /\ wire' = Tail(wire) /\ consumed' = consumed + 1
  /\ mirror' = Append(mirror, t)
  /\ UNCHANGED <<total, closed, sent, faulty, pos, psize>>

Fail == rs' = "err" /\ UNCHANGED <<size, got>>

Read ==
  /\ Reading /\ wire # <<>>
  /\ LET t == Head(wire) IN
       /\ Consume(t)
       /\ CASE t \in Last -> Fail
            [] rs = "head" /\ t \in LenLines -> size' = Size(t) /\ UNCHANGED <<rs, got>>
            [] rs = "head" /\ t \in FineLines -> UNCHANGED <<rs, size, got>>
            [] rs = "head" /\ t = "blank" ->
                 IF size = "none" THEN Fail ELSE rs' = "body" /\ UNCHANGED <<size, got>>
            [] rs = "body" /\ t \in MsgKinds /\ size = "right" ->
                 /\ got' = Append(got, t) /\ size' = "none"
                 /\ rs' = IF Proto = "lsp" /\ t = "exit" THEN "end" ELSE "head"
            [] OTHER -> Fail
       /\ act' = [n |-> "Read", t |-> t, d |-> Len(got') > Len(got), r |-> rs']

\* The input ended: cleanly between or inside headers, as a fault where a body is due.
ReadEof ==
  /\ Reading /\ wire = <<>> /\ closed
  /\ rs' = IF rs = "head" THEN "end" ELSE "err"
  /\ act' = [n |-> "ReadEof", r |-> rs']
  /\ UNCHANGED <<wire, total, closed, sent, faulty, size, got, consumed, mirror, pos, psize>>

Init ==
  /\ wire = <<>> /\ total = 0 /\ closed = FALSE /\ sent = <<>> /\ faulty = FALSE
  /\ rs = "head" /\ size = "none" /\ got = <<>> /\ consumed = 0 /\ mirror = <<>>
  /\ pos = "head" /\ psize = "none" /\ act = [n |-> "Init"]

AnyPut == \E t \in LenLines \cup BadLines \cup FineLines \cup {"blank"} \cup MsgKinds \cup BadBodies \cup Last : Put(t)
Next == (IF Peer = "writer" THEN WriterPut ELSE AnyPut) \/ CloseWire \/ Read \/ ReadEof
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ ReadEof) /\ WF_vars(CloseWire)

-----------------------------------------------------------------------------
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* C09/C10: what is delivered is a prefix of what was correctly sent; nothing else is ever delivered.
NeverMisread == IsPrefix(got, sent)
\* C10: everything before the fault is delivered; the fault is reported, and only faults are.
CutExit(s) == IF Proto = "lsp" /\ \E i \in DOMAIN s : s[i] = "exit"
              THEN SubSeq(s, 1, CHOOSE i \in DOMAIN s : s[i] = "exit" /\ \A j \in 1..(i-1) : s[j] # "exit")
              ELSE s
AllDelivered == rs \in {"end", "err"} => got = CutExit(sent) \/ (rs = "end" /\ ~closed)
FaultReported == /\ rs = "err" => faulty
                 /\ rs = "end" /\ faulty => \E i \in DOMAIN got : got[i] = "exit"
\* C09: our writer's stream is never faulty unless cut short in the middle of a frame
RoundTrip == Peer = "writer" /\ rs = "err" => pos = "body"
\* C11: the mirror is what was consumed; reading it again from the start gives the same messages.
MirrorExact == Len(mirror) = consumed
StepMirror == [][ consumed' = consumed + 1 => mirror' = Append(mirror, Head(wire)) ]_vars
RECURSIVE Rerun(_, _, _, _)
Rerun(m, r, s, g) ==
  IF m = <<>> THEN g
  ELSE LET t == Head(m) IN
    CASE t \in LenLines -> Rerun(Tail(m), r, Size(t), g)
      [] t \in FineLines -> Rerun(Tail(m), r, s, g)
      [] t = "blank" -> IF s = "none" THEN g ELSE Rerun(Tail(m), "body", s, g)
      [] t \in MsgKinds -> IF s = "right" /\ r = "body" THEN Rerun(Tail(m), "head", "none", Append(g, t)) ELSE g
      [] OTHER -> g
Replays == Rerun(mirror, "head", "none", <<>>) = got
Ends == <>(rs \in {"end", "err"})

Emit == PrintT(ToJson([f |-> View, a |-> act', t |-> View']))
\* Conformance needs the peer's choices only: the reader keeps up with it.
Eager == act'.n \in {"Put", "CloseWire"} => wire = <<>> \/ ~Reading
EmitEager == Eager /\ Emit
=============================================================================
