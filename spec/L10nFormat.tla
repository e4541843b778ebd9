------------------------------ MODULE L10nFormat ------------------------------
(***************************************************************************)
(* Substituting arguments into a message.  A message is a sequence of      *)
(* tokens; "x" and "y" make up names, "t" is other text.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxLen, Tokens, Values
VARIABLES msg, args
vars == <<msg, args>>

TheValues == {<<"A">>, <<>>, <<"{", "x", "}">>, <<"}">>}
Names == {<<"x">>, <<"x", "y">>}
Init == /\ msg \in UNION {[1..n -> Tokens] : n \in 0..MaxLen}
        /\ args \in UNION {[ns -> Values] : ns \in SUBSET Names}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Hole(n) == <<"{">> \o n \o <<"}">>
RECURSIVE Format(_)
Format(s) == IF s = <<>> THEN <<>>
             ELSE IF \E n \in DOMAIN args : IsPrefix(Hole(n), s)
                  THEN LET n == CHOOSE n \in DOMAIN args : IsPrefix(Hole(n), s) IN
                       args[n] \o Format(SubSeq(s, Len(n) + 3, Len(s)))
                  ELSE <<s[1]>> \o Format(Tail(s))

\* The way an implementation scans: from an opening bracket to the next closing one.
Close(s) == LET ps == {p \in DOMAIN s : s[p] = "}"} IN IF ps = {} THEN 0 ELSE CHOOSE p \in ps : \A q \in ps : p <= q
RECURSIVE Scan(_)
Scan(s) == IF s = <<>> THEN <<>>
           ELSE IF s[1] # "{" THEN <<s[1]>> \o Scan(Tail(s))
           ELSE LET p == Close(s) IN
                IF p # 0 /\ SubSeq(s, 2, p - 1) \in DOMAIN args
                THEN args[SubSeq(s, 2, p - 1)] \o Scan(SubSeq(s, p + 1, Len(s)))
                ELSE <<"{">> \o Scan(Tail(s))

Same == Format(msg) = Scan(msg)
Verbatim == (\A n \in DOMAIN args : \A p \in DOMAIN msg : ~IsPrefix(Hole(n), SubSeq(msg, p, Len(msg)))) => Format(msg) = msg
Emit == PrintT(ToJson([m |-> msg, args |-> SetToSeq({[n |-> n, v |-> args[n]] : n \in DOMAIN args}), out |-> Format(msg)]))
=============================================================================
