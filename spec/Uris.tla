-------------------------------- MODULE Uris --------------------------------
(* Documents as the editor names them and as the server keeps them. A path is a sequence of names; a name is a sequence of characters, of
   which some must be written in percent in a URI ("reserved": they mean something there), some may be, and "%" always is.
     "a"  written as it is or in percent      "q"  reserved: "#", "?", "[", " " and the like
     "p"  the percent sign itself              "h"  two characters that look like the rest of an escape: "41" *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Kinds, MaxNames, MaxLen, Encodes   \* the server writes reserved characters and percent signs of untitled names in percent
Names == UNION {[1..l -> Kinds] : l \in 1..MaxLen}
Paths == UNION {[1..l -> Names] : l \in 1..MaxNames}
(* Tokens of a URI: a character as it is, or in percent: <<"lit", c>>, <<"pct", c>>. *)
Spellings(c) == CASE c = "a" -> {<<"lit", c>>, <<"pct", c>>} [] c = "h" -> {<<"lit", c>>} [] OTHER -> {<<"pct", c>>}
RECURSIVE Spelt(_)
Spelt(n) == IF n = <<>> THEN {<<>>} ELSE {<<s>> \o r : s \in Spellings(Head(n)), r \in Spelt(Tail(n))}
(* Reading: "%" and "41" as they are, side by side, are an escape, namely of an "a"; what is reserved ends the path. *)
RECURSIVE Read(_)
Read(u) ==
  IF u = <<>> THEN <<>>
  ELSE LET h == Head(u) IN
       IF h = <<"lit", "p">> /\ Len(u) > 1 /\ u[2] = <<"lit", "h">> THEN <<"a">> \o Read(SubSeq(u, 3, Len(u)))
       ELSE IF h = <<"lit", "q">> THEN <<>> ELSE <<h[2]>> \o Read(Tail(u))
(* How the server writes a name. *)
Written(n) == [i \in DOMAIN n |-> IF Encodes /\ n[i] \in {"p", "q"} THEN <<"pct", n[i]>> ELSE <<"lit", n[i]>>]
VARIABLES scheme, path, uri, kept, told
vars == <<scheme, path, uri, kept, told>>
Init == /\ scheme \in {"file", "untitled"} /\ path \in Paths
        /\ uri \in {us \in [DOMAIN path -> UNION {Spelt(path[i]) : i \in DOMAIN path}] : \A i \in DOMAIN path : us[i] \in Spelt(path[i])}
        /\ kept = <<>> /\ told = <<>>
Open == kept = <<>> /\ kept' = [i \in DOMAIN uri |-> Read(uri[i])] /\ UNCHANGED <<scheme, path, uri, told>>
Publish == kept # <<>> /\ told = <<>> /\ told' = [i \in DOMAIN kept |-> IF scheme = "file" THEN CHOOSE s \in Spelt(kept[i]) : TRUE ELSE Written(kept[i])]
           /\ UNCHANGED <<scheme, path, uri, kept>>
Next == Open \/ Publish
Spec == Init /\ [][Next]_vars
(* The server keeps the document the editor means, and what it says of it reaches that one. *)
Kept == kept # <<>> => kept = path
Told == told # <<>> => [i \in DOMAIN told |-> Read(told[i])] = path
=============================================================================
