------------------------------ MODULE L10n ------------------------------
(***************************************************************************)
(* Selecting locales and looking up messages.  A locale is a sequence of   *)
(* subtags; <<"zh">> serves <<"zh", "tw">>.  The text of key k in locale l *)
(* is told apart from all others; "program" is the message given with the  *)
(* lookup.  Case is left to the binding: it does not matter.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Locales, Requests, Keys, MaxLocales
VARIABLES cat,    \* the catalogue: locale -> keys it has
          set,    \* whether it was given to the library
          cur,    \* the selected locale, <<>> for none
          act
vars == <<cat, set, cur, act>>
View == <<cat, set, cur>>

Cats == UNION {[ls -> SUBSET Keys \ {{}}] : ls \in {ls \in SUBSET Locales : Cardinality(ls) <= MaxLocales}}
Serves(l, r) == IsPrefix(l, r)
Candidates(r) == {l \in DOMAIN cat : Serves(l, r)}
Best(r) == CHOOSE l \in Candidates(r) : \A m \in Candidates(r) : Len(m) <= Len(l)

Init == cat \in Cats /\ set = FALSE /\ cur = <<>> /\ act = [o |-> "start"]
Give == ~set /\ set' = TRUE /\ act' = [o |-> "set"] /\ UNCHANGED <<cat, cur>>
\* A second catalogue is not taken.
GiveAgain == set /\ act' = [o |-> "again"] /\ UNCHANGED <<cat, set, cur>>
SelectOk(r) == set /\ Candidates(r) # {}
Select(r) == /\ act' = [o |-> "select", l |-> r, r |-> SelectOk(r)]
             /\ cur' = IF SelectOk(r) THEN Best(r) ELSE cur
             /\ UNCHANGED <<cat, set>>
Text(c, k) == IF c # <<>> /\ k \in cat[c] THEN c ELSE <<"program">>
Look(k) == act' = [o |-> "look", k |-> k, r |-> Text(cur, k)] /\ UNCHANGED <<cat, set, cur>>
Next == Give \/ GiveAgain \/ (\E r \in Requests : Select(r)) \/ \E k \in Keys \cup {0} : Look(k)
Spec == Init /\ [][Next]_vars

CurThere == cur # <<>> => set /\ cur \in DOMAIN cat
\* An exact catalogue wins, and it never falls back to another language.
Exact == [][act'.o = "select" /\ set /\ act'.l \in DOMAIN cat => cur' = act'.l]_vars
SameLanguage == [][act'.o = "select" /\ act'.r => cur'[1] = act'.l[1]]_vars
FailKeeps == [][act'.o = "select" /\ ~act'.r => cur' = cur]_vars
NothingLost == [][act'.o = "look" => (act'.r = <<"program">> <=> (cur = <<>> \/ act'.k \notin cat[cur]))]_vars
CatList(c) == {[l |-> l, ks |-> c[l]] : l \in DOMAIN c}
Show == [cat |-> SetToSeq(CatList(cat)), set |-> set, cur |-> cur]
Emit == PrintT(ToJson([f |-> Show, a |-> act', t |-> Show']))

Tags(n) == CASE n = 1 -> {<<"zh">>, <<"zh", "tw">>, <<"zh", "hant">>, <<"zh", "hant", "tw">>, <<"en">>, <<"z">>}
             [] n = 2 -> {<<"zh">>, <<"zh", "tw">>, <<"zh", "tw", "x">>, <<"zh", "hant">>, <<"zh", "hant", "tw">>, <<"zh", "han">>, <<"zhx">>,
                          <<"z">>, <<"en", "us">>, <<"en">>, <<"fr">>, <<"">>, <<"zh", "">>, <<"tw">>}
TheLocales == Tags(1)
TheRequests == Tags(2)
=============================================================================
