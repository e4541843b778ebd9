------------------------------- MODULE Focus --------------------------------
(* Which document is the main one. The editor tells it in several ways: the user pins a document; a preview pins one, or only browses; the
   user moves to a document and a client says so ("focus"), or the server guesses it from what is asked ("activities") or opened; the
   settings name a default one; the projects are reloaded, as settings change. *)
EXTENDS Naturals, Sequences
CONSTANTS Files, None, Default,
  KeepsFocus      \* a focus that is not followed now is remembered, for when it can be
VARIABLES main, focus, pos, byUser, byPreview, browsing, manual, active, act   \* pos: where in the focused document the user was last
vars == <<main, focus, pos, byUser, byPreview, browsing, manual, active, act>>
Or(x, y) == IF x = None THEN y ELSE x
Fixed == byUser \/ (byPreview /\ ~browsing) \/ Default # None
Init == /\ main = Default /\ focus = None /\ byUser = FALSE /\ byPreview = FALSE /\ browsing = FALSE
        /\ manual = FALSE /\ active = FALSE /\ act = [op |-> "start"] /\ pos = None
Moves(f) == /\ focus' = (IF Fixed /\ ~KeepsFocus THEN focus ELSE f)
            /\ main' = (IF Fixed THEN main ELSE f)
            /\ pos' = IF f = focus THEN pos ELSE None
Focus(f) == /\ Moves(f) /\ manual' = TRUE /\ act' = [op |-> "focus", f |-> f] /\ UNCHANGED <<byUser, byPreview, browsing, active>>
Stays == UNCHANGED <<main, focus, pos>>
Activity(f, site) ==
  /\ active' = (active \/ ~manual) /\ IF manual THEN Stays ELSE Moves(f)
  /\ act' = [op |-> "activity", f |-> f, site |-> site] /\ UNCHANGED <<byUser, byPreview, browsing, manual>>
Open(f) == /\ IF manual \/ active THEN Stays ELSE Moves(f)
           /\ act' = [op |-> "open", f |-> f] /\ UNCHANGED <<byUser, byPreview, browsing, manual, active>>
Pin(f) == /\ byUser' = (f # None) /\ main' = Or(f, Or(Default, focus))
          /\ act' = [op |-> "pin", f |-> f] /\ UNCHANGED <<focus, pos, byPreview, browsing, manual, active>>
(* A preview of the main project, of a document or (browsing) of whatever is the main one. *)
Preview(f, b) == /\ byPreview' = TRUE /\ browsing' = b /\ main' = Or(f, main) /\ (f # None \/ b)
                 /\ act' = [op |-> "preview", f |-> f, browsing |-> b] /\ UNCHANGED <<focus, pos, byUser, manual, active>>
Unpreview == /\ byPreview' = FALSE /\ browsing' = FALSE /\ act' = [op |-> "unpreview"] /\ UNCHANGED <<main, focus, pos, byUser, manual, active>>
Reload == /\ main' = (IF byUser \/ (byPreview /\ ~browsing) THEN Or(main, Or(Default, focus)) ELSE IF Default # None THEN Default ELSE focus)
          /\ act' = [op |-> "reload"] /\ UNCHANGED <<focus, pos, byUser, byPreview, browsing, manual, active>>
Position(f) == /\ focus = f /\ pos' = f /\ act' = [op |-> "position", f |-> f]
               /\ UNCHANGED <<main, focus, byUser, byPreview, browsing, manual, active>>
Next ==    \/ \E f \in Files : Open(f) \/ \E s \in {"f", "h", "t"} : Activity(f, s)
           \/ \E f \in Files : Position(f)
           \/ \E f \in Files \cup {None} : Focus(f) \/ Pin(f) \/ \E b \in BOOLEAN : Preview(f, b)
           \/ (byPreview /\ Unpreview) \/ Reload
Spec == Init /\ [][Next]_vars
(* A place told is one of the document told. *)
Place == pos \in {None, focus}
(* What is pinned stays the main document until it is said otherwise. *)
Stay == [][(byUser /\ act'.op \notin {"pin", "preview"}) => main' = main]_vars
PreviewStays == [][(byPreview /\ ~browsing /\ main # None /\ act'.op \notin {"pin", "preview"}) => main' = main]_vars
(* Nothing but the user's word moves the default one. *)
DefaultStays == [][(Default # None /\ ~byUser /\ ~byPreview /\ act'.op \notin {"pin", "preview"}) => main' \in {main, Default}]_vars
(* Where the client tells the focus, guesses do not count. *)
Told == [][(manual /\ act'.op \in {"open", "activity"}) => main' = main /\ focus' = focus]_vars
(* The main document follows the user where nothing holds it, *)
Follows == [][(act'.op = "focus" /\ ~byUser /\ ~(byPreview /\ ~browsing) /\ Default = None) => main' = act'.f]_vars
(* and once the user lets go of a pin, it is where the user is. *)
Released == [][(act'.op = "pin" /\ act'.f = None) => main' = Or(Default, focus')]_vars
TellsFocus == [][act'.op = "focus" => focus' = act'.f]_vars
=============================================================================
