------------------------------- MODULE Owner -------------------------------
(***************************************************************************)
(* In which document a file is worked on. Exporting a document notes it in *)
(* the lock file of its project, the documents noted last taking           *)
(* precedence, together with the files it was made of then. A file is      *)
(* worked on in the document that takes precedence of those that were made *)
(* of it, in the nearest directory upward with such a document; otherwise  *)
(* it's a document of its own.                                             *)
(***************************************************************************)
EXTENDS Sequences, FiniteSets, Integers, SequencesExt
CONSTANTS Files, Dirs, None,
          DirsOf(_),  \* the directories of a file, nearest first
          May(_),     \* the files that a file may include
          Docs(_)     \* the documents that a directory's lock file may have
VARIABLES inc,  \* what each file includes
          lock, \* lock[d]: documents, in the order in which they were exported last
          made  \* made[d][doc]: what the document was made of then
vars == <<inc, lock, made>>

RECURSIVE Of(_)
Of(f) == {f} \cup IF inc[f] = None THEN {} ELSE Of(inc[f])

Init == inc = [f \in Files |-> None] /\ lock = [d \in Dirs |-> <<>>] /\ made = [d \in Dirs |-> [f \in Files |-> {}]]
Edit(f, g) == g \in May(f) \cup {None} /\ g # inc[f] /\ inc' = [inc EXCEPT ![f] = g] /\ UNCHANGED <<lock, made>>
Export(d, f) == /\ f \in Docs(d)
                /\ lock' = [lock EXCEPT ![d] = Append(SelectSeq(@, LAMBDA x : x # f), f)]
                /\ made' = [made EXCEPT ![d][f] = Of(f)]
                /\ UNCHANGED inc
Next == (\E f \in Files, g \in Files \cup {None} : Edit(f, g)) \/ (\E d \in Dirs, f \in Files : Export(d, f))
Spec == Init /\ [][Next]_vars

Using(d, f) == SelectSeq(lock[d], LAMBDA x : f \in made[d][x])
Owning(f) == SelectSeq(DirsOf(f), LAMBDA d : Using(d, f) # <<>>)
Owner(f) == IF Owning(f) = <<>> THEN [dir |-> None, main |-> f]
            ELSE [dir |-> Head(Owning(f)), main |-> Last(Using(Head(Owning(f)), f))]

Once == \A d \in Dirs : \A i, j \in DOMAIN lock[d] : lock[d][i] = lock[d][j] => i = j
\* What is exported owns at once what it's made of, unless a nearer directory does, and takes nothing else.
Takes == [][\A d \in Dirs, x \in Files : Export(d, x) =>
              \A f \in Files :
                LET i == SelectInSeq(DirsOf(f), LAMBDA e : e = d)
                    near == \E k \in 1 .. i - 1 : Using(DirsOf(f)[k], f) # <<>> IN
                IF f \in Of(x) /\ i > 0 THEN near \/ Owner(f)' = [dir |-> d, main |-> x] ELSE Owner(f)' = Owner(f) \/ Owner(f) = [dir |-> d, main |-> x]]_vars
\* Editing changes nothing of that by itself.
Stays == [][\A f \in Files : (lock' = lock /\ made' = made) => Owner(f)' = Owner(f)]_vars
Own == \A f \in Files : Owner(f).dir # None => f \in made[Owner(f).dir][Owner(f).main]
=============================================================================
