------------------------------ MODULE Outputs -------------------------------
(***************************************************************************)
(* Where an export is written to: a pattern with variables for the root,   *)
(* the directory and the name of the document. Texts are sequences of      *)
(* "/", "." (one dot), ".." and names; "r", "d", "e", "n" stand for names  *)
(* in the values of the variables, "x" for one of the pattern.             *)
(***************************************************************************)
EXTENDS Sequences, Integers, SequencesExt, TLC, Json
CONSTANTS N
VARIABLES pat, dir
Toks == {"$root", "$dir", "$name", "/", ".", "..", "x"}
Dirs == {<<>>, <<"d">>, <<"d", "e">>}
\* Dots are not glued together to other dots, of which those of an empty directory are one.
Dotty == {".", "..", "$dir"}
Fine(p) == \A i \in 1 .. Len(p) - 1 : ~(p[i] \in Dotty /\ p[i + 1] \in Dotty)

Init == pat = <<>> /\ dir \in Dirs
Next == Len(pat) < N /\ \E t \in Toks : pat' = Append(pat, t) /\ Fine(pat') /\ UNCHANGED dir
Spec == Init /\ [][Next]_<<pat, dir>>

Join(s) == FoldLeft(LAMBDA a, x : IF a = <<>> THEN <<x>> ELSE a \o <<"/", x>>, <<>>, s)
Value(t) == CASE t = "$root" -> <<"/", "r">> [] t = "$dir" -> (IF dir = <<>> THEN <<".">> ELSE Join(dir)) [] t = "$name" -> <<"n">> [] OTHER -> <<t>>
Text == FoldLeft(LAMBDA a, t : a \o Value(t), <<>>, pat)
\* The components of a text.
Parts(t) == FoldLeft(LAMBDA a, x : IF x = "/" THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, x)], <<<<>>>>, t)
Abs(t) == t # <<>> /\ t[1] = "/"
Clean(t) == FoldLeft(LAMBDA a, c :
              IF c \in {<<>>, <<".">>} THEN a
              ELSE IF c # <<"..">> THEN Append(a, c)
              ELSE IF a # <<>> /\ Last(a) # <<"..">> THEN Front(a)
              ELSE IF Abs(t) THEN a ELSE Append(a, c), <<>>, Parts(t))
File == <<<<"r">>>> \o [i \in DOMAIN dir |-> <<dir[i]>>] \o <<<<"n">>>>
Result == IF pat = <<>> THEN [abs |-> TRUE, at |-> File] ELSE [abs |-> Abs(Text), at |-> Clean(Text)]

\* Only a pattern that begins at the file system's root, or at that of the project, leads there.
Begins == pat # <<>> /\ Result.abs => pat[1] \in {"/", "$root"}
Inside == pat # <<>> /\ pat[1] = "$root" /\ (Len(pat) > 1 => pat[2] = "/") /\ (\A i \in DOMAIN pat : pat[i] # "..") => IsPrefix(<<<<"r">>>>, Result.at)
Own == pat = <<"$root", "/", "$dir", "/", "$name">> => Result = [abs |-> TRUE, at |-> File]
Emit == PrintT(ToJson([pat |-> pat, dir |-> dir, is |-> Result]))
EmitInv == Emit
=============================================================================
