-------------------------------- MODULE Roots --------------------------------
(***************************************************************************)
(* The root of a document: what it is, of what is configured and what is   *)
(* on the disk, and what the resolver remembers of the disk. Paths are     *)
(* sequences of names below some directory.                                *)
(***************************************************************************)
EXTENDS Sequences, Integers, SequencesExt, FiniteSets, TLC
CONSTANT Forgets   \* whether a place without typst.toml is forgotten when asked again, as it was once
VARIABLES cfg,     \* what is configured: the root, the roots of the workspace, and the default document
          toml,    \* the directories with a typst.toml
          cached,  \* what was found for each file: unknown, nothing, or a directory
          act, got
vars == <<cfg, toml, cached, act, got>>

None == <<"-">>  \* no path
Dirs == {<<>>, <<"w">>, <<"w", "s">>, <<"v">>}
Files == {<<"w", "s", "f">>, <<"w", "g">>}
Unknown == [found |-> "unknown"]
Nothing == [found |-> "nothing"]
Found(d) == [found |-> "dir", dir |-> d]
Roots == {<<>>} \cup {<<d>> : d \in Dirs} \cup {<<d, e>> : d, e \in Dirs \ {<<>>}}
Cfgs == [root : {None} \cup (Dirs \ {<<>>}), roots : {r \in Roots : \A i, j \in DOMAIN r : r[i] = r[j] => i = j},
         default : {[rel |-> FALSE, path |-> None], [rel |-> TRUE, path |-> <<"s", "f">>], [rel |-> FALSE, path |-> <<"w", "s", "f">>]}]

Parent(f) == Front(f)
Nearest(f) == LET ds == {d \in toml : IsPrefix(d, f)} IN IF ds = {} THEN Nothing ELSE Found(CHOOSE d \in ds : \A e \in ds : Len(e) <= Len(d))
Hits(f) == {i \in DOMAIN cfg.roots : IsPrefix(cfg.roots[i], f)}
ByDisk(f) == cfg.root = None /\ Hits(f) = {}
Look(f) == IF cached[f] = Nothing \/ (cached[f].found = "dir" /\ cached[f].dir \in toml) THEN cached[f] ELSE Nearest(f)
Root(f) == IF cfg.root # None THEN cfg.root
           ELSE IF f = None THEN (IF cfg.roots = <<>> THEN None ELSE cfg.roots[1])
           ELSE IF Hits(f) # {} THEN cfg.roots[CHOOSE i \in Hits(f) : \A j \in Hits(f) : i <= j]
           ELSE IF Forgets /\ cached[f] = Nothing THEN None
           ELSE IF Look(f) = Nothing THEN Parent(f) ELSE Look(f).dir
Strip(f, d) == SubSeq(f, Len(d) + 1, Len(f))
\* A document outside of the root is in a root of its own.
Entry(f) == LET r == Root(f) IN
            IF f = None THEN [root |-> r, main |-> None]
            ELSE IF r # None /\ IsPrefix(r, f) THEN [root |-> r, main |-> Strip(f, r)]
            ELSE [root |-> Parent(f), main |-> <<Last(f)>>]
Default == IF ~cfg.default.rel THEN cfg.default.path
           ELSE IF Root(None) = None THEN None ELSE Root(None) \o cfg.default.path
\* Another document in place of that one.
Select(e, g) == IF e.root = None THEN [root |-> Parent(g), main |-> <<Last(g)>>]
                ELSE IF IsPrefix(e.root, g) THEN [root |-> e.root, main |-> Strip(g, e.root)]
                ELSE [error |-> TRUE]

Nobody == [root |-> None, main |-> None]
Init == cfg \in Cfgs /\ toml = {} /\ cached = [f \in Files |-> Unknown] /\ act = [op |-> "none"] /\ got = Nobody
Note(f) == cached' = IF f \in Files /\ ByDisk(f) THEN [cached EXCEPT ![f] = Look(f)] ELSE cached
Toggle(d) == /\ toml' = (toml \ {d}) \cup ({d} \ toml)
             /\ act' = [op |-> "toml", dir |-> d, on |-> d \notin toml]
             /\ got' = Nobody
             /\ UNCHANGED <<cfg, cached>>
Ask(f) == /\ act' = [op |-> "ask", f |-> f]
          /\ got' = [answer |-> Root(f), entry |-> Entry(f)]
          /\ Note(f)
          /\ UNCHANGED <<cfg, toml>>
AskDefault == /\ act' = [op |-> "default"]
              /\ LET d == Default
                     f == IF d = None THEN None ELSE d IN
                 got' = [default |-> d, entry |-> Entry(f)] /\ Note(f)
              /\ UNCHANGED <<cfg, toml>>
Choose(f, g) == /\ act' = [op |-> "select", f |-> f, g |-> g]
                /\ got' = [entry |-> Select(Entry(f), g)]
                /\ Note(f)
                /\ UNCHANGED <<cfg, toml>>
Next == (\E d \in Dirs : Toggle(d)) \/ AskDefault \/ \E f \in Files \cup {None} : Ask(f) \/ \E g \in Files : Choose(f, g)
Spec == Init /\ [][Next]_vars

Asked(f) == act' = [op |-> "ask", f |-> f]
\* The document is where it is: its root and its path in it make its path.
Whole == [][\A f \in Files : Asked(f) => got'.entry.root \o got'.entry.main = f]_vars
\* What is configured goes first, and the workspace's folders in their order.
Configured == [][\A f \in Files : Asked(f) /\ cfg.root # None => got'.answer = cfg.root]_vars
Folders == [][\A f \in Files : Asked(f) /\ cfg.root = None =>
                \A i \in DOMAIN cfg.roots : IsPrefix(cfg.roots[i], f) => \E j \in 1 .. i : got'.answer = cfg.roots[j]]_vars
\* Otherwise a directory with a typst.toml, or the document's own.
Disk == [][\A f \in Files : Asked(f) /\ ByDisk(f) =>
             /\ IsPrefix(got'.answer, f)
             /\ got'.answer \in toml \cup {Parent(f)}
             /\ (cached[f] = Unknown => \A d \in toml : IsPrefix(d, f) => IsPrefix(d, got'.answer))]_vars
\* Asking again changes nothing.
Again == [][\A f \in Files : Asked(f) => Root(f)' = Root(f) /\ Entry(f)' = Entry(f)]_vars
Kept == [][\A f \in Files : cached[f].found = "dir" /\ cached[f].dir \in toml => cached'[f] = cached[f]]_vars
=============================================================================
