---------------------------- MODULE FileIdJudge ----------------------------
(* File identities: a file id stands for a root and a path in it, whatever their spellings; it denotes that place and never one
   outside its root.  Judges results of the real functions, recorded in traces.json.  Roots are absolute. *)
EXTENDS PathOps, FiniteSets
Rs == JsonDeserialize("traces.json")

Place(cs) == Canon(TRUE, cs)
\* Ids of one kind, root and path are one id.  Without a root there is only one kind.
Rooted(x) == x.k \in {"ws", "untitled"} /\ x.hasroot
Key(x) == <<IF Rooted(x) \/ x.k = "pkg" THEN x.k ELSE "rootless", IF Rooted(x) THEN Place(x.r) ELSE IF x.k = "pkg" THEN <<x.pkg>> ELSE <<>>, Canon(FALSE, x.v)>>
\* What may be read under it: a place in the root, or nothing.
Inside(root, v) == LET d == Denote(FALSE, v) IN IF d[2] = 0 \/ root = <<>> THEN [t |-> "path", c |-> root \o d[3]] ELSE [t |-> "denied", c |-> <<>>]
At(x) == CASE x.k = "ws" /\ x.hasroot -> Inside(Place(x.r), x.v)
           [] x.k = "pkg" -> IF x.missing THEN [t |-> "package", c |-> <<>>] ELSE Inside(x.r, x.v)
           [] OTHER -> [t |-> "rootless", c |-> Canon(FALSE, x.v)]
ItemOk(x) ==
  /\ x.at = At(x)
  /\ x.ws = Rooted(x) /\ x.pk = (x.k = "pkg")
  /\ x.toerr = (At(x).t = "path")
  /\ (At(x).t = "path" => x.aspath = At(x).c)
  /\ x.rt = (IF Rooted(x) THEN [t |-> "path", c |-> Place(x.r)] ELSE IF x.k = "pkg" THEN (IF x.missing THEN [t |-> "package", c |-> <<>>] ELSE [t |-> "path", c |-> x.r])
             ELSE [t |-> "none", c |-> <<>>])
  /\ (At(x).t = "path" /\ x.k = "ws" => x.shown = At(x).c)
IdsOk(xs) ==
  /\ \A i \in DOMAIN xs : ItemOk(xs[i])
  /\ \A i, j \in DOMAIN xs : (xs[i].cls = xs[j].cls) = (Key(xs[i]) = Key(xs[j]))

\* Entries: states of a compilation with a root and a main file.
HasFile(cs) == NoDot(cs) # <<>> /\ Last(NoDot(cs)) # ".."
Main(s, place) == s.hasmain /\ s.mainat = place
RootIs(s, cs) == s.hasroot /\ Denote(TRUE, s.rootc) = Denote(TRUE, cs)
WsRoot(s, cs) == s.haswsroot /\ Denote(TRUE, s.wsrootc) = Denote(TRUE, cs)
Flags(s) == s.inactive = ~s.hasmain /\ s.detached = (~s.hasmain /\ ~s.hasroot) /\ ~s.pkg
NoState(s) == ~s.hasmain /\ ~s.hasroot /\ ~s.haswsroot /\ Flags(s)
Rootless(v) == [t |-> "rootless", c |-> Canon(FALSE, v)]
Prefix(p, cs) == Len(p) <= Len(cs) /\ SubSeq(cs, 1, Len(p)) = p
Made(x, s) ==
  CASE x.from = "detached" -> NoState(s)
    [] x.from = "workspace" -> ~s.hasmain /\ RootIs(s, x.r) /\ WsRoot(s, x.r) /\ Flags(s)
    [] x.from \in {"rooted", "by_id"} -> Main(s, Inside(Place(x.r), x.v)) /\ RootIs(s, x.r) /\ WsRoot(s, x.r) /\ Flags(s)
    [] x.from = "rootless" -> Main(s, Rootless(x.v)) /\ ~s.hasroot /\ ~s.haswsroot /\ Flags(s)
\* The state found for a file of its own: in its own directory.
ByParent(p, s) == /\ Main(s, [t |-> "path", c |-> Place(p)])
                  /\ RootIs(s, Front(NoDot(p))) /\ WsRoot(s, Front(NoDot(p))) /\ Flags(s)
EntryOk(x) ==
  CASE x.op = "make" -> Made(x, x.got)
    [] x.op = "parent" -> IF HasFile(x.p) THEN x.some /\ ByParent(x.p, x.got) ELSE ~x.some
    [] x.op = "file_parent" -> IF x.abs /\ HasFile(x.p) THEN x.some /\ x.mainat = [t |-> "path", c |-> Place(x.p)] ELSE ~x.some
    [] x.op = "select" -> IF x.from \in {"detached", "rootless"} THEN x.some /\ Main(x.got, Rootless(x.p)) /\ ~x.got.hasroot
                          ELSE x.some /\ Main(x.got, Inside(Place(x.r), x.p)) /\ RootIs(x.got, x.r)
    [] x.op = "try" ->
         IF x.from \in {"detached", "rootless"} THEN (IF HasFile(x.p) THEN x.some /\ ByParent(x.p, x.got) ELSE ~x.some /\ ~x.err)
         ELSE /\ x.some => (/\ x.got.hasmain /\ (x.got.mainat.t = "denied" \/ x.got.mainat = [t |-> "path", c |-> Place(x.p)])
                            /\ RootIs(x.got, x.r) /\ Flags(x.got))
              /\ Prefix(Place(x.r), NoDot(x.p)) /\ Place(x.r) = x.r => x.some
              /\ Prefix(Place(x.r), Place(x.p)) /\ x.some => x.got.mainat.t = "path" \/ Place(x.r) # x.r \/ Place(x.p) # x.p
              /\ ~x.some => x.err
    [] x.op = "opts" ->
         IF x.from \in {"by_parent", "from_rootless"}
         THEN (IF x.abs /\ HasFile(x.p) THEN x.some /\ ByParent(x.p, x.got) ELSE x.err)
         ELSE x.some /\ Made(x, x.got)
Ok(x) == IF x.op = "ids" THEN IdsOk(x.items) ELSE EntryOk(x)
Bad == {i \in DOMAIN Rs : ~Ok(Rs[i])}
ASSUME PrintT(ToJson([bad |-> SetToSeq(Bad), n |-> Len(Rs)]))
=============================================================================
