---------------------------- MODULE PathJudge ----------------------------
(* Judges results of the real path functions, recorded in traces.json.     *)
EXTENDS PathOps, FiniteSets

Rs == JsonDeserialize("traces.json")

\* std's view of components: "." only counts at the start of a relative path.
Comps(a, cs) == LET r == NoDot(cs) IN IF ~a /\ cs # <<>> /\ cs[1] = "." THEN <<".">> \o r ELSE r

\* Judged against the lexical parents, each exactly once, down to the stop.
AncOk(x) ==
  LET cs   == Comps(x.a, x.c)
      pre  == [i \in 1..(Len(cs) + 1) |-> SubSeq(cs, 1, Len(cs) + 1 - i)]
      hits == {i \in DOMAIN pre : x.stop /\ x.a = x.qa /\ pre[i] = Comps(x.qa, x.qc)}
      n    == IF hits = {} THEN Len(pre) ELSE CHOOSE i \in hits : \A j \in hits : i <= j
  IN /\ Len(x.list) = n
     /\ \A i \in 1..n : x.list[i].a = x.a /\ Comps(x.list[i].a, x.list[i].c) = pre[i]

Ok(x) ==
  CASE x.op \in {"clean", "normalize"} ->
         /\ x.ra = x.a
         /\ Denote(x.ra, x.rc) = Denote(x.a, x.c)
         /\ IsCanon(x.ra, NoDot(x.rc)) /\ (Len(x.rc) > 1 \/ x.ra => NoDot(x.rc) = x.rc)
         /\ x.again
    [] x.op = "unix_slash" ->
         /\ x.ra = x.a
         /\ NoDot(x.rc) = NoDot(x.c)
         /\ (x.rc # NoDot(x.rc) => x.rc = <<".">>)
         /\ x.text
    [] x.op = "diff" ->
         IF x.none THEN ~HasRel(x.a, x.c, x.qa, x.qc)
         ELSE /\ Follow(Denote(x.qa, x.qc), x.ra, x.rc) = Denote(x.a, x.c)
              /\ x.ra => x.a # x.qa
    [] x.op = "ancestors" -> AncOk(x)

Bad == {i \in DOMAIN Rs : ~Ok(Rs[i])}
ASSUME PrintT(ToJson([bad |-> SetToSeq(Bad), n |-> Len(Rs)]))
=============================================================================
