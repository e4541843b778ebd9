--------------------------- MODULE ProjectsJudge ----------------------------
(* Judges what was seen of the real server's projects, wherever everything had come to rest (and the order of all results). *)
EXTENDS Compile, TLC, Json, SequencesExt
Rs == JsonDeserialize("traces.json")

Content(j) == IF j.has THEN [lit |-> j.lit, inc |-> j.inc, err |-> j.err] ELSE None
View(r) == [f \in DOMAIN r.view |-> Content(r.view[f])]
Active(r) == {p \in DOMAIN r.live : r.live[p] # ""}
Expect(r) == LET v == View(r) IN [p \in Active(r) |-> Result(v, r.live[p])]
Msgs(es) == {e[2] : e \in es}
(* What is shown as text: the words, or nothing if there are errors. *)
SameText(shown, R, main) ==
  IF Errors(R, main) = {} THEN ~shown.none /\ shown.words = Words(R, main) ELSE shown.none

Converged(r) ==
  /\ DOMAIN r.projects = DOMAIN r.live
  /\ LET X == Expect(r) IN \A p \in Active(r) :
       LET q == r.projects[p] E == Errors(X[p], r.live[p]) IN
       /\ q.entry = r.live[p] /\ ~q.compiling
       /\ SameText(q, X[p], r.live[p]) /\ ToSet(q.errs) = Msgs(E)
       /\ p \in DOMAIN r.previews => /\ SameText(r.previews[p], X[p], r.live[p])
                                     /\ r.previews[p].status = IF E = {} THEN "CompileSuccess" ELSE "CompileError"
Screened(r) ==
  LET X == Expect(r)
      Es == [p \in Active(r) |-> Errors(X[p], r.live[p])]
      all == UNION {Es[p] : p \in Active(r)} IN
  /\ {<<d.f, d.m, d.n>> : d \in ToSet(r.diags)} = {<<e[1], e[2], Cardinality({p \in Active(r) : e \in Es[p]})>> : e \in all}
  /\ "primary" \in Active(r) => r.status = <<IF Es["primary"] = {} THEN "compileSuccess" ELSE "compileError", r.live["primary"]>>

(* Files written on disk are read by the watcher and by compilations, so that for a moment an older reading may follow a newer one.
   The others: the earliest time, not before t, at which f was as shown; 0 if there is none up to the time it was seen. *)
When(r, x, f, t) ==
  LET ts == {k \in t..x.t : Content(r.views[k][f]) = Content(x.files[f])} IN
  IF ts = {} THEN 0 ELSE CHOOSE k \in ts : \A l \in ts : k <= l
RECURSIVE InOrder(_, _, _)
(* at[f]: when f was as last shown. *)
InOrder(r, i, at) ==
  IF i > Len(r.results) THEN TRUE
  ELSE LET x == r.results[i]
           now == [f \in DOMAIN at |-> IF f \in DOMAIN x.files \ ToSet(r.written) THEN When(r, x, f, at[f]) ELSE at[f]] IN
       (\A f \in DOMAIN at \ ToSet(r.written) : now[f] # 0) /\ InOrder(r, i + 1, now)
RECURSIVE AllAtOnce(_, _, _)
(* If nothing happens on disk, a result shows all files as they were at one moment. *)
AllAtOnce(r, i, t) ==
  IF i > Len(r.results) THEN TRUE
  ELSE LET x == r.results[i]
           ts == {k \in t..x.t : \A f \in DOMAIN x.files : Content(r.views[k][f]) = Content(x.files[f])} IN
       ts # {} /\ AllAtOnce(r, i + 1, CHOOSE k \in ts : \A l \in ts : k <= l)
Ordered(r) == InOrder(r, 1, [f \in DOMAIN r.views[1] |-> 1]) /\ (ToSet(r.written) = {} => AllAtOnce(r, 1, 1))

(* What must have been exported for the last thing done is what is true. *)
Exported(r) ==
  LET X == Expect(r)
      Fine(p) == Errors(X[p], r.live[p]) = {} IN
  /\ \A p \in Active(r) \cap DOMAIN r.due :
       r.when \in ToSet(r.due[p]) /\ Fine(p) => r.live[p] \in DOMAIN r.exports /\ r.exports[r.live[p]] = Words(X[p], r.live[p])
  /\ r.when = "never" => DOMAIN r.exports = {}
  /\ IF r.counts THEN "primary" \in Active(r) => (Fine("primary") => r.words = Len(Words(X["primary"], r.live["primary"]))) ELSE r.words = -1

Good(r) == CASE r.k = "C26" -> Converged(r) [] r.k = "C27" -> Screened(r) [] r.k = "C28" -> Ordered(r) [] r.k = "C29" -> Exported(r)
             [] r.k = "order" -> Ordered(r)
Bad == {i \in DOMAIN Rs : ~Good(Rs[i])}
ASSUME PrintT(ToJson([bad |-> SetToSeq(Bad), n |-> Len(Rs)]))
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
