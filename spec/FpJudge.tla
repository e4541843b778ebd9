------------------------------ MODULE FpJudge ------------------------------
(* Judges recorded texts of fingerprints: what identifies them is for the code to choose, but it must identify them. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
D == JsonDeserialize("traces.json")

\* f: fingerprint, s: its text, back/jback: what the text and the JSON form parse to
Wrong == {i \in DOMAIN D.ids : LET r == D.ids[i] IN ~(r.back = r.f /\ r.jback = r.f /\ r.uback = r.f /\ r.prefixed = "pre-" \o r.s)}
Texts == {D.ids[i].s : i \in DOMAIN D.ids}
Fps == {D.ids[i].f : i \in DOMAIN D.ids}
\* s: a text, got/jgot: the fingerprint it parses to ("" for an error, "!" for a panic), id: that one's text
Accepted(p) == p.got # "" => p.id = p.s
BadProbes == {i \in DOMAIN D.probes : LET p == D.probes[i] IN ~Accepted(p) \/ p.jgot # p.got}
\* pairs: comparison must agree with identity
BadPairs == {i \in DOMAIN D.pairs : LET p == D.pairs[i] IN ~((p.eq <=> p.f = p.g) /\ (p.lt => p.f # p.g))}
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
ASSUME PrintT(ToJson([wrong |-> SetToSeq(Wrong), same |-> Cardinality(Fps) - Cardinality(Texts), probes |-> SetToSeq(BadProbes),
                      pairs |-> SetToSeq(BadPairs), n |-> Len(D.ids)]))
=============================================================================
