------------------------------ MODULE VfsTrace ------------------------------
(* Recorded histories of the real virtual file system: what every operation gave must be what VfsView allows. *)
EXTENDS VfsView, Json
Hs == JsonDeserialize("traces.json")
Set(s) == {s[k] : k \in DOMAIN s}
Shows(I, h, e) == /\ Set(e.paths) = {p \in Paths(I) : V(I, h).pov[p] # NONE} /\ Len(e.paths) = Cardinality(Set(e.paths))
                  /\ Set(e.ids) = {f \in Files(I) : V(I, h).idov[f] # NONE} /\ Len(e.ids) = Cardinality(Set(e.ids))
Ok(I, e) ==
  CASE e.o = "disk" -> TRUE
    [] e.o = "edit" -> EditOk(I, e.h, e.ops, e.rev) /\ Shows(Edit(I, e.h, e.ops, e.rev), e.h, e)
    [] e.o = "snap" -> e.rev = V(I, e.h).rev /\ Shows(I, e.h, e)
    [] e.o = "fork" -> Shows(I, e.h, e)
    [] e.o = "read" -> ReadOk(I, e.h, e.f, e.x)
    [] e.o = "begin" -> TRUE
    [] e.o = "end" -> EndOk(I, e.t, e.x)
    [] e.o = "evict" -> TRUE
    [] e.o = "clean" -> CleanOk(I, e.h, e.r, Set(e.ids), e.ans)
After(I, e) ==
  CASE e.o = "disk" -> DiskSet(I, e.p, e.v)
    [] e.o = "edit" -> Edit(I, e.h, e.ops, e.rev)
    [] e.o = "snap" -> Snap(I, e.h)
    [] e.o = "fork" -> Fork(I, e.h, e.rev)
    [] e.o = "read" -> Read(I, e.h, e.f, e.x)
    [] e.o = "begin" -> Begin(I, e.h, e.f)
    [] e.o = "end" -> End(I, e.t, e.x)
    [] e.o = "evict" -> Evict(I, e.h, e.n)
    [] e.o = "clean" -> Clean(I, e.h, e.r, Set(e.ids), e.ans)
VARIABLES i, k, J
Ev == Hs[i].ev
JInit == i \in DOMAIN Hs /\ k = 0 /\ J = Intent0(Hs[i].files, Hs[i].disk, Hs[i].rev)
JNext == k < Len(Ev) /\ Ok(J, Ev[k + 1]) /\ k' = k + 1 /\ J' = After(J, Ev[k + 1]) /\ i' = i
Report == /\ (k = Len(Ev)) => PrintT(ToJson([acc |-> i]))
          /\ (k < Len(Ev) /\ ~Ok(J, Ev[k + 1])) => PrintT(ToJson([stuck |-> i, at |-> k + 1,
               may |-> IF Ev[k + 1].o = "read" THEN Allowed(J, J.h[Ev[k + 1].h], Ev[k + 1].f) ELSE {}]))
=============================================================================
