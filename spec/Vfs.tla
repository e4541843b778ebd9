-------------------------------- MODULE Vfs --------------------------------
(* How tinymist-vfs caches: every revision has a map from file ids to cells that are written once, and a map from paths to the
   file ids read from them; snapshots share the maps of the revision they were taken at; an edit copies both maps and gives the
   files it touches new cells.  Reads of cells are in two steps, so that edits come between.
   What it gives is compared with VfsView at every step (Sound). *)
EXTENDS VfsView, Json
CONSTANTS PathOf, NPaths, Vals, Batches, MaxHandles, MaxSteps, Threads, Thresholds,
          DropUnread,    \* an edit does not take over the cells of files nobody has finished reading
          Bumps,         \* notifications and resets of shadows make a revision also if nobody has read the paths
          NewChanged     \* entries count as changed when they are made
VARIABLES I, cells, mans, pms, hs, fl, good, n, act
vars == <<I, cells, mans, pms, hs, fl, good, n, act>>
F == DOMAIN PathOf
P == 1..NPaths
NoCell == 0
Cell0 == [st |-> "empty", rev |-> 0, val |-> 0]

H0 == [m |-> 1, rev |-> 2, idov |-> [f \in F |-> NONE], pov |-> [p \in P |-> NONE], note |-> [p \in P |-> NONE]]
Init == /\ I = Intent0(PathOf, [p \in P |-> 1], 2)
        /\ cells = <<>> /\ mans = <<[e |-> [f \in F |-> [c |-> NoCell, ch |-> 0]]]>> /\ pms = <<[p \in P |-> {}]>>
        /\ hs = <<H0>> /\ fl = <<>> /\ good = TRUE /\ n = 0 /\ act = [o |-> "init"]

---------------------------------------------------------------------------
Content(h, f) ==
  LET p == PathOf[f]
  IN IF h.idov[f] # NONE THEN h.idov[f] ELSE IF p <= 0 THEN p ELSE IF h.pov[p] # NONE THEN h.pov[p]
     ELSE IF h.note[p] # NONE THEN h.note[p] ELSE I.disk[p]
ByPath(h, f) == h.idov[f] = NONE /\ PathOf[f] > 0
\* The cell of f, made if there is none.
Slot(m, r, f) == IF mans[m].e[f].c # NoCell THEN <<cells, mans, mans[m].e[f].c>>
              ELSE <<Append(cells, Cell0), [mans EXCEPT ![m].e[f] = [c |-> Len(cells) + 1, ch |-> IF NewChanged THEN r ELSE 0]], Len(cells) + 1>>
Stored(pm, h, f) == IF ByPath(h, f) THEN [pm EXCEPT ![h.m][PathOf[f]] = @ \cup {f}] ELSE pm

Read1(k, f) ==
  LET s == Slot(hs[k].m, hs[k].rev, f)  c == s[1][s[3]]  x == IF c.st = "full" THEN c.val ELSE Content(hs[k], f)
  IN /\ c.st # "busy"
     /\ cells' = [s[1] EXCEPT ![s[3]] = IF c.st = "full" THEN c ELSE [st |-> "full", rev |-> hs[k].rev, val |-> x]]
     /\ mans' = s[2] /\ pms' = IF c.st = "full" THEN pms ELSE Stored(pms, hs[k], f)
     /\ good' = (good /\ ReadOk(I, k, f, x)) /\ I' = Read(I, k, f, x)
     /\ act' = [o |-> "read", h |-> k, f |-> f, x |-> x] /\ UNCHANGED <<hs, fl>>

Begin1(k, f) ==
  LET s == Slot(hs[k].m, hs[k].rev, f)  c == s[1][s[3]]
  IN /\ Len(fl) < Threads /\ c.st = "empty"
     /\ fl' = Append(fl, [h |-> hs[k], f |-> f, c |-> s[3], x |-> Content(hs[k], f), on |-> TRUE])
     /\ cells' = [s[1] EXCEPT ![s[3]].st = "busy"]
     /\ mans' = s[2] /\ I' = Begin(I, k, f)
     /\ act' = [o |-> "begin", h |-> k, f |-> f] /\ UNCHANGED <<hs, pms, good>>
End1(t) ==
  LET r == fl[t]
  IN /\ fl[t].on /\ fl' = [fl EXCEPT ![t].on = FALSE]
     /\ cells' = [cells EXCEPT ![r.c] = [st |-> "full", rev |-> r.h.rev, val |-> r.x]]
     /\ pms' = Stored(pms, r.h, r.f)
     /\ good' = (good /\ EndOk(I, t, r.x)) /\ I' = End(I, t, r.x)
     /\ act' = [o |-> "end", t |-> t, x |-> r.x] /\ UNCHANGED <<mans, hs>>

---------------------------------------------------------------------------
(* Edits of the file system itself.  st is the edit so far. *)
Inval(st, G) == IF G = {} THEN st
                ELSE LET RECURSIVE Go(_, _)
                         Go(s, X) == IF X = {} THEN s
                                     ELSE LET f == CHOOSE f \in X : \A g \in X : f <= g
                                          IN Go([s EXCEPT !.cells = Append(@, Cell0), !.m.e[f] = [c |-> Len(s.cells) + 1, ch |-> s.h.rev], !.ch = TRUE], X \ {f})
                     IN Go(st, G)
InvPaths(st, Q) == Inval(st, UNION {st.pm[p] : p \in Q})
ApplyOp(st, o) ==
  CASE o.k = "map" -> [InvPaths(st, {o.p}) EXCEPT !.h.pov[o.p] = o.v, !.ch = TRUE]
    [] o.k = "unmap" -> [InvPaths(st, {o.p}) EXCEPT !.h.pov[o.p] = NONE, !.ch = TRUE]
    [] o.k = "mapid" -> [Inval(st, {o.f}) EXCEPT !.h.idov[o.f] = o.v, !.ch = TRUE]
    [] o.k = "unmapid" -> [Inval(st, {o.f}) EXCEPT !.h.idov[o.f] = NONE, !.ch = TRUE]
    [] o.k = "notify" -> LET r == {o.rem[i] : i \in DOMAIN o.rem}  s == {o.ins[i][1] : i \in DOMAIN o.ins}
                             val(p) == (CHOOSE i \in DOMAIN o.ins : o.ins[i][1] = p)
                         IN [InvPaths(st, r \cup s) EXCEPT !.h.note = [p \in P |-> IF p \in s THEN o.ins[val(p)][2] ELSE IF p \in r THEN NONE ELSE @[p]],
                                                           !.ch = @ \/ (Bumps /\ (r \cup s) # {})]
    [] o.k = "reset_shadow" -> LET s == Inval(InvPaths(st, {p \in P : st.h.pov[p] # NONE}), {f \in F : st.h.idov[f] # NONE})
                               IN [s EXCEPT !.h.pov = [p \in P |-> NONE], !.h.idov = [f \in F |-> NONE],
                                             !.ch = @ \/ (Bumps /\ \E p \in P : st.h.pov[p] # NONE)]
    [] o.k = "reset_cache" -> [st EXCEPT !.m = [e |-> [f \in F |-> [c |-> NoCell, ch |-> 0]]],
                                         !.pm = [p \in P |-> {}], !.ch = TRUE]
RECURSIVE Apply(_, _)
Apply(st, ops) == IF ops = <<>> THEN st ELSE Apply(ApplyOp(st, Head(ops)), Tail(ops))
Unread == {f \in F : LET c == mans[hs[1].m].e[f].c IN c # NoCell /\ cells[c].st # "full"}
Edit1(b) ==
  LET old == hs[1]
      base == IF DropUnread THEN [mans[old.m] EXCEPT !.e = [f \in F |-> IF f \in Unread THEN [c |-> NoCell, ch |-> 0] ELSE @[f]]] ELSE mans[old.m]
      st0 == [m |-> base, pm |-> pms[old.m], h |-> [old EXCEPT !.rev = @ + 1, !.m = Len(mans) + 1], cells |-> cells, ch |-> FALSE]
      st == Apply(st0, b)
      ops == b
      rev == IF st.ch THEN st.h.rev ELSE old.rev
  IN /\ IF st.ch THEN cells' = st.cells /\ mans' = Append(mans, st.m) /\ pms' = Append(pms, st.pm) /\ hs' = [hs EXCEPT ![1] = st.h]
        ELSE UNCHANGED <<cells, mans, pms>> /\ hs' = [hs EXCEPT ![1] = [st.h EXCEPT !.rev = old.rev, !.m = old.m]]
     /\ good' = (good /\ EditOk(I, 1, ops, rev)) /\ I' = Edit(I, 1, ops, rev)
     /\ act' = [o |-> "edit", ops |-> b] /\ UNCHANGED fl

Disk1(p, v) == /\ I.disk[p] # v /\ I' = DiskSet(I, p, v)
               /\ act' = [o |-> "disk", p |-> p, v |-> v] /\ UNCHANGED <<cells, mans, pms, hs, fl, good>>
Snap1 == /\ Len(hs) < MaxHandles /\ hs' = Append(hs, hs[1]) /\ I' = Snap(I, 1)
         /\ act' = [o |-> "snap"] /\ UNCHANGED <<cells, mans, pms, fl, good>>
Fork1 == /\ Len(hs) < MaxHandles
         /\ mans' = Append(mans, [e |-> [f \in F |-> [c |-> NoCell, ch |-> 0]]]) /\ pms' = Append(pms, [p \in P |-> {}])
         /\ hs' = Append(hs, [hs[1] EXCEPT !.m = Len(mans) + 1, !.rev = 2]) /\ I' = Fork(I, 1, 2)
         /\ act' = [o |-> "fork"] /\ UNCHANGED <<cells, fl, good>>
Evict1(k, t) ==
  LET m == hs[k].m
      old == {f \in F : LET c == mans[m].e[f].c IN c # NoCell /\ (IF cells[c].st = "full" THEN cells[c].rev ELSE 0) + t < hs[k].rev}
  IN /\ old # {}
     /\ mans' = [mans EXCEPT ![m].e = [f \in F |-> IF f \in old THEN [c |-> NoCell, ch |-> 0] ELSE @[f]]]
     /\ I' = Evict(I, k, t)
     /\ act' = [o |-> "evict", h |-> k, n |-> t] /\ UNCHANGED <<cells, pms, hs, fl, good>>
Clean1(r, G) ==
  LET m == hs[1].m  ans == \A f \in G : mans[m].e[f].c # NoCell /\ mans[m].e[f].ch <= r
  IN /\ r < hs[1].rev
     /\ good' = (good /\ CleanOk(I, 1, r, G, ans)) /\ I' = Clean(I, 1, r, G, ans)
     /\ act' = [o |-> "clean", r |-> r, ids |-> G, ans |-> ans] /\ UNCHANGED <<cells, mans, pms, hs, fl>>

Step == \/ \E k \in DOMAIN hs, f \in F : Read1(k, f) \/ (k > 1 /\ Begin1(k, f))
        \/ \E t \in DOMAIN fl : End1(t)
        \/ \E b \in Batches : Edit1(b)
        \/ \E p \in P, v \in Vals : Disk1(p, v)
        \/ Snap1 \/ Fork1
        \/ \E k \in DOMAIN hs, t \in Thresholds : Evict1(k, t)
        \/ \E r \in 2..hs[1].rev, f \in F : Clean1(r, {f})
        \/ \E r \in 2..hs[1].rev : Clean1(r, F)
Next == n < MaxSteps /\ n' = n + 1 /\ Step
Spec == Init /\ [][Next]_vars
Sound == good
\* Two handles at the same revision of the file system itself see the same.
VfsV == <<I, cells, mans, pms, hs, fl, good, n>>
Emit == PrintT(ToJson([f |-> VfsV, a |-> act', t |-> VfsV']))

PO1 == <<1>>
PO2 == <<1, 1>>
PO12 == <<1, 2>>
SmallBatches == { <<[k |-> "map", p |-> 1, v |-> 2]>>, <<[k |-> "unmap", p |-> 1]>>, <<[k |-> "mapid", f |-> 1, v |-> 2]>>, <<[k |-> "unmapid", f |-> 1]>>,
                  <<[k |-> "notify", ins |-> <<<<1, 2>>>>, rem |-> <<>>]>>, <<[k |-> "notify", ins |-> <<>>, rem |-> <<1>>]>>,
                  <<[k |-> "reset_shadow"]>>, <<[k |-> "reset_cache"]>> }
=============================================================================
