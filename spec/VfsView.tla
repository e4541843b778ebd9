------------------------------- MODULE VfsView -------------------------------
(* What a reader of the virtual file system relies on.  A view is what one revision shows: overlays by file id hide
   overlays by path, these hide what the watcher notified, and that hides the disk.  Everything here is about what is
   observed, not about how the contents are cached: `may' is what the disk may have given for a file since it was last
   invalidated, `seen' what a reader of this view was given (and every later one must be given), `used' what the first one
   was given, `kept' whether it was read when the view was made from another one.  Values are numbers: 0 is "not found", -1 "access denied", others contents and errors. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
U == -99
NONE == -98
DENIED == -1 \* pathOf: a path, or the error of files that have none

Files(I) == DOMAIN I.pathOf
Paths(I) == DOMAIN I.disk
OnDisk(I, f) == IF I.pathOf[f] <= 0 THEN {I.pathOf[f]} ELSE {I.disk[I.pathOf[f]]}

View0(pathOf, disk, rev) ==
  [rev |-> rev, par |-> 0, idov |-> [f \in DOMAIN pathOf |-> NONE], pov |-> [p \in DOMAIN disk |-> NONE],
   note |-> [p \in DOMAIN disk |-> NONE], seen |-> [f \in DOMAIN pathOf |-> U], used |-> [f \in DOMAIN pathOf |-> U],
   may |-> [f \in DOMAIN pathOf |-> IF pathOf[f] <= 0 THEN {pathOf[f]} ELSE {disk[pathOf[f]]}],
   inv |-> [f \in DOMAIN pathOf |-> 0], kept |-> [f \in DOMAIN pathOf |-> FALSE], forgot |-> FALSE]
\* Handle 1 is the file system itself, the others snapshots and forks of it.
Intent0(pathOf, disk, rev) == [pathOf |-> pathOf, disk |-> disk, views |-> <<View0(pathOf, disk, rev)>>, h |-> <<1>>, fl |-> <<>>]

V(I, h) == I.views[I.h[h]]

DiskSet(I, p, v) ==
  [I EXCEPT !.disk[p] = v,
            !.views = [w \in DOMAIN I.views |-> [I.views[w] EXCEPT !.may = [f \in Files(I) |-> IF I.pathOf[f] = p THEN @[f] \cup {v} ELSE @[f]]]]]

---------------------------------------------------------------------------
(* Edits: operations on a view under construction. *)
TouchF(I, v, F) == [v EXCEPT !.may = [f \in Files(I) |-> IF f \in F THEN OnDisk(I, f) ELSE @[f]],
                             !.inv = [f \in Files(I) |-> IF f \in F THEN v.rev ELSE @[f]],
                             !.kept = [f \in Files(I) |-> @[f] /\ f \notin F]]
AtPath(I, P) == {f \in Files(I) : I.pathOf[f] \in P}
EditOp(I, v, o) ==
  CASE o.k = "map"     -> TouchF(I, [v EXCEPT !.pov[o.p] = o.v], AtPath(I, {o.p}))
    [] o.k = "unmap"   -> TouchF(I, [v EXCEPT !.pov[o.p] = NONE], AtPath(I, {o.p}))
    [] o.k = "mapid"   -> TouchF(I, [v EXCEPT !.idov[o.f] = o.v], {o.f})
    [] o.k = "unmapid" -> TouchF(I, [v EXCEPT !.idov[o.f] = NONE], {o.f})
    [] o.k = "notify"  -> LET r == {o.rem[i] : i \in DOMAIN o.rem}
                              n == {o.ins[i][1] : i \in DOMAIN o.ins}
                              last(p) == CHOOSE i \in DOMAIN o.ins : o.ins[i][1] = p /\ \A j \in DOMAIN o.ins : o.ins[j][1] = p => j <= i
                          IN TouchF(I, [v EXCEPT !.note = [p \in Paths(I) |-> IF p \in n THEN o.ins[last(p)][2] ELSE IF p \in r THEN NONE ELSE @[p]]],
                                    AtPath(I, r \cup n))
    [] o.k = "reset_shadow" ->
         LET P == {p \in Paths(I) : v.pov[p] # NONE}  F == {f \in Files(I) : v.idov[f] # NONE}
         IN TouchF(I, [v EXCEPT !.pov = [p \in Paths(I) |-> NONE], !.idov = [f \in Files(I) |-> NONE]], AtPath(I, P) \cup F)
    [] o.k = "reset_cache" -> [TouchF(I, v, Files(I)) EXCEPT !.forgot = TRUE]
Edited(I, w, ops, rev) ==
  FoldLeft(LAMBDA v, o : EditOp(I, v, o),
           [I.views[w] EXCEPT !.rev = rev, !.par = w, !.seen = [f \in Files(I) |-> U], !.used = [f \in Files(I) |-> U],
                           !.kept = [f \in Files(I) |-> @[f] \/ I.views[w].used[f] # U]], ops)
\* The handle's revision after the edit.  It may stay if the edit changes nothing that can be seen.
Noop(I, h, ops) == LET v == V(I, h)  n == Edited(I, I.h[h], ops, v.rev)
                   IN n.idov = v.idov /\ n.pov = v.pov /\ n.note = v.note /\ ~\E i \in DOMAIN ops : ops[i].k = "reset_cache"
EditOk(I, h, ops, rev) == rev > V(I, h).rev \/ (rev = V(I, h).rev /\ Noop(I, h, ops))
Edit(I, h, ops, rev) ==
  IF rev = V(I, h).rev THEN I
  ELSE [I EXCEPT !.views = Append(@, Edited(I, I.h[h], ops, rev)), !.h[h] = Len(I.views) + 1]
Snap(I, h) == [I EXCEPT !.h = Append(@, I.h[h])]
Fork(I, h, rev) ==
  [I EXCEPT !.views = Append(@, [V(I, h) EXCEPT !.rev = rev, !.par = 0, !.inv = [f \in Files(I) |-> 0], !.seen = [f \in Files(I) |-> U],
                                                !.used = [f \in Files(I) |-> U], !.kept = [f \in Files(I) |-> FALSE],
                                                !.forgot = FALSE]),
            !.h = Append(@, Len(I.views) + 1)]

---------------------------------------------------------------------------
(* Reads.  A read begun on a view ends on that view, however much later. *)
Source(I, v, f) ==
  LET p == I.pathOf[f]
  IN IF v.idov[f] # NONE THEN {v.idov[f]} ELSE IF p <= 0 THEN {p} ELSE IF v.pov[p] # NONE THEN {v.pov[p]}
     ELSE IF v.note[p] # NONE THEN {v.note[p]} ELSE v.may[f]
Allowed(I, w, f) == LET v == I.views[w] IN IF v.seen[f] # U THEN {v.seen[f]} ELSE Source(I, v, f)
Saw(I, w, f, x) == [I EXCEPT !.views[w].seen[f] = x, !.views[w].used[f] = IF @ = U THEN x ELSE @]
ReadOk(I, h, f, x) == x \in Allowed(I, I.h[h], f)
Read(I, h, f, x) == Saw(I, I.h[h], f, x)

Begin(I, h, f) == [I EXCEPT !.fl = Append(@, [w |-> I.h[h], f |-> f, loose |-> FALSE])]
EndOk(I, t, x) == LET r == I.fl[t] IN x \in (IF r.loose THEN Source(I, I.views[r.w], r.f) ELSE Allowed(I, r.w, r.f))
End(I, t, x) == LET r == I.fl[t] IN IF r.loose THEN I ELSE Saw(I, r.w, r.f, x)

---------------------------------------------------------------------------
(* Eviction may forget what was read, at the revision of the view or before it by more than the threshold. *)
Evict(I, h, n) ==
  LET w == I.h[h]  old == {f \in Files(I) : I.views[w].inv[f] + n < I.views[w].rev}
  IN [I EXCEPT !.views[w].seen = [f \in Files(I) |-> IF f \in old THEN U ELSE @[f]],
               !.views[w].used = [f \in Files(I) |-> IF f \in old THEN U ELSE @[f]],
               !.views[w].forgot = @ \/ old # {},
               !.fl = [t \in DOMAIN @ |-> [@[t] EXCEPT !.loose = @ \/ I.fl[t].w = w]]]

---------------------------------------------------------------------------
(* "Nothing these files hold has changed since revision r": what was used of them then is what they hold now.  The answer must
   be yes if they were read before the next edit, no edit since has to do with them and nothing was forgotten. *)
RECURSIVE Back(_, _, _), Kept(_, _, _, _)
Back(I, w, r) == IF w = 0 THEN 0 ELSE IF I.views[w].rev = r THEN w ELSE Back(I, I.views[w].par, r)
Kept(I, c, w, f) == c = w \/ (I.views[c].kept[f] /\ Kept(I, I.views[c].par, w, f))
CleanOk(I, h, r, F, ans) ==
  LET c == I.h[h]  w == Back(I, c, r)
  IN IF w = 0 THEN TRUE
     ELSE IF ans THEN \A f \in F : I.views[w].used[f] # U => I.views[w].used[f] \in Allowed(I, c, f)
     ELSE ~(/\ \A f \in F : I.views[w].used[f] # U /\ Kept(I, c, w, f)
            /\ ~I.views[c].forgot)
Clean(I, h, r, F, ans) ==
  LET c == I.h[h]  w == Back(I, c, r)  known(f) == f \in F /\ I.views[w].used[f] # U
  IN IF w = 0 \/ ~ans THEN I
     ELSE [I EXCEPT !.views[c].seen = [f \in Files(I) |-> IF known(f) THEN I.views[w].used[f] ELSE @[f]],
                    !.views[c].used = [f \in Files(I) |-> IF known(f) THEN I.views[w].used[f] ELSE @[f]]]
=============================================================================
