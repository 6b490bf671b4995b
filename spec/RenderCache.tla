---------------------------- MODULE RenderCache ----------------------------
(* The renderer: every group keeps, per tile, what it drew last time, edits  *)
(* are announced and delete what depends on them, a render may be cancelled, *)
(* announcements during a render wait until it ends, trees can be cloned.    *)
(*                                                                           *)
(* Drawing is symbolic: a value says which node was drawn with which         *)
(* opacity, mode and mask onto what, so two values are equal exactly when    *)
(* the pixels must be (what the pixels are is Compose.tla's subject).        *)
(* The promise: a completed render shows what a new tree with the same       *)
(* settings would show, as soon as every edit was announced before it.       *)
(*                                                                           *)
(* Two uses: breadth-first over all small trees and histories (Abstract),    *)
(* and long random histories on documents of Scene.tla which are replayed    *)
(* into the real renderer.                                                   *)
EXTENDS Scene, Json, FiniteSets

CONSTANTS Abstract,        \* TRUE: small abstract trees, breadth first
          Nodes, NTiles,   \* size of the abstract trees
          EditKinds,       \* subset of {"vis", "op", "bm", "mask"}
          MaxEv,           \* length of a history
          Clones,          \* whether trees are cloned
          Lossy            \* self-test: "none", or a deliberately broken rule

(* a cached value is <<0, <<>>>> (none), <<1, <<>>>> (nothing is drawn) or <<2, drawing>>; *)
(* a drawing is a sequence of <<what, node, opacities, mode, drawing, drawing>>           *)
None == <<0, <<>>>>
Nil == <<1, <<>>>>
Drawn(v) == <<2, v>>

VARIABLES phase, tr, s, o, hist, rd
vars == <<phase, tr, s, o, hist, rd>>
(* tr : the tree, constant: n, par, grp, clip, occ (tiles with pixels), tiles *)
(* s  : a renderer: set (settings), cache, dest, pend (edits not announced), sync *)
(* o  : the other renderer (a clone, or the original), or <<>>              *)
(* rd : the running render: todo, diff, add, defer, dirty, pend0, and aside, *)
(*      whether it draws to something else than dest                         *)

Kid(t, i) == SelectSeq([k \in 1..t.n |-> k], LAMBDA k : t.par[k] = i)
BaseOf(t, i) ==                 \* the node that clipping node i clips to, 0 if none
  LET low == {j \in 1..(i-1) : t.par[j] = t.par[i] /\ ~t.clip[j]}
  IN  IF low = {} THEN 0 ELSE CHOOSE j \in low : \A k \in low : k <= j
ClipRun(t, i) == IF t.clip[i] THEN <<>> ELSE SelectSeq([k \in 1..t.n |-> k], LAMBDA k : t.clip[k] /\ t.par[k] = t.par[i] /\ BaseOf(t, k) = i)
HasKids(t, i) == \E k \in 1..t.n : t.par[k] = i

(* ------------------------------------------------------------- drawing *)
(* a drawing run is <<b, C, add, drew>>: buffer, caches, entries added      *)
RECURSIVE DrawL(_, _, _, _, _, _, _, _)
DrawL(t, S, i, pt, b, om, C, force) ==
  IF ~S.vis[i] \/ S.op[i] = 0 \/ om = <<0>> THEN <<b, C, {}, FALSE>>
  ELSE IF t.clip[i] /\ ~force THEN <<b, C, {}, FALSE>>
  ELSE IF ~HasKids(t, i) /\ pt \notin t.occ[i] THEN <<b, C, {}, FALSE>>
  ELSE
  LET pass == S.bm[i] = PassThrough
      o2 == Append(om, S.op[i])
      put(bb, v) == IF pass THEN v ELSE Append(bb, <<"draw", i, o2, S.bm[i], v, <<>>>>)
      hit == HasKids(t, i) /\ C[<<i, pt>>] # None
  IN  IF hit THEN (IF C[<<i, pt>>] = Nil THEN <<b, C, {}, FALSE>> ELSE <<put(b, C[<<i, pt>>][2]), C, {}, TRUE>>)
      ELSE
      LET one(acc, k) == LET r == DrawL(t, S, k, pt, acc[1], IF pass THEN o2 ELSE <<>>, acc[2], FALSE)
                         IN  T(<<r[1], r[2], acc[3] \cup r[3], acc[4] \/ r[4]>>)
          r1 == IF HasKids(t, i) THEN T(FoldLeft(one, <<IF pass THEN b ELSE <<>>, C, {}, FALSE>>, Kid(t, i)))
                ELSE <<<<<<"px", i, <<>>, "", <<>>, <<>>>>>>, C, {}, TRUE>>
          v1 == IF ~S.mask[i] THEN r1[1] ELSE IF pass THEN <<<<"lerp", i, <<>>, "", b, r1[1]>>>> ELSE <<<<"masked", i, <<>>, "", r1[1], <<>>>>>>
          cone(acc, k) == LET r == DrawL(t, S, k, pt, acc[1], <<>>, acc[2], TRUE)
                          IN  T(<<r[1], r[2], acc[3] \cup r[3], acc[4]>>)
          r2 == IF ClipRun(t, i) = <<>> THEN <<v1, r1[2], r1[3], TRUE>>
                ELSE LET c == T(FoldLeft(cone, <<<<<<"base", i, <<>>, "", v1, <<>>>>>>, r1[2], r1[3], TRUE>>, ClipRun(t, i)))
                     IN  <<<<<<"clipped", i, <<>>, "", v1, c[1]>>>>, c[2], c[3], TRUE>>
          key == <<i, pt>>
      IN  IF ~r1[4] THEN <<b, [r1[2] EXCEPT ![key] = Nil], r1[3] \cup {key}, FALSE>>
          ELSE IF HasKids(t, i) THEN <<put(b, r2[1]), [r2[2] EXCEPT ![key] = Drawn(r2[1])], r2[3] \cup {key}, TRUE>>
          ELSE <<put(b, r2[1]), r2[2], r2[3], TRUE>>

NoCache(t) == [x \in (0..t.n) \X t.tiles |-> None]
DrawRoot(t, S, pt, C) ==
  LET one(acc, k) == LET r == DrawL(t, S, k, pt, acc[1], <<>>, acc[2], FALSE)
                     IN  T(<<r[1], r[2], acc[3] \cup r[3], acc[4] \/ r[4]>>)
      r == T(FoldLeft(one, <<<<>>, C, {}, FALSE>>, Kid(t, 0)))
      key == <<0, pt>>
  IN  T(<<IF r[4] THEN Drawn(r[1]) ELSE Nil, [r[2] EXCEPT ![key] = IF r[4] THEN Drawn(r[1]) ELSE Nil], r[3] \cup {key}>>)
(* what a tree that never rendered before shows *)
Fresh(t, S, pt) == DrawRoot(t, S, pt, NoCache(t))[1]

(* --------------------------------------------------------- announcements *)
RECURSIVE AreaIn(_, _, _)
AreaIn(t, S, i) == UNION {IF ~S.vis[k] \/ S.op[k] = 0 \/ t.clip[k] THEN {} ELSE IF HasKids(t, k) THEN AreaIn(t, S, k) ELSE t.occ[k]
                            : k \in {k \in 1..t.n : t.par[k] = i}}
Area(t, S, i) == IF HasKids(t, i) THEN AreaIn(t, S, i) ELSE IF t.grp[i] THEN {} ELSE t.occ[i]
RECURSIVE PassSet(_, _, _)
PassSet(t, S, i) == {i} \cup UNION {PassSet(t, S, k) : k \in {k \in 1..t.n : t.par[k] = i /\ S.bm[k] = PassThrough}}
RECURSIVE UpSet(_, _, _)
UpSet(t, S, i) ==
  {i} \cup (IF i = 0 THEN {}
            ELSE IF t.clip[i] THEN (IF BaseOf(t, i) = 0 THEN {} ELSE UpSet(t, S, BaseOf(t, i)))
            ELSE (IF Lossy = "siblings" THEN {} ELSE UNION {PassSet(t, S, k) : k \in {k \in 1..t.n : t.par[k] = t.par[i] /\ S.bm[k] = PassThrough}})
                 \cup UpSet(t, S, t.par[i]))
Dirty(t, S, i) == (IF Lossy = "inner" THEN {} ELSE PassSet(t, S, i)) \cup UpSet(t, S, i)
Discard(t, S, C, i) == LET D == Dirty(t, S, i) A == Area(t, S, i)
                       IN  [x \in DOMAIN C |-> IF x[1] \in D /\ x[2] \in A THEN None ELSE C[x]]

(* ------------------------------------------------------------------ start *)
(* abstract trees: every shape of Nodes nodes over NTiles tiles             *)
Renderer(t, S) == [set |-> S, cache |-> NoCache(t), dest |-> [x \in t.tiles |-> None], pend |-> {}, sync |-> FALSE]
NoRd == [todo |-> {}, diff |-> FALSE, add |-> {}, defer |-> <<>>, dirty |-> {}, pend0 |-> {}, aside |-> FALSE]

Init == /\ phase = "start" /\ tr = <<>> /\ s = <<>> /\ o = <<>> /\ hist = <<>> /\ rd = NoRd

Shape(par, grp, clip, bm) ==
  /\ \A i \in 1..Nodes : par[i] < i /\ (par[i] = 0 \/ grp[par[i]])
  /\ \A i \in 1..Nodes : grp[i] => \E k \in 1..Nodes : par[k] = i
  /\ \A i \in 1..Nodes : bm[i] = PassThrough => grp[i]
  /\ \A i \in 1..Nodes : clip[i] => LET low == {j \in 1..(i-1) : par[j] = par[i] /\ ~clip[j]}
                                     IN  low # {} /\ bm[CHOOSE j \in low : \A k \in low : k <= j] # PassThrough
MakeAbstract ==
  /\ phase = "start" /\ Abstract
  /\ \E par \in [1..Nodes -> 0..(Nodes-1)] : \E grp \in [1..Nodes -> BOOLEAN] : \E clip \in [1..Nodes -> BOOLEAN] :
     \E bm \in [1..Nodes -> {"Normal", PassThrough}] :
       /\ Shape(par, grp, clip, bm) = TRUE
       /\ \E occ \in [{i \in 1..Nodes : ~grp[i]} -> (SUBSET (1..NTiles)) \ {{}}] :
          LET t == [n |-> Nodes, par |-> par, grp |-> grp, clip |-> clip, tiles |-> 1..NTiles,
                    occ |-> [i \in 1..Nodes |-> IF grp[i] THEN {} ELSE occ[i]], doc |-> <<>>, ts |-> 0, canMask |-> [i \in 1..Nodes |-> TRUE]]
          IN  /\ tr' = t
              /\ s' = Renderer(t, [vis |-> [i \in 1..Nodes |-> TRUE], op |-> [i \in 1..Nodes |-> 255], bm |-> bm, mask |-> [i \in 1..Nodes |-> FALSE]])
  /\ phase' = "idle" /\ UNCHANGED <<o, hist, rd>>

Floor(a, k) == IF a >= 0 THEN a \div k ELSE 0 - ((k - 1 - a) \div k)
Occ(d, i, ts) == LET r == d.rect[i]
                 IN  {<<Floor(r[1] + ((j - 1) % RW(r)), ts), Floor(r[2] + ((j - 1) \div RW(r)), ts)>> : j \in Solid(d, i)}
TilesOf(d, ts) == LET r == Extent(d)
                  IN  IF ~NonEmpty(r) THEN {} ELSE (Floor(r[1], ts)..Floor(r[3] - 1, ts)) \X (Floor(r[2], ts)..Floor(r[4] - 1, ts))
MakeScene ==
  /\ phase = "start" /\ ~Abstract
  /\ \E sd \in {RandomElement(Seeds)} : \E d \in {TreeDoc(sd)} : \E ts \in {PickSeq(<<2, 3, 4, 5, 8>>, sd, 7)} :
       LET tiles == TilesOf(d, ts)
           hm == [i \in 1..d.n |-> d.mask[i].on /\ NonEmpty(d.mask[i].rect)]
           t == [n |-> d.n, par |-> d.par, grp |-> d.grp, clip |-> d.clip, tiles |-> tiles,
                 occ |-> T([i \in 1..d.n |-> IF d.grp[i] THEN {} ELSE Occ(d, i, ts) \cap tiles]), doc |-> d, ts |-> ts, canMask |-> hm]
       IN  /\ tr' = t
           /\ s' = Renderer(t, [vis |-> d.vis, op |-> d.op, bm |-> d.bm, mask |-> hm])
  /\ phase' = "idle" /\ UNCHANGED <<o, hist, rd>>

(* ------------------------------------------------------------------ edits *)
More == Len(hist) < MaxEv
Say(e) == hist' = IF Abstract THEN Append(hist, e.op) ELSE Append(hist, e)
(* the setting that node i gets: never pass-through for a leaf, or for a group something clips to *)
MayPass(i) == tr.grp[i] /\ ClipRun(tr, i) = <<>>
NewVal(i, k, z) ==
  CASE k = "vis"  -> ~s.set.vis[i]
    [] k = "op"   -> IF Abstract THEN (IF s.set.op[i] = 255 THEN 128 ELSE 255) ELSE PickSeq(<<255, 128, 200, 64, 0>>, z, 1)
    [] k = "mask" -> tr.canMask[i] /\ ~s.set.mask[i]
    [] k = "bm"   -> IF MayPass(i) /\ s.set.bm[i] # PassThrough /\ (Abstract \/ Coin(2, z, 2)) THEN PassThrough
                     ELSE IF Abstract THEN "Normal" ELSE PickSeq(Gentle, z, 3)
Cur(i, k) == CASE k = "vis" -> s.set.vis[i] [] k = "op" -> s.set.op[i] [] k = "mask" -> s.set.mask[i] [] k = "bm" -> s.set.bm[i]
SetTo(S, i, k, v) ==
  CASE k = "vis" -> [S EXCEPT !.vis[i] = v] [] k = "op" -> [S EXCEPT !.op[i] = v]
    [] k = "mask" -> [S EXCEPT !.mask[i] = v] [] k = "bm" -> [S EXCEPT !.bm[i] = v]

EditNow(i, k, z) ==
  LET v == NewVal(i, k, z)
  IN  /\ s' = [s EXCEPT !.set = SetTo(s.set, i, k, v), !.pend = @ \cup {i}]
      /\ rd' = IF phase = "render" THEN [rd EXCEPT !.dirty = @ \cup {i}] ELSE rd
      /\ Say([op |-> "edit", i |-> i, f |-> k, v |-> v])
AnnounceNow(i) ==
  /\ s' = [s EXCEPT !.pend = @ \ {i}, !.cache = IF phase = "render" THEN @ ELSE Discard(tr, s.set, @, i)]
  /\ rd' = IF phase = "render" THEN [rd EXCEPT !.defer = IF Lossy = "defer" THEN @ ELSE Append(@, i)] ELSE rd
  /\ Say([op |-> "announce", i |-> i])

Seldom(k) == IF Abstract THEN TRUE ELSE RandomElement(1..k) = 1
CanEdit == /\ phase \in {"idle", "render"} /\ More
           /\ phase = "render" => Seldom(9)
Edit == /\ CanEdit
        /\ \E i \in (IF Abstract THEN 1..tr.n ELSE {RandomElement(1..tr.n)}) :
           \E k \in (IF Abstract THEN EditKinds ELSE {RandomElement(EditKinds)}) :
           \E z \in (IF Abstract THEN {0} ELSE {RandomElement(Seeds)}) : NewVal(i, k, z) # Cur(i, k) /\ EditNow(i, k, z)
        /\ UNCHANGED <<phase, tr, o>>
Announce == /\ CanEdit
            /\ \E i \in (IF Abstract \/ s.pend = {} THEN s.pend ELSE {RandomElement(s.pend)}) : AnnounceNow(i)
            /\ UNCHANGED <<phase, tr, o>>

(* several edits at once, of a node and of another one that is close to it, *)
(* each announced, in any order                                              *)
Near(i) == {j \in 1..tr.n : j # i /\ (tr.par[j] = tr.par[i] \/ tr.par[j] = i \/ tr.par[i] = j
                                       \/ (tr.par[i] # 0 /\ tr.par[j] = tr.par[tr.par[i]]) \/ (tr.par[j] # 0 /\ tr.par[tr.par[j]] = i))}
EditOf(i, k, v) == [op |-> "edit", i |-> i, f |-> k, v |-> v]
AnnounceOf(i) == [op |-> "announce", i |-> i]
Burst ==
  /\ ~Abstract /\ phase \in {"idle", "render"} /\ s.pend = {} /\ Len(hist) + 8 < MaxEv
  /\ Seldom(IF phase = "render" THEN 7 ELSE 5)
  /\ \E z \in {RandomElement(Seeds)} : \E z2 \in {RandomElement(Seeds)} :
     \E i \in {Pick(1..tr.n, z, 21)} : Near(i) # {} /\
     \E j \in {PickSeq(SetToSeq(Near(i)), z, 22)} :
     \E k \in {PickSeq(<<"vis", "vis", "op", "op", "bm", "mask">>, z, 23)} : \E m \in {PickSeq(<<"vis", "vis", "vis", "op", "bm", "mask">>, z, 24)} :
     \E v \in {NewVal(i, k, z)} : \E w \in {NewVal(j, m, z2)} : v # Cur(i, k) /\ w # Cur(j, m) /\
     LET set2 == SetTo(SetTo(s.set, i, k, v), j, m, w)
         ord == PickSeq(<<1, 1, 2, 3>>, z2, 25)     \* edit-announce twice; both edits, then in order; in the other order
         a == IF ord = 1 THEN <<EditOf(i, k, v), AnnounceOf(i), EditOf(j, m, w), AnnounceOf(j)>>
              ELSE IF ord = 2 THEN <<EditOf(i, k, v), EditOf(j, m, w), AnnounceOf(i), AnnounceOf(j)>>
              ELSE <<EditOf(i, k, v), EditOf(j, m, w), AnnounceOf(j), AnnounceOf(i)>>
         mid == IF ord = 1 THEN SetTo(s.set, i, k, v) ELSE set2
         C1 == IF ord = 3 THEN Discard(tr, set2, s.cache, j) ELSE Discard(tr, mid, s.cache, i)
         C2 == IF ord = 3 THEN Discard(tr, set2, C1, i) ELSE Discard(tr, set2, C1, j)
     IN  /\ s' = [s EXCEPT !.set = set2, !.cache = IF phase = "render" THEN @ ELSE T(C2)]
         /\ rd' = IF phase = "render"
                  THEN [rd EXCEPT !.dirty = @ \cup {i, j}, !.defer = @ \o (IF ord = 3 THEN <<j, i>> ELSE <<i, j>>)] ELSE rd
         /\ hist' = hist \o a
  /\ UNCHANGED <<phase, tr, o>>

(* announce everything that is left *)
Settle == /\ ~Abstract /\ phase = "idle" /\ s.pend # {} /\ More
          /\ s' = [s EXCEPT !.pend = {}, !.cache = FoldLeft(LAMBDA C, i : T(Discard(tr, s.set, C, i)), @, SetToSeq(s.pend))]
          /\ hist' = hist \o [k \in 1..Cardinality(s.pend) |-> [op |-> "announce", i |-> SetToSeq(s.pend)[k]]]
          /\ UNCHANGED <<phase, tr, o, rd>>

(* ---------------------------------------------------------------- renders *)
Start == /\ phase = "idle" /\ More
         /\ s.pend # {} => Seldom(6)
         /\ \E diff, aside \in BOOLEAN :
              /\ aside => s.sync /\ Seldom(3)
              /\ rd' = [NoRd EXCEPT !.todo = tr.tiles, !.diff = diff, !.pend0 = s.pend, !.aside = aside]
              /\ Say([op |-> "begin", diff |-> diff, aside |-> aside])
         /\ phase' = "render" /\ UNCHANGED <<tr, s, o>>
DoTile(pt) ==
  LET cached == s.cache[<<0, pt>>] # None
      r == DrawRoot(tr, s.set, pt, s.cache)
      v == IF cached THEN s.cache[<<0, pt>>] ELSE r[1]
  IN  /\ rd' = [rd EXCEPT !.todo = @ \ {pt}, !.add = IF cached THEN @ ELSE @ \cup r[3]]
      /\ s' = [s EXCEPT !.cache = IF cached THEN @ ELSE r[2], !.dest = IF rd.aside \/ (cached /\ rd.diff) THEN @ ELSE [@ EXCEPT ![pt] = v]]
Tile == /\ phase = "render" /\ rd.todo # {}
        /\ \E pt \in (IF Abstract THEN rd.todo ELSE {RandomElement(rd.todo)}) : DoTile(pt)
        /\ UNCHANGED <<phase, tr, o, hist>>

RECURSIVE Flush(_, _, _)
Flush(S, C, q) == IF q = <<>> THEN C ELSE Flush(S, T(Discard(tr, S, C, Head(q))), Tail(q))
EndWith(aborted) ==
  LET c1 == IF aborted /\ Lossy # "revert" THEN [x \in DOMAIN s.cache |-> IF x \in rd.add THEN None ELSE s.cache[x]] ELSE s.cache
  IN  /\ s' = [s EXCEPT !.cache = Flush(s.set, c1, rd.defer), !.sync = IF rd.aside THEN @ /\ aborted ELSE @ \/ (~rd.diff /\ ~aborted)]
      /\ hist' = Append(hist, IF Abstract THEN "end"
                  ELSE [op |-> "end", aborted |-> aborted, left |-> Cardinality(rd.todo),
                        check |-> ~aborted /\ ~rd.aside /\ rd.pend0 = {} /\ rd.dirty = {} /\ (~rd.diff \/ s.sync)])
      /\ phase' = "idle" /\ rd' = NoRd /\ UNCHANGED <<tr, o>>
Finish == phase = "render" /\ rd.todo = {} /\ EndWith(FALSE)
(* in simulation most renders are left to complete; one that draws aside and is cancelled must leave no trace *)
Abort  == phase = "render" /\ rd.todo # {} /\ (rd.aside \/ Seldom(8)) /\ EndWith(TRUE)

(* -------------------------------------------- other destination, clones *)
NewDest == /\ phase = "idle" /\ More /\ s.sync /\ ~Abstract /\ Seldom(5)
           /\ s' = [s EXCEPT !.dest = [x \in tr.tiles |-> None], !.sync = FALSE]
           /\ Say([op |-> "newdest"]) /\ UNCHANGED <<phase, tr, o, rd>>
Clone == /\ phase = "idle" /\ More /\ o = <<>> /\ Clones
         /\ o' = s /\ s' = Renderer(tr, s.set)
         /\ Say([op |-> "clone"]) /\ UNCHANGED <<phase, tr, rd>>
Swap == /\ phase = "idle" /\ More /\ o # <<>> /\ Seldom(4)
        /\ o' = s /\ s' = o
        /\ Say([op |-> "swap"]) /\ UNCHANGED <<phase, tr, rd>>

Emit == /\ ~Abstract /\ phase = "idle" /\ ~More
        /\ PrintT("@@" \o ToJson([script |-> hist, doc |-> tr.doc, ts |-> tr.ts]))
        /\ phase' = "end" /\ UNCHANGED <<tr, s, o, hist, rd>>
Next == MakeAbstract \/ MakeScene \/ Edit \/ Announce \/ Burst \/ Settle \/ Start \/ Tile \/ Finish \/ Abort \/ NewDest \/ Clone \/ Swap \/ Emit
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- promises *)
(* a completed render with all edits announced shows what a new tree shows  *)
NeverStale ==
  (phase = "render" /\ ~rd.aside /\ rd.todo = {} /\ rd.pend0 = {} /\ rd.dirty = {} /\ (~rd.diff \/ s.sync))
    => \A pt \in tr.tiles : s.dest[pt] = Fresh(tr, s.set, pt)
(* between renders, with all edits announced, every cached tile is current  *)
CacheCurrent ==
  (phase = "idle" /\ s.pend = {}) => \A pt \in tr.tiles : s.cache[<<0, pt>>] \in {None, Fresh(tr, s.set, pt)}
View == <<phase, tr, s, o, Len(hist), rd>>
=============================================================================
