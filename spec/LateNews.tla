------------------------------ MODULE LateNews ------------------------------
(* Announcements that arrive while workers are inside of tiles.             *)
(* RenderCache.tla draws a tile in one step; here a worker goes through the *)
(* groups of a tile one by one, reads or fills the cache of each, and keeps *)
(* the whole tile last, so an announcement can come between.  It has to     *)
(* wait until the render is over: taken at once it would be forgotten when  *)
(* the tile, drawn from what it made stale, is kept.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* groups in the tree
          Tiles,    \* tiles, each with a worker
          MaxEv,    \* length of a history
          Keep,     \* TRUE: print histories
          Lossy     \* self-test: "none", "now" (announcements are taken at once) or "lost"

VARIABLES set,      \* what each group shows, a number
          gc, rc,   \* caches: of a group in a tile, of a whole tile; -1 and <<>> are empty
          phase, at, acc,          \* the worker of a tile: next group, what it drew
          filled,   \* what the render put into caches
          pend, defer, unsure, hist
vars == <<set, gc, rc, phase, at, acc, filled, pend, defer, unsure, hist>>

G == 1..N
TT == 1..Tiles
Init == /\ set = [g \in G |-> 0] /\ gc = [x \in G \X TT |-> 0 - 1] /\ rc = [t \in TT |-> <<>>]
        /\ phase = "idle" /\ at = [t \in TT |-> 0] /\ acc = [t \in TT |-> <<>>] /\ filled = {}
        /\ pend = {} /\ defer = {} /\ unsure = FALSE /\ hist = <<>>

Seldom(k) == IF Keep THEN RandomElement(1..k) = 1 ELSE TRUE
More == Len(hist) < MaxEv
Done == Cardinality({t \in TT : at[t] = N + 2})
(* how far the render is, in percent *)
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN at[t] + Sum(S \ {t})
Far == (100 * Sum(TT)) \div (Tiles * (N + 2))

Edit(g) == /\ phase = "idle" /\ More /\ (Cardinality(pend) > 1 => Seldom(4))
           /\ set' = [set EXCEPT ![g] = 1 - @] /\ pend' = pend \cup {g}
           /\ hist' = Append(hist, [op |-> "edit", g |-> g])
           /\ UNCHANGED <<gc, rc, phase, at, acc, filled, defer, unsure>>
Drop(g) == /\ gc' = [x \in G \X TT |-> IF x[1] = g THEN 0 - 1 ELSE gc[x]]
           /\ rc' = [t \in TT |-> <<>>]
Announce(g) == /\ g \in pend /\ More /\ (phase = "render" => Seldom(5))
               /\ pend' = pend \ {g}
               /\ IF phase = "idle" \/ Lossy = "now" THEN Drop(g) /\ UNCHANGED defer
                  ELSE /\ defer' = IF Lossy = "lost" THEN defer ELSE defer \cup {g}
                       /\ UNCHANGED <<gc, rc>>
               /\ hist' = Append(hist, [op |-> "announce", g |-> g, far |-> IF phase = "idle" THEN 0 - 1 ELSE Far])
               /\ UNCHANGED <<set, phase, at, acc, filled, unsure>>
Begin == /\ phase = "idle" /\ More
         /\ phase' = "render" /\ at' = [t \in TT |-> 0] /\ acc' = [t \in TT |-> <<>>] /\ filled' = {}
         /\ unsure' = (pend # {})
         /\ hist' = Append(hist, [op |-> "begin"])
         /\ UNCHANGED <<set, gc, rc, pend, defer>>
(* the worker of tile t takes a step *)
Step(t) ==
  /\ phase = "render" /\ at[t] < N + 2
  /\ UNCHANGED <<set, phase, pend, defer, unsure, hist>>
  /\ IF at[t] = 0
     THEN /\ at' = [at EXCEPT ![t] = IF rc[t] # <<>> THEN N + 2 ELSE 1]
          /\ UNCHANGED <<gc, rc, acc, filled>>
     ELSE IF at[t] <= N
     THEN LET g == at[t]  v == IF gc[<<g, t>>] >= 0 THEN gc[<<g, t>>] ELSE set[g] IN
          /\ acc' = [acc EXCEPT ![t] = Append(@, v)]
          /\ gc' = [gc EXCEPT ![<<g, t>>] = v]
          /\ filled' = IF gc[<<g, t>>] >= 0 THEN filled ELSE filled \cup {<<g, t>>}
          /\ at' = [at EXCEPT ![t] = g + 1]
          /\ UNCHANGED rc
     ELSE /\ rc' = [rc EXCEPT ![t] = acc[t]]
          /\ filled' = filled \cup {<<0, t>>}
          /\ at' = [at EXCEPT ![t] = N + 2]
          /\ UNCHANGED <<gc, acc>>
End(aborted) ==
  /\ phase = "render"
  /\ aborted => Seldom(40)
  /\ IF aborted THEN Done < Tiles ELSE Done = Tiles
  /\ LET undo == aborted
         g1 == [x \in G \X TT |-> IF undo /\ x \in filled THEN 0 - 1 ELSE gc[x]]
         r1 == [t \in TT |-> IF undo /\ <<0, t>> \in filled THEN <<>> ELSE rc[t]]
     IN  /\ gc' = [x \in G \X TT |-> IF x[1] \in defer THEN 0 - 1 ELSE g1[x]]
         /\ rc' = [t \in TT |-> IF defer # {} THEN <<>> ELSE r1[t]]
  /\ defer' = {} /\ phase' = "idle" /\ unsure' = FALSE
  /\ hist' = Append(hist, [op |-> "end", aborted |-> aborted, far |-> Far, sure |-> ~aborted /\ ~unsure, shows |-> set])
  /\ UNCHANGED <<set, at, acc, filled, pend>>
Emit == /\ Keep /\ phase = "idle" /\ ~More
        /\ PrintT("@@" \o ToJson([news |-> hist, groups |-> N, tiles |-> Tiles]))
        /\ phase' = "end" /\ UNCHANGED <<set, gc, rc, at, acc, filled, pend, defer, unsure, hist>>
Next == \/ \E g \in G : Edit(g) \/ Announce(g)
        \/ Begin \/ (\E t \in TT : Step(t)) \/ (\E b \in BOOLEAN : End(b)) \/ Emit
Spec == Init /\ [][Next]_vars

(* a render that began with everything announced shows the settings *)
Current == (phase = "render" /\ ~unsure /\ Done = Tiles) => \A t \in TT : rc[t] = set
(* between renders, with everything announced, no cache is stale *)
Kept == (phase = "idle" /\ pend = {}) => /\ \A t \in TT : rc[t] \in {<<>>, set}
                                         /\ \A g \in G, t \in TT : gc[<<g, t>>] \in {0 - 1, set[g]}
Seen == IF hist = <<>> THEN <<>> ELSE <<Len(hist)>>
View == <<set, gc, rc, phase, at, acc, filled, pend, defer, unsure, Seen>>
=============================================================================
