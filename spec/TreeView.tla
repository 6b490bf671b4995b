------------------------------ MODULE TreeView ------------------------------
(* What a composite tree reports about a document of Scene.tla.  The writer  *)
(* lays the nodes out as layer records (a hidden lower bound, the members,   *)
(* the group itself); the builder takes the records one by one, as LayerTree *)
(* does, and then finds out which layers clip to which.  The invariants      *)
(* compare what it built with the document's own relations.                  *)
EXTENDS Scene, Json

VARIABLES stage, doc, ext, recs, pos, stack, cur, node, k
vars == <<stage, doc, ext, recs, pos, stack, cur, node, k>>
(* node[i]: seq (record number), par, kids, by (base of a clipping layer, 0: none), clips *)

Init == stage = "start" /\ doc = <<>> /\ ext = <<>> /\ recs = <<>> /\ pos = 0 /\ stack = <<>> /\ cur = <<>> /\ node = <<>> /\ k = 0

RECURSIVE Records(_, _)
Records(d, i) == (IF d.grp[i] THEN <<<<"bound", i>>>> \o Cat([m \in 1..Len(Kids(d, i)) |-> Records(d, Kids(d, i)[m])]) ELSE <<>>) \o <<<<"node", i>>>>
AllRecords(d) == Cat([m \in 1..Len(Kids(d, 0)) |-> Records(d, Kids(d, 0)[m])])

Legacy == <<<<>>, <<65>>, <<76, 97, 121, 101, 114, 32, 49>>, <<131, 140, 131, 67>>, <<233, 255, 128>>, <<60, 47, 76, 97, 121, 101, 114, 32, 103, 114, 111, 117, 112, 62>>>>
Units == <<<<>>, <<65>>, <<12524, 12452, 12516, 12540>>, <<55357, 56832, 233>>, <<65279, 97>>>>
(* what the names' bytes are guessed from: all the names, wherever they are *)
Told == Cat([m \in 1..Len(recs) |-> IF recs[m][1] = "node" THEN ext.raw[recs[m][2]] ELSE <<>>])
Asks == \E i \in 1..doc.n : ext.raw[i] # <<>> /\ ~(ext.hasuni[i] /\ ext.uni[i] # <<>>)
(* odd things that Scene's documents do not have: layers that clip to nothing, *)
(* and a leaf whose blend mode is pass-through (reported as normal)            *)
Make == /\ stage = "start"
        /\ \E s \in {RandomElement(Seeds)} : \E u \in {RandomElement(Seeds)} : \E d \in {TreeDoc(s)} :
             LET d2 == [d EXCEPT !.clip = [i \in 1..d.n |-> @[i] \/ Coin(6, u, i)],
                                 !.bm = [i \in 1..d.n |-> IF ~d.grp[i] /\ Coin(9, u, 40 + i) THEN PassThrough ELSE IF Coin(12, u, 80 + i) THEN "unknown" ELSE IF Coin(4, u, 120 + i) THEN AllModes[1 + (Mix(u, 160 + i) % Len(AllModes))] ELSE @[i]]]
             IN  /\ doc' = d2
                 /\ ext' = T([enc |-> Coin(2, u, 200), tile |-> PickSeq(<<0, 1, 3, 16, 64>>, u, 201),
                              raw |-> [i \in 1..d.n |-> PickSeq(Legacy, u, 240 + i)],
                              uni |-> [i \in 1..d.n |-> IF Coin(2, u, 280 + i) THEN <<>> ELSE PickSeq(Units, u, 320 + i)],
                              hasuni |-> [i \in 1..d.n |-> Coin(2, u, 360 + i)],
                              bce |-> [i \in 1..d.n |-> PickSeq(<<"absent", "on", "off">>, u, 400 + i)]])
                 /\ recs' = T(AllRecords(d2))
                 /\ node' = [i \in 1..d.n |-> [seq |-> -1, par |-> -1, kids |-> <<>>, by |-> 0, clips |-> <<>>]]
        /\ pos' = 0 /\ stage' = "read" /\ UNCHANGED <<stack, cur, k>>
Read == /\ stage = "read" /\ pos < Len(recs)
        /\ \E e \in {recs[pos + 1]} :
             IF e[1] = "bound" THEN stack' = Append(stack, cur) /\ cur' = <<>> /\ UNCHANGED node
             ELSE IF doc.grp[e[2]]
             THEN /\ node' = [i \in 1..doc.n |-> IF i = e[2] THEN [node[i] EXCEPT !.seq = pos, !.kids = cur]
                                                 ELSE IF \E m \in 1..Len(cur) : cur[m] = i THEN [node[i] EXCEPT !.par = e[2]] ELSE node[i]]
                  /\ cur' = Append(stack[Len(stack)], e[2]) /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
             ELSE node' = [node EXCEPT ![e[2]].seq = pos] /\ cur' = Append(cur, e[2]) /\ UNCHANGED stack
        /\ pos' = pos + 1 /\ UNCHANGED <<stage, doc, ext, recs, k>>
Root == /\ stage = "read" /\ pos = Len(recs)
        /\ node' = [i \in 1..doc.n |-> IF \E m \in 1..Len(cur) : cur[m] = i THEN [node[i] EXCEPT !.par = 0] ELSE node[i]]
        /\ stage' = "clip" /\ k' = 0 /\ UNCHANGED <<doc, ext, recs, pos, stack, cur>>
(* one list of siblings (k: the group, 0: the root) at a time, top to bottom *)
Sibs(g) == IF g = 0 THEN cur ELSE node[g].kids
RECURSIVE Register(_, _, _)
Register(list, wait, N) ==
  IF list = <<>> THEN N
  ELSE LET i == list[Len(list)]  rest == SubSeq(list, 1, Len(list) - 1)
       IN  IF doc.clip[i] THEN Register(rest, <<i>> \o wait, N)
           ELSE Register(rest, <<>>, [j \in DOMAIN N |-> IF j = i THEN [N[j] EXCEPT !.clips = wait]
                                                         ELSE IF \E m \in 1..Len(wait) : wait[m] = j THEN [N[j] EXCEPT !.by = i] ELSE N[j]])
Clips == /\ stage = "clip" /\ k <= doc.n
         /\ node' = T(Register(Sibs(k), <<>>, node))
         /\ k' = k + 1 /\ UNCHANGED <<stage, doc, ext, recs, pos, stack, cur>>
Name(i) == IF ext.hasuni[i] /\ ext.uni[i] # <<>> THEN [as |-> "units", v |-> ext.uni[i]]
           ELSE IF ext.enc THEN [as |-> "points", v |-> ext.raw[i]] ELSE [as |-> "bytes", v |-> ext.raw[i]]
View(i) == [node |-> i, seq |-> node[i].seq, par |-> node[i].par, kids |-> node[i].kids, by |-> node[i].by, clips |-> node[i].clips,
            vis |-> doc.vis[i], op |-> doc.op[i], bm |-> IF ~doc.grp[i] /\ doc.bm[i] = PassThrough THEN "Normal" ELSE doc.bm[i],
            folder |-> doc.grp[i], open |-> doc.grp[i] /\ doc.open[i], clip |-> doc.clip[i], bce |-> ext.bce[i] # "off",
            maskon |-> doc.mask[i].on /\ NonEmpty(doc.mask[i].rect), def |-> doc.mask[i].def, name |-> Name(i)]
Emit == /\ stage = "clip" /\ k > doc.n
        /\ PrintT("@@" \o ToJson([view |-> [i \in 1..doc.n |-> View(i)], root |-> cur, doc |-> doc, ext |-> ext, extent |-> Extent(doc), told |-> Told, asks |-> Asks]))
        /\ stage' = "end" /\ UNCHANGED <<doc, ext, recs, pos, stack, cur, node, k>>
Next == Make \/ Read \/ Root \/ Clips \/ Emit
Spec == Init /\ [][Next]_vars

Done == stage = "end"
Mirrors == Done => /\ cur = Kids(doc, 0)
                   /\ \A i \in 1..doc.n : node[i].par = doc.par[i] /\ node[i].kids = Kids(doc, i)
Ordered == Done => \A i, j \in 1..doc.n : (i < j /\ doc.par[i] = doc.par[j]) => node[i].seq < node[j].seq
Mutual  == Done => \A i, j \in 1..doc.n : (node[j].by = i) <=> (\E m \in 1..Len(node[i].clips) : node[i].clips[m] = j)
(* a clipping layer belongs to the nearest lower sibling that does not clip  *)
Nearest == Done => \A j \in 1..doc.n :
             LET low == {i \in 1..(j-1) : doc.par[i] = doc.par[j] /\ ~doc.clip[i]}
             IN  node[j].by = (IF ~doc.clip[j] \/ low = {} THEN 0 ELSE CHOOSE i \in low : \A m \in low : m <= i)
Runs    == Done => \A i \in 1..doc.n : node[i].clips = ClipsOf(doc, i)
=============================================================================
