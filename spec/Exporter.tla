------------------------------ MODULE Exporter ------------------------------
(* psdexporter: one PNG for every layer of a document that has pixels, named *)
(* after the positions that lead to it.  The exporter walks the decoded tree *)
(* depth first with an explicit stack of <<node, path>>; `out' is what is on *)
(* the disk.                                                                 *)
EXTENDS Scene, Json

VARIABLES stage, doc, drop, ext, work, out
vars == <<stage, doc, drop, ext, work, out>>

Init == stage = "start" /\ doc = <<>> /\ drop = <<>> /\ ext = <<>> /\ work = <<>> /\ out = <<>>

(* names that must not matter: empty, the group end's, slashes, dots, digits *)
Odd == <<<<>>, <<65>>, <<48, 48, 48>>, <<46, 46, 47, 97>>, <<60, 47, 76, 97, 121, 101, 114, 32, 103, 114, 111, 117, 112, 62>>, <<37, 100>>, <<65, 10, 66>>>>
(* all nodes in one list: positions of more than one digit *)
Flat(d) == LET g == d.n > 3 /\ d.par[2] = 1
           IN  [d EXCEPT !.par = [i \in 1..d.n |-> IF g /\ i > 1 THEN 1 ELSE 0], !.grp = [i \in 1..d.n |-> g /\ i = 1],
                         !.rect = [i \in 1..d.n |-> IF d.grp[i] THEN <<i, 1, i + 1, 2>> ELSE IF g /\ i = 1 THEN <<0, 0, 0, 0>> ELSE @[i]],
                         !.pix = [i \in 1..d.n |-> IF d.grp[i] THEN <<<<i, 2, 3, 255>>>> ELSE IF g /\ i = 1 THEN <<>> ELSE @[i]]]
Make == /\ stage = "start"
        /\ \E s \in {RandomElement(Seeds)} : \E u \in {RandomElement(Seeds)} : \E d0 \in {TreeDoc(s)} :
             LET d == IF Coin(5, u, 1) THEN Flat(d0) ELSE d0
             IN  /\ doc' = T(d)
                 /\ drop' = T([i \in 1..d.n |-> IF Coin(9, u, 20 + i) THEN Mix(u, 60 + i) % 4 ELSE 0])     \* missing color channel: 1..3
                 /\ ext' = T([enc |-> FALSE, tile |-> 0, raw |-> [i \in 1..d.n |-> PickSeq(Odd, u, 100 + i)],
                              uni |-> [i \in 1..d.n |-> PickSeq(Odd, u, 140 + i)], hasuni |-> [i \in 1..d.n |-> Coin(2, u, 180 + i)],
                              bce |-> [i \in 1..d.n |-> "absent"]])
        /\ stage' = "open" /\ UNCHANGED <<work, out>>
Below(g, path) == LET ks == Kids(doc, g) IN [m \in 1..Len(ks) |-> <<ks[m], Append(path, m - 1)>>]
Open == stage = "open" /\ work' = T(Below(0, <<>>)) /\ stage' = "walk" /\ UNCHANGED <<doc, drop, ext, out>>
HasPixels(i) == ~doc.grp[i] /\ NonEmpty(doc.rect[i]) /\ drop[i] = 0
Walk == /\ stage = "walk" /\ work # <<>>
        /\ LET i == work[1][1]  path == work[1][2]
           IN  /\ work' = T((IF doc.grp[i] THEN Below(i, path) ELSE <<>>) \o SubSeq(work, 2, Len(work)))
               /\ out' = IF HasPixels(i) THEN Append(out, [node |-> i, path |-> path]) ELSE out
        /\ UNCHANGED <<stage, doc, drop, ext>>
Emit == /\ stage = "walk" /\ work = <<>>
        /\ PrintT("@@" \o ToJson([export |-> out, drop |-> drop, doc |-> doc, ext |-> ext]))
        /\ stage' = "end" /\ UNCHANGED <<doc, drop, ext, work, out>>
Next == Make \/ Open \/ Walk \/ Emit
Spec == Init /\ [][Next]_vars

(* a path leads to one node only *)
RECURSIVE Lead(_, _)
Lead(g, path) == IF path = <<>> THEN g ELSE Lead(Kids(doc, g)[path[1] + 1], SubSeq(path, 2, Len(path)))
Leads   == \A k \in 1..Len(out) : Lead(0, out[k].path) = out[k].node
Unique  == \A j, k \in 1..Len(out) : j # k => out[j].path # out[k].path /\ out[j].node # out[k].node
Before(p, q) == \E m \in 1..Len(q) : /\ \A k \in 1..(m-1) : k <= Len(p) /\ p[k] = q[k]
                                     /\ m <= Len(p) /\ p[m] < q[m]
Bottom  == \A j, k \in 1..Len(out) : (j < k) => Before(out[j].path, out[k].path)         \* bottom layers first
All     == stage = "end" => {out[k].node : k \in 1..Len(out)} = {i \in 1..doc.n : HasPixels(i)}
=============================================================================
