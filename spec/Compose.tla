------------------------------ MODULE Compose ------------------------------
(* Rendering a document of Scene.tla row by row, and what must be true of   *)
(* the result.                                                              *)
EXTENDS Scene, Json

VARIABLES stage, doc, row, out, seed, size
vars == <<stage, doc, row, out, seed, size>>

Init == stage = "start" /\ doc = <<>> /\ row = 0 /\ out = <<>> /\ seed = 0 /\ size = 0

MakeTree == /\ stage = "start" /\ Focus # "modes"
            /\ \E s \in {RandomElement(Seeds)} : \E d \in {TreeDoc(s)} :
                 doc' = d /\ seed' = s /\ size' = 1 + (Mix(s, 5) % 9)
            /\ stage' = "draw" /\ UNCHANGED <<row, out>>
MakeModes == /\ stage = "start" /\ Focus = "modes"
             /\ \E k \in 1..Len(AllModes) : \E s \in 1..4 : doc' = ModesDoc(s, AllModes[k]) /\ seed' = s /\ size' = 4
             /\ stage' = "draw" /\ UNCHANGED <<row, out>>
(* one row of the canvas at a time *)
DrawRow == /\ stage = "draw" /\ row < doc.h
           /\ out' = Append(out, T([x \in 1..doc.w |-> T(Pre(PixelAt(doc, Settings(doc), x - 1, row)))]))
           /\ row' = row + 1
           /\ stage' = IF row + 1 = doc.h THEN "done" ELSE "draw"
           /\ UNCHANGED <<doc, seed, size>>
Emit == /\ stage = "done"
        /\ PrintT("@@" \o ToJson([doc |-> doc, out |-> out, seed |-> seed, size |-> size, extent |-> Extent(doc),
                                  bbox |-> [i \in 1..doc.n |-> BBox(doc, i)], focus |-> Focus]))
        /\ stage' = "end" /\ UNCHANGED <<doc, row, out, seed, size>>
Next == MakeTree \/ MakeModes \/ DrawRow \/ Emit
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------- what must be true of it *)
RowsDone == {y \in 1..Len(out) : TRUE}
Bounded == \A y \in RowsDone : \A x \in 1..doc.w : \A k \in 1..4 :
             out[y][x][k] >= 0 /\ out[y][x][k] <= out[y][x][4] + 2 /\ out[y][x][4] <= Q
NothingOutside == \A y \in RowsDone : \A x \in 1..doc.w :
             ~Covered(doc, x - 1, y - 1) => out[y][x][4] = 0
(* a hidden node could as well not exist: moving it off the canvas changes nothing *)
Ghost(d) == [d EXCEPT !.rect = [i \in 1..d.n |-> IF Hidden(d, Settings(d), i) THEN <<1000, 1000, 1000, 1000>> ELSE d.rect[i]]]
HiddenIsNothing == stage = "done" =>
   \A x \in {0, doc.w - 1} : T(Pre(PixelAt(Ghost(doc), Settings(doc), x, doc.h - 1))) = out[doc.h][x + 1]
=============================================================================
