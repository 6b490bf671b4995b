----------------------------- MODULE RowWorkers -----------------------------
(* Rows of run-length data are decoded by several workers at once, each      *)
(* taking a run of neighbouring rows.  Whatever the runs are and however the *)
(* workers interleave, the outcome is that of decoding each row on its own:  *)
(* the plane is refused exactly when some row is broken, and otherwise every *)
(* row holds what its own packets say.  Every assignment of row kinds is     *)
(* enumerated, with every way of cutting the rows into runs and every        *)
(* interleaving; each assignment is emitted as bytes for the real decoder.   *)
EXTENDS Bytes, Json
CONSTANTS Rs, Kinds
Width == 9
VARIABLES pc, kind, cuts, nxt, bad, out
vars == <<pc, kind, cuts, nxt, bad, out>>
N == Len(kind)
Plane(y) == [i \in 1..Width |-> IF y % 2 = 0 THEN 7 * y ELSE (y * 31 + i * i) % 256]
Packets(y, k) == LET good == PackRow(Plane(y), 1000 + y)
                 IN  CASE k = "good" -> good [] k = "short" -> <<2, y, y, 0>> [] k = "empty" -> <<>>
                       [] k = "over" -> good \o <<255, 78>> [] k = "cut" -> <<4, y, y>>
RowOut(y, k) == UnpackRow(Packets(y, k), Width)

Init == /\ pc = "rows" /\ kind = <<>> /\ cuts = {} /\ nxt = <<>> /\ bad = <<>> /\ out = <<>>
AddRow == pc = "rows" /\ \E k \in Kinds : kind' = Append(kind, k) /\ UNCHANGED <<pc, cuts, nxt, bad, out>>
Ready == pc = "rows" /\ N \in Rs /\ pc' = "split" /\ UNCHANGED <<kind, cuts, nxt, bad, out>>
(* a run starts at row 1 and at every cut; workers are named by their first row *)
Split == /\ pc = "split"
         /\ \E c \in SUBSET (2..N) : /\ cuts' = c \cup {1}
                                     /\ nxt' = [x \in c \cup {1} |-> x]
         /\ bad' = {} /\ out' = [y \in 1..N |-> Zeros(Width)]
         /\ pc' = "work" /\ UNCHANGED kind
EndOf(x) == LET later == {z \in cuts : z > x} IN IF later = {} THEN N ELSE (CHOOSE z \in later : \A u \in later : z <= u) - 1
Work(x) == /\ pc = "work" /\ nxt[x] <= EndOf(x) /\ x \notin bad
           /\ LET y == nxt[x]  r == RowOut(y, kind[y])
              IN  IF r.ok THEN out' = [out EXCEPT ![y] = r.out] /\ UNCHANGED bad
                  ELSE bad' = bad \cup {x} /\ UNCHANGED out
           /\ nxt' = [nxt EXCEPT ![x] = @ + 1] /\ UNCHANGED <<pc, kind, cuts>>
Done == pc = "work" /\ \A x \in cuts : x \in bad \/ nxt[x] > EndOf(x)
Next == ((\E m \in Rs : N < m) /\ AddRow) \/ Ready \/ Split \/ (pc = "work" /\ \E x \in cuts : Work(x))
Spec == Init /\ [][Next]_vars

BadRows == {y \in 1..N : ~RowOut(y, kind[y]).ok}
Verdict == Done => (bad # {}) = (BadRows # {})
Own     == (Done /\ bad = {}) => \A y \in 1..N : out[y] = RowOut(y, kind[y]).out
Apart   == pc = "work" => \A y \in 1..N : out[y] \in {Zeros(Width), RowOut(y, kind[y]).out}
Emit == pc = "split" => \E large \in {N % 2 = 0} :
          PrintT("@@" \o ToJson([g |-> [comp |-> 1, depth |-> 8, w |-> Width, h |-> N, ch |-> 1, large |-> large, x0 |-> 0, y0 |-> 0, hint |-> TRUE, trail |-> 0],
             payload |-> RleEncodeRows([y \in 1..N |-> Packets(y, kind[y])], large), ok |-> BadRows = {},
             out |-> IF BadRows = {} THEN Cat([y \in 1..N |-> RowOut(y, kind[y]).out]) ELSE <<>>, rb |-> Width, lines |-> N]))
=============================================================================
