---------------------------- MODULE PorterDuff ----------------------------
(* The Porter-Duff operators: each is a pair of fractions, of the source    *)
(* and of the destination, that the result keeps.  A row of pixels is drawn *)
(* over another; colors are given straight or premultiplied, the result is  *)
(* premultiplied, in units of 1/128 of an 8-bit level (see BlendFn).        *)
EXTENDS BlendFn, Bytes, Json
CONSTANTS Focus          \* "all": boundary colors and coverages, "random"
VARIABLES stage, op, srep, drep, s, d, e

Ops == {"Clear", "Copy", "Dest", "SrcOver", "DestOver", "SrcIn", "DestIn", "SrcOut", "DestOut", "SrcAtop", "DestAtop", "XOR"}
Fa(o, sa, da) == CASE o \in {"Clear", "Dest", "DestIn", "DestOut"} -> 0
                   [] o \in {"Copy", "SrcOver"}                    -> Q
                   [] o \in {"DestOver", "SrcOut", "DestAtop", "XOR"} -> Q - da
                   [] o \in {"SrcIn", "SrcAtop"}                   -> da
Fb(o, sa, da) == CASE o \in {"Clear", "Copy", "SrcIn", "SrcOut"}   -> 0
                   [] o \in {"Dest", "DestOver"}                   -> Q
                   [] o \in {"SrcOver", "DestOut", "SrcAtop", "XOR"} -> Q - sa
                   [] o \in {"DestIn", "DestAtop"}                 -> sa

(* the premultiplied value of a pixel of 8-bit components *)
Premul(p, rep) == LET a == p[4] IN
  [k \in 1..4 |-> IF k = 4 THEN FromU8(a) ELSE IF rep = "alpha" THEN 0 ELSE IF rep = "straight" THEN (p[k] * a * 128 + 127) \div 255 ELSE FromU8(p[k])]
Apply(o, ps, pd) == LET sa == ps[4] da == pd[4] fa == Fa(o, sa, da) fb == Fb(o, sa, da)
                    IN  [k \in 1..4 |-> Mul(ps[k], fa) + Mul(pd[k], fb)]
(* both fractions are all or nothing: no rounding is involved *)
Exact(o, sa, da) == Fa(o, sa, da) \in {0, Q} /\ Fb(o, sa, da) \in {0, Q}

Alphas == {0, 1, 2, 64, 127, 128, 254, 255}
Levels == <<0, 255, 1, 128, 254, 64, 2, 127, 200, 33, 129, 77>>
NPix == 36
Comp(v, a, rep) == IF rep = "straight" THEN v ELSE (v * a) \div 255
Lv(k) == Levels[1 + (k % 12)]
SrcRow(a, rep) == [i \in 1..NPix |-> <<Comp(Lv(i), a, rep), Comp(Lv(i * 5), a, rep), Comp(Lv(i * 7 + 2), a, rep), a>>]
DstRow(a, rep) == [i \in 1..NPix |-> <<Comp(Lv((i - 1) \div 3), a, rep), Comp(Lv(i + 4), a, rep), Comp(Lv((i * 5 + 1) \div 2), a, rep), a>>]
RndA(z, k) == IF Coin(6, z, k) THEN 255 ELSE IF Coin(9, z, k + 1) THEN 0 ELSE Mix(z, k + 2) % 256
RndRow(z, rep) == [i \in 1..NPix |-> LET a == RndA(z, i * 9) IN
                     <<Comp(Mix(z, i * 9 + 3) % 256, a, rep), Comp(Mix(z, i * 9 + 4) % 256, a, rep), Comp(Mix(z, i * 9 + 5) % 256, a, rep), a>>]

Init == stage = "choose" /\ op = "" /\ srep = "" /\ drep = "" /\ s = <<>> /\ d = <<>> /\ e = <<>>
Reps == {"straight", "premul"}
SrcReps == Reps \cup {"alpha"}          \* coverage only: black
Choose ==
  /\ stage = "choose" /\ stage' = "draw" /\ e' = e
  /\ IF Focus = "all" THEN
       \E o \in Ops : \E r1 \in SrcReps : \E r2 \in Reps : \E sa \in Alphas : \E da \in Alphas :
         op' = o /\ srep' = r1 /\ drep' = r2 /\ s' = SrcRow(sa, r1) /\ d' = DstRow(da, r2)
     ELSE \E z \in {RandomElement(Seeds)}, z1 \in {RandomElement(Seeds)}, z2 \in {RandomElement(Seeds)} :
         /\ op' = Pick(Ops, z, 1) /\ srep' = Pick(SrcReps, z, 2) /\ drep' = Pick(Reps, z, 3)
         /\ s' = RndRow(z1, srep') /\ d' = RndRow(z2, drep')
Draw ==
  /\ stage = "draw" /\ stage' = "emit"
  /\ \E o \in {op}, r1 \in {srep}, r2 \in {drep}, a \in {s}, b \in {d} :
       e' = TLCEval([i \in 1..NPix |-> Apply(o, Premul(a[i], r1), Premul(b[i], r2))])
  /\ UNCHANGED <<op, srep, drep, s, d>>
Emit ==
  /\ stage = "emit" /\ stage' = "done"
  /\ PrintT("@@" \o ToJson([op |-> op, srep |-> srep, drep |-> drep, s |-> s, d |-> d, e |-> e,
                          x |-> [i \in 1..NPix |-> IF Exact(op, FromU8(s[i][4]), FromU8(d[i][4])) THEN 1 ELSE 0]]))
  /\ UNCHANGED <<op, srep, drep, s, d, e>>
Next == Choose \/ Draw \/ Emit
Spec == Init /\ [][Next]_<<stage, op, srep, drep, s, d, e>>

(* ------------------------------------------------- what must be true of it *)
Near(a, b) == \A k \in 1..4 : a[k] - b[k] \in -3..3
Plus(a, b) == [k \in 1..4 |-> a[k] + b[k]]
Dual == [Copy |-> "Dest", Dest |-> "Copy", SrcOver |-> "DestOver", DestOver |-> "SrcOver", SrcIn |-> "DestIn", DestIn |-> "SrcIn",
         SrcOut |-> "DestOut", DestOut |-> "SrcOut", SrcAtop |-> "DestAtop", DestAtop |-> "SrcAtop", XOR |-> "XOR", Clear |-> "Clear"]
Probe == {1, 2, 7, 20, 36}
Valid == stage = "emit" => \A i \in 1..NPix : e[i][4] <= Q + 1 /\ \A k \in 1..3 : e[i][k] >= 0 /\ e[i][k] <= e[i][4] + 2
Algebra == stage = "emit" => \A i \in Probe :
  LET p == Premul(s[i], srep) q == Premul(d[i], drep) IN
  /\ Near(e[i], Apply(Dual[op], q, p))
  /\ op = "SrcOver"  => Near(e[i], Plus(p, Apply("DestOut", p, q)))
  /\ op = "XOR"      => Near(e[i], Plus(Apply("SrcOut", p, q), Apply("DestOut", p, q)))
  /\ op = "SrcAtop"  => Near(e[i], Plus(Apply("SrcIn", p, q), Apply("DestOut", p, q)))
  /\ op = "Copy"     => Near(p, Plus(Apply("SrcIn", p, q), Apply("SrcOut", p, q)))
=============================================================================
