---------------------------- MODULE BlendModes ----------------------------
(* Drawing a row of pixels over another with a blend mode and an opacity:   *)
(* the published formula of the mode applied to the two colors, mixed with  *)
(* the uncovered parts of both.  Where a formula jumps (a color burn next   *)
(* to 0, a hard mix at its threshold, two colors of the same luminosity)    *)
(* the values on both sides of the jump are admitted: every component of    *)
(* the result is an interval.                                               *)
EXTENDS BlendFn, Bytes, Json
CONSTANTS Focus,          \* "all": boundary colors and coverages, "random"
          Alphas
VARIABLES stage, mode, srep, drep, opac, s, d, e

(* straight color and coverage of a pixel of 8-bit components *)
Straight(p, rep) == IF p[4] = 0 THEN <<0, 0, 0>>
                    ELSE [k \in 1..3 |-> IF rep = "straight" THEN FromU8(p[k]) ELSE Dv(FromU8(p[k]), FromU8(p[4]))]

Jumpy == {"ColorBurn", "ColorDodge", "VividLight", "HardMix", "Divide"}
(* how far apart two readings of the same component can be *)
Reach(m, a) == IF m = "HardMix" THEN 400 + 160 \div a ELSE 2 + 160 \div a
(* none and full are read exactly in every representation; whether a hard  *)
(* mix of them that just fills up counts as full is left open               *)
Around(m, v, r) == IF m # "HardMix" /\ (v = 0 \/ v = Q) THEN {v} ELSE {Clamp(v - r), v, Clamp(v + r)}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
LumTie == 320             \* 2.5 levels
Blended(m, c, b, sa, da) ==        \* per component <<least, greatest>>
  IF m \in Jumpy THEN
    [k \in 1..3 |-> LET V == {B1(m, x, y) : x \in Around(m, c[k], Reach(m, sa)), y \in Around(m, b[k], Reach(m, da))}
                    IN  <<SetMin(V), SetMax(V)>>]
  ELSE IF m \in {"DarkerColor", "LighterColor"} /\ Lum(c) - Lum(b) \in (0 - LumTie)..LumTie THEN
    [k \in 1..3 |-> <<Mn(c[k], b[k]), Mx(c[k], b[k])>>]
  ELSE LET t == B3(m, c, b) IN [k \in 1..3 |-> <<t[k], t[k]>>]

Result(m, p, r1, q, r2, o) ==
  LET sa == Mul(FromU8(p[4]), FromU8(o))
      da == FromU8(q[4])
      c  == Straight(p, r1)
      b  == Straight(q, r2)
      x1 == Mul(sa, da)
      x2 == Mul(sa, Q - da)
      x3 == Mul(Q - sa, da)
      ao == sa + da - x1
      t  == IF x1 = 0 THEN [k \in 1..3 |-> <<0, 0>>] ELSE Blended(m, c, b, p[4], q[4])
      mixed(k, j) == Mn(ao, Mul(x1, t[k][j]) + Mul(x2, c[k]) + Mul(x3, b[k]))
      part(x) == IF x % 128 = 0 THEN 0 ELSE 1
  IN  [a |-> ao, keep |-> sa = 0, w |-> x1, k |-> part(x1) + part(x2) + part(x3) + part(sa),
       c |-> [k \in 1..3 |-> <<mixed(k, 1), mixed(k, 2)>>]]

Levels == <<0, 255, 1, 128, 254, 64, 2, 127, 200, 33, 129, 77, 63, 192>>
NPix == 28
Comp(v, a, rep) == IF rep = "straight" THEN v ELSE (v * a) \div 255
Lv(k) == Levels[1 + (k % 14)]
SrcRow(a, rep) == [i \in 1..NPix |-> <<Comp(Lv(i), a, rep), Comp(Lv(i * 5), a, rep), Comp(Lv(i * 9 + 2), a, rep), a>>]
DstRow(a, rep) == [i \in 1..NPix |-> <<Comp(Lv((i - 1) \div 2), a, rep), Comp(Lv(i * 3 + 4 + (i \div 14)), a, rep), Comp(Lv((i * 5 + 1) \div 2), a, rep), a>>]
RndA(z, k) == IF Coin(3, z, k) THEN 255 ELSE IF Coin(9, z, k + 1) THEN 0 ELSE Mix(z, k + 2) % 256
(* colors: independent, the same, gray, or next to each other *)
RndC(z, k, i, v) == IF Coin(7, z, i) THEN v ELSE Mix(z, k) % 256
RndRow(z, rep) == [i \in 1..NPix |-> LET a == RndA(z, i * 9) v == Mix(z, i * 9 + 6) % 256 IN
                     <<Comp(RndC(z, i * 9 + 3, i, v), a, rep), Comp(RndC(z, i * 9 + 4, i, v), a, rep), Comp(RndC(z, i * 9 + 5, i, v), a, rep), a>>]

Init == stage = "choose" /\ mode = "" /\ srep = "" /\ drep = "" /\ opac = 0 /\ s = <<>> /\ d = <<>> /\ e = <<>>
Reps == {"straight", "premul"}
Choose ==
  /\ stage = "choose" /\ stage' = "draw" /\ e' = e
  /\ IF Focus = "all" THEN
       \E m \in Modes : \E r1 \in Reps : \E r2 \in Reps : \E sa \in Alphas : \E da \in Alphas :
         /\ mode' = m /\ srep' = r1 /\ drep' = r2 /\ s' = SrcRow(sa, r1) /\ d' = DstRow(da, r2)
         /\ opac' = PickSeq(<<255, 255, 128, 254, 1, 0>>, sa * 256 + da, IF r1 = r2 THEN 1 ELSE 2)
     ELSE \E z \in {RandomElement(Seeds)}, z1 \in {RandomElement(Seeds)}, z2 \in {RandomElement(Seeds)} :
         /\ mode' = Pick(Modes, z, 1) /\ srep' = Pick(Reps, z, 2) /\ drep' = Pick(Reps, z, 3)
         /\ s' = RndRow(z1, srep') /\ d' = RndRow(z2, drep')
         /\ opac' = IF Coin(2, z, 6) THEN 255 ELSE Mix(z, 7) % 256
Draw ==
  /\ stage = "draw" /\ stage' = "emit"
  /\ \E m \in {mode}, r1 \in {srep}, r2 \in {drep}, o \in {opac}, a \in {s}, b \in {d} :
       e' = TLCEval([i \in 1..NPix |-> Result(m, a[i], r1, b[i], r2, o)])
  /\ UNCHANGED <<mode, srep, drep, opac, s, d>>
Emit ==
  /\ stage = "emit" /\ stage' = "done"
  /\ PrintT("@@" \o ToJson([mode |-> mode, srep |-> srep, drep |-> drep, opac |-> opac, s |-> s, d |-> d, e |-> e]))
  /\ UNCHANGED <<mode, srep, drep, opac, s, d, e>>
Next == Choose \/ Draw \/ Emit
Spec == Init /\ [][Next]_<<stage, mode, srep, drep, opac, s, d, e>>

(* ------------------------------------------------- what must be true of it *)
Bounded == stage = "emit" => \A i \in 1..NPix : LET r == e[i] IN
  /\ 0 <= r.a /\ r.a <= Q
  /\ \A k \in 1..3 : 0 <= r.c[k][1] /\ r.c[k][1] <= r.c[k][2] /\ r.c[k][2] <= r.a
(* nothing over something, something over nothing *)
Edges == stage = "emit" => \A i \in 1..NPix : LET r == e[i] b == Straight(d[i], drep) c == Straight(s[i], srep) IN
  /\ s[i][4] * opac = 0 => r.a = FromU8(d[i][4]) /\ \A k \in 1..3 : r.c[k][1] - Mul(b[k], r.a) \in -1..1
  /\ d[i][4] = 0 => r.a = Mul(FromU8(s[i][4]), FromU8(opac)) /\ \A k \in 1..3 : r.c[k][2] - Mul(c[k], r.a) \in -1..1
(* what is known of the formulas themselves *)
Commutes == {"Darken", "Multiply", "LinearBurn", "Lighten", "Screen", "LinearDodge", "Add", "HardMix", "Difference", "Exclusion"}
Neutral == [Multiply |-> Q, Screen |-> 0, Darken |-> Q, Lighten |-> 0, ColorBurn |-> Q, ColorDodge |-> 0, LinearBurn |-> Q, LinearDodge |-> 0, Add |-> 0,
            Difference |-> 0, Exclusion |-> 0, Subtract |-> 0, Divide |-> Q]
Formulas == stage = "emit" => \A i \in {1, 5, 11, 20, 28} :
  LET c == Straight(s[i], srep) b == Straight(d[i], drep) t == B3(mode, c, b) IN
  /\ \A k \in 1..3 : t[k] >= 0 /\ (mode # "Add" => t[k] <= Q)
  /\ mode \in Commutes => t = B3(mode, b, c)
  /\ mode = "HardLight" => t = B3("Overlay", b, c)
  /\ mode \in DOMAIN Neutral => \A k \in 1..3 : B1(mode, Neutral[mode], b[k]) - b[k] \in -1..1
  /\ mode \in {"Hue", "Saturation", "Color"} => Lum(t) - Lum(b) \in -6..6
  /\ mode = "Luminosity" => Lum(t) - Lum(c) \in -6..6
=============================================================================
