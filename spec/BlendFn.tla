------------------------------ MODULE BlendFn ------------------------------
(* The published blend formulas and the compositing equation, in whole      *)
(* numbers: a component is 0..Q, Q = 255 * 128, so that a product of two    *)
(* fits in TLC's 32 bits and an 8-bit component is exactly representable.   *)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE SequencesExt

Q == 32640
Half == Q \div 2
FromU8(v) == v * 128

Mul(a, b) == (a * b + Half) \div Q
Dv(a, b) == (a * Q + (b \div 2)) \div b        \* a <= Q, b > 0
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Clamp(a) == IF a < 0 THEN 0 ELSE IF a > Q THEN Q ELSE a

RECURSIVE SqrtFrom(_, _, _)
SqrtFrom(v, lo, hi) ==           \* largest r in lo..hi-1 with r * r <= v * Q
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= v * Q THEN SqrtFrom(v, m, hi) ELSE SqrtFrom(v, lo, m)
Sqrt(v) == SqrtFrom(v, 0, Q + 1)

Burn(s, d)  == IF s = 0 THEN 0 ELSE Q - Mn(Q, ((Q - d) * Q) \div s)
Dodge(s, d) == IF s = Q THEN Q ELSE Mn(Q, (d * Q) \div (Q - s))
HardL(s, d) == IF s < Half THEN 2 * Mul(s, d) ELSE Q - 2 * Mul(Q - s, Q - d)
SoftL(s, d) ==
  IF s <= Half THEN d - Mul(Q - 2 * s, Mul(d, Q - d))
  ELSE LET d2 == Mul(d, d)
           g == IF 4 * d <= Q THEN 16 * Mul(d, d2) - 12 * d2 + 4 * d ELSE Sqrt(d)
       IN  Clamp(d + Mul(2 * s - Q, Mx(0, g - d)))
Vivid(s, d) == IF s < Half THEN Burn(2 * s, d) ELSE Dodge(2 * s - Q, d)

Separable == {"Normal", "Darken", "Multiply", "ColorBurn", "LinearBurn", "Lighten", "Screen", "ColorDodge", "LinearDodge", "Add",
              "Overlay", "SoftLight", "HardLight", "LinearLight", "VividLight", "PinLight", "HardMix",
              "Difference", "Exclusion", "Subtract", "Divide"}
NonSeparable == {"DarkerColor", "LighterColor", "Hue", "Saturation", "Color", "Luminosity"}
Modes == Separable \cup NonSeparable

(* one channel of a separable mode: s over d *)
B1(m, s, d) ==
  CASE m = "Normal"      -> s
    [] m = "Darken"      -> Mn(s, d)
    [] m = "Multiply"    -> Mul(s, d)
    [] m = "ColorBurn"   -> IF d = Q THEN Q ELSE Burn(s, d)
    [] m = "LinearBurn"  -> Mx(0, s + d - Q)
    [] m = "Lighten"     -> Mx(s, d)
    [] m = "Screen"      -> s + d - Mul(s, d)
    [] m = "ColorDodge"  -> IF d = 0 THEN 0 ELSE Dodge(s, d)
    [] m = "LinearDodge" -> Mn(Q, s + d)
    [] m = "Add"         -> s + d                  \* may exceed Q: the mix below is what is limited
    [] m = "Overlay"     -> HardL(d, s)
    [] m = "SoftLight"   -> SoftL(s, d)
    [] m = "HardLight"   -> HardL(s, d)
    [] m = "LinearLight" -> Clamp(d + 2 * s - Q)
    [] m = "VividLight"  -> Vivid(s, d)
    [] m = "PinLight"    -> IF s < Half THEN Mn(2 * s, d) ELSE Mx(2 * s - Q, d)
    [] m = "HardMix"     -> IF s + d > Q THEN Q ELSE 0
    [] m = "Difference"  -> IF s > d THEN s - d ELSE d - s
    [] m = "Exclusion"   -> s + d - 2 * Mul(s, d)
    [] m = "Subtract"    -> Mx(0, d - s)
    [] m = "Divide"      -> IF d = 0 THEN 0 ELSE IF s = 0 THEN Q ELSE Mn(Q, (d * Q) \div s)

(* non-separable modes: W3C compositing, 30/59/11 luminosity *)
Lum(c) == (30 * c[1] + 59 * c[2] + 11 * c[3]) \div 100
Max3(c) == Mx(c[1], Mx(c[2], c[3]))
Min3(c) == Mn(c[1], Mn(c[2], c[3]))
Sat(c) == Max3(c) - Min3(c)
ClipLow(c)  == LET l == Lum(c) n == Min3(c)
               IN  IF n < 0 THEN [i \in 1..3 |-> l + ((c[i] - l) * l) \div (l - n)] ELSE c
ClipHigh(c) == LET l == Lum(c) x == Max3(c)
               IN  IF x > Q THEN [i \in 1..3 |-> l + ((c[i] - l) * (Q - l)) \div (x - l)] ELSE c
SetLum(c, l) == LET d == l - Lum(c)
                    t == ClipHigh(ClipLow([i \in 1..3 |-> c[i] + d]))
                IN  [i \in 1..3 |-> Clamp(t[i])]
SetSat(c, s) == LET mn == Min3(c) mx == Max3(c)
                IN  IF mx = mn THEN <<0, 0, 0>> ELSE [i \in 1..3 |-> ((c[i] - mn) * s) \div (mx - mn)]
B3(m, s, d) ==
  CASE m \in Separable      -> [i \in 1..3 |-> B1(m, s[i], d[i])]
    [] m = "DarkerColor"    -> IF Lum(s) < Lum(d) THEN s ELSE d
    [] m = "LighterColor"   -> IF Lum(s) > Lum(d) THEN s ELSE d
    [] m = "Hue"            -> SetLum(SetSat(s, Sat(d)), Lum(d))
    [] m = "Saturation"     -> SetLum(SetSat(d, Sat(s)), Lum(d))
    [] m = "Color"          -> SetLum(s, Lum(d))
    [] m = "Luminosity"     -> SetLum(d, Lum(s))

(* The compositing equation.  A pixel is <<r, g, b, a>> with straight (not  *)
(* premultiplied) components; t is the blended color.                       *)
Mix4(s, sa, d, t) ==
  LET da == d[4]
      ao == sa + da - Mul(sa, da)
      x1 == Mul(sa, da)
      x2 == Mul(sa, Q - da)
      x3 == Mul(Q - sa, da)
      ch(i) == Mn(Q, Dv(Mn(ao, Mul(x1, t[i]) + Mul(x2, s[i]) + Mul(x3, d[i])), ao))
  IN  IF sa = 0 \/ ao = 0 THEN <<d[1], d[2], d[3], d[4]>> ELSE <<ch(1), ch(2), ch(3), ao>>
Over(m, s, d, op) == Mix4(s, Mul(s[4], op), d, B3(m, s, d))
=============================================================================
