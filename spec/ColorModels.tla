---------------------------- MODULE ColorModels ----------------------------
(* Colors of every type and what they mean: premultiplied components in     *)
(* 0..Q (BlendFn).  A behaviour is a color and a chain of conversions; the  *)
(* model says what each result has to mean and how precisely.               *)
EXTENDS BlendFn, Bytes, Json
CONSTANTS Focus,       \* "all": boundary colors, "random"
          MaxSteps
VARIABLES start, cur, steps, ended

FromU16(v) == (v * Q + 32767) \div 65535
(* linear light i/16 as a gamma 2.2 component; below 0 and above 1 are limited *)
Gamma == <<0, 9256, 12684, 15251, 17381, 19237, 20899, 22416, 23819, 25129, 26361, 27529, 28639, 29700, 30718, 31696, 32640>>
FromLin(i) == Gamma[1 + (IF i < 0 THEN 0 ELSE IF i > 16 THEN 16 ELSE i)]
FromA16th(i) == IF i <= 0 THEN 0 ELSE IF i >= 16 THEN Q ELSE (i * Q) \div 16
Opaque(r, g, b) == <<r, g, b, Q>>
Times(r, g, b, a) == <<Mul(r, a), Mul(g, a), Mul(b, a), a>>
Luma(m) == (299 * m[1] + 587 * m[2] + 114 * m[3] + 500) \div 1000

(* what a color of a type with these fields means *)
Meaning(ty, f) ==
  CASE ty = "Gray1"    -> IF f[1] = 1 THEN Opaque(Q, Q, Q) ELSE Opaque(0, 0, 0)
    [] ty = "Gray32"   -> LET y == FromLin(f[1]) IN Opaque(y, y, y)
    [] ty = "NGrayA"   -> LET y == FromU8(f[1]) IN Times(y, y, y, FromU8(f[2]))
    [] ty = "NGrayA32" -> LET y == FromU16(f[1]) IN Times(y, y, y, FromU16(f[2]))
    [] ty = "NGrayA64" -> LET y == FromLin(f[1]) IN Times(y, y, y, FromA16th(f[2]))
    [] ty = "NRGBA128" -> Times(FromLin(f[1]), FromLin(f[2]), FromLin(f[3]), FromA16th(f[4]))
    [] ty = "NCMYKA"   -> LET k == FromU8(f[4]) IN Times(Mul(FromU8(f[1]), k), Mul(FromU8(f[2]), k), Mul(FromU8(f[3]), k), FromU8(f[5]))
    [] ty = "NCMYKA80" -> LET k == FromU16(f[4]) IN Times(Mul(FromU16(f[1]), k), Mul(FromU16(f[2]), k), Mul(FromU16(f[3]), k), FromU16(f[5]))
    [] ty = "NRGBA"    -> Times(FromU8(f[1]), FromU8(f[2]), FromU8(f[3]), FromU8(f[4]))
    [] ty = "NRGBA64"  -> Times(FromU16(f[1]), FromU16(f[2]), FromU16(f[3]), FromU16(f[4]))
    [] ty = "RGBA"     -> [k \in 1..4 |-> IF k = 4 THEN FromU8(f[4]) ELSE Mn(FromU8(f[4]), FromU8(f[k]))]
    [] ty = "RGBA64"   -> [k \in 1..4 |-> IF k = 4 THEN FromU16(f[4]) ELSE Mn(FromU16(f[4]), FromU16(f[k]))]
    [] ty = "Gray"     -> LET y == FromU8(f[1]) IN Opaque(y, y, y)
    [] ty = "Gray16"   -> LET y == FromU16(f[1]) IN Opaque(y, y, y)
    [] ty = "Alpha"    -> LET y == FromU8(f[1]) IN <<y, y, y, y>>
    [] ty = "Alpha16"  -> LET y == FromU16(f[1]) IN <<y, y, y, y>>
    [] ty = "CMYK"     -> LET k == FromU8(255 - f[4]) IN Opaque(Mul(FromU8(255 - f[1]), k), Mul(FromU8(255 - f[2]), k), Mul(FromU8(255 - f[3]), k))
    [] ty = "other"    -> [k \in 1..4 |-> IF k = 4 THEN FromU16(f[4]) ELSE Mn(FromU16(f[4]), FromU16(f[k]))]

Own == {"Gray1", "Gray32", "NGrayA", "NGrayA32", "NGrayA64", "NRGBA128", "NCMYKA", "NCMYKA80"}
Std == {"NRGBA", "NRGBA64", "RGBA", "RGBA64", "Gray", "Gray16", "Alpha", "Alpha16", "CMYK", "other"}
(* the kinds of the fields: byte, word, sixteenth, bit *)
Fields == [Gray1 |-> "t", Gray32 |-> "f", NGrayA |-> "bb", NGrayA32 |-> "ww", NGrayA64 |-> "ff", NRGBA128 |-> "ffff", NCMYKA |-> "bbbbb", NCMYKA80 |-> "wwwww",
           NRGBA |-> "bbbb", NRGBA64 |-> "wwww", RGBA |-> "bbbb", RGBA64 |-> "wwww", Gray |-> "b", Gray16 |-> "w", Alpha |-> "b", Alpha16 |-> "w", CMYK |-> "bbbb", other |-> "wwww"]
Arity == [ty \in DOMAIN Fields |-> CASE Fields[ty] \in {"t", "f", "b", "w"} -> 1 [] Fields[ty] \in {"bb", "ww", "ff"} -> 2
            [] Fields[ty] \in {"ffff", "bbbb", "wwww"} -> 4 [] OTHER -> 5]
KindOf(ty) == CASE Fields[ty] \in {"t"} -> "t" [] Fields[ty] \in {"f", "ff", "ffff"} -> "f" [] Fields[ty] \in {"b", "bb", "bbbb", "bbbbb"} -> "b" [] OTHER -> "w"
Bounds(kd) == CASE kd = "t" -> {0, 1} [] kd = "f" -> {-1, 0, 1, 8, 16, 17} [] kd = "b" -> {0, 1, 128, 254, 255} [] kd = "w" -> {0, 1, 257, 32768, 65534, 65535}
RndField(kd, z, k) == CASE kd = "t" -> Mix(z, k) % 2 [] kd = "f" -> (Mix(z, k) % 19) - 1
                        [] kd = "b" -> IF Coin(5, z, k + 50) THEN 255 ELSE IF Coin(9, z, k + 60) THEN 0 ELSE Mix(z, k) % 256
                        [] kd = "w" -> IF Coin(5, z, k + 50) THEN 65535 ELSE IF Coin(9, z, k + 60) THEN Mix(z, k) % 3 ELSE (Mix(z, k) % 256) * 256 + (Mix(z, k + 20) % 256)

(* the resolution of a type, in units of Q *)
Slack(ty) == IF ty \in {"NGrayA", "NCMYKA"} THEN 300 ELSE IF ty = "Gray1" THEN 0 ELSE 6
(* what converting to a model has to give *)
Convert(ty, m) ==
  CASE ty = "Gray1"  -> IF Luma(m) >= Half THEN Opaque(Q, Q, Q) ELSE Opaque(0, 0, 0)
    [] ty = "Gray32" -> LET y == Luma(m) IN Opaque(y, y, y)
    [] ty \in {"NGrayA", "NGrayA32", "NGrayA64"} -> LET y == Luma(m) IN <<y, y, y, m[4]>>
    [] OTHER -> m
Certain(ty, m, tol) == ty # "Gray1" \/ ~(Luma(m) - Half \in (0 - tol - 4)..(tol + 4))

Init == start = [ty |-> "", f |-> <<>>] /\ cur = [ty |-> "", m |-> <<0, 0, 0, 0>>, tol |-> 0] /\ steps = <<>> /\ ended = FALSE
Begin(ty, f) == /\ start' = [ty |-> ty, f |-> f]
                /\ cur' = [ty |-> ty, m |-> Meaning(ty, f), tol |-> 4] /\ UNCHANGED <<steps, ended>>
Choose ==
  /\ start.ty = ""
  /\ IF Focus = "all" THEN \E ty \in Own \cup Std : \E f \in [1..Arity[ty] -> Bounds(KindOf(ty))] : Begin(ty, f)
     ELSE \E z \in {RandomElement(Seeds)} : \E y \in {RandomElement(Seeds)} :
            LET ty == Pick(Own \cup Std, z, 1) IN Begin(ty, [k \in 1..Arity[ty] |-> RndField(KindOf(ty), IF k % 2 = 0 THEN z ELSE y, k + 1)])
To(ty) == /\ start.ty # "" /\ ~ended /\ Len(steps) < MaxSteps
          /\ Certain(ty, cur.m, cur.tol)
          /\ LET t == IF cur.ty = ty THEN cur.tol ELSE cur.tol + Slack(ty)
                 n == IF cur.ty = ty THEN cur.m ELSE Convert(ty, cur.m)
             IN  /\ cur' = [ty |-> ty, m |-> n, tol |-> IF ty = "Gray1" THEN 0 ELSE t]
                 /\ steps' = Append(steps, [ty |-> ty, m |-> n, tol |-> IF ty = "Gray1" THEN 0 ELSE t])
          /\ UNCHANGED <<start, ended>>
Finish == /\ start.ty # "" /\ ~ended /\ (Len(steps) = MaxSteps \/ (Focus = "all" /\ Len(steps) >= 1))
          /\ ended' = TRUE
          /\ PrintT("@@" \o ToJson([ty |-> start.ty, f |-> start.f, m |-> Meaning(start.ty, start.f), steps |-> steps]))
          /\ UNCHANGED <<start, cur, steps>>
Next == Choose \/ (\E ty \in Own : To(ty)) \/ Finish
Spec == Init /\ [][Next]_<<start, cur, steps, ended>>

(* ------------------------------------------------- what must be true of it *)
Possible == \A k \in 1..3 : 0 <= cur.m[k] /\ cur.m[k] <= cur.m[4] + 1 /\ cur.m[4] <= Q
(* no sequence of conversions but to an opaque model changes the coverage *)
KeepsAlpha == \A i \in DOMAIN steps : steps[i].ty \in {"Gray1", "Gray32"} \/
                (\E j \in 1..i : steps[j].ty \in {"Gray1", "Gray32"}) \/ steps[i].m[4] = Meaning(start.ty, start.f)[4]
SameTwice == \A i \in DOMAIN steps : i > 1 /\ steps[i].ty = steps[i - 1].ty => steps[i] = steps[i - 1]
=============================================================================
