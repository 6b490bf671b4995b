-------------------------------- MODULE Light --------------------------------
(* A picture made smaller.  A layer whose pixels alternate between two      *)
(* colors (in columns, rows or a checkerboard) is halved or quartered,      *)
(* along one side or both, in one or two maps with turns in between: along  *)
(* a side that was made smaller every pixel away from the edges must show   *)
(* the mean of the two, taken in the light the gamma stands for and         *)
(* weighted by the alphas; along the other side nothing may be mixed.  A    *)
(* mask that alternates is mixed by itself, whatever the gamma is.          *)
EXTENDS Moves

Kinds == <<"cols", "rows", "check">>
Value(k, x, y) == CASE k = "cols" -> x % 2 [] k = "rows" -> y % 2 [] OTHER -> (x + y) % 2
Smaller == <<<<1, 0, 0, 1, 2>>, <<1, 0, 0, 2, 2>>, <<2, 0, 0, 1, 2>>, <<0, 1, 1, 0, 2>>, <<0, -1, 2, 0, 2>>, <<-1, 0, 0, 1, 2>>, <<1, 0, 0, 1, 4>>, <<1, 0, 0, 4, 4>>, <<0, 4, -1, 0, 4>>>>
Small(s, k) == LET t == PickSeq(Smaller, s, k)  h == Mix(s, k + 1) % 5  v == Mix(s, k + 2) % 5 IN
               <<t[1], t[2], t[5] * (h - 2), t[3], t[4], t[5] * (v - 2), t[5]>>
(* m2 after m1, both with any denominator *)
Then(m2, m1) == LET a == After(m2, [m1 EXCEPT ![7] = 1]) IN
  <<a[1], a[2], a[3] + m2[3] * (m1[7] - 1), a[4], a[5], a[6] + m2[6] * (m1[7] - 1), m1[7] * m2[7]>>
Whatever == IF Len(maps) = 1 THEN maps[1] ELSE Then(maps[2], maps[1])
(* how long a side of a source pixel is in the end *)
MixesX(m) == Abs0(m[1]) + Abs0(m[4]) < m[7]
MixesY(m) == Abs0(m[2]) + Abs0(m[5]) < m[7]
Mixed(k, m) == CASE k = "cols" -> MixesX(m) [] k = "rows" -> MixesY(m) [] OTHER -> MixesX(m) \/ MixesY(m)

Shades == <<0, 60, 100, 128, 200, 255>>
MakeLight ==
  /\ stage = "start"
  /\ \E s \in {RandomElement(Seeds)} :
       LET w == 8 * (2 + (Mix(s, 1) % 3))
           h == 8 * (2 + (Mix(s, 2) % 3))
           r == <<(Mix(s, 3) % 4) - 2, (Mix(s, 4) % 4) - 2, w + (Mix(s, 5) % 4) - 2, h + (Mix(s, 6) % 4) - 2>>
           g == PickSeq(<<0, 0, 10, 20, 20, 20, 30>>, s, 7)
           k == PickSeq(Kinds, s, 8)
           mk == PickSeq(Kinds, s, 9)
           hasA == Mix(s, 10) % 3 # 0
           al(j) == IF ~hasA THEN 255 ELSE IF g = 30 THEN 128 ELSE PickSeq(<<255, 255, 128, 64, 0>>, s, 10 + j)
           p == T([j \in 1..2 |-> T(<<PickSeq(Shades, s, 20 + j), PickSeq(Shades, s, 30 + j), PickSeq(Shades, s, 40 + j), al(j)>>)])
           m == T([j \in 1..2 |-> PickSeq(<<0, 255, 255, 128>>, s, 50 + j)])
           on == Mix(s, 60) % 3 = 0
           N == RW(r) * RH(r)
           cell(kk, j) == Value(kk, r[1] + ((j - 1) % RW(r)), r[2] + ((j - 1) \div RW(r))) + 1
       IN /\ doc' = [z |-> 0, n |-> 1, w |-> w, h |-> h, par |-> <<0>>, grp |-> <<FALSE>>, bm |-> <<"Normal">>, rect |-> <<r>>, clip |-> <<FALSE>>,
                     op |-> <<255>>, vis |-> <<TRUE>>, open |-> <<FALSE>>, hasA |-> <<hasA>>,
                     pix |-> <<T([j \in 1..N |-> p[cell(k, j)]])>>,
                     mask |-> <<IF on THEN [NoMask EXCEPT !.on = TRUE, !.rect = r, !.v = T([j \in 1..N |-> m[cell(mk, j)]])] ELSE NoMask>>,
                     kind |-> k, mkind |-> mk, p |-> p, m |-> IF on THEN m ELSE <<255, 255>>]
          /\ gamma' = g /\ seed' = s /\ via' = PickSeq(<<"new", "move">>, s, 61)
          /\ maps' = CASE Mix(s, 62) % 3 = 0 -> <<Turn(s, 70), Small(s, 80)>> [] Mix(s, 62) % 3 = 1 -> <<Small(s, 80), Turn(s, 70)>>
                       [] OTHER -> IF Coin(3, s, 63) THEN <<Small(s, 80), Small(s, 90)>> ELSE <<Small(s, 80)>>
  /\ stage' = "draw" /\ UNCHANGED <<row, out>>

(* ------------------------------------------------------------- what is right *)
Lin(v) == CASE gamma = 20 -> v * v [] gamma = 30 -> v * v * v [] OTHER -> v
Tol == 1 + 2 * Len(maps)
(* the levels c for which Lin(c) is the mean of two, weighted by their alphas *)
Mean(c) ==
  LET p == doc.p
      a1 == IF gamma = 30 THEN 1 ELSE p[1][4]
      a2 == IF gamma = 30 THEN 1 ELSE p[2][4]
      sum == a1 * Lin(p[1][c]) + a2 * Lin(p[2][c])
      lo == CHOOSE v \in 0..255 : Lin(v) * (a1 + a2) >= sum /\ \A u \in 0..(v - 1) : Lin(u) * (a1 + a2) < sum
  IN  <<Mx(0, lo - 1 - Tol), Mn(255, lo + Tol)>>
Exact(v) == <<Mx(0, v - Tol), Mn(255, v + Tol)>>
Color(i) == IF i = 3 THEN T([c \in 1..3 |-> Mean(c)]) ELSE T([c \in 1..3 |-> Exact(doc.p[i][c])])
Twice2(i, q) == IF i = 3 THEN q[1] + q[2] ELSE 2 * q[i]
Alpha(i, j) == LET a == (Twice2(i, <<doc.p[1][4], doc.p[2][4]>>) * Twice2(j, doc.m)) \div 1020 IN <<Mx(0, a - Tol), Mn(255, a + Tol)>>
Any3 == <<<<0, 255>>, <<0, 255>>, <<0, 255>>>>
Table == T([i \in 1..3 |-> T([j \in 1..3 |-> LET a == Alpha(i, j) IN (IF a[1] < 12 THEN Any3 ELSE Color(i)) \o <<a>>])])

Cell(m, X, Y) ==
  LET p == Source(m, X, Y)
      g == Margin(m)
      x == p[1] \div p[3]
      y == p[2] \div p[3]
  IN  IF ~Inside(p, g, doc.rect[1]) \/ ~Inside(p, g, <<0, 0, doc.w, doc.h>>) THEN <<>>
      ELSE <<IF Mixed(doc.kind, m) THEN 3 ELSE 1 + Value(doc.kind, x, y), IF Mixed(doc.mkind, m) THEN 3 ELSE 1 + Value(doc.mkind, x, y)>>
DrawLight ==
  /\ stage = "draw"
  /\ \E m \in {Whatever} : \E c \in {Canvas} :
       /\ row < c[4] - c[2]
       /\ out' = Append(out, T([k \in 1..(c[3] - c[1]) |-> Cell(m, c[1] + k - 1, c[2] + row)]))
       /\ row' = row + 1
       /\ stage' = IF row + 1 = c[4] - c[2] THEN "done" ELSE "draw"
  /\ UNCHANGED <<doc, maps, gamma, via, seed>>
EmitLight ==
  /\ stage = "done"
  /\ \E t \in {Table} :
     PrintT("@@" \o ToJson([light |-> out, table |-> t, doc |-> doc, maps |-> maps, gamma |-> gamma, via |-> via, seed |-> seed, canvas |-> Canvas]))
  /\ stage' = "end" /\ UNCHANGED <<doc, maps, gamma, via, seed, row, out>>
LightNext == MakeLight \/ DrawLight \/ EmitLight
LightSpec == Init /\ [][LightNext]_vars

(* ---------------------------------------------------------------- promises *)
(* a mean lies between what it is the mean of, whatever light it is taken in, and a gamma above 1 makes it no darker *)
Between == stage = "done" =>
  \A c \in 1..3 : LET m == Mean(c)  a == doc.p[1]  b == doc.p[2] IN
    (gamma = 30 \/ a[4] + b[4] > 0) =>
    /\ m[2] >= Mn(a[c], b[c]) /\ m[1] <= Mx(a[c], b[c])
    /\ (gamma > 10 /\ a[4] = b[4]) => 2 * m[2] >= a[c] + b[c]
(* the composed map takes the two maps' ways one after the other *)
Composed == stage = "draw" /\ row = 0 /\ Len(maps) = 2 =>
  \A x \in {-3, 0, 5}, y \in {-1, 4} :
    LET a == maps[1]  b == maps[2]  m == Whatever
        u == a[1] * x + a[2] * y + a[3]
        v == a[4] * x + a[5] * y + a[6]
    IN /\ m[1] * x + m[2] * y + m[3] = b[1] * u + b[2] * v + b[3] * a[7]
       /\ m[4] * x + m[5] * y + m[6] = b[4] * u + b[5] * v + b[6] * a[7]
(* where nothing is mixed, a pixel comes from the centre of another *)
Centred == stage = "done" =>
  LET m == Whatever  p == Source(m, 3, 2) IN
  /\ MixesX(m) \/ (2 * p[1]) % (2 * p[3]) = p[3]
  /\ MixesY(m) \/ (2 * p[2]) % (2 * p[3]) = p[3]
=============================================================================
