-------------------------------- MODULE Moves --------------------------------
(* A document seen through an affine map: built with it, or transformed by  *)
(* one or two of them afterwards.  Maps that take pixels to pixels (turns,  *)
(* mirrors, whole-pixel moves) permute what is rendered, whatever it is.    *)
(* All other maps are applied to documents whose layers are of one color    *)
(* each: away from the edges the color must be what it is at the place the  *)
(* pixel's centre comes from, and at the edges anything is right.           *)
EXTENDS Scene, Json

VARIABLES stage, doc, maps, gamma, via, seed, row, out
vars == <<stage, doc, maps, gamma, via, seed, row, out>>

(* a map <<a, b, c, d, e, f, q>>: x' = (a x + b y + c) / q, y' = (d x + e y + f) / q *)
Turns == <<<<1, 0, 0, 1>>, <<0, -1, 1, 0>>, <<-1, 0, 0, -1>>, <<0, 1, -1, 0>>, <<-1, 0, 0, 1>>, <<1, 0, 0, -1>>, <<0, 1, 1, 0>>, <<0, -1, -1, 0>>>>
Bends == <<<<2, 0, 0, 2, 1>>, <<1, 0, 0, 1, 2>>, <<3, 0, 0, 2, 2>>, <<1, 0, 0, 3, 2>>, <<1, 1, 0, 1, 1>>, <<1, -1, 1, 1, 1>>, <<3, 0, 0, 3, 4>>, <<2, -1, 1, 2, 2>>,
          <<-2, 1, 1, 2, 2>>, <<0, 3, -2, 0, 2>>, <<3, 1, -1, 2, 4>>, <<1, 0, 0, 1, 1>>, <<-1, 0, 0, 1, 2>>, <<5, 0, 2, 4, 4>>>>
Shift(s, k, q) == (Mix(s, k) % (19 * q)) - 9 * q
Turn(s, k) == LET t == PickSeq(Turns, s, k) IN <<t[1], t[2], Shift(s, k + 1, 1), t[3], t[4], Shift(s, k + 2, 1), 1>>
Bend(s, k) == LET t == PickSeq(Bends, s, k)  q == IF t[5] = 1 THEN 2 ELSE t[5]  z == q \div t[5] IN
              <<t[1] * z, t[2] * z, Shift(s, k + 1, q), t[3] * z, t[4] * z, Shift(s, k + 2, q), q>>
(* m2 after m1; only whole maps are put after another *)
After(m2, m1) == <<m2[1] * m1[1] + m2[2] * m1[4], m2[1] * m1[2] + m2[2] * m1[5], m2[1] * m1[3] + m2[2] * m1[6] + m2[3],
                   m2[4] * m1[1] + m2[5] * m1[4], m2[4] * m1[2] + m2[5] * m1[5], m2[4] * m1[3] + m2[5] * m1[6] + m2[6], 1>>
Whole(m) == m[7] = 1
All == IF Len(maps) = 1 THEN maps[1] ELSE After(maps[2], maps[1])

(* layers of one color and masks of one value, and all of it larger *)
Grow(r) == <<3 * r[1], 3 * r[2], 3 * r[3], 3 * r[4]>>
Size(r) == IF NonEmpty(r) THEN RW(r) * RH(r) ELSE 0
Plain(s, d) ==
  [d EXCEPT !.w = 3 * d.w, !.h = 3 * d.h,
            !.rect = [i \in 1..d.n |-> Grow(d.rect[i])],
            !.pix = [i \in 1..d.n |-> LET c == Mix(s, i)
                                          p == <<Levels[1 + (c % 7)], Levels[1 + ((c \div 7) % 7)], Levels[1 + ((c \div 49) % 7)], Alphas[1 + (Mix(s, 50 + i) % 6)]>>
                                      IN  IF d.grp[i] THEN d.pix[i] ELSE [j \in 1..Size(Grow(d.rect[i])) |-> p]],
            !.mask = [i \in 1..d.n |-> [d.mask[i] EXCEPT !.rect = Grow(d.mask[i].rect),
                                            !.v = [j \in 1..(IF d.mask[i].v = <<>> THEN 0 ELSE Size(Grow(d.mask[i].rect))) |-> Levels[1 + (Mix(s, 100 + i) % 7)]]]]]
With(d, e) == [z |-> e] @@ d

Init == stage = "start" /\ doc = <<>> /\ maps = <<>> /\ gamma = 0 /\ via = "" /\ seed = 0 /\ row = 0 /\ out = <<>>
Make == /\ stage = "start"
        /\ \E s \in {RandomElement(Seeds)} : \E d0 \in {TreeDoc(s)} : \E u \in {RandomElement(Seeds)} :
             LET whole == Mix(u, 1) % 5 < 3
                 d == IF whole THEN d0 ELSE Plain(u, d0)
                 g == PickSeq(<<0, 0, 0, 10, 22, 5>>, u, 2)
                 v == PickSeq(<<"new", "move">>, u, 3)
             IN /\ doc' = With(d, IF g = 0 THEN 20 ELSE 40)
                /\ gamma' = g /\ via' = v /\ seed' = s
                /\ maps' = CASE whole /\ Coin(3, u, 4) -> <<Turn(u, 10), Turn(u, 20)>> [] whole -> <<Turn(u, 10)>> [] OTHER -> <<Bend(u, 10)>>
        /\ stage' = "draw" /\ UNCHANGED <<row, out>>

(* ------------------------------------------------------------------ bounds *)
Down(n, q) == n \div q
Up(n, q) == 0 - ((0 - n) \div q)
Box(m, r) ==
  LET P == {<<r[1], r[2]>>, <<r[3], r[2]>>, <<r[3], r[4]>>, <<r[1], r[4]>>}
      X == {m[1] * p[1] + m[2] * p[2] + m[3] : p \in P}
      Y == {m[4] * p[1] + m[5] * p[2] + m[6] : p \in P}
      lo(S) == CHOOSE v \in S : \A w \in S : v <= w
      hi(S) == CHOOSE v \in S : \A w \in S : v >= w
  IN  <<Down(lo(X), m[7]), Down(lo(Y), m[7]), Up(hi(X), m[7]), Up(hi(Y), m[7])>>
Canvas == IF Len(maps) = 1 THEN Box(maps[1], <<0, 0, doc.w, doc.h>>) ELSE Box(maps[2], Box(maps[1], <<0, 0, doc.w, doc.h>>))

(* where the centre of a pixel comes from: <<x, y, n>> stands for (x / n, y / n), n > 0 *)
Det(m) == m[1] * m[5] - m[2] * m[4]
Source(m, X, Y) ==
  LET u == m[7] * (2 * X + 1) - 2 * m[3]
      v == m[7] * (2 * Y + 1) - 2 * m[6]
      g == IF Det(m) > 0 THEN 1 ELSE -1
  IN  <<g * (m[5] * u - m[2] * v), g * (m[1] * v - m[4] * u), 2 * g * Det(m)>>
MaxOf3(a, b, c) == Mx(a, Mx(b, c))
Abs0(v) == IF v < 0 THEN 0 - v ELSE v
(* interpolation reaches this far, times n; and a pixel more *)
Margin(m) == LET D == Abs0(Det(m)) IN
  <<2 * MaxOf3(D, Abs0(m[7] * m[5]), Abs0(m[7] * m[2])) + 2 * D, 2 * MaxOf3(D, Abs0(m[7] * m[4]), Abs0(m[7] * m[1])) + 2 * D>>
Inside(p, g, r)  == p[1] - g[1] > r[1] * p[3] /\ p[1] + g[1] < r[3] * p[3] /\ p[2] - g[2] > r[2] * p[3] /\ p[2] + g[2] < r[4] * p[3]
Outside(p, g, r) == p[1] + g[1] < r[1] * p[3] \/ p[1] - g[1] > r[3] * p[3] \/ p[2] + g[2] < r[2] * p[3] \/ p[2] - g[2] > r[4] * p[3]
Clear(p, g, r) == Inside(p, g, r) \/ Outside(p, g, r)
Sure(m, p) == \/ Whole(m)
              \/ LET g == Margin(m) IN /\ Inside(p, g, <<0, 0, doc.w, doc.h>>)
                                       /\ \A i \in 1..doc.n : doc.grp[i] \/ ~NonEmpty(doc.rect[i]) \/ Clear(p, g, doc.rect[i])
                                       /\ \A i \in 1..doc.n : ~doc.mask[i].on \/ ~NonEmpty(doc.mask[i].rect) \/ Clear(p, g, doc.mask[i].rect)
At0(m, X, Y) == LET p == Source(m, X, Y) IN
  IF Sure(m, p) THEN T(Pre(PixelAt(doc, Settings(doc), p[1] \div p[3], p[2] \div p[3]))) ELSE <<>>

DrawRow == /\ stage = "draw"
           /\ \E m \in {All} : \E c \in {Canvas} :
                /\ row < c[4] - c[2]
                /\ out' = Append(out, T([k \in 1..(c[3] - c[1]) |-> At0(m, c[1] + k - 1, c[2] + row)]))
                /\ row' = row + 1
                /\ stage' = IF row + 1 = c[4] - c[2] THEN "done" ELSE "draw"
           /\ UNCHANGED <<doc, maps, gamma, via, seed>>
Emit == /\ stage = "done"
        /\ PrintT("@@" \o ToJson([moves |-> out, doc |-> doc, maps |-> maps, gamma |-> gamma, via |-> via, seed |-> seed, canvas |-> Canvas,
                                  whole |-> Whole(All), rect |-> IF NonEmpty(Extent(doc)) THEN Box(All, Extent(doc)) ELSE <<0, 0, 0, 0>>]))
        /\ stage' = "end" /\ UNCHANGED <<doc, maps, gamma, via, seed, row, out>>
Next == Make \/ DrawRow \/ Emit
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- promises *)
(* a whole map takes every pixel of the canvas to one of the new canvas, and none to two *)
Permutes == stage = "done" /\ Whole(All) =>
  LET c == Canvas
      S == {LET p == Source(All, x, y) IN <<p[1] \div p[3], p[2] \div p[3]>> : x \in c[1]..(c[3] - 1), y \in c[2]..(c[4] - 1)}
  IN  S = (0..(doc.w - 1)) \X (0..(doc.h - 1)) /\ RW(c) * RH(c) = doc.w * doc.h
(* the map and its inverse are each other's inverse: the centre of a pixel's source is taken to the centre *)
RoundTrip == stage = "draw" /\ row = 0 =>
  \A X \in {-3, 0, 7}, Y \in {-2, 5} : LET m == All  p == Source(m, X, Y) IN
     /\ 2 * (m[1] * p[1] + m[2] * p[2] + m[3] * p[3]) = (2 * X + 1) * m[7] * p[3]
     /\ 2 * (m[4] * p[1] + m[5] * p[2] + m[6] * p[3]) = (2 * Y + 1) * m[7] * p[3]
(* one map: the canvas holds the image of the old one, and no smaller rectangle does *)
Holds == stage = "done" /\ Len(maps) = 1 =>
  LET m == maps[1]  c == Canvas  q == m[7]
      P == {0, doc.w} \X {0, doc.h}
      X == {m[1] * p[1] + m[2] * p[2] + m[3] : p \in P}
      Y == {m[4] * p[1] + m[5] * p[2] + m[6] : p \in P}
  IN  /\ \A v \in X : q * c[1] <= v /\ v <= q * c[3]
      /\ \A v \in Y : q * c[2] <= v /\ v <= q * c[4]
      /\ \E v \in X : v < q * (c[1] + 1)
      /\ \E v \in X : v > q * (c[3] - 1)
      /\ \E v \in Y : v < q * (c[2] + 1)
      /\ \E v \in Y : v > q * (c[4] - 1)
Bounded == \A y \in 1..Len(out) : \A x \in 1..Len(out[y]) : out[y][x] = <<>> \/ \A k \in 1..4 : out[y][x][k] >= 0 /\ out[y][x][4] <= Q
View == <<stage, doc, maps, row, via, gamma>>
=============================================================================
