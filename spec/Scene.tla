-------------------------------- MODULE Scene --------------------------------
(* What rendering a layer tree means, pixel by pixel, and a generator of    *)
(* documents.  A document is a tree of nodes 1..n; node i is a leaf (pixels) *)
(* or a group; children are drawn in id order, lowest id at the bottom.     *)
(*                                                                          *)
(* Draw(b, i, om): what node i makes of backdrop b                          *)
(*   hidden, or zero opacity          b                                     *)
(*   clipping layers                  only through the layer they clip to   *)
(*   leaf                             Over(mode, Clips(Mask(pixels)), b)    *)
(*   isolated group                   Over(mode, Clips(Mask(children)), b)  *)
(*   pass-through group               the children drawn onto b with their  *)
(*                                    opacity times the group's, then b and *)
(*                                    the result mixed by the group's mask  *)
(* Clips: the clipping layers drawn over the base made opaque, then the     *)
(* base's own alpha restored.                                               *)
EXTENDS BlendFn, Bytes

CONSTANTS MaxNodes, Focus       \* Focus: "tree", "wide" (larger canvas), "modes", "faint" (pixels with an alpha of 1)

T(x) == TLCEval(x)

PassThrough == "PassThrough"
Gentle == <<"Normal", "Normal", "Normal", "Multiply", "Screen", "Darken", "Lighten", "Difference", "LinearDodge", "Exclusion", "Subtract", "LinearBurn">>
Steep  == <<"Overlay", "HardLight", "LinearLight", "PinLight", "SoftLight">>

Levels == <<0, 51, 102, 128, 153, 204, 255>>
(* "faint": pixels that are hardly there; their colors are lost to rounding, that they are there is not *)
Alphas == IF Focus = "faint" THEN <<0, 0, 1, 2, 1, 255>> ELSE <<0, 64, 128, 200, 255, 255>>
Opacs  == <<255, 255, 255, 128, 200, 64>>

Ids(n) == 1..n
Kids(d, i) == SelectSeq([k \in 1..d.n |-> k], LAMBDA k : d.par[k] = i)

(* ------------------------------------------------------------ generator *)
GenPar(s, i, grp) ==
  LET ok == {0} \cup {j \in 1..(i-1) : grp[j]}
  IN  IF i > 1 /\ Coin(2, s, 50 + i) THEN Mx(0, CHOOSE m \in ok : \A k \in ok : k <= m)    \* stay in the newest group
      ELSE Pick(ok, s, 90 + i)

Rect0(s, k, w, h) ==
  LET near == Coin(2, s, k + 5)
      x == IF near THEN 0 - (Mix(s, k) % 4) ELSE (Mix(s, k) % (w + 5)) - 3
      y == IF near THEN 0 - (Mix(s, k + 1) % 4) ELSE (Mix(s, k + 1) % (h + 5)) - 3
      dx == IF Coin(14, s, k + 2) THEN 0 ELSE IF near THEN w + 1 + (Mix(s, k + 3) % 4) ELSE 1 + (Mix(s, k + 3) % (w + 3))
      dy == IF near THEN h + 1 + (Mix(s, k + 4) % 4) ELSE 1 + (Mix(s, k + 4) % (h + 3))
  IN  <<x, y, x + dx, y + dy>>
RW(r) == Mx(0, r[3] - r[1])
RH(r) == Mx(0, r[4] - r[2])
In(r, x, y) == r[1] <= x /\ x < r[3] /\ r[2] <= y /\ y < r[4]
Idx(r, x, y) == (y - r[2]) * RW(r) + (x - r[1]) + 1

(* alpha plane: every pixel its own, or empty outside a smaller part of the rectangle *)
GenPix(s, r) ==
  LET cut == Mix(s, 1) % 6
      lv(k, j) == Levels[1 + (Mix(Mix(s, k), j) % 7)]
      al(j) == Alphas[1 + (Mix(Mix(s, 9), j) % 6)]
      a(j) == LET x == (j - 1) % RW(r) y == (j - 1) \div RW(r)
              IN  CASE cut = 0 -> al(j)
                    [] Focus = "faint" -> al(j)
                    [] cut = 4 -> 255
                    [] cut = 1 -> IF 2 * x < RW(r) THEN al(j) ELSE 0
                    [] cut = 2 -> IF 2 * y >= RH(r) THEN Mx(al(j), 64) ELSE 0
                    [] OTHER -> Mx(al(j), 128)
  IN  IF RW(r) * RH(r) = 0 THEN <<>> ELSE [j \in 1..(RW(r) * RH(r)) |-> <<lv(2, j), lv(3, j), lv(4, j), a(j)>>]

GenMask(s, w, h) ==
  LET r == Rect0(s, 20, w, h)
      k == Mix(s, 21) % 6
      v(j) == CASE k = 0 -> 0 [] k = 1 -> 255 [] OTHER -> Levels[1 + (Mix(Mix(s, 22), j) % 7)]
  IN  [on |-> ~Coin(5, s, 23), rect |-> r, def |-> IF Coin(2, s, 24) THEN 0 ELSE 255,
       v |-> IF RW(r) * RH(r) = 0 THEN <<>> ELSE [j \in 1..(RW(r) * RH(r)) |-> v(j)]]
NoMask == [on |-> FALSE, rect |-> <<0, 0, 0, 0>>, def |-> 0, v |-> <<>>]

GenMode(s, i, isGrp) ==
  IF isGrp /\ Coin(2, s, 300 + i) THEN PassThrough
  ELSE IF Coin(7, s, 330 + i) THEN PickSeq(Steep, s, 360 + i) ELSE PickSeq(Gentle, s, 360 + i)

(* a clipping node needs a base: a lower sibling that does not clip and is not pass-through *)
HasBase(par, clip, bm, i) ==
  LET low == {j \in 1..(i-1) : par[j] = par[i] /\ ~clip[j]}
  IN  low # {} /\ bm[CHOOSE j \in low : \A k \in low : k <= j] # PassThrough
RECURSIVE ClipFrom(_, _, _, _, _)
ClipFrom(s, par, bm, n, acc) ==
  LET i == Len(acc) + 1
  IN  IF i > n THEN acc
      ELSE ClipFrom(s, par, bm, n, Append(acc, Coin(3, s, 400 + i) /\ HasBase(par, acc, bm, i)))

RECURSIVE ParFrom(_, _, _, _)
ParFrom(s, n, grp, acc) == IF Len(acc) = n THEN acc ELSE ParFrom(s, n, grp, Append(acc, GenPar(s, Len(acc) + 1, grp)))

RECURSIVE Depth(_, _)
Depth(par, i) == IF par[i] = 0 THEN 0 ELSE 1 + Depth(par, par[i])

TreeDoc(s) ==
  LET n == 1 + Mx(Mix(s, 1) % MaxNodes, Mix(s, 4) % MaxNodes)
      w == 1 + (Mix(s, 2) % (IF Focus = "wide" THEN 24 ELSE 8))
      h == 1 + (Mix(s, 3) % (IF Focus = "wide" THEN 24 ELSE 7))
      grp == T([i \in 1..n |-> i < n /\ Coin(3, s, 200 + i)])
      par == T(ParFrom(s, n, grp, <<>>))
      bm == T([i \in 1..n |-> GenMode(s, i, grp[i])])
      rect == T([i \in 1..n |-> IF grp[i] THEN <<0, 0, 0, 0>> ELSE Rect0(Mix(s, 500 + i), 1, w, h)])
  IN  [n |-> n, w |-> w, h |-> h, par |-> par, grp |-> grp, bm |-> bm, rect |-> rect,
       clip |-> T(ClipFrom(s, par, bm, n, <<>>)),
       op |-> T([i \in 1..n |-> IF Coin(12, s, 600 + i) THEN 0 ELSE PickSeq(Opacs, s, 630 + i)]),
       vis |-> T([i \in 1..n |-> ~Coin(9, s, 660 + i)]),
       open |-> [i \in 1..n |-> Coin(2, s, 680 + i)],
       hasA |-> T([i \in 1..n |-> ~Coin(4, s, 690 + i)]),
       pix |-> T([i \in 1..n |-> IF grp[i] THEN <<>> ELSE GenPix(Mix(s, 700 + i), rect[i])]),
       mask |-> T([i \in 1..n |-> IF Coin(3, s, 800 + i) THEN GenMask(Mix(s, 830 + i), w, h) ELSE NoMask])]

(* two plain layers, the upper one with any mode; colors away from the edges where a mode jumps *)
SafeDst == <<<<100, 180, 60>>, <<230, 30, 140>>, <<20, 90, 210>>>>
SafeSrc == <<<<200, 90, 30>>, <<60, 240, 110>>, <<180, 40, 235>>>>
AllModes == SetToSeq(Modes) \o <<"Dissolve", "unknown">>
ModesDoc(s, m) ==
  LET r == <<0, 0, 3, 1>>
  IN  [n |-> 2, w |-> 3, h |-> 1, par |-> <<0, 0>>, grp |-> <<FALSE, FALSE>>, bm |-> <<"Normal", m>>, rect |-> <<r, r>>,
       clip |-> <<FALSE, FALSE>>, op |-> <<255, IF Coin(2, s, 1) THEN 255 ELSE 200>>, vis |-> <<TRUE, TRUE>>, open |-> <<FALSE, FALSE>>,
       hasA |-> <<TRUE, TRUE>>,
       pix |-> <<[j \in 1..3 |-> SafeDst[j] \o <<255>>], [j \in 1..3 |-> SafeSrc[j] \o <<IF j = 3 THEN 128 ELSE 255>>]>>,
       mask |-> <<NoMask, NoMask>>]

(* ----------------------------------------------------------- semantics *)
(* a working pixel is <<r, g, b, a, e>>; e bounds, in tenths of a level,   *)
(* the rounding a straight 8-bit implementation may accumulate             *)
Clear5 == <<0, 0, 0, 0, 0>>
(* Linear Dodge of a document is drawn as Add: the sum is limited after it  *)
(* was mixed, not before; a mode that is not supported is drawn as Normal.  *)
Fn(m) == IF m = "LinearDodge" THEN "Add" ELSE IF m \in Modes THEN m ELSE "Normal"
Slope(m) == IF \E k \in 1..5 : Steep[k] = m THEN 2 ELSE IF m \in NonSeparable THEN 3 ELSE 1
Draw5(b, s, op, m) ==
  LET sa == Mul(s[4], op)
      r == Over(Fn(m), s, b, op)
      sum == b[5] + s[5]
      \* a fully opaque Normal pixel covers whatever was there, exactly
      e == IF sa = Q /\ Fn(m) = "Normal" THEN (IF s[5] = 0 THEN 0 ELSE s[5] + 12)
           ELSE IF b[4] = 0 THEN s[5] + 12
           ELSE IF b[4] = Q THEN Slope(m) * sum + 32 ELSE Slope(m) * sum + 60
  IN  IF sa = 0 THEN b ELSE <<r[1], r[2], r[3], r[4], e>>

Hidden(d, S, i) == ~S.vis[i] \/ S.op[i] = 0
(* what reading a leaf may cost; a document seen through a map has its own *)
LeafE(d, e) == IF "z" \in DOMAIN d THEN d.z ELSE e
LeafPx(d, i, x, y) ==
  IF ~In(d.rect[i], x, y) THEN Clear5
  ELSE LET p == d.pix[i][Idx(d.rect[i], x, y)]
       IN  IF d.hasA[i] THEN (IF p[4] = 0 THEN Clear5 ELSE <<FromU8(p[1]), FromU8(p[2]), FromU8(p[3]), FromU8(p[4]), LeafE(d, IF p[4] = 255 THEN 0 ELSE 10)>>)
           ELSE <<FromU8(p[1]), FromU8(p[2]), FromU8(p[3]), Q, LeafE(d, 0)>>
MaskAt(d, i, x, y) ==
  LET m == d.mask[i]
  IN  IF ~m.on \/ RW(m.rect) * RH(m.rect) = 0 THEN Q
      ELSE IF In(m.rect, x, y) THEN FromU8(m.v[Idx(m.rect, x, y)]) ELSE FromU8(m.def)
Faded(p, m) == IF m = Q THEN p ELSE IF m = 0 THEN Clear5 ELSE <<p[1], p[2], p[3], Mul(p[4], m), p[5] + 12>>
Lerp5(b, p, m) ==
  IF m = Q THEN p ELSE IF m = 0 THEN b
  ELSE LET pa == Mul(p[4], m) ba == Mul(b[4], Q - m) a == pa + ba
           ch(i) == Mn(Q, Dv(Mn(a, Mul(p[i], pa) + Mul(b[i], ba)), a))
       IN  IF a = 0 THEN Clear5 ELSE <<ch(1), ch(2), ch(3), Mn(a, Q), Mx(b[5], p[5]) + 14>>

ClipsOf(d, i) ==                 \* the clipping layers of base i: the run of clipping siblings right above it
  LET sib == Kids(d, d.par[i])
  IN  IF d.clip[i] THEN <<>>     \* a clipping layer is no base
      ELSE SelectSeq(sib, LAMBDA k : k > i /\ d.clip[k] /\ \A j \in 1..d.n : (d.par[j] = d.par[i] /\ i < j /\ j < k) => d.clip[j])

RECURSIVE DrawNode(_, _, _, _, _, _, _)
DrawNode(d, S, b, i, om, x, y) ==
  IF Hidden(d, S, i) \/ om = 0 THEN b
  ELSE LET o == Mul(FromU8(S.op[i]), om)
           fold(b0, ks, k2) == FoldLeft(LAMBDA acc, k : T(DrawNode(d, S, acc, k, k2, x, y)), b0, ks)
           kids == SelectSeq(Kids(d, i), LAMBDA k : ~d.clip[k])
       IN  IF S.bm[i] = PassThrough
           THEN Lerp5(b, fold(b, kids, o), MaskAt(d, i, x, y))
           ELSE LET src == T(Faded(IF d.grp[i] THEN fold(Clear5, kids, Q) ELSE LeafPx(d, i, x, y), MaskAt(d, i, x, y)))
                    cs == ClipsOf(d, i)
                    body == IF cs = <<>> \/ src[4] = 0 THEN src
                            ELSE LET t == T(fold(<<src[1], src[2], src[3], Q, src[5] + 10>>, cs, Q))
                                 IN  <<t[1], t[2], t[3], src[4], t[5] + 22>>
                IN  Draw5(b, body, o, S.bm[i])

Settings(d) == [vis |-> d.vis, op |-> d.op, bm |-> d.bm]
PixelAt(d, S, x, y) ==
  FoldLeft(LAMBDA acc, k : T(DrawNode(d, S, acc, k, Q, x, y)), Clear5, SelectSeq(Kids(d, 0), LAMBDA k : ~d.clip[k]))
Pre(p) == <<Mul(p[1], p[4]), Mul(p[2], p[4]), Mul(p[3], p[4]), p[4], IF p[5] = 0 /\ p[4] = Q THEN 0 ELSE p[5] + 22>>

(* ------------------------------------------------------------- geometry *)
NonEmpty(r) == RW(r) * RH(r) > 0
Covered(d, x, y) == \E i \in 1..d.n : ~d.grp[i] /\ In(d.rect[i], x, y)
Extent(d) ==                      \* union of the layer rectangles, cut to the canvas
  LET L == {i \in 1..d.n : NonEmpty(d.rect[i])}
      lo(k) == CHOOSE v \in {d.rect[i][k] : i \in L} : \A i \in L : d.rect[i][k] >= v
      hi(k) == CHOOSE v \in {d.rect[i][k] : i \in L} : \A i \in L : d.rect[i][k] <= v
      r == <<Mx(0, lo(1)), Mx(0, lo(2)), Mn(d.w, hi(3)), Mn(d.h, hi(4))>>
  IN  IF L = {} \/ ~NonEmpty(r) THEN <<0, 0, 0, 0>> ELSE r
(* bounding box of the pixels of leaf i that are not transparent, in its own coordinates *)
Solid(d, i) == {j \in 1..Len(d.pix[i]) : ~d.hasA[i] \/ d.pix[i][j][4] > 0}
BBox(d, i) ==
  LET S == Solid(d, i)
      X(j) == (j - 1) % RW(d.rect[i])
      Y(j) == (j - 1) \div RW(d.rect[i])
      mn(f(_)) == CHOOSE v \in {f(j) : j \in S} : \A j \in S : f(j) >= v
      mx(f(_)) == CHOOSE v \in {f(j) : j \in S} : \A j \in S : f(j) <= v
  IN  IF d.grp[i] \/ S = {} THEN <<0, 0, 0, 0>>
      ELSE <<mn(X), mn(Y), mx(X) + 1, mx(Y) + 1>>
=============================================================================
