--------------------------- MODULE BlendGeometry ---------------------------
(* Where a draw goes: which destination pixels it changes, which source and *)
(* mask pixel each of them is paired with, and in which order a draw whose  *)
(* source and destination share memory has to visit them, with any number   *)
(* of workers.  What a single pixel becomes is PorterDuff and BlendModes.   *)
EXTENDS Bytes, Json
CONSTANTS Focus,       \* "clip": every small combination, "overlap": every shift over shared memory, "big": random
          MaxWorkers, Lossy

VARIABLES phase, plan, c, mem, src, todo

(* A rectangle is <<x0, y0, x1, y1>>, a point <<x, y>>. *)
Empty(r) == r[1] >= r[3] \/ r[2] >= r[4]
Meet(a, b) == <<BMax(a[1], b[1]), BMax(a[2], b[2]), BMin(a[3], b[3]), BMin(a[4], b[4])>>
Moved(a, dx, dy) == <<a[1] + dx, a[2] + dy, a[3] + dx, a[4] + dy>>
In(x, y, r) == r[1] <= x /\ x < r[3] /\ r[2] <= y /\ y < r[4]
Wd(r) == r[3] - r[1]
Ht(r) == r[4] - r[2]
Cells(r) == IF Empty(r) THEN {} ELSE {<<x, y>> : x \in r[1]..(r[3] - 1), y \in r[2]..(r[4] - 1)}
Everywhere == <<-1000000, -1000000, 1000000, 1000000>>

HasMask(p) == p.mk # "none"
MaskB(p) == IF p.mk \in {"none", "uniform"} THEN Everywhere ELSE p.mb
SrcB(p) == IF p.sk = "uniform" THEN Everywhere ELSE p.sb

(* ---------------------------------------------- what a draw has to mean *)
(* The pixels a draw changes, and what each is paired with. *)
Drawn(p) == {q \in Cells(Meet(p.r, p.db)) :
               /\ In(q[1] - p.r[1] + p.sp[1], q[2] - p.r[2] + p.sp[2], SrcB(p))
               /\ In(q[1] - p.r[1] + p.mp[1], q[2] - p.r[2] + p.mp[2], MaskB(p))}
SrcOf(p, q) == <<q[1] - p.r[1] + p.sp[1], q[2] - p.r[2] + p.sp[2]>>
MaskOf(p, q) == <<q[1] - p.r[1] + p.mp[1], q[2] - p.r[2] + p.mp[2]>>

(* ------------------------------------------------- how it is carried out *)
Clip(p) ==
  LET a == Meet(p.r, p.db)
      b == Meet(a, Moved(SrcB(p), p.r[1] - p.sp[1], p.r[2] - p.sp[2]))
      d == Meet(b, Moved(MaskB(p), p.r[1] - p.mp[1], p.r[2] - p.mp[2]))
  IN  [r |-> d, sp |-> SrcOf(p, <<d[1], d[2]>>), mp |-> MaskOf(p, <<d[1], d[2]>>)]

Backward(k) == k.r[2] > k.sp[2] \/ (k.r[2] = k.sp[2] /\ k.r[1] > k.sp[1])
(* rows of the clipped rectangle in the order they are visited *)
RowsOf(k) == LET n == Ht(k.r) IN [i \in 1..n |-> IF Backward(k) THEN k.r[4] - i ELSE k.r[2] + i - 1]
ColsOf(k) == LET n == Wd(k.r) IN [i \in 1..n |-> IF Backward(k) THEN k.r[3] - i ELSE k.r[1] + i - 1]
(* contiguous bands of rows, one for each of n workers *)
Bands(rows, n) == LET step == Len(rows) \div n
                  IN  [w \in 1..n |-> SubSeq(rows, (w - 1) * step + 1, IF w = n THEN Len(rows) ELSE w * step)]

(* ------------------------------------------------------------------ plans *)
DstKinds == <<"RGBA", "NRGBA", "RGBA", "NRGBA", "RGBA64", "NRGBA64", "Gray", "Paletted", "wrap">>
SrcKinds == <<"RGBA", "NRGBA", "RGBA", "NRGBA", "Alpha", "NRGBA64", "Gray", "YCbCr", "wrap">>
MaskKinds == <<"Alpha", "Alpha", "RGBA", "Gray16", "wrap">>

ClipPlans ==
  {[db |-> <<0, 0, 2, 2 + y>>, sb |-> <<u[1], 0, u[1] + u[2], 2>>, mk |-> "image", mb |-> <<v[1], 0, v[1] + v[2], 3>>,
    r |-> <<x[1], y - 1, x[1] + x[2], y + 2>>, sp |-> <<u[3], y - 1>>, mp |-> <<v[3], 0>>, shared |-> FALSE, sk |-> "image", same |-> FALSE, z |-> 0] :
     x \in (-1..2) \X (0..3), u \in (0..1) \X (0..3) \X (-1..3), v \in ({0} \X (0..2) \X (-1..1)) \cup {<<-9, 30, 0>>}, y \in 0..1}
OverlapPlans ==
  {[db |-> <<0, 0, 3, 6>>, sb |-> <<0, 0, 3, 6>>, mk |-> "none", mb |-> <<0, 0, 0, 0>>, r |-> <<x[1], x[2], x[1] + x[3], x[2] + x[4]>>,
    sp |-> <<s[1], s[2]>>, mp |-> <<0, 0>>, shared |-> TRUE, sk |-> "image", same |-> TRUE, z |-> 0] :
     x \in (0..2) \X (0..3) \X (1..3) \X {2, 4, 6}, s \in (0..2) \X (0..3)}

Parent == <<-4, -4, 12, 36>>      \* shared memory: both images are parts of this one
BandPlans ==      \* rows shared out among workers
  {[db |-> <<0, 0, 2, 7>>, sb |-> <<0, 0, 2, 8>>, mk |-> m, mb |-> <<0, 0, 2, 9>>, r |-> <<0, y, 1, y + h>>, sp |-> <<x, 1>>, mp |-> <<0, 0>>,
    shared |-> FALSE, sk |-> "image", same |-> FALSE, z |-> 0] : y \in 0..1, h \in 1..7, x \in 0..1, m \in {"none", "image"}}
BigPlan(z, y0) ==
  LET a == Mix(z, 1) b == Mix(y0, 2) e == Mix(y0, 3) f == Mix(z, 4)
      shared == Coin(3, z, 5)
      n(k, m) == Mix(a, k) % m
      dw == 1 + n(1, 14) dh == (IF Coin(5, z, 21) THEN 1 ELSE 5) + n(2, IF Coin(4, z, 6) THEN 40 ELSE 12)
      dx == (n(3, 9)) - 4 dy == (n(4, 9)) - 4
      db0 == <<dx, dy, dx + dw, dy + dh>>
      sw == 1 + n(5, 14) sh == (IF Coin(5, z, 22) THEN 1 ELSE 5) + n(6, IF Coin(4, z, 6) THEN 40 ELSE 12)
      sx == (n(7, 9)) - 4 sy == (n(8, 9)) - 4
      sb0 == <<sx, sy, sx + sw, sy + sh>>
      whole == Parent
      same == shared /\ Coin(2, z, 7)
      db == IF ~shared THEN db0 ELSE IF same THEN whole ELSE Meet(db0, whole)
      sb == IF ~shared THEN sb0 ELSE IF same THEN whole ELSE Meet(sb0, whole)
      near(k, lo, m) == lo + (Mix(b, k) % m) - 3
      r == LET x == near(1, db[1], 9) y == near(2, db[2], 9) IN <<x, y, x + (IF Coin(4, z, 23) THEN 0 ELSE 4) + (Mix(b, 3) % 14), y + (IF Coin(4, z, 24) THEN 0 ELSE 6) + (Mix(b, 4) % 44)>>
      sp == IF shared THEN <<r[1] + (Mix(b, 5) % 5) - 2, r[2] + (Mix(b, 6) % 5) - 2>> ELSE <<near(5, sb[1], 7), near(6, sb[2], 7)>>
      mb == <<(Mix(e, 1) % 7) - 3, (Mix(e, 2) % 7) - 3, (Mix(e, 1) % 7) + (Mix(e, 3) % 14), (Mix(e, 2) % 7) + (Mix(e, 4) % 30)>>
      far == IF Coin(12, z, 8) THEN 900000 ELSE 0
      \* an image mask between two images that merely share memory: not claimed
      mk == IF Coin(3, z, 9) /\ (same \/ ~shared) THEN "image" ELSE IF Coin(3, z, 10) THEN "uniform" ELSE "none"
  IN  [db |-> db, sb |-> sb, mk |-> mk, mb |-> mb,
       r |-> IF far = 0 THEN r ELSE <<r[1] - far, r[2] - far, r[3] + far, r[4] + far>>,
       sp |-> <<sp[1] - far, sp[2] - far>>, mp |-> <<near(7, mb[1], 7) - far, near(8, mb[2], 7) - far>>,
       shared |-> shared, sk |-> IF ~shared /\ Coin(8, z, 11) THEN "uniform" ELSE "image", same |-> same, z |-> f]

(* ----------------------------------------------------------------- states *)
Idle == [r |-> <<0, 0, 0, 0>>, sp |-> <<0, 0>>, mp |-> <<0, 0>>]
Stamp(r, k) == [q \in Cells(r) |-> (((q[1] + 50) * 89 + (q[2] + 50)) * 3 + k) % 65521]
Blend(s, d, m) == (s * 4099 + d * 31 + m + 17) % 65521

Whole(p) == IF p.shared THEN <<BMin(p.db[1], p.sb[1]), BMin(p.db[2], p.sb[2]), BMax(p.db[3], p.sb[3]), BMax(p.db[4], p.sb[4])>> ELSE p.db

Init == /\ phase = "plan" /\ c = Idle /\ todo = <<>> /\ mem = <<>> /\ src = <<>>
        /\ plan = [z |-> -1]

Choose ==
  /\ phase = "plan" /\ plan.z = -1
  /\ IF Focus = "big" THEN \E z \in {RandomElement(Seeds)} : \E y \in {RandomElement(Seeds)} : plan' = BigPlan(z, y)
     ELSE plan' \in (IF Focus = "clip" THEN ClipPlans ELSE OverlapPlans \cup BandPlans)
  /\ phase' = "clip" /\ UNCHANGED <<c, mem, src, todo>>

Kinds(p) ==
  LET s == IF Focus = "big" THEN p.z ELSE Mix(p.r[1] * 7 + p.sp[1] + p.r[3] * 3 + p.sp[2] + 99, p.sb[3] + p.r[2] * 5 + p.sb[1] * 3 + 20)
      dk == IF p.shared /\ ~p.same THEN PickSeq(<<"RGBA", "NRGBA">>, s, 1) ELSE PickSeq(DstKinds, s, 1)
  IN  [dk |-> dk, sk |-> IF p.shared THEN dk ELSE IF p.sk = "uniform" THEN "uniform" ELSE PickSeq(SrcKinds, s, 2),
       mk |-> IF p.mk = "image" THEN PickSeq(MaskKinds, s, 3) ELSE p.mk, op |-> Mix(s, 4)]

Plan ==
  /\ phase = "clip"
  /\ c' = Clip(plan)
  /\ mem' = Stamp(Whole(plan), 1)
  /\ src' = IF plan.sk = "uniform" THEN <<>> ELSE Stamp(plan.sb, 2)
  /\ IF Empty(c'.r) THEN phase' = "done" /\ todo' = <<>>
     ELSE /\ phase' = "draw"
          /\ \E n \in 1..BMin(MaxWorkers, BMax(1, Ht(c'.r) \div 2)) :
               /\ (plan.shared /\ Lossy # "parallel") => n = 1
               /\ (Focus = "big" => n = BMin(BMax(1, Ht(c'.r) \div 2), MaxWorkers) \/ plan.shared) 
               /\ todo' = Bands(RowsOf(c'), n)
  /\ UNCHANGED plan

(* one worker draws its next row *)
RowDone(m, p, k, y) ==
  LET cols == ColsOf(k)
      f(acc, x) == LET q == <<x, y>>
                       s == SrcOf(p, q)
                       v == IF p.sk = "uniform" THEN 7 ELSE IF p.shared THEN acc[s] ELSE src[s]
                       u == IF HasMask(p) THEN (IF p.mk = "uniform" THEN 5 ELSE MaskOf(p, q)[1] * 50 + MaskOf(p, q)[2]) ELSE 0
                   IN  [acc EXCEPT ![q] = Blend(v, @, u)]
  IN  TLCEval(FoldLeft(f, m, IF Lossy = "forward" THEN SortSeq(cols, LAMBDA a, b : a < b) ELSE cols))

Draw(w) ==
  /\ phase = "draw" /\ todo[w] # <<>>
  /\ mem' = RowDone(mem, plan, c, Head(todo[w]))
  /\ todo' = [todo EXCEPT ![w] = Tail(@)]
  /\ UNCHANGED <<phase, plan, c, src>>

Finish == /\ phase = "draw" /\ \A w \in DOMAIN todo : todo[w] = <<>>
          /\ phase' = "done" /\ UNCHANGED <<plan, c, mem, src, todo>>

Out ==
  /\ phase = "done" /\ phase' = "out"
  /\ LET k == Kinds(plan) IN
       PrintT("@@" \o ToJson([pb |-> IF Focus = "big" THEN Parent ELSE Whole(plan), db |-> plan.db, sb |-> plan.sb, mb |-> plan.mb, r |-> plan.r, sp |-> plan.sp, mp |-> plan.mp,
                             shared |-> plan.shared, same |-> plan.same, dk |-> k.dk, sk |-> k.sk, mk |-> k.mk, op |-> k.op,
                             cr |-> c.r, csp |-> c.sp, cmp |-> c.mp, none |-> Empty(c.r)]))
  /\ UNCHANGED <<plan, c, mem, src, todo>>

Next == Choose \/ Plan \/ (\E w \in DOMAIN todo : Draw(w)) \/ Finish \/ Out
vars == <<phase, plan, c, mem, src, todo>>
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------- what must be true of it *)
(* clipping keeps exactly the pixels that have a partner, and their partners *)
ClipRight == phase = "draw" =>
  /\ Cells(c.r) = Drawn(plan)
  /\ \A q \in {<<c.r[1], c.r[2]>>, <<c.r[3] - 1, c.r[4] - 1>>} : SrcOf(c, q) = SrcOf(plan, q) /\ MaskOf(c, q) = MaskOf(plan, q)
ClipNone == phase = "done" /\ Empty(c.r) => Drawn(plan) = {}
(* the result is that of copying the source first, whoever draws which row when *)
MaskAt(q) == IF ~HasMask(plan) THEN 0 ELSE IF plan.mk = "uniform" THEN 5 ELSE MaskOf(plan, q)[1] * 50 + MaskOf(plan, q)[2]
AsIfCopied == phase = "done" =>
  LET start == TLCEval(Stamp(Whole(plan), 1))
      drawn == TLCEval(Drawn(plan))
      source(q) == IF plan.sk = "uniform" THEN 7 ELSE IF plan.shared THEN start[SrcOf(plan, q)] ELSE src[SrcOf(plan, q)]
  IN  \A q \in DOMAIN mem : mem[q] = IF q \in drawn THEN Blend(source(q), start[q], MaskAt(q)) ELSE start[q]
=============================================================================
