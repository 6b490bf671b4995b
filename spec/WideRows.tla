------------------------------ MODULE WideRows ------------------------------
(* Planes with very wide rows, very many rows, or very long payloads, where  *)
(* PlaneCodec's byte-by-byte sequences would be too long to write down.      *)
(* A row is a sequence of progressions <<v, d, n>>: n samples v, v+d, ...;   *)
(* all rows of a class are equal up to a constant added to every sample.     *)
(* The writer turns progressions into PackBits packets, or into the stream   *)
(* of differences of ZIP with prediction; the reader takes the packets row   *)
(* by row and must be left with the progressions.                            *)
EXTENDS Bytes, Json
CONSTANTS Malformed       \* TRUE: rows that overrun, end early or are cut
VARIABLES pc, s, g, rows, pk, pre, post
vars == <<pc, s, g, rows, pk, pre, post>>

Init == pc = "geom" /\ s = 0 /\ g = <<>> /\ rows = <<>> /\ pk = <<>> /\ pre = <<>> /\ post = <<>>

(* shapes: width, height; PSD files end at 30000                             *)
Shapes(large) ==
  IF large THEN <<<<65535, 2>>, <<65536, 2>>, <<65537, 3>>, <<70001, 2>>, <<131072, 1>>, <<131073, 2>>, <<300000, 1>>, <<200003, 2>>, <<1, 3001>>, <<3, 2000>>, <<40000, 5>>>>
  ELSE <<<<30000, 1>>, <<30000, 7>>, <<29999, 3>>, <<32, 2999>>, <<2, 30000>>, <<1, 4097>>, <<4096, 33>>, <<16384, 5>>>>
Geom == /\ pc = "geom"
        /\ \E t \in {RandomElement(Seeds)} : \E u \in {RandomElement(Seeds)} :
             /\ s' = u
             /\ LET large == Mix(t, 1) % 5 < 3
                    sh == PickSeq(Shapes(large), t, 2)
                    comp == IF Malformed THEN 1 ELSE PickSeq(<<1, 1, 1, 0, 2, 3, 3>>, t, 3)
                    d0 == PickSeq(<<8, 8, 8, 16, 32>>, t, 4)
                    depth == IF d0 = 32 /\ ~large THEN 16 ELSE d0
                    form == IF Malformed THEN "call" ELSE IF comp > 1 THEN PickSeq(<<"call", "merged">>, t, 6) ELSE PickSeq(<<"call", "merged", "layer">>, t, 6)
                    ch == IF sh[1] * sh[2] > 100000 \/ form = "layer" THEN 1 ELSE PickSeq(<<1, 1, 3>>, t, 5)
                IN  g' = [comp |-> comp, depth |-> depth, w |-> sh[1], h |-> sh[2], ch |-> ch, large |-> large, form |-> form, shift |-> PickSeq(<<0, 1, 7, 128>>, t, 7)]
        /\ pc' = "rows" /\ UNCHANGED <<rows, pk, pre, post>>

(* what the samples of a row are: bytes for run lengths, whole samples for   *)
(* 8 and 16 bits with prediction, bytes grouped by significance for 32       *)
Unit == IF g.comp = 3 /\ g.depth = 16 THEN 2 ELSE 1
Mod == IF Unit = 2 THEN 65536 ELSE 256
RowLen == ((g.w * g.depth + 7) \div 8) \div Unit
Lines == g.h * g.ch
NClass == 3
ClassOf(y) == 1 + (Mix(s, 300 + (y % 211)) % NClass)

MulM(d, n) == ((((((d \div 256) * (n % Mod)) % Mod) * 256) + (((d % 256) * (n % Mod)) % Mod)) % Mod)
At(v, d, n) == (v + MulM(d, n)) % Mod          \* the sample n places after v

(* cut [0, n) into up to k progressions of at least two samples             *)
RECURSIVE Pieces(_, _, _)
Pieces(n, k, t) ==
  IF k = 1 \/ n < 8 THEN <<<<Mix(t, 1) % Mod, IF n = 1 \/ Coin(2, t, 2) THEN 0 ELSE 1 + (Mix(t, 3) % (Mod - 1)), n>>>>
  ELSE LET m == PickSeq(<<2, 3, 127, 128, 129, 130, n \div 2, n \div 3, n - 3>>, t, 4)
           a == BMax(2, BMin(m, n - 2))
       IN  <<<<Mix(t, 1) % Mod, IF Coin(2, t, 2) THEN 0 ELSE 1 + (Mix(t, 3) % (Mod - 1)), a>>>> \o Pieces(n - a, k - 1, Mix(t, 5))
MakeRows == /\ pc = "rows"
            /\ \E n \in {RowLen}, t \in {s} : rows' = [c \in 1..NClass |-> Pieces(n, 1 + (Mix(t, 20 + c) % 5), Mix(t, 30 + c))]
            /\ pc' = "enc" /\ UNCHANGED <<s, g, pk, pre, post>>

(* ------------------------------------------------------------- run lengths *)
(* packet groups <<kind, v, d, k, m>>: m packets of k samples each; kinds    *)
(* run, lit, nop (m bytes of 128), cutlit (announces k, has m), cutrun       *)
PiecePackets(p, k) ==
  LET kind == IF p[2] = 0 THEN "run" ELSE "lit"
      kk == IF kind = "run" THEN BMax(2, k) ELSE k
      full == p[3] \div kk  rem == p[3] % kk
  IN  (IF full > 0 THEN <<<<kind, p[1], p[2], kk, full>>>> ELSE <<>>)
      \o (IF rem = 1 THEN <<<<"lit", At(p[1], p[2], p[3] - 1), p[2], 1, 1>>>>
          ELSE IF rem > 0 THEN <<<<kind, At(p[1], p[2], full * kk), p[2], rem, 1>>>> ELSE <<>>)
PacketLen(q) == CASE q[1] = "run" -> 2 * q[5] [] q[1] = "lit" -> (q[4] + 1) * q[5] [] q[1] = "nop" -> q[5]
                  [] q[1] = "cutlit" -> 1 + q[5] [] q[1] = "cutrun" -> 1
PackedLen(ps) == FoldLeft(LAMBDA a, q : a + PacketLen(q), 0, ps)
Good(c) == LET mid == PickSeq(<<128, 128, 127, 100>>, s, 40 + c)
               tiny == g.large /\ Coin(3, s, 50 + c)       \* two bytes a sample: only a 4-byte count holds that
               ps == Cat([j \in 1..Len(rows[c]) |-> PiecePackets(rows[c][j], IF tiny THEN 1 ELSE mid)])
           IN  IF Coin(3, s, 60 + c) THEN <<<<"nop", 0, 0, 0, 3>>>> \o ps \o <<<<"nop", 0, 0, 0, 1>>>> ELSE ps
Broken(c) == LET q == Good(c)  k == Mix(s, 70 + c) % 8
             IN  CASE k = 0 -> q \o <<<<"lit", 9, 0, 1, 1>>>>                    \* one sample too many
                   [] k = 1 -> q \o <<<<"run", 9, 0, 2, 1>>>>
                   [] k = 2 -> q \o <<<<"cutrun", 9, 0, 2, 0>>>>                 \* ends inside a packet
                   [] k = 3 -> SubSeq(q, 1, Len(q) - 1) \o <<<<"cutlit", 9, 1, 100, 99>>>>
                   [] k = 4 -> SubSeq(q, 1, Len(q) - 1)                          \* short
                   [] k = 5 -> <<>>
                   [] k = 6 -> <<<<"run", 5, 0, 128, (RowLen \div 128) + 1>>>>   \* longer than the row (or 128 of a short one)
                   [] OTHER -> q
MakePackets ==
  /\ pc = "enc"
  /\ pk' = IF g.comp # 1 THEN [c \in 1..NClass |-> <<>>]
           ELSE [c \in 1..NClass |-> IF Malformed /\ Coin(2, s, 80 + c) THEN TLCEval(Broken(c)) ELSE TLCEval(Good(c))]
  /\ pc' = "file" /\ UNCHANGED <<s, g, rows, pre, post>>

(* the reader, row by row: [ok, out]; what a row does not give stays zero   *)
ReadRow(ps) ==
  LET step(a, q) == IF ~a.ok THEN a
                    ELSE IF q[1] = "nop" THEN a
                    ELSE IF q[1] \in {"cutlit", "cutrun"} THEN [a EXCEPT !.ok = FALSE]
                    ELSE IF a.n + q[4] * q[5] > RowLen THEN [a EXCEPT !.ok = FALSE]
                    ELSE [a EXCEPT !.n = @ + q[4] * q[5], !.out = Append(@, <<q[2], q[3], q[4] * q[5]>>)]
  IN  FoldLeft(step, [ok |-> TRUE, n |-> 0, out |-> <<>>], ps)
(* neighbouring progressions that continue each other are one               *)
Join(ps) == LET step(a, p) == IF a = <<>> THEN <<p>>
                              ELSE LET b == a[Len(a)] IN
                                   IF b[2] = p[2] /\ p[1] = At(b[1], b[2], b[3]) THEN SubSeq(a, 1, Len(a) - 1) \o <<<<b[1], b[2], b[3] + p[3]>>>>
                                   ELSE Append(a, p)
            IN  FoldLeft(step, <<>>, ps)

(* ------------------------------------------------------------- prediction *)
(* the first sample, then differences from the left neighbour                *)
LastOf(p) == At(p[1], p[2], p[3] - 1)
Diffs(ps) == Cat([j \in 1..Len(ps) |->
               <<<<IF j = 1 THEN ps[1][1] ELSE (ps[j][1] - LastOf(ps[j-1]) + Mod) % Mod, 0, 1>>>>
               \o (IF ps[j][3] > 1 THEN <<<<ps[j][2], 0, ps[j][3] - 1>>>> ELSE <<>>)])
(* the inverse: a run of n equal differences d after value a is a progression *)
UnDiffs(ds) == LET step(a, p) == IF a.out = <<>> THEN [last |-> p[1], out |-> <<<<p[1], 0, 1>>>>]
                                 ELSE [last |-> At(a.last, p[1], p[3]), out |-> Append(a.out, <<(a.last + p[1]) % Mod, p[1], p[3]>>)]
               IN  FoldLeft(step, [last |-> 0, out |-> <<>>], ds).out
(* a single sample belongs to the progression that follows it               *)
Attach(ps) == LET step(a, p) == IF a = <<>> THEN <<p>>
                                ELSE LET b == a[Len(a)] IN
                                     IF b[3] = 1 /\ p[1] = At(b[1], p[2], 1) THEN SubSeq(a, 1, Len(a) - 1) \o <<<<b[1], p[2], p[3] + 1>>>>
                                     ELSE Append(a, p)
              IN  FoldLeft(step, <<>>, ps)
Plain(ps) == [j \in 1..Len(ps) |-> IF ps[j][3] = 1 THEN <<ps[j][1], 0, 1>> ELSE ps[j]]

(* ------------------------------------------------------------------- file *)
Ent(n) == IF g.large THEN U32(n) ELSE U16(n)
PayloadLen == CASE g.comp = 0 -> Lines * RowLen
                [] g.comp = 1 -> Lines * (IF g.large THEN 4 ELSE 2)
                                 + FoldLeft(LAMBDA a, y : a + PackedLen(pk[ClassOf(y)]), 0, [y \in 1..Lines |-> y])
                [] OTHER -> 0
FileHead(w, h, ch) == <<56, 66, 80, 83, 0, IF g.large THEN 2 ELSE 1, 0, 0, 0, 0, 0, 0>> \o U16(ch) \o U32(h) \o U32(w) \o U16(g.depth)
                  \o U16(IF ch = 3 THEN 3 ELSE 1) \o U32(0) \o U32(0)
LayerRecord(len) == <<0, 0, 0, 0, 0, 0, 0, 0>> \o U32(g.h) \o U32(g.w) \o U16(1) \o U16(0) \o ULen(g.large, len + 2)
                    \o <<56, 66, 73, 77, 110, 111, 114, 109, 255, 0, 0, 0>> \o U32(12) \o U32(0) \o U32(0) \o <<0, 0, 0, 0>>
File ==
  /\ pc = "file"
  /\ \E len \in {TLCEval(PayloadLen)} :
     CASE g.form = "call" -> pre' = <<>> /\ post' = <<>>
       [] g.form = "merged" -> pre' = FileHead(g.w, g.h, g.ch) \o ULen(g.large, 0) \o U16(g.comp) /\ post' = <<>>
       [] g.form = "layer" ->
          LET odd == len % 2
              info == 2 + Len(LayerRecord(len)) + 2 + len + odd
          IN  /\ pre' = FileHead(1, 1, 1) \o ULen(g.large, (IF g.large THEN 8 ELSE 4) + info + 4) \o ULen(g.large, info) \o U16(1) \o LayerRecord(len) \o U16(g.comp)
              /\ post' = Zeros(odd) \o U32(0) \o U16(0) \o Zeros(g.depth \div 8)
  /\ pc' = "done" /\ UNCHANGED <<s, g, rows, pk>>
Next == Geom \/ MakeRows \/ MakePackets \/ File
Spec == Init /\ [][Next]_vars

Fits == pc = "done" /\ g.comp = 1 /\ ~g.large => \A c \in 1..NClass : PackedLen(pk[c]) < 65536
Total(ps) == FoldLeft(LAMBDA a, p : a + p[3], 0, ps)
Covers == pc \in {"enc", "file", "done"} => \A c \in 1..NClass : Total(rows[c]) = RowLen
Lossless == pc = "done" =>
   /\ (g.comp = 1 /\ ~Malformed) => \A c \in 1..NClass : LET r == ReadRow(pk[c]) IN r.ok /\ r.n = RowLen /\ Join(r.out) = Join(rows[c])
   /\ g.comp = 3 => \A c \in 1..NClass : Total(Diffs(rows[c])) = RowLen /\ Plain(Attach(UnDiffs(Diffs(rows[c])))) = Plain(rows[c])
Emit == pc = "done" => PrintT("@@" \o ToJson([wide |-> g, unit |-> Unit, rl |-> RowLen, lines |-> Lines,
           cls |-> [y \in 1..Lines |-> ClassOf(y)],
           rows |-> rows, packets |-> pk, diffs |-> IF g.comp = 3 THEN [c \in 1..NClass |-> Diffs(rows[c])] ELSE <<>>,
           ent |-> [c \in 1..NClass |-> Ent(PackedLen(pk[c]))],
           read |-> [c \in 1..NClass |-> IF g.comp = 1 THEN LET r == ReadRow(pk[c]) IN [ok |-> r.ok, out |-> r.out] ELSE [ok |-> TRUE, out |-> rows[c]]],
           len |-> PayloadLen, pre |-> pre, post |-> post]))
=============================================================================
