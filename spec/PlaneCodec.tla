----------------------------- MODULE PlaneCodec -----------------------------
(* Plane sets (merged image or one layer channel) through each compression   *)
(* method: an encoder step lays the planes out, a decoder step must give     *)
(* them back.  Emits (method, geometry, payload, planes) for the library's   *)
(* CompressionMethod.Decode.  Damage: malformed PackBits rows with the       *)
(* outcome the row-local semantics prescribes.                               *)
EXTENDS Bytes, Json
CONSTANTS Malformed    \* TRUE: also break RLE rows
VARIABLES pc, s, g, planes, payload, dec, want
vars == <<pc, s, g, planes, payload, dec, want>>

Init == pc = "geom" /\ s = 0 /\ g = <<>> /\ planes = <<>> /\ payload = <<>> /\ dec = <<>> /\ want = <<>>

Geom == /\ pc = "geom"
        /\ \E t \in {RandomElement(Seeds)} :
             /\ s' = t
             /\ LET depth == PickSeq(<<8, 8, 16, 32, 1>>, t, 1)
                    comp == IF Malformed THEN 1 ELSE IF depth = 1 THEN PickSeq(<<0, 1, 1, 2>>, t, 2) ELSE PickSeq(<<0, 1, 1, 1, 2, 3, 3>>, t, 2)
                    w == PickSeq(<<1, 2, 3, 7, 8, 9, 16, 33, 130>>, t, 3)
                    h == PickSeq(<<1, 2, 3, 4, 5, 7, 8, 11, 16, 17>>, t, 4)
                    ch == PickSeq(<<1, 1, 2, 3, 4>>, t, 5)
                    w2 == IF ~Malformed /\ comp # 1 /\ Coin(25, t, 11) THEN 0 ELSE IF w > 30 /\ h * ch > 16 THEN 5 ELSE w      \* an empty plane now and then
                    h2 == IF ~Malformed /\ Coin(25, t, 12) THEN 0 ELSE h
                IN g' = [comp |-> comp, depth |-> depth, w |-> w2, h |-> h2, ch |-> ch, large |-> Coin(2, t, 6),
                         x0 |-> PickSeq(<<0, 0, -5, 3>>, t, 7), y0 |-> PickSeq(<<0, 0, -5, 3>>, t, 8),
                         hint |-> Coin(2, t, 9), trail |-> PickSeq(<<0, 0, 1, 5>>, t, 10)]
        /\ pc' = "data" /\ UNCHANGED <<planes, payload, dec, want>>
RowB == RowBytes(g.w, g.depth)
Lines == g.h * g.ch
DataOf(n, t) == LET st == Mix(t, 90) % 4  a == Mix(t, 91) % 256 IN
   CASE st = 0 -> Noise(n, t)
     [] st = 1 -> [i \in 1..n |-> PickSeq(<<a, a, a, a, 0, 255>>, Mix(t, 92), i)]
     [] st = 2 -> [i \in 1..n |-> (a + i) % 256]
     [] OTHER  -> [i \in 1..n |-> a]
Data == /\ pc = "data" /\ \E t \in {s}, n \in {RowB * Lines} : planes' = DataOf(n, t) /\ pc' = "enc" /\ UNCHANGED <<s, g, payload, dec, want>>

(* -- malformed rows: each is a list of packets, possibly incomplete *)
BadRow(t, width, good) ==
  CASE Mix(t, 1) % 9 = 0 -> good
    [] Mix(t, 1) % 9 = 1 -> <<>>                                            \* nothing: row stays zero
    [] Mix(t, 1) % 9 = 2 -> SubSeq(good, 1, Len(good) - 1)                  \* last packet cut
    [] Mix(t, 1) % 9 = 3 -> good \o <<0, 77>>                               \* one byte too many
    [] Mix(t, 1) % 9 = 4 -> good \o <<255, 78>>                             \* a run past the end
    [] Mix(t, 1) % 9 = 5 -> <<257 - BMin(128, width + 1 + (Mix(t, 2) % 3)), 79>>  \* run longer than the row (clipped at 128)
    [] Mix(t, 1) % 9 = 6 -> <<128, 128>> \o good \o <<128>>                 \* no-ops are legal
    [] Mix(t, 1) % 9 = 7 -> <<0, 80>>                                       \* short row
    [] OTHER             -> good \o <<200>>                                 \* run header without its byte
(* -- counts that lie: the row's bytes are as long as before, or there are   *)
(* far fewer than announced; adding the same power of two to two counts      *)
(* leaves their sum unchanged where numbers wrap around                      *)
Lie(e, t) ==
  LET cs == IF g.large THEN 4 ELSE 2
      y == Mix(t, 1) % Lines  z == Mix(t, 2) % Lines
      At4(b, row, v) == [i \in 1..Len(b) |-> IF i > row * cs /\ i <= (row + 1) * cs THEN v[i - (row * cs)] ELSE b[i]]
      of(row) == SubSeq(e, (row * cs) + 1, (row + 1) * cs)
      top(row, n) == [i \in 1..cs |-> IF i = 1 THEN (of(row)[1] + n) % 256 ELSE of(row)[i]]
      low(row, n) == [i \in 1..cs |-> IF i = cs THEN (of(row)[i] + n) % 256 ELSE of(row)[i]]
      full(row, n) == [i \in 1..cs |-> n]
      k == Mix(t, 3) % 8
  IN  CASE k = 0 -> At4(e, y, low(y, 1 + (Mix(t, 4) % 3)))
        [] k = 1 -> At4(e, y, low(y, 255 - (Mix(t, 4) % 3)))
        [] k = 2 -> At4(e, y, full(y, 255))
        [] k = 3 -> At4(e, y, top(y, 128))
        [] k = 4 -> IF y = z THEN At4(e, y, top(y, 64)) ELSE At4(At4(e, y, top(y, 128)), z, top(z, 128))
        [] k = 5 -> IF y = z THEN At4(e, y, full(y, 0)) ELSE At4(At4(e, y, low(y, 1)), z, low(z, 255))
        [] k = 6 -> IF y = z THEN At4(e, y, full(y, 127)) ELSE At4(At4(e, y, low(y, 255)), z, low(z, 1))
        [] OTHER -> IF y = z THEN At4(e, y, top(y, 127)) ELSE At4(At4(e, y, of(z)), z, of(y))     \* two counts swapped
Enc == /\ pc = "enc"
       /\ IF ~Malformed
          THEN LET e == (EncodePlane(g.comp, planes, RowB, g.depth, g.large, s)) IN payload' = e /\ want' = [ok |-> TRUE, cut |-> FALSE, lie |-> FALSE]
          ELSE LET rows == (Rows(planes, RowB))
                   nb == 1 + (Mix(s, 30) % 3)
                   bad == { 1 + (Mix(s, 40 + k) % Lines) : k \in 1..nb }
                   pk == ([y \in 1..Lines |-> LET good == PackRow(rows[y], Mix(s, y))
                                             IN IF y \in bad THEN BadRow(Mix(s, 100 + y), RowB, good) ELSE good])
                   e == (RleEncodeRows(pk, g.large))
                   cut == CASE Mix(s, 50) % 8 = 0 -> 1 + (Mix(s, 51) % Len(e)) [] OTHER -> 0
               IN IF Mix(s, 52) % 4 = 0 THEN payload' = Lie(e, Mix(s, 53)) /\ want' = [cut |-> TRUE, ok |-> FALSE, lie |-> TRUE]
                  ELSE payload' = SubSeq(e, 1, Len(e) - cut) /\ want' = [lie |-> FALSE, cut |-> cut # 0, ok |-> cut = 0 /\ \A y \in 1..Lines : UnpackRow(pk[y], RowB).ok]
       /\ pc' = "dec" /\ UNCHANGED <<s, g, planes, dec>>
Dec == /\ pc = "dec"
       /\ dec' = (DecodePlane(g.comp, payload, RowB, Lines, g.depth, g.large))
       /\ pc' = "done" /\ UNCHANGED <<s, g, planes, payload, want>>
Next == Geom \/ Data \/ Enc \/ Dec
Spec == Init /\ [][Next]_vars

(* the codec is lossless, and malformed input is recognised row by row *)
Lossless == pc = "done" /\ ~Malformed => dec.ok /\ dec.out = planes
Verdict  == pc = "done" => want.lie \/ dec.ok = want.ok
(* whatever the counts say, no more is taken than there is                   *)
Counted  == pc = "done" /\ g.comp = 1 /\ dec.ok =>
              LET cs == IF g.large THEN 4 ELSE 2
                  n(y) == IF g.large THEN RU32(payload, (y - 1) * 4 + 1) ELSE RU16(payload, (y - 1) * 2 + 1)
              IN  FoldLeft(LAMBDA a, y : IF n(y) > Len(payload) THEN Huge ELSE BMin(a + n(y), Huge - 100000), Lines * cs, [y \in 1..Lines |-> y]) <= Len(payload)
Sized    == pc = "done" /\ dec.ok => Len(dec.out) = RowB * Lines
Emit == pc = "done" => PrintT("@@" \o ToJson([g |-> IF want.cut THEN [g EXCEPT !.trail = 0] ELSE g,   \* what follows a cut is not payload
    payload |-> payload, ok |-> dec.ok, out |-> IF dec.ok THEN dec.out ELSE <<>>,
                                              rb |-> RowB, lines |-> Lines]))
=============================================================================
