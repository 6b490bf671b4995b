------------------------------- MODULE Bytes -------------------------------
(* Big-endian byte-level vocabulary of the PSD/PSB container: encoders,     *)
(* decoders, Pascal strings, padding, Adler-32 and "stored" zlib streams.   *)
(* A byte is a number 0..255, a file is a sequence of bytes.                *)
EXTENDS Integers, Sequences, SequencesExt, TLC

BMin(a, b) == IF a < b THEN a ELSE b
BMax(a, b) == IF a > b THEN a ELSE b

Zeros(n)  == [i \in 1..n |-> 0]
Rep(n, v) == [i \in 1..n |-> v]

U8(n)  == <<n>>
U16(n) == <<(n \div 256) % 256, n % 256>>
U32(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
(* two's complement; TLC integers are 32-bit so -2^31 is handled apart *)
I32(n) == IF n >= 0 THEN U32(n)
          ELSE LET m == (n + 2147483647) + 1
                   e == U32(m)
               IN  <<e[1] + 128, e[2], e[3], e[4]>>
I16(n) == U16(IF n >= 0 THEN n ELSE 65536 + n)
U64(n) == <<0, 0, 0, 0>> \o U32(n)
ULen(psb, n) == IF psb THEN U64(n) ELSE U32(n)

RU16(b, i) == b[i] * 256 + b[i+1]
(* value of a 32-bit unsigned field; Huge stands for everything >= 2^31 *)
Huge == 2147483647
RU32(b, i) == IF b[i] >= 128 THEN Huge
              ELSE ((b[i] * 256 + b[i+1]) * 256 + b[i+2]) * 256 + b[i+3]
RI16(b, i) == LET u == RU16(b, i) IN IF u >= 32768 THEN u - 65536 ELSE u
RI32(b, i) == IF b[i] >= 128
              THEN (((((b[i] - 128) * 256 + b[i+1]) * 256 + b[i+2]) * 256 + b[i+3]) - 2147483647) - 1
              ELSE RU32(b, i)
RULen(b, i, psb) == IF ~psb THEN RU32(b, i)
                    ELSE IF b[i] # 0 \/ b[i+1] # 0 \/ b[i+2] # 0 \/ b[i+3] # 0 THEN Huge
                    ELSE RU32(b, i + 4)

Sub(b, i, n) == SubSeq(b, i, i + n - 1)        \* n bytes from 1-based i
PadTo(n, k)  == (k - (n % k)) % k
Pascal(s)    == <<Len(s)>> \o s
Padded(s, k) == s \o Zeros(PadTo(Len(s), k))

Cat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)

(* Pseudo-random choices as pure functions of (seed, position): TLC may      *)
(* evaluate a definition more than once, so RandomElement is used only to    *)
(* bind seeds (`\E s \in {RandomElement(Seeds)}`), never inside definitions. *)
Seeds == 0..32748
Lcg(s) == (s * 75 + 74) % 65537
Mix(s, k) == LET a == (s * 31 + (k % 1000) * 197 + 7) % 32749
                 b == (a * a + (k % 1000) * 7919 + 3) % 32749
                 c == (b * b + a) % 32749
             IN  (c * (b + 1) + (a * 5)) % 32749
Noise(n, s) == [i \in 1..n |-> Mix(Mix(s, 11), i) % 256]
PickSeq(q, s, k) == q[1 + (Mix(s, k) % Len(q))]
Pick(S, s, k) == LET q == SetToSeq(S) IN q[1 + (Mix(s, k) % Len(q))]
Coin(n, s, k) == Mix(s, k) % n = 0       \* true once in n

(* ------------------------------------------------------------------ zlib *)
Adler(d) == LET f == FoldLeft(LAMBDA ab, x : LET a2 == (ab[1] + x) % 65521 IN <<a2, (ab[2] + a2) % 65521>>, <<1, 0>>, d)
            IN U16(f[2]) \o U16(f[1])
LE16(n)  == <<n % 256, (n \div 256) % 256>>
Stored(d, final) == <<IF final THEN 1 ELSE 0>> \o LE16(Len(d)) \o LE16(65535 - Len(d)) \o d
(* a zlib stream made of one or two stored blocks, split after k bytes *)
ZlibStored(d, k) ==
  <<120, 1>> \o
  (IF k > 0 /\ k < Len(d) THEN Stored(SubSeq(d, 1, k), FALSE) \o Stored(SubSeq(d, k + 1, Len(d)), TRUE)
   ELSE Stored(d, TRUE)) \o Adler(d)

(* a zlib stream of stored blocks (the only ones the models write) from byte 3 on; *)
(* the checksum is not looked at: the plane is complete without it          *)
RECURSIVE UnStored(_, _)
UnStored(b, i) ==
  IF i + 4 > Len(b) THEN [ok |-> FALSE, out |-> <<>>]
  ELSE LET n == b[i+1] + 256 * b[i+2]
       IN  IF i + 4 + n > Len(b) \/ b[i] > 1 \/ b[i+1] + b[i+3] # 255 \/ b[i+2] + b[i+4] # 255 THEN [ok |-> FALSE, out |-> <<>>]
           ELSE LET d == Sub(b, i + 5, n) IN
                IF b[i] = 1 THEN [ok |-> TRUE, out |-> d] ELSE LET q == UnStored(b, i + 5 + n) IN [ok |-> q.ok, out |-> d \o q.out]
UnZlib(b, want) ==
  IF Len(b) < 2 \/ b[1] # 120 \/ b[2] # 1 THEN [ok |-> FALSE, out |-> <<>>]
  ELSE LET q == UnStored(b, 3) IN [ok |-> q.ok /\ Len(q.out) >= want, out |-> SubSeq(q.out, 1, BMin(want, Len(q.out)))]

(* a whole stream: everything is there, and its checksum is the last of it *)
ZlibWhole(b) ==
  IF Len(b) < 11 \/ b[1] # 120 \/ b[2] # 1 THEN FALSE
  ELSE LET q == UnStored(b, 3) IN q.ok /\ SubSeq(b, Len(b) - 3, Len(b)) = Adler(q.out)

(* ------------------------------------------------------------- PackBits *)
(* Expected (total) meaning of one PackBits row of `width` bytes:           *)
(* [ok, out]: every packet must be complete and fit in the row, and bytes   *)
(* the row leaves unwritten are zero.                                       *)
RECURSIVE UnpackFrom(_, _, _, _)
UnpackFrom(src, i, out, width) ==
  IF i > Len(src) THEN [ok |-> TRUE, out |-> out \o Zeros(width - Len(out))]
  ELSE LET c == src[i] IN
    IF c = 128 THEN UnpackFrom(src, i + 1, out, width)
    ELSE IF c < 128 THEN
      IF Len(out) + c + 1 > width \/ i + c + 1 > Len(src) THEN [ok |-> FALSE, out |-> out]
      ELSE UnpackFrom(src, i + c + 2, out \o Sub(src, i + 1, c + 1), width)
    ELSE IF Len(out) + 257 - c > width \/ i + 1 > Len(src) THEN [ok |-> FALSE, out |-> out]
      ELSE UnpackFrom(src, i + 2, out \o Rep(257 - c, src[i+1]), width)
UnpackRow(src, width) == UnpackFrom(src, 1, <<>>, width)

(* One of many correct PackBits encodings of a row, picked by seed: runs    *)
(* where the data repeats, literals otherwise, optional 0x80 no-ops.        *)
RunLen(row, i) == LET S == { n \in 1..BMin(128, Len(row) - i + 1) : \A k \in 0..(n-1) : row[i+k] = row[i] }
                  IN CHOOSE n \in S : \A m \in S : m <= n
RECURSIVE PackFrom(_, _, _)
PackFrom(row, i, s) ==
  IF i > Len(row) THEN IF s % 7 = 0 THEN <<128>> ELSE <<>>
  ELSE LET run == RunLen(row, i)
           noop == IF s % 5 = 0 THEN <<128>> ELSE <<>>
           t == Lcg(s)
       IN IF run >= 2 /\ t % 8 # 0
          THEN LET n == IF t % 3 = 0 THEN 1 + ((t \div 3) % run) ELSE run IN
               IF n = 1 THEN noop \o <<0, row[i]>> \o PackFrom(row, i + 1, Lcg(t))
               ELSE noop \o <<257 - n, row[i]>> \o PackFrom(row, i + n, Lcg(t))
          ELSE LET n == 1 + ((t \div 2) % BMin(128, Len(row) - i + 1))
               IN noop \o <<n - 1>> \o Sub(row, i, n) \o PackFrom(row, i + n, Lcg(t))
PackRow(row, s) == PackFrom(row, 1, s)

Rows(plane, width) == IF width = 0 THEN <<>> ELSE
   [y \in 1..(Len(plane) \div width) |-> Sub(plane, (y - 1) * width + 1, width)]

RowBytes(w, depth) == (w * depth + 7) \div 8

(* per-row counts, then the rows; counts are 2 bytes (PSD) or 4 (PSB)       *)
RleEncodeRows(packed, psb) ==
   Cat([y \in 1..Len(packed) |-> IF psb THEN U32(Len(packed[y])) ELSE U16(Len(packed[y]))])
   \o Cat(packed)
RleEncode(plane, width, psb, s) ==
   LET rows == Rows(plane, width)
   IN  RleEncodeRows([y \in 1..Len(rows) |-> PackRow(rows[y], Mix(s, y))], psb)

RECURSIVE RleRowsFrom(_, _, _, _, _, _)
RleRowsFrom(b, i, lens, y, width, out) ==
   IF y > Len(lens) THEN [ok |-> TRUE, out |-> out]
   ELSE LET r == UnpackRow(Sub(b, i, lens[y]), width)
        IN IF r.ok THEN RleRowsFrom(b, i + lens[y], lens, y + 1, width, out \o r.out)
           ELSE [ok |-> FALSE, out |-> out]
RleDecode(b, width, lines, psb) ==   \* [ok, out]; rejects truncated tables and data
   LET cs == IF psb THEN 4 ELSE 2 IN
   IF lines * cs > Len(b) THEN [ok |-> FALSE, out |-> <<>>]
   ELSE LET lens == [y \in 1..lines |-> IF psb THEN RU32(b, (y-1)*4 + 1) ELSE RU16(b, (y-1)*2 + 1)]
            tot  == FoldLeft(LAMBDA a, n : IF n > 100000 THEN 1000000 ELSE BMin(a + n, 1000000), 0, lens)
        IN IF lines * cs + tot > Len(b) THEN [ok |-> FALSE, out |-> <<>>]
           ELSE RleRowsFrom(b, lines * cs + 1, lens, 1, width, <<>>)

(* --------------------------------------------- horizontal differencing *)
(* Photoshop's "ZIP with prediction": per row, each sample is stored as the *)
(* difference from its left neighbour.  8- and 16-bit samples are whole     *)
(* numbers of that size; 32-bit float rows are first split in four byte     *)
(* planes (all high bytes, ..., all low bytes) and differenced as bytes.    *)
Diff8(r) == [i \in 1..Len(r) |-> IF i = 1 THEN r[1] ELSE (r[i] - r[i-1] + 256) % 256]
Diff16(r) == LET n == Len(r) \div 2
                 v(i) == r[2*i-1] * 256 + r[2*i]
                 d(i) == IF i = 1 THEN v(1) ELSE (v(i) - v(i-1) + 65536) % 65536
             IN [k \in 1..Len(r) |-> IF k % 2 = 1 THEN d((k+1) \div 2) \div 256 ELSE d(k \div 2) % 256]
Split32(r) == LET n == Len(r) \div 4
              IN [k \in 1..Len(r) |-> r[((k-1) % n) * 4 + ((k-1) \div n) + 1]]
PredictRow(r, depth) == CASE depth = 8  -> Diff8(r)
                          [] depth = 16 -> Diff16(r)
                          [] depth = 32 -> Diff8(Split32(r))
                          [] OTHER -> r
Predict(plane, width, depth) ==
   LET rows == Rows(plane, width) IN Cat([y \in 1..Len(rows) |-> PredictRow(rows[y], depth)])

Acc(r, m) == FoldLeft(LAMBDA acc, x : Append(acc, (x + (IF acc = <<>> THEN 0 ELSE acc[Len(acc)])) % m), <<>>, r)
UnDiff8(r) == Acc(r, 256)
UnDiff16(r) == LET n == Len(r) \div 2
                   v == Acc([i \in 1..n |-> r[2*i-1] * 256 + r[2*i]], 65536)
               IN [k \in 1..Len(r) |-> IF k % 2 = 1 THEN v[(k+1) \div 2] \div 256 ELSE v[k \div 2] % 256]
Join32(r) == LET n == Len(r) \div 4
             IN [k \in 1..Len(r) |-> r[((k-1) % 4) * n + ((k-1) \div 4) + 1]]
UnpredictRow(r, depth) == CASE depth = 8  -> UnDiff8(r)
                            [] depth = 16 -> UnDiff16(r)
                            [] depth = 32 -> Join32(UnDiff8(r))
                            [] OTHER -> r
Unpredict(plane, width, depth) ==
   LET rows == Rows(plane, width) IN Cat([y \in 1..Len(rows) |-> UnpredictRow(rows[y], depth)])

(* ---------------------------------------------------- plane compression *)
(* comp: 0 raw, 1 RLE, 2 ZIP, 3 ZIP with prediction *)
EncodePlane(comp, plane, width, depth, psb, s) ==
   CASE comp = 0 -> plane
     [] comp = 1 -> RleEncode(plane, width, psb, s)
     [] comp = 2 -> ZlibStored(plane, s % (Len(plane) + 1))
     [] comp = 3 -> LET p == Predict(plane, width, depth) IN ZlibStored(p, s % (Len(p) + 1))
DecodePlane(comp, b, width, lines, depth, psb) ==
   CASE comp = 0 -> [ok |-> Len(b) >= width * lines, out |-> SubSeq(b, 1, BMin(Len(b), width * lines))]
     [] comp = 1 -> RleDecode(b, width, lines, psb)
     [] comp = 2 -> UnZlib(b, width * lines)
     [] comp = 3 -> LET d == UnZlib(b, width * lines) IN IF d.ok THEN [d EXCEPT !.out = Unpredict(@, width, depth)] ELSE d
     [] OTHER    -> [ok |-> FALSE, out |-> <<>>]
=============================================================================
