------------------------------- MODULE Header -------------------------------
(* The file header as a decision: the reader looks at one field after the   *)
(* other and goes to "reject" at the first one outside its domain.  TLC      *)
(* walks the whole product of boundary values.                               *)
EXTENDS Bytes, Json
CONSTANT Wide      \* TRUE: the larger value sets (thorough tier)
VARIABLES pc, h
vars == <<pc, h>>

(* field values as bytes, so that 2^31 and 2^32-1 fit *)
Vers == IF Wide THEN {0, 1, 2, 3, 128, 256, 257, 513, 65535} ELSE {0, 1, 2, 3, 257, 65535}
Chs  == IF Wide THEN {0, 1, 2, 3, 4, 5, 55, 56, 57, 255, 256, 257, 312, 32769, 65535} ELSE {0, 1, 3, 56, 57, 257, 32769}
Deps == IF Wide THEN {0, 1, 2, 4, 7, 8, 9, 16, 17, 24, 31, 32, 33, 64, 256, 257, 264, 272, 288} ELSE {0, 1, 2, 8, 16, 24, 32, 33, 264}
Dims == IF Wide THEN {<<0,0,0,0>>, <<0,0,0,1>>, <<0,0,117,47>>, <<0,0,117,48>>, <<0,0,117,49>>, <<0,1,0,0>>, <<0,1,0,1>>, <<0,4,147,223>>,
                      <<0,4,147,224>>, <<0,4,147,225>>, <<1,0,0,0>>, <<127,255,255,255>>, <<128,0,0,0>>, <<128,0,0,1>>, <<255,255,255,255>>}
        ELSE {<<0,0,0,0>>, <<0,0,0,1>>, <<0,0,117,48>>, <<0,0,117,49>>, <<0,4,147,224>>, <<0,4,147,225>>, <<1,0,0,1>>, <<128,0,0,1>>, <<255,255,255,255>>}
Modes == {0, 1, 2, 3, 4, 7, 8, 9}
Sigs == {<<56,66,80,83>>, <<56,66,80,84>>, <<56,98,80,83>>, <<0,0,0,0>>}
Num(d) == RU32(d, 1)                        \* Huge for 2^31 and more

Good == [sig |-> <<56,66,80,83>>, v |-> 1, ch |-> 3, hh |-> <<0,0,0,1>>, ww |-> <<0,0,0,1>>, d |-> 8, m |-> 3]
Init == pc = "sig" /\ h = Good
Choose(f, S, next) == \E x \in S : h' = [h EXCEPT ![f] = x] /\ pc' = next
Sig == pc = "sig" /\ Choose("sig", Sigs, "version")
Ver == pc = "version" /\ Choose("v", Vers, "channels")
Chn == pc = "channels" /\ Choose("ch", Chs, "height")
Hgt == pc = "height" /\ Choose("hh", Dims, "width")
Wid == pc = "width" /\ Choose("ww", Dims, "depth")
Dep == pc = "depth" /\ \E d \in Deps : \E m \in {Pick(Modes, d + h.ch * 7 + h.v * 3 + Len(h.sig) + h.ww[4] + h.hh[3], 1)} :
         h' = [h EXCEPT !.d = d, !.m = m] /\ pc' = "chosen"
(* a wrong signature is decided by itself: no need for the product *)
SigOnly == pc = "version" /\ h.sig # <<56,66,80,83>> /\ pc' = "chosen" /\ UNCHANGED h
Limit == IF h.v = 1 THEN 30000 ELSE 300000
Accept == /\ h.sig = <<56,66,80,83>> /\ h.v \in {1, 2} /\ h.ch \in 1..56 /\ h.d \in {1, 8, 16, 32}
          /\ Num(h.hh) \in 1..Limit /\ Num(h.ww) \in 1..Limit
Judge == pc = "chosen" /\ pc' = (IF Accept THEN "ok" ELSE "reject") /\ UNCHANGED h
Next == Sig \/ (Ver /\ h.sig = <<56,66,80,83>>) \/ SigOnly \/ Chn \/ Hgt \/ Wid \/ Dep \/ Judge
Spec == Init /\ [][Next]_vars

File == h.sig \o U16(h.v) \o Zeros(6) \o U16(h.ch) \o h.hh \o h.ww \o U16(h.d) \o U16(h.m)
(* the verdict, read back from the bytes alone *)
RLimit(b) == IF RU16(b, 5) = 1 THEN 30000 ELSE 300000
ReadBack == pc \in {"ok", "reject"} =>
  LET b == File IN (pc = "ok") =
    (SubSeq(b, 1, 4) = <<56,66,80,83>> /\ RU16(b, 5) \in 1..2 /\ RU16(b, 13) \in 1..56 /\ RU32(b, 15) \in 1..RLimit(b)
     /\ RU32(b, 19) \in 1..RLimit(b) /\ RU16(b, 23) \in {1, 8, 16, 32})
Emit == pc \in {"ok", "reject"} =>
  PrintT("@@" \o ToJson([hdr |-> File, OK |-> pc = "ok", V |-> h.v, Ch |-> h.ch, W |-> Num(h.ww), H |-> Num(h.hh), D |-> h.d, M |-> h.m]))
=============================================================================
