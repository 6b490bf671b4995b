------------------------------- MODULE PsdDoc -------------------------------
(* The PSD/PSB container as two processes over one byte sequence.           *)
(*   Writer: builds an abstract document `doc` step by step (what the file  *)
(*           means) and lays it out as bytes.                               *)
(*   Damage: optionally truncates the file or breaks one format rule.       *)
(*   Reader: consumes the bytes field by field, the way the library does,   *)
(*           rebuilding what it sees in `got`; ends in "ok" or "reject".    *)
(* The invariants relate the three; the terminal states are emitted as      *)
(* test cases (bytes + what a correct reader must report) for the real code.*)
EXTENDS Bytes, FiniteSets, Json

CONSTANTS Focus,       \* which part of the format the writer concentrates on
          DamageKinds, \* subset of {"none","trunc","viol","noise"}
          MaxLayers

VARIABLES pc,      \* control state of the writer, then of the reader
          doc,     \* the abstract document
          left,    \* layers still to be written
          damage,  \* what was done to the bytes
          bytes,   \* the file
          pos,     \* bytes consumed
          r,       \* reader's scratch (section ends, counters)
          got      \* what the reader has reported
vars == <<pc, doc, left, damage, bytes, pos, r, got>>

Byte == 0..255
(* sample data that has runs, ramps and noise *)
RndData(n, style, s) ==
  LET a == Mix(s, 1) % 256 IN
  CASE style = 0 -> [i \in 1..n |-> PickSeq(<<a, a, a, 0, 255>>, Mix(s, 2), i)]
    [] style = 1 -> Noise(n, s)
    [] style = 2 -> [i \in 1..n |-> PickSeq(<<0, 255>>, Mix(s, 2), i)]
    [] style = 3 -> [i \in 1..n |-> (a + i) % 256]
    [] OTHER     -> [i \in 1..n |-> PickSeq(<<7, 7, 7, 7, 7, 200>>, Mix(s, 2), i)]

(* --------------------------------------------------------------- tables *)
RGB == 3  GRAY == 1  CMYK == 4  INDEXED == 2  BITMAP == 0
NumColor(m) == CASE m = RGB -> 3 [] m = CMYK -> 4 [] OTHER -> 1
LayerModes == << <<RGB,8>>, <<RGB,8>>, <<RGB,16>>, <<RGB,32>>, <<GRAY,8>>, <<GRAY,16>>, <<GRAY,32>>, <<CMYK,8>>, <<CMYK,16>> >>
AllModes == LayerModes \o << <<INDEXED,8>>, <<INDEXED,8>>, <<BITMAP,1>>, <<BITMAP,1>> >>

(* four-character codes, as bytes *)
BlendKeys == { <<112,97,115,115>>, <<110,111,114,109>>, <<100,105,115,115>>, <<109,117,108,32>>,
               <<115,99,114,110>>, <<104,117,101,32>>, <<122,122,63,33>> }
K8BIM == <<56,66,73,77>>
K8B64 == <<56,66,54,52>>
ResSigs == { K8BIM, <<77,101,83,97>>, <<80,72,85,84>>, <<65,103,72,103>>, <<68,67,83,82>> }
(* keys whose length field is 8 bytes in a PSB *)
WideKeys == { <<76,77,115,107>>, <<77,116,49,54>>, <<77,116,51,50>>, <<77,116,114,110>>, <<65,108,112,104>>,
              <<70,77,115,107>>, <<108,110,107,50>>, <<70,69,105,100>>, <<70,88,105,100>>, <<80,120,83,68>> }
PlainKeys == { <<108,121,105,100>>, <<108,102,120,50>>, <<84,121,83,104>>, <<122,122,122,122>>, <<97,110,110,111>>,
               <<56,56,56,56>>, <<108,110,107,68>>, <<99,117,115,116>> }
Luni == <<108,117,110,105>>
Clbl == <<99,108,98,108>>
Lsct == <<108,115,99,116>>
Lsdk == <<108,115,100,107>>
LayerBlockKey(depth) == CASE depth = 16 -> <<76,114,49,54>> [] depth = 32 -> <<76,114,51,50>> [] OTHER -> <<76,97,121,114>>
LayerBlockKeys == { <<76,97,121,114>>, <<76,114,49,54>>, <<76,114,51,50>> }
Doubles == { <<0,0,0,0,0,0,0,0>>, <<63,240,0,0,0,0,0,0>>, <<64,9,33,251,84,68,45,24>>, <<64,95,64,0,0,0,0,0>> }

(* ------------------------------------------------------ abstract pieces *)
NullCfg == [psb |-> FALSE, ch |-> 1, w |-> 1, h |-> 1, depth |-> 8, mode |-> GRAY, cmd |-> <<>>, res |-> <<>>]
NullMask == [form |-> 0, rect |-> <<0,0,0,0>>, def |-> 0, flags |-> 0,
             ud |-> 0, uf |-> <<0,0,0,0,0,0,0,0>>, vd |-> 0, vf |-> <<0,0,0,0,0,0,0,0>>,
             rflags |-> 0, rbg |-> 0, rrect |-> <<0,0,0,0>>, tail |-> 0]
(* rects are <<left, top, right, bottom>> *)
RW(q) == q[3] - q[1]
RH(q) == q[4] - q[2]

RndRect(lim, big, s) ==
  (
  LET l == IF big THEN PickSeq(<<-2147483646, -70000, -300, -1, 0, 65535, 2147483000>>, s, 6) ELSE Pick(-3..3, s, 7)
      t == IF big THEN PickSeq(<<-2147483646, -66000, -129, -1, 0, 65536, 2147483000>>, s, 8) ELSE Pick(-3..3, s, 9)
  IN <<l, t, l + Pick(0..lim, s, 10), t + Pick(0..lim, s, 11)>>)

ResId(i) == CASE i = 1 -> 1005 [] i = 2 -> 1039 [] i = 3 -> 65535 [] i = 4 -> 0 [] i = 5 -> 1053 [] OTHER -> 1047

(* resources: distinct ids; 1053 = alpha identifiers, 1047 = transparency index *)
Ramp(n, s) == LET a == Mix(s, 12) % 256 IN [i \in 1..n |-> (a + i) % 256]
RndRes(idx, mode, s) ==
  [sig |-> Pick(ResSigs, s, 13), id |-> ResId(idx), name |-> Noise(PickSeq(<<0, 1, 2, 3, 4, 5, 6, 254, 255>>, s, 14), Mix(s, 15)),
   data |-> CASE idx = 5 -> PickSeq(<< <<>>, U32(7), U32(7) \o U32(0), U32(0), U32(70000) \o U32(3) \o U32(0) >>, s, 16)
              [] idx = 6 -> U16(PickSeq(<<0, 1, 3, 255, 256, 259, 511, 65535>>, s, 17))
              [] OTHER   -> IF Focus = "big" THEN Ramp(66001 + idx, s) ELSE Noise(PickSeq(<<0, 1, 2, 3, 4, 5, 6, 7, 300>>, s, 18), Mix(s, 19))]
RndResSeq(mode, s) == (
  LET ids == { i \in 1..6 : Mix(s, 200 + i) % 10 <= (IF i >= 5 THEN 4 ELSE 3) }
      sq == SetToSeq(ids)
  IN [k \in 1..Len(sq) |-> RndRes(sq[k], mode, Mix(s, 220 + k))])

(* ------------------------------------------------------------ the writer *)
Init == /\ pc = "W_Config" /\ doc = [cfg |-> NullCfg, layers |-> <<>>]
        /\ left = 0 /\ damage = [kind |-> "none", what |-> "", at |-> 0]
        /\ bytes = <<>> /\ pos = 0 /\ r = [z |-> 0] /\ got = [z |-> 0]

WConfig ==
  /\ pc = "W_Config"
  /\ \E s \in {RandomElement(Seeds)} :
     LET md == TLCEval(IF Focus = "big" THEN PickSeq(<< <<RGB,8>>, <<GRAY,16>> >>, s, 21)
                      ELSE IF Focus = "comp" THEN PickSeq(<< <<RGB,8>>, <<RGB,8>>, <<RGB,8>>, <<RGB,8>>, <<RGB,16>>, <<GRAY,8>> >>, s, 21) ELSE IF Focus = "config" \/ Focus = "merged" THEN PickSeq(AllModes, s, 22) ELSE PickSeq(LayerModes, s, 23))
         psb == TLCEval(Pick(BOOLEAN, s, 24))
         lim == IF psb THEN 300000 ELSE 30000
         w == TLCEval(CASE Focus = "config" -> PickSeq(<<1, 2, 255, 256, 29999, 30000, lim - 1, lim, Pick(1..lim, s, 25)>>, s, 26)
                        [] Focus = "merged" -> PickSeq(<<1, 2, 3, 7, 8, 9, 15, 17>>, s, 27)
                        [] OTHER -> Pick(1..3, s, 28))
         h == TLCEval(CASE Focus = "config" -> PickSeq(<<1, 2, 255, 256, 29999, 30000, lim - 1, lim, Pick(1..lim, s, 29)>>, s, 30)
                        [] Focus = "merged" -> PickSeq(<<1, 2, 3, 4, 5, 8>>, s, 31)
                        [] OTHER -> Pick(1..3, s, 32))
         n == NumColor(md[1])
     IN doc' = [cfg |-> [psb |-> psb, w |-> w, h |-> h, depth |-> md[2], mode |-> md[1],
                         ch |-> IF Focus = "config" THEN PickSeq(<<n, n + 1, 55, 56>>, s, 33) ELSE n + PickSeq(<<0, 0, 1, 1, 2>>, s, 34),
                         cmd |-> IF md[1] = INDEXED THEN Noise(768, Mix(s, 35))
                                 ELSE IF Focus = "big" THEN Ramp(70001, s)
                                 ELSE IF Pick(1..3, s, 36) = 1 THEN Noise(PickSeq(<<0, 1, 2, 3, 4, 5, 300, 768, 800>>, s, 37), Mix(s, 38)) ELSE <<>>,
                         res |-> RndResSeq(md[1], Mix(s, 39))],
                layers |-> <<>>]
  /\ left' \in CASE Focus \in {"config", "merged"} -> {0} [] Focus = "big" -> {1} [] OTHER -> 0..MaxLayers
  /\ pc' = IF Focus = "config" THEN "W_Encode" ELSE IF left' = 0 THEN "W_Tail" ELSE "W_Layer"
  /\ UNCHANGED <<damage, bytes, pos, r, got>>

(* one channel of a layer: compression, plane, and how it is laid out *)
RndChan(id, q, cfg, s) ==
  LET rb == RowBytes(RW(q), cfg.depth)
      n == rb * RH(q)
      st == PickSeq(<<"full", "full", "full", "full", "slack", "slack", "empty">>, s, 41)
      comp == IF n > 60000 THEN 0 ELSE PickSeq(<<0, 1, 1, 2, 3>>, s, 42)
  IN [id |-> id, comp |-> comp, seed |-> Pick(0..65000, s, 43),
      layout |-> IF n = 0 THEN PickSeq(<<"empty", "short">>, s, 44) ELSE st,
      slack |-> IF st = "slack" THEN Noise(Pick(1..5, s, 45), Mix(s, 46)) ELSE <<>>,
      plane |-> IF n = 0 \/ st = "empty" THEN Zeros(n) ELSE IF n > 60000 THEN Ramp(n, s) ELSE RndData(n, Pick(0..4, s, 47), Mix(s, 48)),
      w |-> rb, h |-> RH(q)]

RndMask(big, s) ==
  LET f == PickSeq(<<0, 0, 4, 20, 20, 36, 52, 53>>, s, 50) IN    \* 0 none, 4 junk, 20/36 classic, 52 = with parameters, 53 = 20 with density
  IF f \in {0, 4} THEN [NullMask EXCEPT !.form = f]
  ELSE LET fl == PickSeq(<<0, 1, 2, 3, 4, 8, 15>>, s, 51) IN
       [form |-> f, rect |-> RndRect(3, FALSE, Mix(s, 52)), def |-> PickSeq(<<0, 255>>, s, 53),
        flags |-> IF f >= 52 THEN fl + 16 ELSE fl,
        ud |-> IF f >= 52 THEN PickSeq(<<0, 1, 128, 255>>, s, 54) ELSE 255,
        uf |-> IF f = 52 THEN Pick(Doubles, s, 55) ELSE <<0,0,0,0,0,0,0,0>>,
        vd |-> IF f = 52 THEN PickSeq(<<0, 1, 128, 254>>, s, 56) ELSE 255,
        vf |-> IF f = 52 THEN Pick(Doubles, s, 57) ELSE <<0,0,0,0,0,0,0,0>>,
        rflags |-> IF f \in {36, 52} THEN PickSeq(<<0, 2, 9, 255>>, s, 58) ELSE 0,
        rbg |-> IF f \in {36, 52} THEN PickSeq(<<0, 255>>, s, 59) ELSE 0,
        rrect |-> IF f \in {36, 52} THEN RndRect(3, FALSE, Mix(s, 60)) ELSE <<0,0,0,0>>,
        tail |-> IF f \in {36, 52} THEN PickSeq(<<0, 0, 0, 1, 2, 3>>, s, 62) ELSE 0]      \* writers pad the mask data

(* 55357 is emitted as a surrogate pair *)
RndUnits(s) == (
  LET n == PickSeq(<<0, 1, 2, 3, 4, 300>>, s, 61) IN FoldLeft(LAMBDA a, x : IF x = 55357 THEN a \o <<55357, 56832>> ELSE a \o <<x>>, <<>>,
                                 [i \in 1..n |-> PickSeq(<<65, 122, 233, 12354, 28450, 65281, 55357>>, Mix(s, 300), i)]))

RndInfos(cfg, s0) == (
  LET all == SetToSeq(PlainKeys \cup WideKeys)
      sq == SelectSeq([i \in 1..Len(all) |-> <<i, all[i]>>], LAMBDA e : Mix(s0, 400 + e[1]) % 9 = 0)
  IN [i \in 1..Len(sq) |-> LET s == Mix(s0, 430 + i) IN
       [sig |-> PickSeq(<<K8BIM, K8BIM, K8B64>>, s, 63), key |-> sq[i][2], data |-> IF Focus = "big" THEN Ramp(65530 + i * 7, s) ELSE Noise(PickSeq(<<0, 0, 1, 2, 4, 7, 12, 300>>, s, 64), Mix(s, 65)),
        pad |-> PickSeq(<<0, 0, 1, 2, 3>>, s, 66)]])

WLayer ==
  /\ pc = "W_Layer"
  /\ \E s \in {RandomElement(Seeds)} :
     LET cfg == doc.cfg
         empty == TLCEval(Focus # "big" /\ Pick(1..6, s, 67) = 1)
         big == TLCEval(empty /\ Pick(1..2, s, 68) = 1)
         q0 == TLCEval(IF Focus = "big" THEN << -3, 5, 254, 263 >> ELSE IF Focus = "planes" THEN (LET l == PickSeq(<<-9, 0, 5>>, s, 69) IN LET t == PickSeq(<<-2, 0, 7>>, s, 70) IN
                                                 <<l, t, l + PickSeq(<<1, 2, 3, 5, 8, 9>>, s, 71), t + PickSeq(<<1, 2, 3, 4, 5, 6, 7, 9>>, s, 72)>>)
                       ELSE RndRect(3, big, Mix(s, 73)))
         q  == IF empty THEN <<q0[1], q0[2], q0[1], q0[4]>> ELSE q0
         m  == TLCEval(RndMask(FALSE, Mix(s, 74)))
         n  == NumColor(cfg.mode)
         alpha == TLCEval(Pick(BOOLEAN, s, 75))
         um == TLCEval(m.form \in {20, 36, 52, 53} /\ Pick(1..3, s, 76) # 1)
         rm == TLCEval(m.form \in {36, 52} /\ Pick(1..2, s, 77) = 1)
         cs == TLCEval([i \in 1..n |-> RndChan(i - 1, q, cfg, Mix(s, 500 + i))])
         ac == TLCEval(IF alpha THEN <<RndChan(-1, q, cfg, Mix(s, 79))>> ELSE <<>>)
         uc == TLCEval(IF um THEN <<RndChan(-2, m.rect, cfg, Mix(s, 80))>> ELSE <<>>)
         rc == TLCEval(IF rm THEN <<RndChan(-3, m.rrect, cfg, Mix(s, 81))>> ELSE <<>>)
         \* for composite trees: now and then a colour channel is missing
         lost == TLCEval(IF Focus = "comp" /\ Pick(1..7, s, 78) = 1 THEN Pick(1..n, s, 140) ELSE 0)
         cs1 == TLCEval(IF lost = 0 THEN cs ELSE SubSeq(cs, 1, lost - 1) \o SubSeq(cs, lost + 1, n))
         order == TLCEval(Pick(1..3, s, 82))
         sect == TLCEval(PickSeq(<<"none", "none", "none", "lsct4", "lsct12", "lsct16", "lsdk12">>, s, 83))
         hasluni == TLCEval(Pick(BOOLEAN, s, 84))
         us == RndUnits(Mix(s, 301))
         lay == [rect |-> q, bm |-> Pick(BlendKeys, s, 85), op |-> PickSeq(<<0, 1, 127, 128, 255>>, s, 86),
                 clip |-> PickSeq(<<0, 1, 255>>, s, 87), flags |-> PickSeq(<<0, 1, 2, 3, 8, 24, 255>>, s, 88),
                 mask |-> m,
                 extra |-> IF Focus = "big" THEN "full" ELSE PickSeq(<<"full", "full", "full", "full", "full", "zero">>, s, 89),
                 ranges |-> Noise(PickSeq(<<0, 0, 8, 40, 300>>, s, 90), Mix(s, 91)),
                 name |-> Noise(PickSeq(<<0, 1, 2, 3, 4, 5, 11, 253, 254, 255>>, s, 92), Mix(s, 93)),
                 chans |-> CASE order = 1 -> ac \o cs1 \o uc \o rc
                             [] order = 2 -> cs1 \o ac \o uc \o rc
                             [] OTHER     -> rc \o uc \o cs1 \o ac,
                 hasluni |-> hasluni, units |-> us, lunipad |-> PickSeq(<<0, 1, 2, 3>>, s, 94),
                 clbl |-> PickSeq(<<"absent", "absent", "on", "off">>, s, 95),
                 \* only type 0 here: structure is the business of LayerTree.tla
                 sect |-> sect, stype |-> 0, sbm |-> Pick(BlendKeys, s, 96), ssub |-> PickSeq(<<0, 1>>, s, 97),
                 infos |-> RndInfos(cfg, Mix(s, 98))]
         fixed == IF lay.extra = "full" THEN lay ELSE
                  [lay EXCEPT !.mask = NullMask, !.ranges = <<>>, !.name = <<>>, !.hasluni = FALSE, !.units = <<>>,
                              !.clbl = "absent", !.sect = "none", !.infos = <<>>,
                              !.chans = SelectSeq(lay.chans, LAMBDA c : c.id >= -1)]
     IN doc' = [doc EXCEPT !.layers = Append(@, TLCEval(fixed))]
  /\ left' = left - 1
  /\ pc' = IF left' = 0 THEN "W_Tail" ELSE "W_Layer"
  /\ UNCHANGED <<damage, bytes, pos, r, got>>

WTail ==
  /\ pc = "W_Tail"
  /\ \E s \in {RandomElement(Seeds)} :
     LET cfg == doc.cfg
         rb == RowBytes(cfg.w, cfg.depth)
         comp == TLCEval(IF cfg.depth = 1 THEN PickSeq(<<0, 1, 2>>, s, 99) ELSE PickSeq(<<0, 1, 1, 2, 3>>, s, 100))
         gm == TLCEval(PickSeq(<<"absent", "empty", "data">>, s, 101))
         infos == RndInfos(cfg, Mix(s, 102))
         nl == Len(doc.layers)
         where == TLCEval(IF cfg.depth \in {16, 32} /\ nl > 0 THEN PickSeq(<<"main", "block">>, s, 103)
                          ELSE IF nl > 0 THEN PickSeq(<<"main", "main", "main", "block">>, s, 104) ELSE "none")
     IN doc' = [cfg |-> cfg, layers |-> doc.layers,
                neg |-> Pick(BOOLEAN, s, 105),          \* layer count written as a negative number
                linfopad |-> Pick(0..4, s, 106),
                where |-> where,
                gmask |-> IF where = "block" \/ infos # <<>> THEN (IF gm = "absent" THEN "empty" ELSE gm) ELSE gm,
                gdata |-> Noise(Pick(1..14, s, 107), Mix(s, 108)),
                infos |-> infos,
                section |-> IF nl = 0 /\ infos = <<>> THEN PickSeq(<<"zero", "nolayers">>, s, 109) ELSE "full",
                lpad |-> PickSeq(<<0, 0, 1, 2, 3>>, s, 110),
                mcomp |-> comp, mseed |-> Pick(0..65000, s, 111),
                merged |-> [c \in 1..cfg.ch |-> RndData(rb * cfg.h, Mix(s, 540 + c) % 5, Mix(s, 600 + c))],
                trail |-> Noise(PickSeq(<<0, 0, 1, 3, 9>>, s, 114), Mix(s, 115))]
  /\ pc' = "W_Encode"
  /\ UNCHANGED <<left, damage, bytes, pos, r, got>>

(* ------------------------------------------------------------- encoding *)
EncRes(x) == x.sig \o U16(x.id) \o Padded(Pascal(x.name), 2) \o U32(Len(x.data)) \o Padded(x.data, 2)
EncHead(cfg) ==
  <<56,66,80,83>> \o U16(IF cfg.psb THEN 2 ELSE 1) \o Zeros(6) \o U16(cfg.ch) \o U32(cfg.h) \o U32(cfg.w)
  \o U16(cfg.depth) \o U16(cfg.mode)
  \o U32(Len(cfg.cmd)) \o cfg.cmd
EncResSec(cfg) == LET b == Cat([i \in 1..Len(cfg.res) |-> EncRes(cfg.res[i])]) IN U32(Len(b)) \o b

Rect4(q) == I32(q[2]) \o I32(q[1]) \o I32(q[4]) \o I32(q[3])
EncMask(m) ==
  CASE m.form = 0 -> U32(0)
    [] m.form = 4 -> U32(4) \o <<9, 8, 7, 6>>
    [] m.form = 20 -> U32(20) \o Rect4(m.rect) \o <<m.def, m.flags, 0, 0>>
    [] m.form = 53 -> U32(20) \o Rect4(m.rect) \o <<m.def, m.flags, 1, m.ud>>
    [] m.form = 36 -> U32(36 + m.tail) \o Rect4(m.rect) \o <<m.def, m.flags, m.rflags, m.rbg>> \o Rect4(m.rrect) \o Zeros(m.tail)
    [] m.form = 52 -> U32(36 + 1 + 1 + 8 + 1 + 8 + m.tail) \o Rect4(m.rect) \o <<m.def, m.flags, 15, m.ud>> \o m.uf
                      \o <<m.vd>> \o m.vf \o <<m.rflags, m.rbg>> \o Rect4(m.rrect) \o Zeros(m.tail)
EncInfo(psb, sig, key, data, pad) ==
  sig \o key \o (IF psb /\ key \in WideKeys THEN U64(Len(data)) ELSE U32(Len(data))) \o data \o Zeros(pad)
LuniData(l) == U32(Len(l.units)) \o Cat([i \in 1..Len(l.units) |-> U16(l.units[i])]) \o Zeros(l.lunipad)
SectData(l) == CASE l.sect = "lsct4" -> U32(l.stype)
                 [] l.sect \in {"lsct12", "lsdk12"} -> U32(l.stype) \o K8BIM \o l.sbm
                 [] OTHER -> U32(l.stype) \o K8BIM \o l.sbm \o U32(l.ssub)
EncInfos(psb, infos) == Cat([i \in 1..Len(infos) |-> EncInfo(psb, infos[i].sig, infos[i].key, infos[i].data, infos[i].pad)])
EncExtra(psb, l) ==
  IF l.extra = "zero" THEN U32(0)
  ELSE LET b == EncMask(l.mask) \o U32(Len(l.ranges)) \o l.ranges \o Padded(Pascal(l.name), 4)
                \o (IF l.hasluni THEN EncInfo(psb, K8BIM, Luni, LuniData(l), 0) ELSE <<>>)
                \o EncInfos(psb, l.infos)
                \o (IF l.sect = "none" THEN <<>>
                    ELSE EncInfo(psb, K8BIM, IF l.sect = "lsdk12" THEN Lsdk ELSE Lsct, SectData(l), 0))
                \o (IF l.clbl = "absent" THEN <<>> ELSE EncInfo(psb, K8BIM, Clbl, <<IF l.clbl = "on" THEN 1 ELSE 0, 0, 0, 0>>, 0))
       IN U32(Len(b)) \o b
EncChan(cfg, c) ==
  CASE c.layout = "short" -> <<>>
    [] c.layout = "empty" -> U16(c.comp)
    [] OTHER -> U16(c.comp) \o EncodePlane(c.comp, c.plane, c.w, cfg.depth, cfg.psb, c.seed) \o c.slack
EncLayerRec(cfg, l, chlens) ==
  Rect4(l.rect) \o U16(Len(l.chans))
  \o Cat([i \in 1..Len(l.chans) |-> I16(l.chans[i].id) \o ULen(cfg.psb, chlens[i])])
  \o K8BIM \o l.bm \o <<l.op, l.clip, l.flags, 0>> \o EncExtra(cfg.psb, l)
EncLayerInfo(d) ==     \* the length field and its content
  LET cfg == d.cfg
      n == Len(d.layers)
      imgs == TLCEval([i \in 1..n |-> [j \in 1..Len(d.layers[i].chans) |-> EncChan(cfg, d.layers[i].chans[j])]])
      b == I16(IF d.neg THEN 0 - n ELSE n)
           \o Cat([i \in 1..n |-> EncLayerRec(cfg, d.layers[i], [j \in 1..Len(imgs[i]) |-> Len(imgs[i][j])])])
           \o Cat([i \in 1..n |-> Cat(imgs[i])])
           \o Zeros(d.linfopad)
  IN ULen(cfg.psb, Len(b)) \o b
EncLayerSec(d) ==
  IF d.section = "zero" THEN ULen(d.cfg.psb, 0)
  ELSE LET main == IF d.where = "main" THEN EncLayerInfo(d) ELSE ULen(d.cfg.psb, 0)
           gm == CASE d.gmask = "absent" -> <<>>
                   [] d.gmask = "empty" -> U32(0)
                   [] OTHER -> U32(Len(d.gdata)) \o d.gdata
           blk == IF d.where = "block" THEN K8BIM \o LayerBlockKey(d.cfg.depth) \o EncLayerInfo(d) ELSE <<>>
           b == main \o gm \o blk \o EncInfos(d.cfg.psb, d.infos) \o Zeros(d.lpad)
       IN ULen(d.cfg.psb, Len(b)) \o b
EncMerged(d) == U16(d.mcomp) \o
  EncodePlane(d.mcomp, Cat(d.merged), RowBytes(d.cfg.w, d.cfg.depth), d.cfg.depth, d.cfg.psb, d.mseed)

WEncode ==
  /\ pc = "W_Encode"
  /\ LET a == TLCEval(EncHead(doc.cfg) \o EncResSec(doc.cfg)) IN
     IF Focus = "config"
     THEN /\ bytes' = a
          /\ r' = [endRes |-> Len(a), endLay |-> Len(a), endAll |-> Len(a)]
     ELSE LET b == TLCEval(EncLayerSec(doc))
              c == TLCEval(EncMerged(doc))
          IN /\ bytes' = a \o b \o c
             /\ r' = [endRes |-> Len(a), endLay |-> Len(a) + Len(b), endAll |-> Len(a) + Len(b) + Len(c)]
  /\ pc' = "Damage"
  /\ UNCHANGED <<doc, left, damage, pos, got>>

(* --------------------------------------------------------------- damage *)
(* "viol": one rule of the format is broken, at a place known to carry it. *)
Put(b, at, x) == [i \in 1..Len(b) |-> IF i >= at /\ i < at + Len(x) THEN x[i - at + 1] ELSE b[i]]
HeadViol(s) ==
  { [what |-> "signature", at |-> 1, x |-> <<56,66,80,84>>],
    [what |-> "version0",  at |-> 5, x |-> U16(0)],  [what |-> "version3", at |-> 5, x |-> U16(3)],
    [what |-> "version257", at |-> 5, x |-> U16(257)],
    [what |-> "channels0", at |-> 13, x |-> U16(0)], [what |-> "channels57", at |-> 13, x |-> U16(57)],
    [what |-> "channels256", at |-> 13, x |-> U16(256)],
    [what |-> "height0",   at |-> 15, x |-> U32(0)], [what |-> "width0", at |-> 19, x |-> U32(0)],
    [what |-> "heightmax", at |-> 15, x |-> U32(IF doc.cfg.psb THEN 300001 ELSE 30001)],
    [what |-> "widthmax",  at |-> 19, x |-> U32(IF doc.cfg.psb THEN 300001 ELSE 30001)],
    [what |-> "heightneg", at |-> 15, x |-> <<255,255,255,255>>],
    [what |-> "widthneg",  at |-> 19, x |-> <<128,0,0,1>>],
    [what |-> "depth",     at |-> 23, x |-> U16(PickSeq(<<0, 2, 4, 7, 24, 64, 264>>, s, 116))] }
ResStart == 30 + Len(doc.cfg.cmd) + 4 + 1     \* first resource's signature
ResViol(s) == IF doc.cfg.res = <<>> THEN {} ELSE
  { [what |-> "ressig", at |-> ResStart, x |-> <<56,66,73,78>>],
    [what |-> "reslen", at |-> ResStart - 4, x |-> U32(Len(EncResSec(doc.cfg)) - 4 - PickSeq(<<1, 2, 3>>, s, 131))],
    \* a length that does not fit a signed 32-bit number
    [what |-> "reslen", at |-> ResStart - 4, x |-> <<PickSeq(<<128, 255>>, s, 132)>>] }
(* positions inside the layer section when it is the main one *)
LS == Len(EncHead(doc.cfg) \o EncResSec(doc.cfg)) + 1
ISZ == IF doc.cfg.psb THEN 8 ELSE 4
L1 == doc.layers[1]
BlendAt == LS + 2 * ISZ + 2 + 16 + 2 + Len(L1.chans) * (2 + ISZ)
HugeAt(i, s) == IF doc.cfg.psb /\ Coin(2, s, 133) THEN i + 3 ELSE i          \* 2^32, or the sign bit
HugeX(s) == <<IF doc.cfg.psb /\ Coin(2, s, 133) THEN 1 ELSE 128>>
LayViol(s) == IF Focus = "config" \/ doc.layers = <<>> THEN {} ELSE IF doc.where # "main" THEN {} ELSE
  { [what |-> "blendsig", at |-> BlendAt, x |-> <<56,66,73,78>>],
    \* the declared length of the layer's extra data disagrees with its content
    [what |-> "extralen", at |-> BlendAt + 12, x |-> U32(Len(EncExtra(doc.cfg.psb, L1)) - 4 + 100000)],
    \* the layer info says it is shorter than the layers in it
    [what |-> "lilen", at |-> LS + 2 * ISZ - 4, x |-> U32(Len(EncLayerInfo(doc)) - ISZ - doc.linfopad - PickSeq(<<1, 2, 3>>, s, 117))],
    \* channel data length smaller than its compression tag and rows require
    [what |-> "seclen", at |-> LS + ISZ - 4, x |-> U32(Len(EncLayerSec(doc)) - ISZ + 100000)],
    [what |-> "secshort", at |-> LS + ISZ - 4, x |-> U32(Len(EncLayerInfo(doc)) - 1)],
    \* lengths that do not fit a signed 32-bit number, or a signed 64-bit one; the low bytes are right
    [what |-> "seclen", at |-> HugeAt(LS, s), x |-> HugeX(s)],
    [what |-> "lilen", at |-> HugeAt(LS + ISZ, s), x |-> HugeX(s)],
    [what |-> "extralen", at |-> BlendAt + 12, x |-> <<PickSeq(<<128, 255>>, s, 132)>>] }
  \cup (IF L1.chans = <<>> THEN {} ELSE { [what |-> "chanlen", at |-> HugeAt(LS + 2 * ISZ + 2 + 16 + 2 + 2, s), x |-> HugeX(s)] })
  \cup (IF L1.extra # "full" \/ Len(L1.infos) = 0 THEN {} ELSE
        LET infoAt == BlendAt + 12 + 4 + Len(EncMask(L1.mask)) + 4 + Len(L1.ranges) + Len(Padded(Pascal(L1.name), 4))
                      + (IF L1.hasluni THEN Len(EncInfo(doc.cfg.psb, K8BIM, Luni, LuniData(L1), 0)) ELSE 0)
        IN { [what |-> "infosig", at |-> infoAt, x |-> <<56,66,73,78>>] })
MergedViol(s) == IF Focus = "config" THEN {} ELSE
  { [what |-> "mcomp", at |-> r.endLay + 1, x |-> U16(PickSeq(<<4, 5, 255, 256, 32768 + 1>>, s, 118))] }

DamageStep ==
  /\ pc = "Damage"
  /\ pc' = "R_Header"
  /\ \E s \in {RandomElement(Seeds)} : \E k \in DamageKinds :
       \/ /\ k = "none"
          /\ damage' = [kind |-> "none", what |-> "", at |-> 0]
          /\ bytes' = IF Focus = "config" THEN bytes ELSE bytes \o doc.trail
       \/ /\ k = "trunc"
          /\ LET cut == TLCEval(IF Pick(1..3, s, 119) = 1 THEN Pick(0..(Len(bytes) - 1), s, 120)
                     ELSE Pick({ x \in {r.endRes - 1, r.endRes, r.endRes + 1, r.endRes + ISZ, r.endLay - 1, r.endLay, r.endLay - 2,
                                        r.endLay + 1, r.endLay + 2, r.endAll - 1, Pick(0..r.endRes, s, 121), Pick(0..r.endLay, s, 122)}
                                : x >= 0 /\ x < Len(bytes) }, s, 123))
             IN /\ damage' = [kind |-> "trunc", what |-> "cut", at |-> cut]
                /\ bytes' = SubSeq(bytes, 1, cut)
       \/ /\ k = "viol"
          /\ LET all == HeadViol(s) \cup ResViol(s) \cup LayViol(s) \cup MergedViol(s)
                 v == TLCEval(IF LayViol(s) # {} /\ Pick(1..2, s, 124) = 1 THEN Pick(LayViol(s), s, 125) ELSE Pick(all, s, 126))
             IN /\ damage' = [kind |-> "viol", what |-> v.what, at |-> v.at]
                /\ bytes' = Put(bytes, v.at, v.x)
       \/ /\ k = "noise"
          /\ LET n == PickSeq(<<1, 1, 2, 4>>, s, 127)
                 cut == TLCEval(IF Pick(1..4, s, 128) = 1 THEN Pick(1..Len(bytes), s, 129) ELSE Len(bytes))
                 at == TLCEval([i \in 1..n |-> LET u == Pick(1..3, Mix(s, 700 + i), 130) IN
                                  IF u = 1 \/ Focus = "config" THEN 13 + (Mix(s, 710 + i) % BMax(1, Len(bytes) - 12))
                                  ELSE r.endRes + (Mix(s, 720 + i) % (1 + BMin(r.endAll - r.endRes, 400)))])
                 v == TLCEval([i \in 1..n |-> PickSeq(<<0, 1, 2, 3, 4, 127, 128, 129, 255, Mix(s, 730 + i) % 256>>, s, 740 + i)])
             IN /\ damage' = [kind |-> "noise", what |-> "", at |-> 0]
                /\ bytes' = SubSeq(FoldLeft(LAMBDA b, i : [b EXCEPT ![at[i]] = v[i]], bytes, [i \in 1..n |-> i]), 1, cut)
       \* "lie": some field says something else; the reader below decides whether that can be a file
       \/ /\ k = "lie"
          /\ LET n == PickSeq(<<1, 1, 1, 2>>, s, 150)
                 at == TLCEval([i \in 1..n |->
                         LET u == Pick(1..8, Mix(s, 750 + i), 151) IN
                         CASE u = 1 \/ Focus = "config" -> 5 + (Mix(s, 760 + i) % BMax(1, r.endRes - 4))
                           [] u = 2 -> r.endRes + 1 + (Mix(s, 770 + i) % BMax(1, r.endAll - r.endRes))
                           [] u = 3 -> BMin(r.endAll, r.endLay + 1 + (Mix(s, 780 + i) % 12))
                           [] OTHER -> r.endRes + 1 + (Mix(s, 790 + i) % BMin(r.endAll - r.endRes, 500))])
                 v == TLCEval([i \in 1..n |-> LET o == bytes[at[i]] IN
                         PickSeq(<<0, 1, 128, 255, (o + 1) % 256, (o + 255) % 256, (o + 2) % 256, (o + 4) % 256, (o + 252) % 256, (o + 128) % 256, Mix(s, 800 + i) % 256>>, s, 810 + i)])
             IN /\ damage' = [kind |-> "lie", what |-> "a changed byte", at |-> CHOOSE x \in {at[i] : i \in 1..n} : \A i \in 1..n : at[i] <= x]
                /\ bytes' = FoldLeft(LAMBDA b, i : [b EXCEPT ![at[i]] = v[i]], bytes, [i \in 1..n |-> i])
  /\ r' = [endRes |-> r.endRes, endLay |-> r.endLay, endAll |-> r.endAll,
           secEnd |-> 0, liEnd |-> 0, nl |-> 0, i |-> 0, j |-> 0, infoEnd |-> 0, back |-> "", lays |-> <<>>, fromMain |-> FALSE]
  /\ got' = [cfg |-> NullCfg, layers |-> <<>>, infos |-> <<>>, merged |-> <<>>, status |-> "running", where |-> "", cfgRead |-> 0, layRead |-> 0]
  /\ pos' = 0
  /\ UNCHANGED <<doc, left>>

(* ------------------------------------------------------------ the reader *)
Has(n) == pos + n <= Len(bytes)
Stop(st) == /\ pc' = "Done" /\ got' = [got EXCEPT !.status = st, !.where = pc] /\ UNCHANGED <<doc, left, damage, bytes, pos, r>>
Reject == Stop("reject")
(* outside of what is modelled: a changed byte may have led there, nothing else *)
Dunno == Stop(IF damage.kind = "lie" THEN "any" ELSE "reject")
Goto(p) == pc' = p
Keep == UNCHANGED <<doc, left, damage, bytes>>
At(i) == pos + i      \* 1-based index of the i-th unread byte

RHeader ==
  /\ pc = "R_Header"
  /\ IF ~Has(30) THEN Reject ELSE
     LET v == RU16(bytes, 5)  ch == RU16(bytes, 13)  h == RU32(bytes, 15)  w == RU32(bytes, 19)
         d == RU16(bytes, 23)  m == RI16(bytes, 25)  n == RU32(bytes, 27)
         lim == IF v = 1 THEN 30000 ELSE 300000
     IN IF Sub(bytes, 1, 4) # <<56,66,80,83>> \/ v \notin {1, 2} \/ ch \notin 1..56 \/ h < 1 \/ h > lim
           \/ w < 1 \/ w > lim \/ d \notin {1, 8, 16, 32} \/ n > Len(bytes) - 30
        THEN Reject
        ELSE /\ got' = [got EXCEPT !.cfg = [psb |-> v = 2, ch |-> ch, w |-> w, h |-> h, depth |-> d, mode |-> m,
                                            cmd |-> Sub(bytes, 31, n), res |-> <<>>]]
             /\ pos' = 30 + n /\ Goto("R_ResLen") /\ Keep /\ UNCHANGED r
RResLen ==
  /\ pc = "R_ResLen"
  /\ IF ~Has(4) THEN Reject ELSE
     /\ r' = [r EXCEPT !.secEnd = IF RU32(bytes, At(1)) = Huge THEN Huge ELSE pos + 4 + RU32(bytes, At(1))]
     /\ pos' = pos + 4 /\ Goto("R_Res") /\ Keep /\ UNCHANGED got
RRes ==
  /\ pc = "R_Res"
  /\ IF pos > r.secEnd THEN Reject
     ELSE IF pos = r.secEnd
     THEN /\ Goto(IF Focus = "config" THEN "Finish" ELSE "R_SecLen")
          /\ got' = [got EXCEPT !.cfgRead = pos] /\ Keep /\ UNCHANGED <<r, pos>>
     ELSE IF ~Has(7) THEN Reject ELSE
       LET sig == Sub(bytes, At(1), 4)
           nn == bytes[At(7)]
           np == nn + 1 + PadTo(nn + 1, 2)
       IN IF sig \notin ResSigs \/ ~Has(6 + np + 4) THEN Reject ELSE
          LET dl == RU32(bytes, At(6 + np + 1))
              tot == 6 + np + 4 + dl + PadTo(dl, 2)
          IN IF dl > Len(bytes) \/ ~Has(tot) THEN Reject ELSE
             /\ got' = [got EXCEPT !.cfg.res = Append(@, [id |-> RU16(bytes, At(5)), name |-> Sub(bytes, At(8), nn),
                                                          data |-> Sub(bytes, At(6 + np + 5), dl)])]
             /\ pos' = pos + tot /\ UNCHANGED <<pc, r>> /\ Keep
PSBr == got.cfg.psb
RSecLen ==
  /\ pc = "R_SecLen"
  /\ LET z == IF PSBr THEN 8 ELSE 4 IN
     IF ~Has(z) THEN Reject ELSE
     LET n == RULen(bytes, At(1), PSBr) IN
     /\ pos' = pos + z
     /\ r' = [r EXCEPT !.secEnd = IF n > Len(bytes) + 1000 THEN Huge ELSE pos + z + n]
     /\ Goto(IF n = 0 THEN "R_SecDone" ELSE "R_LayerInfo") /\ Keep /\ UNCHANGED got
RLayerInfo ==      \* either the main section (back = "R_Global") or a Layr/Lr16/Lr32 block (back = "R_Infos")
  /\ pc = "R_LayerInfo"
  /\ LET z == IF PSBr THEN 8 ELSE 4 IN
     IF ~Has(z) THEN Reject ELSE
     LET n == RULen(bytes, At(1), PSBr) IN
     IF n = 0 THEN /\ pos' = pos + z /\ Goto(IF r.back = "" THEN "R_Global" ELSE r.back) /\ Keep /\ UNCHANGED <<r, got>>
     ELSE IF ~Has(z + 2) \/ n > Len(bytes) THEN Reject
     ELSE LET k == RI16(bytes, At(z + 1))
              nl == IF k < 0 THEN 0 - k ELSE k
          IN /\ pos' = pos + z + 2
             /\ r' = [r EXCEPT !.liEnd = pos + z + n, !.nl = nl, !.i = 1, !.lays = <<>>, !.fromMain = (r.back = "")]
             /\ Goto(IF nl = 0 THEN "R_LayerInfoEnd" ELSE "R_Rec") /\ Keep /\ UNCHANGED got
RRec ==
  /\ pc = "R_Rec"
  /\ LET z == IF PSBr THEN 8 ELSE 4 IN
     IF ~Has(18) THEN Reject ELSE
     LET nc == RU16(bytes, At(17))
         q == <<RI32(bytes, At(5)), RI32(bytes, At(1)), RI32(bytes, At(13)), RI32(bytes, At(9))>>
     IN IF ~Has(18 + nc * (2 + z) + 12) THEN Reject ELSE
        LET o == 18 + nc * (2 + z)
            cl == [c \in 1..nc |-> [id |-> RI16(bytes, At(18 + (c-1) * (2+z) + 1)), len |-> RULen(bytes, At(18 + (c-1) * (2+z) + 3), PSBr)]]
        IN IF Sub(bytes, At(o + 1), 4) # K8BIM THEN Reject ELSE
           /\ r' = [r EXCEPT !.lays = Append(@, [rect |-> q, chans |-> cl, bm |-> Sub(bytes, At(o + 5), 4), op |-> bytes[At(o + 9)],
                       clip |-> bytes[At(o + 10)], flags |-> bytes[At(o + 11)], mask |-> NullMask, name |-> <<>>,
                       infos |-> <<>>, extra |-> 0])]
           /\ pos' = pos + o + 12 /\ Goto("R_Extra") /\ Keep /\ UNCHANGED got
SetLay(f, v) == r' = [r EXCEPT !.lays[r.i][f] = v]
RExtra ==
  /\ pc = "R_Extra"
  /\ IF ~Has(4) THEN Reject ELSE
     LET n == RU32(bytes, At(1)) IN
     IF n > Len(bytes) THEN Reject ELSE
     /\ pos' = pos + 4
     /\ r' = [r EXCEPT !.infoEnd = pos + 4 + n]
     /\ Goto(IF n = 0 THEN "R_RecEnd" ELSE "R_Mask") /\ Keep /\ UNCHANGED got
RMask ==
  /\ pc = "R_Mask"
  /\ IF ~Has(4) THEN Reject ELSE
     LET n == RU32(bytes, At(1)) IN
     IF n > Len(bytes) \/ ~Has(4 + n) THEN Reject
     ELSE IF n < 16 THEN /\ pos' = pos + 4 + n /\ Goto("R_Ranges") /\ Keep /\ UNCHANGED <<r, got>>
     ELSE LET b == Sub(bytes, At(5), n)
              q(i) == <<RI32(b, i + 4), RI32(b, i), RI32(b, i + 12), RI32(b, i + 8)>>
              (* the fields in file order: <<name, length>>; parameters only with flag 4, and only those named *)
              fl == IF n >= 18 THEN b[18] ELSE 0
              par == IF n >= 19 /\ (fl \div 16) % 2 = 1 THEN b[19] ELSE 0
              bit(k) == (par \div k) % 2 = 1
              fields == <<<<"rect", 16>>, <<"def", 1>>, <<"flags", 1>>>> \o (IF (fl \div 16) % 2 = 1 THEN <<<<"par", 1>>>> ELSE <<>>)
                        \o (IF bit(1) THEN <<<<"ud", 1>>>> ELSE <<>>) \o (IF bit(2) THEN <<<<"uf", 8>>>> ELSE <<>>)
                        \o (IF bit(4) THEN <<<<"vd", 1>>>> ELSE <<>>) \o (IF bit(8) THEN <<<<"vf", 8>>>> ELSE <<>>)
                        \o (IF n = 20 THEN <<>> ELSE <<<<"rflags", 1>>, <<"rbg", 1>>, <<"rrect", 16>>>>)
              ends == FoldLeft(LAMBDA q1, f : Append(q1, q1[Len(q1)] + f[2]), <<0>>, fields)
              (* the last ones may be missing, or cut short: then they are not there *)
              has(nm) == \E i \in 1..Len(fields) : fields[i][1] = nm /\ ends[i + 1] <= n
              off(nm) == ends[CHOOSE i \in 1..Len(fields) : fields[i][1] = nm] + 1
              one(nm, d) == IF has(nm) THEN b[off(nm)] ELSE d
              eight(nm) == IF has(nm) THEN Sub(b, off(nm), 8) ELSE Zeros(8)
          IN /\ SetLay("mask", [form |-> IF n < 18 THEN 2 ELSE 1, rect |-> q(1), def |-> one("def", 0), flags |-> fl,
                      ud |-> one("ud", 255), uf |-> eight("uf"), vd |-> one("vd", 255), vf |-> eight("vf"),
                      rflags |-> one("rflags", 0), rbg |-> one("rbg", 0), rrect |-> IF has("rrect") THEN q(off("rrect")) ELSE <<0,0,0,0>>, tail |-> 0])
             /\ pos' = pos + 4 + n /\ Goto("R_Ranges") /\ Keep /\ UNCHANGED got
RRanges ==
  /\ pc = "R_Ranges"
  /\ IF ~Has(4) THEN Reject ELSE
     LET n == RU32(bytes, At(1)) IN
     IF n > Len(bytes) \/ ~Has(4 + n) THEN Reject
     ELSE pos' = pos + 4 + n /\ Goto("R_Name") /\ Keep /\ UNCHANGED <<r, got>>
RName ==
  /\ pc = "R_Name"
  /\ IF ~Has(1) THEN Reject ELSE
     LET n == bytes[At(1)]
         tot == n + 1 + PadTo(n + 1, 4)
     IN IF ~Has(tot) THEN Reject
        ELSE /\ SetLay("name", Sub(bytes, At(2), n)) /\ pos' = pos + tot /\ Goto("R_RecInfos") /\ Keep /\ UNCHANGED got
RECURSIVE ScanSig(_, _)
ScanSig(p, e) == IF p >= e \/ p >= Len(bytes) THEN p ELSE IF bytes[p + 1] = 56 THEN p ELSE ScanSig(p + 1, e)
(* one additional-information block; `where` is "rec" or "doc" *)
ReadInfo(where, endp, back) ==
  IF pos = endp THEN /\ Goto(back) /\ Keep /\ UNCHANGED <<pos, r, got>>
  ELSE IF pos > endp THEN Reject
  ELSE LET s == ScanSig(pos, endp) IN
       IF s >= endp THEN IF s = endp /\ s <= Len(bytes) THEN pos' = s /\ UNCHANGED <<pc, r, got>> /\ Keep ELSE Reject
       ELSE IF s + 8 > Len(bytes) THEN Reject
       ELSE LET sig == Sub(bytes, s + 1, 4)
                key == Sub(bytes, s + 5, 4)
                z == IF PSBr /\ (key \in WideKeys \cup LayerBlockKeys) THEN 8 ELSE 4
            IN IF sig \notin {K8BIM, K8B64} THEN Reject
               ELSE IF key \in LayerBlockKeys
                    THEN IF where = "rec" \/ r.back # "" THEN Dunno      \* layers inside of a layer, or a second time
                         ELSE IF r.fromMain THEN Reject
                         ELSE /\ pos' = s + 8 /\ r' = [r EXCEPT !.back = "R_Infos"] /\ Goto("R_LayerInfo") /\ Keep /\ UNCHANGED got
               ELSE IF s + 8 + z > Len(bytes) THEN Reject
               ELSE LET n == RULen(bytes, s + 9, z = 8) IN
                    IF n > Len(bytes) \/ s + 8 + z + n > Len(bytes) \/ s + 8 + z + n > endp THEN Reject
                    ELSE LET e == [key |-> key, data |-> Sub(bytes, s + 8 + z + 1, n)] IN
                         /\ pos' = s + 8 + z + n
                         /\ IF where = "rec" THEN SetLay("infos", Append(r.lays[r.i].infos, e)) /\ UNCHANGED got
                            ELSE got' = [got EXCEPT !.infos = Append(@, e)] /\ UNCHANGED r
                         /\ UNCHANGED pc /\ Keep
RRecInfos == pc = "R_RecInfos" /\ ReadInfo("rec", r.infoEnd, "R_RecEnd")
RRecEnd ==
  /\ pc = "R_RecEnd"
  /\ IF r.i < r.nl THEN r' = [r EXCEPT !.i = @ + 1] /\ Goto("R_Rec")
     ELSE r' = [r EXCEPT !.i = 1, !.j = 1] /\ Goto("R_Chan")
  /\ Keep /\ UNCHANGED <<pos, got>>
ChanRect(l, id) == CASE id = -3 -> l.mask.rrect [] id = -2 -> l.mask.rect [] OTHER -> l.rect
RChan ==
  /\ pc = "R_Chan"
  /\ IF r.i > r.nl THEN Goto("R_LayerInfoEnd") /\ Keep /\ UNCHANGED <<pos, r, got>>
     ELSE LET l == r.lays[r.i] IN
       IF r.j > Len(l.chans) THEN r' = [r EXCEPT !.i = @ + 1, !.j = 1] /\ UNCHANGED <<pc, pos, got>> /\ Keep
       ELSE LET c == l.chans[r.j]
                q == ChanRect(l, c.id)
            IN IF c.len > Len(bytes) \/ ~Has(c.len) THEN Reject
               ELSE IF damage.kind = "lie" /\ (\E i \in 1..4 : q[i] > 100000000 \/ q[i] < -100000000) THEN Dunno
               ELSE IF RW(q) < 0 \/ RH(q) < 0 \/ RW(q) > 2000 \/ RH(q) > 2000 THEN Dunno
               ELSE LET rb == RowBytes(RW(q), got.cfg.depth)
                        raw == Sub(bytes, At(1), c.len)
                        d == IF c.len <= 2 THEN [ok |-> TRUE, out |-> Zeros(rb * RH(q))]
                             ELSE DecodePlane(RU16(raw, 1), SubSeq(raw, 3, c.len), rb, RH(q), got.cfg.depth, PSBr)
                    IN \* how much of a zlib stream has to be whole is left open
                       IF damage.kind = "lie" /\ c.len > 2 /\ RU16(raw, 1) \in {2, 3} /\ ~ZlibWhole(SubSeq(raw, 3, c.len)) THEN Dunno
                       ELSE IF ~d.ok THEN (IF RU16(raw, 1) \in {2, 3} THEN Dunno ELSE Reject)
                       ELSE /\ r' = [r EXCEPT !.lays[r.i].chans[r.j] = [id |-> c.id, len |-> c.len, plane |-> d.out], !.j = @ + 1]
                            /\ pos' = pos + c.len /\ UNCHANGED <<pc, got>> /\ Keep
RLayerInfoEnd ==
  /\ pc = "R_LayerInfoEnd"
  /\ IF r.liEnd > Len(bytes) \/ pos > r.liEnd THEN Reject
     ELSE /\ pos' = r.liEnd
          /\ got' = [got EXCEPT !.layers = r.lays]
          /\ r' = [r EXCEPT !.i = 0]
          /\ Goto(IF r.back = "" THEN "R_Global" ELSE r.back) /\ Keep
RGlobal ==
  /\ pc = "R_Global"
  /\ IF r.secEnd - pos < 4 THEN Goto("R_InfosQ") /\ UNCHANGED <<pos, r, got>> /\ Keep
     ELSE IF ~Has(4) THEN Reject
     ELSE LET n == RU32(bytes, At(1)) IN
          IF n > Len(bytes) \/ ~Has(4 + n) THEN Reject
          ELSE pos' = pos + 4 + n /\ Goto("R_InfosQ") /\ UNCHANGED <<r, got>> /\ Keep
RInfosQ ==     \* fewer than 8 bytes cannot hold another block: they are padding
  /\ pc = "R_InfosQ"
  /\ Goto(IF r.secEnd - pos < 8 THEN "R_SecPad" ELSE "R_Infos") /\ UNCHANGED <<pos, r, got>> /\ Keep
RInfos == pc = "R_Infos" /\ ReadInfo("doc", r.secEnd, "R_SecPad")
RSecPad ==
  /\ pc = "R_SecPad"
  /\ LET n == r.secEnd - pos IN
     IF n < 0 \/ n >= (IF PSBr THEN 8 ELSE 4) \/ ~Has(n) THEN Reject
     ELSE pos' = pos + n /\ Goto("R_SecDone") /\ UNCHANGED <<r, got>> /\ Keep
RSecDone ==
  /\ pc = "R_SecDone"
  /\ got' = [got EXCEPT !.layRead = pos]
  /\ Goto("R_Merged") /\ UNCHANGED <<pos, r>> /\ Keep
(* for a plane set compressed as one stream: how much of it must be there *)
RMerged ==
  /\ pc = "R_Merged"
  /\ IF ~Has(2) THEN Reject
     ELSE LET c == RU16(bytes, At(1))
              cfg == got.cfg
              rb == RowBytes(cfg.w, cfg.depth)
              lines == cfg.h * cfg.ch
              body == SubSeq(bytes, At(3), Len(bytes))
          IN IF c > 3 THEN Reject
             ELSE IF cfg.w > 2000 \/ cfg.h > 2000 THEN Dunno
             ELSE IF c \in {2, 3} /\ (damage.kind \in {"trunc", "noise"} \/ (damage.kind = "lie" /\ (pos # r.endLay \/ damage.at > r.endLay))) THEN Dunno
             ELSE LET d == DecodePlane(c, body, rb, lines, cfg.depth, PSBr) IN
                  IF ~d.ok THEN Reject
                  ELSE /\ got' = [got EXCEPT !.merged = d.out]
                       /\ pos' = IF c = 1 THEN pos + 2 + Len(RleEncode(<<>>, 1, PSBr, 1))
                                               + (LET cs == IF PSBr THEN 4 ELSE 2 IN
                                                  lines * cs + FoldLeft(LAMBDA a, y : a + (IF PSBr THEN RU32(body, (y-1)*4+1) ELSE RU16(body, (y-1)*2+1)),
                                                                        0, [y \in 1..lines |-> y]))
                                 ELSE IF c = 0 THEN pos + 2 + rb * lines ELSE r.endAll
                       /\ Goto("Finish") /\ UNCHANGED r /\ Keep
Finish == /\ pc = "Finish" /\ Goto("Done") /\ got' = [got EXCEPT !.status = "ok"] /\ UNCHANGED <<pos, r>> /\ Keep

Next == WConfig \/ WLayer \/ WTail \/ WEncode \/ DamageStep
        \/ (damage.kind # "noise" /\
            (RHeader \/ RResLen \/ RRes \/ RSecLen \/ RLayerInfo \/ RRec \/ RExtra \/ RMask \/ RRanges \/ RName
             \/ RRecInfos \/ RRecEnd \/ RChan \/ RLayerInfoEnd \/ RGlobal \/ RInfosQ \/ RInfos \/ RSecPad \/ RSecDone \/ RMerged \/ Finish))
        \/ (damage.kind = "noise" /\ pc = "R_Header" /\ Goto("Done") /\ got' = [got EXCEPT !.status = "any"] /\ UNCHANGED <<doc, left, damage, bytes, pos, r>>)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------- invariants of the design *)
(* the reader never consumes what is not there *)
InBounds == pos <= Len(bytes)
ResView(s) == [i \in 1..Len(s) |-> [id |-> s[i].id, name |-> s[i].name, data |-> s[i].data]]
WantMask(m) == IF m.form \in {0, 4} THEN [NullMask EXCEPT !.form = 0]
               ELSE [m EXCEPT !.form = IF @ = 2 THEN 2 ELSE 1, !.tail = 0]
WantInfos(l) == [i \in 1..Len(l.infos) |-> [key |-> l.infos[i].key, data |-> l.infos[i].data]]
OtherInfos(s) == SelectSeq(s, LAMBDA e : e.key \notin {Luni, Clbl, Lsct, Lsdk})
InfoOf(s, k) == LET t == SelectSeq(s, LAMBDA e : e.key = k) IN IF t = <<>> THEN <<>> ELSE t[1].data
LayerAgrees(w, g) ==
  /\ g.rect = w.rect /\ g.bm = w.bm /\ g.op = w.op /\ g.clip = w.clip /\ g.flags = w.flags
  /\ g.mask = WantMask(w.mask) /\ g.name = w.name
  /\ OtherInfos(g.infos) = WantInfos(w)
  /\ (w.hasluni => InfoOf(g.infos, Luni) = LuniData(w))
  /\ Len(g.chans) = Len(w.chans)
  /\ \A j \in 1..Len(w.chans) : g.chans[j].id = w.chans[j].id /\ g.chans[j].plane = w.chans[j].plane
(* an undamaged file is accepted and reported exactly as written *)
Clean == pc = "Done" /\ damage.kind = "none"
Full  == Clean /\ Focus # "config"
RTStatus == Clean => got.status = "ok"
RTConfig == Clean =>
    /\ got.cfg.psb = doc.cfg.psb /\ got.cfg.w = doc.cfg.w /\ got.cfg.h = doc.cfg.h /\ got.cfg.ch = doc.cfg.ch
    /\ got.cfg.depth = doc.cfg.depth /\ got.cfg.mode = doc.cfg.mode /\ got.cfg.cmd = doc.cfg.cmd
    /\ got.cfg.res = ResView(doc.cfg.res)
RTExtent == /\ Clean => got.cfgRead = r.endRes
            /\ Full => got.layRead = r.endLay /\ pos = r.endAll
RTLayers == Full => /\ Len(got.layers) = Len(doc.layers)
                    /\ \A i \in 1..Len(doc.layers) : LayerAgrees(doc.layers[i], got.layers[i])
RTInfos  == Full => got.infos = [i \in 1..Len(doc.infos) |-> [key |-> doc.infos[i].key, data |-> doc.infos[i].data]]
RTMerged == Full => got.merged = Cat(doc.merged)
(* the trailer of a merged zlib stream is not needed to decode it, so cutting only into it is not detectable *)
SoftTail == Focus # "config" /\ doc.mcomp \in {2, 3} /\ damage.kind = "trunc" /\ damage.at >= r.endAll - 4
DamageRejected ==
  (pc = "Done" /\ damage.kind \in {"trunc", "viol"}) => got.status = "reject"

(* ------------------------------------------------------------- emission *)
(* what a correct reader must report, in the vocabulary of the library *)
HasAlpha(cfg) == cfg.ch > NumColor(cfg.mode) /\ cfg.mode \notin {INDEXED, BITMAP} /\
   LET a == SelectSeq(cfg.res, LAMBDA x : x.id = 1053) IN
   a = <<>> \/ \E k \in 1..(Len(a[1].data) \div 4) : RU32(a[1].data, 4 * k - 3) = 0
Samp(plane, w, depth, x, y) ==     \* bytes of the sample at column x, row y (0-based)
  IF depth = 1 THEN <<IF (plane[y * RowBytes(w, 1) + (x \div 8) + 1] \div (2 ^ (7 - (x % 8)))) % 2 = 0 THEN 1 ELSE 0>>
  ELSE LET n == depth \div 8 IN Sub(plane, (y * w + x) * n + 1, n)
Opaque(depth) == CASE depth = 8 -> <<255>> [] depth = 16 -> <<255, 255>> [] OTHER -> <<63, 128, 0, 0>>
Model(mode, depth) ==
  CASE mode = RGB /\ depth = 8 -> "NRGBA" [] mode = RGB /\ depth = 16 -> "NRGBA64" [] mode = RGB -> "NRGBA128"
    [] mode = GRAY /\ depth = 8 -> "NGrayA" [] mode = GRAY /\ depth = 16 -> "NGrayA32" [] mode = GRAY -> "NGrayA64"
    [] mode = CMYK /\ depth = 8 -> "NCMYKA" [] mode = CMYK -> "NCMYKA80"
    [] mode = INDEXED -> "Palette" [] OTHER -> "Gray1"
Pix(planes, w, h, mode, depth, alpha) ==   \* planes: colour planes, then alpha if any; row-major pixels
  [k \in 1..(w * h) |->
     LET x == (k - 1) % w   y == (k - 1) \div w
         c == [i \in 1..NumColor(mode) |-> Samp(planes[i], w, depth, x, y)]
     IN IF mode = BITMAP THEN c
        ELSE Append(c, IF alpha THEN Samp(planes[Len(planes)], w, depth, x, y) ELSE Opaque(depth))]
Trans(cfg) == LET t == SelectSeq(cfg.res, LAMBDA x : x.id = 1047) IN IF t = <<>> THEN -1 ELSE RU16(t[1].data, 1)
PalPix(cfg, plane) ==
  [k \in 1..(cfg.w * cfg.h) |->
     LET v == plane[k] IN
     << <<cfg.cmd[v + 1]>>, <<cfg.cmd[v + 257]>>, <<cfg.cmd[v + 513]>>, <<IF v = Trans(cfg) THEN 0 ELSE 255>> >>]
ChanOf(l, id) == LET s == SelectSeq(l.chans, LAMBDA c : c.id = id) IN s
LayerOut(cfg, l) ==
  LET alpha == ChanOf(l, -1) # <<>>
      full == \A i \in 1..NumColor(cfg.mode) : ChanOf(l, i - 1) # <<>>
      planes == [i \in 1..NumColor(cfg.mode) |-> ChanOf(l, i - 1)[1].plane] \o (IF alpha THEN <<ChanOf(l, -1)[1].plane>> ELSE <<>>)
      w == RW(l.rect)  h == RH(l.rect)
  IN [rect |-> l.rect, bm |-> l.bm, op |-> l.op, clip |-> l.clip # 0, flags |-> l.flags,
      mask |-> WantMask(l.mask), mbcs |-> l.name, hasuni |-> l.hasluni, units |-> l.units,
      bce |-> l.clbl # "off", stype |-> l.stype,
      sbm |-> IF l.sect \in {"lsct12", "lsct16", "lsdk12"} THEN l.sbm ELSE l.bm,
      ssub |-> IF l.sect = "lsct16" THEN l.ssub ELSE 0,
      infos |-> WantInfos(l),
      chans |-> [j \in 1..Len(l.chans) |-> [id |-> l.chans[j].id, plane |-> l.chans[j].plane, comp |-> l.chans[j].comp,
                  rect |-> CASE l.chans[j].id = -3 -> l.mask.rrect [] l.chans[j].id = -2 -> l.mask.rect [] OTHER -> l.rect]],
      model |-> Model(cfg.mode, cfg.depth),
      pix |-> IF w * h > 5000 \/ ~full THEN <<>> ELSE Pix(planes, w, h, cfg.mode, cfg.depth, alpha)]
CfgOut(cfg) == [version |-> IF cfg.psb THEN 2 ELSE 1, w |-> cfg.w, h |-> cfg.h, ch |-> cfg.ch, depth |-> cfg.depth,
                mode |-> cfg.mode, cmd |-> cfg.cmd, res |-> ResView(cfg.res), trans |-> Trans(cfg),
                model |-> Model(cfg.mode, cfg.depth)]
(* which part of the file has to be read to notice what is wrong with it *)
Stage(p) == CASE p \in {"R_Header", "R_ResLen", "R_Res"} -> "cfg" [] p \in {"R_Chan", "R_LayerInfoEnd"} -> "img"
              [] p = "R_Merged" -> "merged" [] OTHER -> "lay"
(* What the reader made of a file in which something was changed, as a document.  Where more than one reading is *)
(* sensible the file is Odd, and nothing is asked but that it does no harm.                                      *)
Twice(q, f(_)) == \E i, j \in 1..Len(q) : i < j /\ f(q[i]) = f(q[j])
KeyOf(e) == e.key
IdOf(e) == e.id
FirstSect(g) == IF InfoOf(g.infos, Lsct) # <<>> THEN InfoOf(g.infos, Lsct) ELSE InfoOf(g.infos, Lsdk)
HasKey(g, k) == \E i \in 1..Len(g.infos) : g.infos[i].key = k
BadRect(q) == (\E i \in 1..4 : q[i] > 100000000 \/ q[i] < -100000000) \/ q[3] < q[1] \/ q[4] < q[2]
OddLayer(g) ==
  \/ BadRect(g.rect) \/ BadRect(g.mask.rect) \/ BadRect(g.mask.rrect)
  \/ Twice(g.infos, KeyOf) \/ Twice(g.chans, IdOf)
  \/ (HasKey(g, Lsct) /\ HasKey(g, Lsdk))
  \/ (HasKey(g, Luni) /\ LET d == InfoOf(g.infos, Luni) IN Len(d) < 4 \/ RU32(d, 1) > (Len(d) - 4) \div 2)
  \/ (HasKey(g, Clbl) /\ InfoOf(g.infos, Clbl) = <<>>)
  \/ ((HasKey(g, Lsct) \/ HasKey(g, Lsdk)) /\
        LET d == FirstSect(g) IN Len(d) < 4 \/ RU32(d, 1) # 0 \/ (Len(d) >= 12 /\ Sub(d, 5, 4) # K8BIM) \/ (Len(d) >= 16 /\ RU32(d, 13) > 100000000))
OddRes(cfg) ==
  \/ Twice(cfg.res, IdOf)
  \/ \E i \in 1..Len(cfg.res) : cfg.res[i].id = 1047 /\ Len(cfg.res[i].data) < 2
Odd == \/ OddRes(got.cfg)
       \/ got.cfg.mode # doc.cfg.mode \/ got.cfg.depth # doc.cfg.depth \/ got.cfg.ch # doc.cfg.ch
       \/ (got.cfg.mode = INDEXED /\ Len(got.cfg.cmd) < 768)
       \/ (Focus # "config" /\
           (\/ got.cfg.w # doc.cfg.w \/ got.cfg.h # doc.cfg.h
            \/ Twice(got.infos, KeyOf)
            \/ \E i \in 1..Len(got.layers) : OddLayer(got.layers[i])))
GotLayer(g) ==
  LET lu == InfoOf(g.infos, Luni)
      sd == FirstSect(g)
      n == IF HasKey(g, Luni) THEN RU32(lu, 1) ELSE 0
  IN [rect |-> g.rect, bm |-> g.bm, op |-> g.op, clip |-> g.clip, flags |-> g.flags, mask |-> g.mask, name |-> g.name,
      hasluni |-> HasKey(g, Luni), units |-> [i \in 1..n |-> RU16(lu, 3 + 2 * i)],
      clbl |-> IF HasKey(g, Clbl) THEN (IF InfoOf(g.infos, Clbl)[1] = 0 THEN "off" ELSE "on") ELSE "absent",
      stype |-> 0, sect |-> IF Len(sd) >= 16 THEN "lsct16" ELSE IF Len(sd) >= 12 THEN "lsct12" ELSE "none",
      sbm |-> IF Len(sd) >= 12 THEN Sub(sd, 9, 4) ELSE g.bm, ssub |-> IF Len(sd) >= 16 THEN RU32(sd, 13) ELSE 0,
      infos |-> OtherInfos(g.infos),
      chans |-> [j \in 1..Len(g.chans) |-> [id |-> g.chans[j].id, plane |-> g.chans[j].plane, comp |-> 0]]]
GotPlanes == LET n == RowBytes(got.cfg.w, got.cfg.depth) * got.cfg.h IN [c \in 1..got.cfg.ch |-> SubSeq(got.merged, (c - 1) * n + 1, c * n)]
CaseOf(cfg, layers, infos, mcomp, merged) ==
  [layers |-> [i \in 1..Len(layers) |-> LayerOut(cfg, layers[i])],
   infos |-> [i \in 1..Len(infos) |-> [key |-> infos[i].key, data |-> infos[i].data]],
   mcomp |-> mcomp, merged |-> merged,
   mpix |-> IF cfg.mode = INDEXED THEN PalPix(cfg, merged[1])
            ELSE LET al == HasAlpha(cfg)
                     n == NumColor(cfg.mode)
                 IN Pix(SubSeq(merged, 1, IF al THEN n + 1 ELSE n), cfg.w, cfg.h, cfg.mode, cfg.depth, al)]
Case ==
  LET base == [kind |-> damage.kind, what |-> damage.what, at |-> damage.at, soft |-> SoftTail, inimg |-> damage.what \in {"lilen", "chanlen"},
               verdict |-> got.status, stage |-> Stage(got.where), b |-> bytes, focus |-> Focus,
               endRes |-> r.endRes, endLay |-> r.endLay, endAll |-> r.endAll,
               cfg |-> CfgOut(doc.cfg)]
  IN IF damage.kind = "lie" /\ got.status = "ok"
     THEN IF Odd THEN [base EXCEPT !.verdict = "odd"]
          ELSE IF Focus = "config" THEN [base EXCEPT !.endRes = got.cfgRead, !.cfg = CfgOut(got.cfg)]
          ELSE [base EXCEPT !.endRes = got.cfgRead, !.endLay = got.layRead, !.endAll = pos, !.cfg = CfgOut(got.cfg)]
               @@ CaseOf(got.cfg, [i \in 1..Len(got.layers) |-> GotLayer(got.layers[i])], got.infos, RU16(bytes, got.layRead + 1), GotPlanes)
     ELSE IF Focus = "config" \/ damage.kind # "none" THEN base
     ELSE base @@ CaseOf(doc.cfg, doc.layers, doc.infos, doc.mcomp, doc.merged)
Emit == pc = "Done" => PrintT("@@" \o ToJson(Case))
(* short view of a state, for error traces *)
Brief == [pc |-> pc, pos |-> pos, damage |-> damage, len |-> Len(bytes), status |-> IF pc = "Done" THEN got.status ELSE "",
          secEnd |-> IF pos > 0 THEN r.secEnd ELSE 0, liEnd |-> IF pos > 0 THEN r.liEnd ELSE 0, infoEnd |-> IF pos > 0 THEN r.infoEnd ELSE 0]
=============================================================================
