----------------------------- MODULE OddBlocks -----------------------------
(* Small files in which exactly one piece has an odd length or content,     *)
(* while everything around it is consistent: section dividers, Unicode      *)
(* names, masks, channel lists, channel data, layer counts, padding, colour *)
(* tables.  Enumerated completely.  The writer says, where the format does, *)
(* whether the file must be accepted or rejected; the reader of PsdDoc reads*)
(* it; where both agree the real decoder has to agree with them too, and    *)
(* elsewhere ("noise") it only has to stay sane.                            *)
EXTENDS PsdDoc

CONSTANT Dense      \* TRUE: all lengths; FALSE: the telling ones

ovars == vars
Min2(a, b) == IF a < b THEN a ELSE b
Lens(S, T) == IF Dense THEN S ELSE T
Mode8 == <<109,117,108,32>>
Norm == <<110,111,114,109>>
SigOK == K8BIM
SigBad == <<56,66,73,78>>
Ones(n) == [i \in 1..n |-> (i * 37) % 251]

(* ------------------------------------------------------------ the writer *)
ChanRaw(id) == [id |-> id, len |-> -1, data |-> U16(0) \o (CASE id = -2 -> <<9, 8>> [] id = -3 -> <<7>> [] OTHER -> <<(id * 40 + 81) % 256, 17>>)]
BaseRect == <<1, 2, 3, 3>>     \* 2 wide, 1 high
BaseRec == [rect |-> BaseRect, chans |-> <<ChanRaw(-1), ChanRaw(0), ChanRaw(1), ChanRaw(2)>>, bm |-> Mode8, op |-> 200, clip |-> 0, flags |-> 8,
            mask |-> <<>>, ranges |-> <<>>, name |-> <<97, 98>>, infos |-> <<>>, ext |-> -1]
Blk(key, data) == K8BIM \o key \o U32(Len(data)) \o data
MarkRec(infos) == [BaseRec EXCEPT !.rect = <<0, 0, 0, 0>>, !.chans = <<>>, !.name = <<>>, !.infos = infos]
MaskData == Rect4(<<0, 0, 1, 2>>) \o <<255, 8, 3, 0>> \o Rect4(<<5, 5, 6, 6>>)     \* 36 bytes

ORec(psb, x) ==
  LET ext == U32(Len(x.mask)) \o x.mask \o U32(Len(x.ranges)) \o x.ranges \o Padded(Pascal(x.name), 4) \o x.infos IN
  Rect4(x.rect) \o U16(Len(x.chans)) \o Cat([i \in 1..Len(x.chans) |-> I16(x.chans[i].id) \o ULen(psb, IF x.chans[i].len >= 0 THEN x.chans[i].len ELSE Len(x.chans[i].data))])
  \o K8BIM \o x.bm \o <<x.op, x.clip, x.flags, 0>> \o U32(IF x.ext >= 0 THEN x.ext ELSE Len(ext)) \o ext
OInfo(o) ==
  LET b == U16(o.count) \o Cat([i \in 1..Len(o.recs) |-> ORec(o.cfg.psb, o.recs[i])])
           \o Cat([i \in 1..Len(o.recs) |-> Cat([j \in 1..Len(o.recs[i].chans) |-> o.recs[i].chans[j].data])])
  IN ULen(o.cfg.psb, IF o.len.li >= 0 THEN o.len.li ELSE Len(b)) \o b
ORes(o) == LET b == EncResSec(o.cfg) IN IF o.len.res >= 0 THEN U32(o.len.res) \o SubSeq(b, 5, Len(b)) ELSE b
OSection(o) ==
  LET b == (IF o.where = "main" THEN OInfo(o) ELSE ULen(o.cfg.psb, 0)) \o o.gmask
           \o (IF o.where = "main" THEN <<>> ELSE K8BIM \o LayerBlockKey(8) \o OInfo(o)) \o o.after
  IN ULen(o.cfg.psb, IF o.len.sec >= 0 THEN o.len.sec ELSE Len(b)) \o b
OCfg(psb) == [NullCfg EXCEPT !.psb = psb, !.ch = 3, !.w = 2, !.h = 1, !.mode = RGB]
OBase(psb) == [what |-> "", want |-> "accept", cfg |-> OCfg(psb), recs |-> <<BaseRec>>, count |-> 1, where |-> "main", gmask |-> <<>>, after |-> <<>>,
               inimg |-> FALSE, merged |-> U16(0) \o Ones(6), cut |-> -1, len |-> [res |-> -1, sec |-> -1, li |-> -1]]

OInit == /\ pc = "O_Write" /\ doc = [cfg |-> NullCfg, layers |-> <<>>] /\ left = 0
         /\ damage = [kind |-> "none", what |-> "", at |-> 0]
         /\ bytes = <<>> /\ pos = 0 /\ r = [z |-> 0] /\ got = [z |-> 0]

Put1(o) ==
  /\ pc' = "R_Header"
  /\ LET h == TLCEval(EncHead(o.cfg) \o ORes(o))
         s == TLCEval(OSection(o))
         e1 == Len(h)  e2 == Len(h) + Len(s)  e3 == e2 + Len(o.merged)
     IN /\ o.cut < e3 /\ bytes' = IF o.cut < 0 THEN h \o s \o o.merged ELSE SubSeq(h \o s \o o.merged, 1, o.cut)
        /\ r' = [endRes |-> e1, endLay |-> e2, endAll |-> e3,
                 secEnd |-> 0, liEnd |-> 0, nl |-> 0, i |-> 0, j |-> 0, infoEnd |-> 0, back |-> "", lays |-> <<>>, fromMain |-> FALSE]
  /\ doc' = o
  /\ got' = [cfg |-> NullCfg, layers |-> <<>>, infos |-> <<>>, merged |-> <<>>, status |-> "running", cfgRead |-> 0, layRead |-> 0]
  /\ pos' = 0
  /\ UNCHANGED <<left, damage>>

(* section dividers: in a plain layer, in a group's closing mark, in its header *)
DivData(typ, n, good) ==
  SubSeq(U32(typ) \o (IF good THEN SigOK ELSE SigBad) \o Mode8 \o U32(1) \o Zeros(8), 1, n)
WDivider ==
  \E psb \in BOOLEAN, key \in {Lsct, Lsdk}, n \in Lens(0..20, {0, 1, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20}), typ \in 0..4, good \in BOOLEAN, place \in {"single", "mark", "head"} :
    LET d == DivData(typ, n, good)
        b == Blk(key, d)
        fits == CASE place = "single" -> typ = 0 [] place = "mark" -> typ = 3 [] OTHER -> typ \in {1, 2}
        want == CASE n < 4 -> "noise"
                  [] n >= 12 /\ ~good -> "reject"
                  [] typ = 4 -> "noise"
                  [] ~fits -> "reject"           \* groups that are not closed, or not opened
                  [] n \in {4, 12, 16} -> "accept"
                  [] OTHER -> "lenient"
        one == [BaseRec EXCEPT !.infos = b]
        mk == MarkRec(IF place = "mark" THEN b ELSE Blk(Lsct, DivData(3, 12, TRUE)))
        hd == [MarkRec(IF place = "head" THEN b ELSE Blk(Lsct, DivData(1, 12, TRUE))) EXCEPT !.name = <<103>>]
    IN /\ (place # "single" => typ # 0)        \* a plain layer more, harmless
       /\ Put1([OBase(psb) EXCEPT !.what = "divider", !.want = want,
                                  !.recs = IF place = "single" THEN <<one>> ELSE <<mk, BaseRec, hd>>,
                                  !.count = IF place = "single" THEN 1 ELSE 3])

(* Unicode names: a count and as many code units, which may be followed by padding *)
WUnicode ==
  \E psb \in BOOLEAN, n \in Lens(0..14, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14}), c \in {0, 1, 2, 3, 5, 6, 65536, Huge} :
    LET d == SubSeq((IF c = Huge THEN <<255, 255, 255, 255>> ELSE U32(c)) \o U16(65) \o U16(12354) \o U16(66) \o U16(233) \o U16(67), 1, n)
        want == CASE n = 0 -> "lenient" [] n < 4 -> "reject" [] c > (n - 4) \div 2 -> "reject" [] OTHER -> "accept"
    IN Put1([OBase(psb) EXCEPT !.what = "luni", !.want = want, !.recs = <<[BaseRec EXCEPT !.infos = Blk(Luni, d)]>>])

WClbl ==
  \E psb \in BOOLEAN, n \in 0..5, v \in {0, 1, 255} :
    Put1([OBase(psb) EXCEPT !.what = "clbl", !.want = IF n = 4 THEN "accept" ELSE "lenient",
                            !.recs = <<[BaseRec EXCEPT !.infos = Blk(Clbl, SubSeq(<<v, 0, 0, 0, 0>>, 1, n))]>>])

(* mask data of every length: what is there is reported, cut fields are not, and what follows is still found; the mask's own channel is there or not *)
WMask ==
  \E psb \in BOOLEAN, n \in 0..60, fl \in {0, 2, 16, 18}, par \in Lens(0..15, {0, 1, 3, 4, 5, 6, 8, 12, 15}), ch \in BOOLEAN :
    LET p(k) == (par \div k) % 2 = 1
        body == Rect4(<<0, 0, 1, 2>>) \o <<255, fl>> \o (IF fl >= 16 THEN <<par>> ELSE <<>>)
                \o (IF fl < 16 THEN <<>> ELSE (IF p(1) THEN <<77>> ELSE <<>>) \o (IF p(2) THEN <<64,9,33,251,84,68,45,24>> ELSE <<>>)
                                      \o (IF p(4) THEN <<88>> ELSE <<>>) \o (IF p(8) THEN <<63,240,0,0,0,0,0,0>> ELSE <<>>))
        full == body \o <<3, 128>> \o Rect4(<<5, 5, 6, 6>>)
        d == SubSeq(full \o Zeros(60), 1, n)
    IN /\ (fl < 16 => par = 0)
       /\ (n < 16 => ~ch)           \* no mask, no channel for it
       /\ Put1([OBase(psb) EXCEPT !.what = "mask", !.want = "accept",
                  !.recs = <<[BaseRec EXCEPT !.mask = d, !.ranges = <<1, 2, 3, 4>>, !.infos = Blk(<<122,122,122,122>>, <<5>>), !.chans = IF ch THEN @ \o <<ChanRaw(-2)>> ELSE @]>>])

(* lists of channels: any order, some missing, some unknown *)
Ids == {-3, -2, -1, 0, 1, 2, 3, 7}
IdLists(n) == UNION { { q \in [1..k -> Ids] : \A a, b \in 1..k : a # b => q[a] # q[b] } : k \in 0..n }
WChannels ==
  \E psb \in BOOLEAN, q \in IdLists(IF Dense THEN 4 ELSE 3) :
    Put1([OBase(psb) EXCEPT !.what = "channels", !.want = IF 3 \in Range(q) \/ 7 \in Range(q) THEN "lenient" ELSE "accept",
            !.recs = <<[BaseRec EXCEPT !.mask = MaskData, !.chans = [i \in 1..Len(q) |-> ChanRaw(q[i])]]>>])

(* the data of one channel: every length, every compression, run-length counts that fit or not *)
WChanData ==
  \E psb \in BOOLEAN, n \in 0..12, comp \in {0, 1, 2, 3, 4, 255, 256}, k \in 0..5, lead \in {0, 1, 2, 128, 129, 255}, id \in {-1, 0, 2} :
    LET body == IF comp = 1 THEN (IF psb THEN U32(k) ELSE U16(k)) \o <<lead, 5, 6, 7, 8, 9, 10, 11, 12>> ELSE <<lead>> \o Ones(12)
        d == SubSeq(U16(comp) \o body, 1, n)
        ch == [i \in 1..4 |-> LET x == BaseRec.chans[i] IN IF x.id = id THEN [x EXCEPT !.data = d] ELSE x]
        rle == DecodePlane(1, SubSeq(d, 3, n), 2, 1, 8, psb)
        want == CASE n < 2 -> "noise"
                  [] n = 2 -> IF comp <= 3 THEN "accept" ELSE "noise"
                  [] comp > 3 -> "reject"
                  [] comp = 0 -> IF n >= 4 THEN "accept" ELSE "reject"
                  [] comp = 1 -> IF rle.ok THEN "accept" ELSE "reject"
                  [] OTHER -> "noise"
    IN /\ (comp # 1 => k = 0 /\ lead \in {0, 120})
       /\ Put1([OBase(psb) EXCEPT !.what = "chandata", !.want = want, !.inimg = TRUE, !.recs = <<[BaseRec EXCEPT !.chans = ch]>>])

(* the same with a compressed plane: the stream is whole, or something is wrong with it *)
BadZip(p, how, k) ==
  LET z == ZlibStored(IF how = "short" THEN <<p[1]>> ELSE IF how = "empty" THEN <<>> ELSE IF how = "long" THEN p \o <<1, 2, 3>> ELSE p, IF how = "split" THEN 1 ELSE 0)
  IN CASE how = "sum" -> [z EXCEPT ![Len(z) - (k % 4)] = (@ + 1) % 256]
       [] how = "nosum" -> SubSeq(z, 1, Len(z) - 1 - (k % 4))
       [] how = "cut" -> SubSeq(z, 1, Min2(k, 6 + Len(p)))           \* one byte of the plane is missing, or more
       [] how = "compl" -> [z EXCEPT ![6 + (k % 2)] = (@ + 1) % 256]
       [] how = "type" -> [z EXCEPT ![3] = 7]
       [] how = "method" -> [z EXCEPT ![1] = 121, ![2] = 26]
       [] how = "check" -> [z EXCEPT ![2] = 2]
       [] how = "huge" -> [z EXCEPT ![4] = 255, ![5] = 255, ![6] = 0, ![7] = 0]
       [] OTHER -> z
ZipHows == {"good", "split", "short", "empty", "long", "sum", "nosum", "cut", "compl", "type", "method", "check", "huge"}
ZipWant(how) == CASE how \in {"good", "split"} -> "accept" [] how \in {"long", "sum", "nosum"} -> "lenient" [] OTHER -> "reject"
WZip ==
  \E psb \in BOOLEAN, comp \in {2, 3}, id \in {-2, -1, 0, 2}, k \in 0..9, how \in ZipHows :
    LET plane == IF id = -2 THEN <<9, 8>> ELSE <<(k * 29) % 256, 17>>
        p == IF comp = 3 THEN Predict(plane, IF id = -2 THEN 1 ELSE 2, 8) ELSE plane
        d == U16(comp) \o BadZip(p, how, k)
        chs == BaseRec.chans \o (IF id = -2 THEN <<ChanRaw(-2)>> ELSE <<>>)
        ch == [i \in 1..Len(chs) |-> IF chs[i].id = id THEN [chs[i] EXCEPT !.data = d] ELSE chs[i]]
    IN /\ (how \notin {"good", "sum", "nosum", "cut", "compl"} => k = 0)
       /\ Put1([OBase(psb) EXCEPT !.what = "zip", !.want = IF how = "cut" /\ k = 0 THEN "noise" ELSE ZipWant(how), !.inimg = TRUE,     \* a channel without data
                  !.recs = <<[BaseRec EXCEPT !.mask = IF id = -2 THEN MaskData ELSE <<>>, !.chans = ch]>>])
WMergedZip ==
  \E psb \in BOOLEAN, comp \in {2, 3}, k \in 0..12, how \in ZipHows \ {"sum", "nosum"} :
    LET p == IF comp = 3 THEN Predict(Ones(6), 2, 8) ELSE Ones(6) IN
    /\ (how \notin {"cut", "compl"} => k = 0)
    /\ Put1([OBase(psb) EXCEPT !.what = "mzip", !.want = ZipWant(how), !.merged = U16(comp) \o BadZip(p, how, k)])
(* run-length rows of the merged image, each right or wrong in one way; rows are independent *)
WMergedRle ==
  \E psb \in BOOLEAN, rows \in [1..3 -> {<<1, 7, 8>>, <<255, 9>>, <<0, 1, 0, 2>>, <<128, 255, 3>>, <<>>, <<0, 4>>, <<2, 1, 2, 3>>, <<254, 5>>, <<1, 6>>, <<255>>, <<1, 7, 8, 0>>}] :
    LET e == RleEncodeRows(rows, psb) IN
    Put1([OBase(psb) EXCEPT !.what = "mrle", !.want = IF \A y \in 1..3 : UnpackRow(rows[y], 2).ok THEN "accept" ELSE "reject", !.merged = U16(1) \o e])

(* a channel whose length does not cover its data, the data itself being fine *)
WChanLen ==
  \E psb \in BOOLEAN, comp \in {0, 1, 2}, id \in {-1, 0, 2}, less \in 1..9 :
    LET c == (CHOOSE i \in 1..4 : BaseRec.chans[i].id = id)
        d == U16(comp) \o EncodePlane(comp, <<7, 7>>, 2, 8, psb, 3)
        n == IF comp = 2 THEN 4 + less ELSE Len(d) - less
    IN /\ n > 2 /\ (comp = 2 => n < 11)
       /\ Put1([OBase(psb) EXCEPT !.what = "chanlen", !.want = "reject", !.inimg = TRUE,
                  !.recs = <<[BaseRec EXCEPT !.chans = [BaseRec.chans EXCEPT ![c].data = d, ![c].len = n]]>>])

(* the length of a record's extra data against what is in it; everything else is where it would be *)
WExtraLen ==
  \E psb \in BOOLEAN, m \in {<<>>, MaskData, <<1, 2, 3, 4>>}, g \in {<<>>, <<1, 2, 3, 4, 5, 6, 7, 8>>}, nm \in {<<>>, <<97, 98>>, <<97, 98, 99>>, <<97, 98, 99, 100>>},
     inf \in {<<>>, Blk(<<122,122,122,122>>, <<5, 6>>)}, ext \in 1..90 :
    LET fixed == 8 + Len(m) + Len(g) + 1 + Len(nm)
        whole == 8 + Len(m) + Len(g) + Len(Padded(Pascal(nm), 4)) + Len(inf)
    IN /\ ext <= whole + 2
       /\ Put1([OBase(psb) EXCEPT !.what = "extlen",
                  !.want = CASE ext = whole -> "accept" [] ext < fixed -> "reject"
                             [] ext > fixed + 3 /\ ext < whole -> "reject"     \* inside the block
                             [] OTHER -> "noise",
                  !.recs = <<[BaseRec EXCEPT !.mask = m, !.ranges = g, !.name = nm, !.infos = inf, !.ext = ext]>>])

(* a file with something of everything, cut after every byte *)
CutDoc(psb, where, comp, rich) ==
  LET cc(x) == [x EXCEPT !.data = U16(comp) \o EncodePlane(comp, SubSeq(@, 3, Len(@)), IF x.id < -1 THEN 1 ELSE 2, 8, psb, 5)]
      l1 == [BaseRec EXCEPT !.mask = MaskData, !.chans = [i \in 1..6 |-> cc((BaseRec.chans \o <<ChanRaw(-2), ChanRaw(-3)>>)[i])],
                            !.ranges = <<1, 2, 3, 4, 5, 6, 7, 8>>, !.infos = Blk(<<122,122,122,122>>, <<5, 6>>) \o Blk(Luni, U32(2) \o U16(65) \o U16(12354))]
      l2 == [BaseRec EXCEPT !.name = <<97, 98, 99, 100>>, !.chans = [i \in 1..4 |-> cc(BaseRec.chans[i])]]
      o == OBase(psb)
  IN [o EXCEPT !.what = "cut", !.want = "reject", !.where = where, !.recs = IF rich THEN <<l1, l2>> ELSE <<l1>>, !.count = IF rich THEN 2 ELSE 65535,
        !.gmask = U32(3) \o <<1, 2, 3>>, !.after = IF rich THEN Blk(<<122,122,122,122>>, <<1, 2, 3, 4>>) ELSE <<>>,
        !.cfg = [@ EXCEPT !.ch = IF rich THEN 4 ELSE 3, !.cmd = IF rich THEN <<1, 2, 3>> ELSE <<>>,
                          !.res = IF rich THEN <<[sig |-> K8BIM, id |-> 1060, name |-> <<97>>, data |-> <<1, 2, 3>>],
                                                 [sig |-> K8BIM, id |-> 1061, name |-> <<>>, data |-> <<4, 5>>]>> ELSE <<>>],
        !.merged = U16(comp) \o EncodePlane(comp, Ones(IF rich THEN 8 ELSE 6), 2, 8, psb, 7)]
WCut ==
  \E psb \in BOOLEAN, where \in {"main", "block"}, comp \in {0, 1}, rich \in BOOLEAN, at \in 0..700 :
    Put1([CutDoc(psb, where, comp, rich) EXCEPT !.cut = at])
WUncut ==
  \E psb \in BOOLEAN, where \in {"main", "block"}, comp \in {0, 1}, rich \in BOOLEAN :
    Put1([CutDoc(psb, where, comp, rich) EXCEPT !.want = "accept"])

(* the lengths of the three outer sections against what is in them *)
WSecLen ==
  \E psb \in BOOLEAN, where \in {"main", "block"}, gm \in {<<>>, U32(3) \o <<1, 2, 3>>, U32(0)}, n \in 0..330 :
    LET o == [OBase(psb) EXCEPT !.where = where, !.gmask = gm, !.what = "seclen"]
        z == IF psb THEN 8 ELSE 4
        li == Len(OInfo(o))
        whole == Len(OSection(o)) - z
        first == IF where = "main" THEN li ELSE z
    IN /\ n <= whole + 9 /\ (where = "block" => gm # <<>>)
       /\ Put1([o EXCEPT !.len.sec = n,
                 !.want = CASE n = whole -> "accept" [] n > 0 /\ n < first -> "reject"
                            [] where = "block" /\ n > z + Len(gm) + 8 /\ n < whole -> "reject"
                            [] n > whole /\ n < whole + 4 -> "reject"     \* bytes of the merged image go missing
                            [] OTHER -> "noise"])
WInfoLen ==
  \E psb \in BOOLEAN, where \in {"main", "block"}, n \in 0..330 :
    LET o == [OBase(psb) EXCEPT !.where = where, !.what = "lilen", !.gmask = IF where = "main" THEN <<>> ELSE U32(0)]
        z == IF psb THEN 8 ELSE 4
        whole == Len(OInfo(o)) - z
    IN /\ n <= whole + 20
       /\ Put1([o EXCEPT !.len.li = n, !.inimg = (n < whole /\ n >= whole - 16), !.want = CASE n = whole -> "accept" [] n = 0 -> "noise" [] OTHER -> "reject"])
WResLen ==
  \E psb \in BOOLEAN, n \in 0..60 :
    LET cfg == [OCfg(psb) EXCEPT !.res = <<[sig |-> K8BIM, id |-> 1060, name |-> <<97>>, data |-> <<1, 2, 3>>], [sig |-> K8BIM, id |-> 1061, name |-> <<>>, data |-> <<4, 5>>]>>]
        whole == Len(EncResSec(cfg)) - 4
        one == Len(EncRes(cfg.res[1]))
    IN /\ n <= whole + 9
       /\ Put1([OBase(psb) EXCEPT !.what = "reslen", !.cfg = cfg, !.len.res = n,
                  !.want = CASE n = whole -> "accept" [] n \in {0, one} \/ n > whole -> "noise" [] OTHER -> "reject"])

(* the number of layers against the layers that are there *)
WCount ==
  \E psb \in BOOLEAN, c \in {0, 1, 2, 3, 300, 32767, 32768, 65535, 65534, 65236} :
    Put1([OBase(psb) EXCEPT !.what = "count", !.count = c,
            !.want = CASE c \in {1, 65535} -> "accept" [] c \in {300, 32767, 32768, 65236} -> "reject" [] OTHER -> "noise"])

(* what follows the layers: padding, a global mask, blocks, a second set of layers *)
WAfter ==
  \E psb \in BOOLEAN, pad \in 0..17, gm \in {"absent", "empty", "data", "long"}, blk \in {"none", "plain", "layers", "second", "wide"} :
    LET g == CASE gm = "absent" -> <<>> [] gm = "empty" -> U32(0) [] gm = "data" -> U32(3) \o <<1, 2, 3>> [] OTHER -> U32(5000) \o <<1, 2, 3>>
        o == OBase(psb)
        b == CASE blk = "plain" -> Blk(<<122,122,122,122>>, <<1, 2, 3>>)
               [] blk = "wide" -> K8BIM \o <<70,77,115,107>> \o ULen(psb, 2) \o <<1, 2>>
               [] blk = "second" -> K8BIM \o LayerBlockKey(8) \o OInfo(o)
               [] OTHER -> <<>>
        lim == IF psb THEN 8 ELSE 4
        want == CASE gm = "long" -> "reject"
                  [] blk = "second" -> IF gm = "absent" THEN "noise" ELSE "reject"
                  [] blk # "none" /\ gm = "absent" -> "noise"
                  [] pad < 4 -> "accept"
                  [] OTHER -> "lenient"
    IN Put1([o EXCEPT !.what = "after", !.want = want, !.gmask = g, !.where = IF blk = "layers" THEN "block" ELSE "main",
                      !.after = b \o Zeros(pad)])

(* a layer inside a layer's additional information *)
WNested ==
  \E psb \in BOOLEAN, key \in LayerBlockKeys, empty \in BOOLEAN, p \in {0, 1} :
    LET in == IF empty THEN ULen(psb, 0) ELSE OInfo([OBase(psb) EXCEPT !.count = p])
    IN Put1([OBase(psb) EXCEPT !.what = "nested", !.want = IF empty \/ p = 0 THEN "noise" ELSE "reject",
               !.recs = <<[BaseRec EXCEPT !.infos = Blk(<<122,122,122,122>>, <<5>>) \o K8BIM \o key \o in]>>])

(* lengths of the resources the decoder looks into, and of the colour table *)
WResource ==
  \E psb \in BOOLEAN, id \in {1047, 1053}, n \in 0..9, v \in {0, 1, 255}, md \in {<<RGB, 3>>, <<RGB, 4>>, <<INDEXED, 1>>, <<INDEXED, 2>>, <<GRAY, 2>>} :
    Put1([OBase(psb) EXCEPT !.what = "resource", !.want = "noise", !.recs = <<>>, !.count = 0,
            !.cfg = [@ EXCEPT !.mode = md[1], !.ch = md[2], !.cmd = IF md[1] = INDEXED THEN Ones(768) ELSE <<>>,
                              !.res = <<[sig |-> K8BIM, id |-> id, name |-> <<>>, data |-> [i \in 1..n |-> IF i % 2 = 0 THEN v ELSE 0]]>>],
            !.merged = U16(0) \o Ones(2 * md[2])])
WTable ==
  \E psb \in BOOLEAN, n \in Lens(0..20 \cup {255, 256, 257, 511, 512, 513, 764, 765, 766, 767, 768, 769, 770, 1024, 1536}, {0, 1, 2, 3, 255, 256, 257, 765, 766, 767, 768, 769, 1024}),
     ch \in {1, 2}, tr \in {-1, 0, 1, 255, 256, 65535} :
    Put1([OBase(psb) EXCEPT !.what = "table", !.want = "noise", !.recs = <<>>, !.count = 0,
            !.cfg = [@ EXCEPT !.mode = INDEXED, !.ch = ch, !.cmd = Ones(n),
                              !.res = IF tr < 0 THEN <<>> ELSE <<[sig |-> K8BIM, id |-> 1047, name |-> <<>>, data |-> U16(tr)]>>],
            !.merged = U16(0) \o <<200, 255>> \o Ones(2 * (ch - 1))])
(* every color mode with every depth and several channel counts, with and without a layer *)
WModes ==
  \E psb \in BOOLEAN, m \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255, 65535}, d \in {1, 8, 16, 32}, ch \in {1, 2, 3, 4, 5, 6, 56}, lay \in BOOLEAN :
    LET rb == RowBytes(2, d) IN
    Put1([OBase(psb) EXCEPT !.what = "modes",
            !.want = IF ~lay /\ <<m, d>> \in Range(AllModes) /\ m # INDEXED /\ ch >= NumColor(m) THEN "accept" ELSE "noise",
            !.recs = IF lay THEN <<[BaseRec EXCEPT !.chans = [i \in 1..3 |-> [id |-> i - 2, len |-> -1, data |-> U16(0) \o Ones(rb)]]]>> ELSE <<>>,
            !.count = IF lay THEN 1 ELSE 0,
            !.cfg = [@ EXCEPT !.mode = IF m = 65535 THEN -1 ELSE m, !.depth = d, !.ch = ch, !.cmd = IF m = INDEXED THEN Ones(768) ELSE <<>>],
            !.merged = U16(0) \o Ones(rb * ch)])

OWrite == pc = "O_Write" /\ (WDivider \/ WUnicode \/ WClbl \/ WMask \/ WChannels \/ WChanData \/ WZip \/ WMergedZip \/ WMergedRle \/ WChanLen \/ WExtraLen \/ WCut \/ WUncut \/ WCount \/ WAfter \/ WNested \/ WResource \/ WTable \/ WModes \/ WSecLen \/ WInfoLen \/ WResLen)
ONext == OWrite \/ RHeader \/ RResLen \/ RRes \/ RSecLen \/ RLayerInfo \/ RRec \/ RExtra \/ RMask \/ RRanges \/ RName
         \/ RRecInfos \/ RRecEnd \/ RChan \/ RLayerInfoEnd \/ RGlobal \/ RInfosQ \/ RInfos \/ RSecPad \/ RSecDone \/ RMerged \/ Finish
OSpec == OInit /\ [][ONext]_ovars

(* ---------------------------------------------------- what was understood *)
DivOf(l) == LET a == InfoOf(l.infos, Lsct) IN IF \E i \in 1..Len(l.infos) : l.infos[i].key = Lsct THEN a ELSE InfoOf(l.infos, Lsdk)
HasDiv(l) == \E i \in 1..Len(l.infos) : l.infos[i].key \in {Lsct, Lsdk}
LType(l) == IF HasDiv(l) /\ Len(DivOf(l)) >= 4 THEN RU32(DivOf(l), 1) ELSE 0
DivBad(l) == HasDiv(l) /\ (Len(DivOf(l)) < 4 \/ (Len(DivOf(l)) >= 12 /\ Sub(DivOf(l), 5, 4) # SigOK))
LuniOf(l) == InfoOf(l.infos, Luni)
LuniBad(l) == LET d == LuniOf(l) IN Len(d) > 0 /\ (Len(d) < 4 \/ RU32(d, 1) > (Len(d) - 4) \div 2)
(* groups: a mark (type 3) opens, a header (type 1 or 2) closes *)
RECURSIVE Balanced(_, _, _)
Balanced(ls, i, open) == IF i > Len(ls) THEN open = 0
                         ELSE LET t == LType(ls[i]) IN
                              IF t = 3 THEN Balanced(ls, i + 1, open + 1)
                              ELSE IF t \in {1, 2} THEN open > 0 /\ Balanced(ls, i + 1, open - 1)
                              ELSE Balanced(ls, i + 1, open)
Understood == /\ got.status = "ok"
              /\ \A i \in 1..Len(got.layers) : ~DivBad(got.layers[i]) /\ ~LuniBad(got.layers[i])
              /\ Balanced(got.layers, 1, 0)
Over == pc = "Done"
(* the writer's view and the reader's do not contradict each other *)
Agree == Over => /\ doc.want = "accept" => Understood
                 /\ doc.want = "reject" => ~Understood
                 /\ doc.want = "lenient" /\ doc.what # "after" => Understood

(* ------------------------------------------------------------- emission *)
LeafOut(l, seq) ==
  LET d == DivOf(l)  u == LuniOf(l)  c == InfoOf(l.infos, Clbl)
      chan(id) == SelectSeq(l.chans, LAMBDA x : x.id = id)
      full == \A i \in 0..2 : chan(i) # <<>>
      alpha == chan(-1) # <<>>
      planes == [i \in 1..3 |-> chan(i - 1)[1].plane] \o (IF alpha THEN <<chan(-1)[1].plane>> ELSE <<>>)
  IN [seq |-> seq, rect |-> l.rect, bm |-> l.bm, op |-> l.op, clip |-> l.clip # 0, flags |-> l.flags, mask |-> l.mask, mbcs |-> l.name,
      hasuni |-> Len(u) > 0, units |-> IF Len(u) > 0 THEN [i \in 1..RU32(u, 1) |-> RU16(u, 3 + 2 * i)] ELSE <<>>,
      bce |-> IF c = <<>> THEN TRUE ELSE c[1] # 0,
      stype |-> LType(l), sbm |-> IF Len(d) >= 12 THEN Sub(d, 9, 4) ELSE l.bm, ssub |-> IF Len(d) >= 16 THEN RU32(d, 13) ELSE 0,
      infos |-> OtherInfos(l.infos),
      chans |-> [j \in 1..Len(l.chans) |-> [id |-> l.chans[j].id, plane |-> l.chans[j].plane, comp |-> 0, rect |-> ChanRect(l, l.chans[j].id)]],
      model |-> "NRGBA", pix |-> IF full /\ got.cfg.mode = RGB /\ got.cfg.depth = 8 THEN Pix(planes, RW(l.rect), RH(l.rect), RGB, 8, alpha) ELSE <<>>,
      kids |-> <<>>]
OLayers == IF Len(got.layers) < 3 THEN [i \in 1..Len(got.layers) |-> LeafOut(got.layers[i], i - 1)]
           ELSE <<[LeafOut(got.layers[3], 2) EXCEPT !.kids = <<LeafOut(got.layers[2], 1)>>]>>
OKind == CASE doc.what = "cut" /\ doc.cut >= 0 -> "trunc" [] doc.want = "accept" -> "none" [] doc.want = "reject" -> "viol" [] doc.want = "lenient" /\ Understood -> "lenient" [] OTHER -> "noise"
OCase ==
  LET k == OKind
      base == [kind |-> k, what |-> doc.what, at |-> IF k = "trunc" THEN doc.cut ELSE IF doc.what = "reslen" THEN r.endRes ELSE IF doc.what \in {"mzip", "mrle"} \/ (doc.what = "seclen" /\ doc.len.sec > r.endLay - r.endRes - (IF doc.cfg.psb THEN 8 ELSE 4)) THEN r.endLay + 1 ELSE r.endLay, soft |-> FALSE, inimg |-> doc.inimg, b |-> bytes, focus |-> "odd",
               endRes |-> r.endRes, endLay |-> r.endLay, endAll |-> r.endAll]
  IN IF k \in {"viol", "noise", "trunc"} THEN base
     ELSE base @@ [cfg |-> CfgOut(doc.cfg), layers |-> OLayers, infos |-> [i \in 1..Len(got.infos) |-> [key |-> got.infos[i].key, data |-> got.infos[i].data]],
                   mcomp |-> RU16(doc.merged, 1),
                   mpix |-> LET al == HasAlpha(doc.cfg)  rb == RowBytes(doc.cfg.w, doc.cfg.depth)  n == NumColor(doc.cfg.mode) IN
                            Pix([i \in 1..(IF al THEN n + 1 ELSE n) |-> SubSeq(got.merged, (i - 1) * rb * doc.cfg.h + 1, i * rb * doc.cfg.h)],
                                doc.cfg.w, doc.cfg.h, doc.cfg.mode, doc.cfg.depth, al),
                   merged |-> LET n == Len(got.merged) \div got.cfg.ch IN [c \in 1..got.cfg.ch |-> SubSeq(got.merged, (c - 1) * n + 1, c * n)]]
OEmit == Over => PrintT("@@" \o ToJson(OCase))
OBrief == [pc |-> pc, pos |-> pos, what |-> IF pc = "O_Write" THEN "" ELSE doc.what, want |-> IF pc = "O_Write" THEN "" ELSE doc.want,
           len |-> Len(bytes), b |-> bytes]
=============================================================================
