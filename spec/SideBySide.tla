----------------------------- MODULE SideBySide -----------------------------
(* Several goroutines at work on documents, trees and images.  An operation *)
(* begins, reads what it works on while others come and go, and ends with a *)
(* new object or a result.  Edits of a tree need it for themselves; all the *)
(* rest may overlap in any way.  The promise: every operation gives what it *)
(* gives alone.  Each behaviour is a schedule of beginnings and endings,    *)
(* which is replayed with real goroutines.                                  *)
EXTENDS Scene, Json, FiniteSets

CONSTANTS MaxEv,       \* events in a schedule
          MaxRun,      \* operations that overlap
          Exclusive    \* self-test: FALSE lets edits overlap with everything

VARIABLES phase, docs, obj, run, hist, res, next
vars == <<phase, docs, obj, run, hist, res, next>>
(* obj  : the objects so far: [k : "doc" | "tree" | "img", doc, set, ver]     *)
(* run  : the running operations: [id, op, on, ver, set, saw]                 *)
(* res  : what the finished operations saw: [id, saw, alone]                  *)
(* next : number of the next operation                                       *)

Init == phase = "start" /\ docs = <<>> /\ obj = <<>> /\ run = {} /\ hist = <<>> /\ res = {} /\ next = 1

Make == /\ phase = "start"
        /\ \E s \in {RandomElement(Seeds)} : \E s2 \in {RandomElement(Seeds)} : \E d1 \in {TreeDoc(s)} : \E d2 \in {TreeDoc(s2)} :
             /\ docs' = <<d1, d2>>
             /\ obj' = <<[k |-> "doc", doc |-> 1, set |-> <<>>, ver |-> 1], [k |-> "doc", doc |-> 2, set |-> <<>>, ver |-> 1],
                         [k |-> "tree", doc |-> 1, set |-> Settings(d1), ver |-> 1]>>
        /\ phase' = "go" /\ UNCHANGED <<run, hist, res, next>>

Drawers == AllModes \o <<"Clear", "Copy", "Dest", "SrcOver", "DestOver", "SrcIn", "DestIn", "SrcOut", "DestOut", "SrcAtop", "DestAtop", "XOR">>
Of(k) == {i \in 1..Len(obj) : obj[i].k = k}
OpsOf(k) == CASE k = "doc" -> <<"decode", "decode", "config", "new">>
              [] k = "tree" -> <<"render", "render", "render", "clone", "thumb", "thumbs", "sheet", "move">>
              [] OTHER -> <<"draw", "draw", "fade">>
Busy(i) == \E r \in run : r.on = i
More == Len(hist) < MaxEv

Begin ==
  /\ phase = "go" /\ More /\ Cardinality(run) < MaxRun
  /\ \E s \in {RandomElement(Seeds)} : \E kind \in {PickSeq(<<"doc", "tree", "tree", "tree", "img">>, s, 1)} :
     /\ Of(kind) # {}
     /\ \E i \in {Pick(Of(kind), s, 2)} : \E o \in {PickSeq(OpsOf(kind), s, 3)} :
        LET d == docs[obj[i].doc]
            y == Mix(s, 4) % d.h
            m == PickSeq(Drawers, s, 5)
            row == IF o = "render" THEN T([x \in 1..d.w |-> T(Pre(PixelAt(d, obj[i].set, x - 1, y)))]) ELSE <<>>
        IN  /\ run' = run \cup {[id |-> next, op |-> o, on |-> i, ver |-> obj[i].ver, set |-> obj[i].set, saw |-> 0]}
            /\ hist' = Append(hist, [ev |-> "begin", id |-> next, op |-> o, on |-> i, y |-> y, row |-> row, mode |-> m, seed |-> s])
            /\ next' = next + 1
  /\ UNCHANGED <<phase, docs, obj, res>>
(* somewhere between its beginning and its end an operation looks at its object *)
Look == /\ phase = "go" /\ \E r \in run : r.saw = 0 /\ run' = (run \ {r}) \cup {[r EXCEPT !.saw = obj[r.on].ver]}
        /\ UNCHANGED <<phase, docs, obj, hist, res, next>>
Makes(o) == CASE o \in {"new", "clone"} -> "tree" [] o \in {"render", "draw"} -> "img" [] OTHER -> ""
End ==
  /\ phase = "go"
  /\ \E r \in {r \in run : r.saw # 0} :
       /\ run' = run \ {r}
       /\ res' = res \cup {[id |-> r.id, saw |-> r.saw, alone |-> r.ver]}
       /\ LET k == Makes(r.op) IN
          /\ obj' = IF k = "" THEN obj
                    ELSE Append(obj, [k |-> k, doc |-> obj[r.on].doc, ver |-> 1,
                                      set |-> IF r.op = "new" THEN Settings(docs[obj[r.on].doc]) ELSE r.set])
          /\ hist' = Append(hist, [ev |-> "end", id |-> r.id, makes |-> IF k = "" THEN 0 ELSE Len(obj) + 1])
  /\ UNCHANGED <<phase, docs, next>>
Edit ==
  /\ phase = "go" /\ More
  /\ \E s \in {RandomElement(Seeds)} : \E i \in {Pick(Of("tree"), s, 2)} :
     /\ Exclusive => ~Busy(i)
     /\ LET d == docs[obj[i].doc]
            n == 1 + (Mix(s, 6) % d.n)
            f == PickSeq(<<"vis", "op">>, s, 7)
            v == PickSeq(<<255, 128, 200, 64, 0>>, s, 8)
            vis == ~obj[i].set.vis[n]
        IN  /\ obj' = [obj EXCEPT ![i].ver = @ + 1, ![i].set = IF f = "vis" THEN [@ EXCEPT !.vis[n] = vis] ELSE [@ EXCEPT !.op[n] = v]]
            /\ hist' = Append(hist, IF f = "vis" THEN [ev |-> "edit", on |-> i, node |-> n, f |-> f, b |-> vis, v |-> 0]
                                    ELSE [ev |-> "edit", on |-> i, node |-> n, f |-> f, b |-> FALSE, v |-> v])
  /\ UNCHANGED <<phase, docs, run, res, next>>
Emit == /\ phase = "go" /\ ~More /\ run = {}
        /\ PrintT("@@" \o ToJson([side |-> hist, docs |-> docs, tile |-> PickSeq(<<0, 2, 3, 5, 8>>, next, 1)]))
        /\ phase' = "end" /\ UNCHANGED <<docs, obj, run, hist, res, next>>
Next == Make \/ Begin \/ Look \/ End \/ Edit \/ Emit
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- promises *)
Alone == \A x \in res : x.saw = x.alone
Steady == \A r \in run : obj[r.on].ver = r.ver
Overlap == Cardinality(run) <= MaxRun
View == <<phase, obj, run, Len(hist), res>>
=============================================================================
