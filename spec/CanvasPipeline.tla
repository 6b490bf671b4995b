--------------------------- MODULE CanvasPipeline ---------------------------
(* Building a tree: the decoder hands every layer to one of several workers *)
(* over a channel without buffer; the caller may cancel at any time; the    *)
(* input may fail.  Promised: the call returns (no deadlock, and under fair *)
(* scheduling it gets there), and it returns a tree only if every layer is  *)
(* in it.  Emits, for every way a run can end, a plan for the real code.    *)
EXTENDS Scene, Json, FiniteSets

CONSTANTS MaxLayers, MaxWorkers,
          Lossy      \* self-test: "none", "send" (hand over without watching the cancellation), "last" (no look at the cancellation at the end)

VARIABLES nL, nW,        \* layers, workers
          next,        \* layer the decoder hands over next
          dec,         \* "read", "send", "closed", "failed"
          wk,          \* per worker: 0 waiting for a layer, l > 0 converting layer l, -1 returned
          stored,      \* layers converted and kept
          cancelled, when,
          failAt,      \* the layer before which the input fails, 0: it does not
          res          \* "none", "tree", "error"
vars == <<nL, nW, next, dec, wk, stored, cancelled, when, failAt, res>>

Init == /\ nL \in 0..MaxLayers /\ nW \in 1..MaxWorkers /\ failAt \in 0..nL
        /\ next = 1 /\ dec = "read" /\ wk = [w \in 1..nW |-> 0] /\ stored = {} /\ cancelled = FALSE /\ when = <<"never", 0>> /\ res = "none"

Cancel == /\ ~cancelled /\ res = "none"
          /\ cancelled' = TRUE /\ when' = <<dec, next>>
          /\ UNCHANGED <<nL, nW, next, dec, wk, stored, failAt, res>>
Read == /\ dec = "read"
        /\ dec' = IF next > nL THEN "closed" ELSE IF next = failAt THEN "failed" ELSE "send"
        /\ UNCHANGED <<nL, nW, next, wk, stored, cancelled, when, failAt, res>>
HandOver(w) == /\ dec = "send" /\ wk[w] = 0
               /\ wk' = [wk EXCEPT ![w] = next] /\ next' = next + 1 /\ dec' = "read"
               /\ UNCHANGED <<nL, nW, stored, cancelled, when, failAt, res>>
Skip == /\ dec = "send" /\ cancelled /\ Lossy # "send"
        /\ next' = next + 1 /\ dec' = "read"
        /\ UNCHANGED <<nL, nW, wk, stored, cancelled, when, failAt, res>>
Store(w) == /\ wk[w] > 0
            /\ stored' = stored \cup {wk[w]} /\ wk' = [wk EXCEPT ![w] = 0]
            /\ UNCHANGED <<nL, nW, next, dec, cancelled, when, failAt, res>>
GiveUp(w) == /\ wk[w] > 0 /\ cancelled                       \* the conversion is cancelled, its worker returns
             /\ wk' = [wk EXCEPT ![w] = -1]
             /\ UNCHANGED <<nL, nW, next, dec, stored, cancelled, when, failAt, res>>
Leave(w) == /\ wk[w] = 0 /\ dec \in {"closed", "failed"}
            /\ wk' = [wk EXCEPT ![w] = -1]
            /\ UNCHANGED <<nL, nW, next, dec, stored, cancelled, when, failAt, res>>
AllLeft == \A w \in 1..nW : wk[w] = -1
Return == /\ res = "none"
          /\ \/ dec = "failed" /\ res' = "error"
             \/ dec = "closed" /\ AllLeft /\ cancelled /\ Lossy # "last" /\ res' = "error"
             \/ dec = "closed" /\ AllLeft /\ cancelled /\ Lossy = "last" /\ res' \in {"error", "tree"}
             \/ dec = "closed" /\ AllLeft /\ ~cancelled /\ res' = "tree"
          /\ PrintT("@@" \o ToJson([plan |-> [layers |-> nL, workers |-> nW, cancelled |-> cancelled, at |-> when[1], k |-> when[2], fail |-> failAt, res |-> res'],
                                    doc |-> TreeDoc(1 + ((nL * 7 + nW * 3 + when[2] * 11 + Cardinality(stored) * 5) % 50))]))
          /\ UNCHANGED <<nL, nW, next, dec, wk, stored, cancelled, when, failAt>>
Done == res # "none" /\ UNCHANGED vars
Work == Read \/ Skip \/ Return \/ \E w \in 1..nW : HandOver(w) \/ Store(w) \/ GiveUp(w) \/ Leave(w)
Next == Cancel \/ Work \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

Complete == res = "tree" => stored = 1..nL
Honest == (res = "error") => (cancelled \/ failAt > 0)
Returns == <>(res # "none")
=============================================================================
