----------------------------- MODULE LayerTree -----------------------------
(* How the flat list of layer records becomes a tree.  Records arrive bottom *)
(* to top; a section divider of type 3 opens a group (its hidden lower       *)
(* bound), a record of type 1 (open) or 2 (closed) is the group itself and   *)
(* closes it; everything else is a leaf.  One action per record.             *)
EXTENDS Bytes, Json
CONSTANTS MaxLen, Large,
          MinLen   \* long walks (simulation): stay structurally sound until this length
VARIABLES types, stack, cur, status
vars == <<types, stack, cur, status>>

Init == types = <<>> /\ stack = <<>> /\ cur = <<>> /\ status = "run"
Id == Len(types)               \* SeqID of the record about to be added
Node(k, kids) == [id |-> Id, type |-> k, kids |-> kids]
May == status = "run" /\ Len(types) < MaxLen
Leaf  == May /\ cur' = Append(cur, Node(0, <<>>)) /\ types' = Append(types, 0) /\ UNCHANGED <<stack, status>>
Bound == May /\ stack' = Append(stack, cur) /\ cur' = <<>> /\ types' = Append(types, 3) /\ UNCHANGED status
Group(k) == /\ May /\ (stack # <<>> \/ MinLen = 0 \/ (Len(types) > MinLen /\ Len(types) % 29 = 28))
            /\ types' = Append(types, k)
            /\ IF stack = <<>> THEN status' = "reject" /\ UNCHANGED <<stack, cur>>
               ELSE /\ cur' = Append(stack[Len(stack)], Node(k, cur))
                    /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED status
GroupOpen == Group(1)
GroupClosed == Group(2)
Stop == /\ status = "run" /\ (MinLen = 0 \/ Len(types) = MaxLen \/ (Len(types) >= MinLen /\ Len(types) % 13 = 0 /\ stack = <<>>))
        /\ status' = IF stack = <<>> THEN "ok" ELSE "reject"
        /\ UNCHANGED <<types, stack, cur>>
\* Bound twice: simulation picks a disjunct at random, and groups should nest
Next == Leaf \/ Bound \/ Bound \/ GroupOpen \/ GroupClosed \/ Stop
Spec == Init /\ [][Next]_vars

RECURSIVE Ids(_)
Ids(t) == Cat([i \in 1..Len(t) |-> Append(Ids(t[i].kids), t[i].id)])
Shown == Cat([i \in 1..Len(stack) |-> Ids(stack[i])]) \o Ids(cur)
RECURSIVE Nested(_)
Nested(t) == \A i \in 1..Len(t) : (t[i].type \in {1, 2} \/ t[i].kids = <<>>) /\ Nested(t[i].kids)
(* no record is lost, duplicated or reordered; hidden bounds never appear *)
Complete == status # "reject" => Shown = SelectSeq([i \in 1..Len(types) |-> i - 1], LAMBDA i : types[i + 1] # 3)
Shape    == Nested(cur)
Balanced == LET n(k) == Len(SelectSeq(types, LAMBDA t : t \in k)) IN status = "ok" => n({3}) = n({1, 2})

(* -------------------------------------------------------- as file bytes *)
K8BIM == <<56,66,73,77>>
Norm == <<110,111,114,109>>
Pass == <<112,97,115,115>>
Key(i) == IF i % 4 = 3 THEN <<108,115,100,107>> ELSE <<108,115,99,116>>
SD(t, i) == U32(t) \o (CASE i % 3 = 0 -> <<>> [] i % 3 = 1 -> K8BIM \o Pass [] OTHER -> K8BIM \o Pass \o U32(1))
Extra(t, i) == LET d == SD(t, i)
                   b == U32(0) \o U32(0) \o <<1, i % 256, 0, 0>> \o
                        (IF t = 0 /\ i % 2 = 0 THEN <<>> ELSE K8BIM \o Key(i) \o U32(Len(d)) \o d)
               IN U32(Len(b)) \o b
Rec(t, i) == Zeros(16) \o U16(0) \o K8BIM \o Norm \o <<255, 0, 0, 0>> \o Extra(t, i)
Recs == Cat([i \in 1..Len(types) |-> Rec(types[i], i - 1)])
LInfo == LET b == U16(Len(types)) \o Recs IN ULen(Large, Len(b)) \o b
File == <<56,66,80,83>> \o U16(IF Large THEN 2 ELSE 1) \o Zeros(6) \o U16(3) \o U32(1) \o U32(1) \o U16(8) \o U16(3)
        \o U32(0) \o U32(0) \o ULen(Large, Len(LInfo)) \o LInfo \o U16(0) \o <<1, 2, 3>>
Emit == status # "run" => PrintT("@@" \o ToJson([types |-> types, ok |-> status = "ok", tree |-> IF status = "ok" THEN cur ELSE <<>>, b |-> File]))
=============================================================================
