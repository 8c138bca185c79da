------------------------------- MODULE MC_Queue -------------------------------
(* The queue as queue.c keeps it - storage, front, rear, size - refines the bounded FIFO of
   BoundedQueue.tla, for every history.  Also emits its transitions for the test tours.        *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxCap, Tokens

VARIABLES cap, front, rear, size, store, act
conc == <<cap, front, rear, size, store>>

Nil == 0
Items == [k \in 1..size |-> <<store[(front + k - 1) % cap]>>]
Abs == INSTANCE BoundedQueue WITH qs <- (1 :> [cap |-> cap, esz |-> 1, items |-> Items])

Init == /\ cap \in 1..MaxCap
        /\ front = 0 /\ rear = cap - 1 /\ size = 0
        /\ store = [k \in 0..(cap - 1) |-> Nil]
        /\ act = [op |-> "init", t |-> 0, nil |-> 0, ret |-> TRUE, out |-> <<>>]

Lbl(op, t, nil, ret, out) == act' = [op |-> op, t |-> t, nil |-> nil, ret |-> ret, out |-> out]

\* nil: 0 both pointers given, 1 no element, 2 no queue
Enq(t, nil) ==
    LET ok == nil = 0 /\ size # cap
        r == (rear + 1) % cap
    IN /\ IF ok THEN store' = [store EXCEPT ![r] = t] /\ rear' = r /\ size' = size + 1
          ELSE UNCHANGED <<store, rear, size>>
       /\ UNCHANGED <<cap, front>>
       /\ Lbl("enq", t, nil, ok, <<>>)
Deq(nil) ==
    LET ok == nil = 0 /\ size # 0
    IN /\ IF ok THEN front' = (front + 1) % cap /\ size' = size - 1 ELSE UNCHANGED <<front, size>>
       /\ UNCHANGED <<cap, rear, store>>
       /\ Lbl("deq", 0, nil, ok, IF ok THEN <<store[front]>> ELSE <<Nil>>)
Peek(op, at, nil) ==
    LET ok == nil = 0 /\ size # 0
    IN UNCHANGED conc /\ Lbl(op, 0, nil, ok, IF ok THEN <<store[at]>> ELSE <<Nil>>)
Stat == UNCHANGED conc /\ Lbl("stat", 0, 0, TRUE, <<IF size = cap THEN 1 ELSE 0, IF size = 0 THEN 1 ELSE 0>>)
BadInit == UNCHANGED conc /\ Lbl("badinit", 0, 0, FALSE, <<>>)

Next == \/ \E t \in Tokens, nil \in 0..2 : Enq(t, nil)
        \/ \E nil \in 0..2 : Deq(nil) \/ Peek("front", front, nil) \/ Peek("rear", rear, nil)
        \/ Stat \/ BadInit

Spec == Init /\ [][Next]_<<conc, act>>

\* each concrete call is the abstract call of the same name with the same outcome
Id(a) == IF a.nil = 2 THEN -1 ELSE 1
AbsCall(a) ==
    CASE a.op = "enq"   -> Abs!QEnq(Id(a), a.nil = 1, <<a.t>>, a.ret)
      [] a.op = "deq"   -> Abs!QDeq(Id(a), a.nil = 1, Nil, a.out, a.ret)
      [] a.op = "front" -> Abs!QFront(Id(a), a.nil = 1, Nil, a.out, a.ret) /\ UNCHANGED Items
      [] a.op = "rear"  -> Abs!QRear(Id(a), a.nil = 1, Nil, a.out, a.ret) /\ UNCHANGED Items
      [] a.op = "stat"  -> Abs!QStat(1, a.out[1] = 1, a.out[2] = 1) /\ UNCHANGED Items
      [] a.op = "badinit" -> Abs!QInit(1, 0, 1, TRUE, a.ret)
Refines == [][AbsCall(act')]_<<conc, act>>

IndexOK == /\ front \in 0..(cap - 1) /\ rear \in 0..(cap - 1) /\ size \in 0..cap
           /\ rear = (front + size + cap - 1) % cap
TypeOK == Abs!QTypeOK

View == conc
Emit == PrintT("EDGE " \o ToJson([s |-> <<cap, front, size>>, a |-> <<act'.op, act'.nil>>, t |-> <<cap', front', size'>>]))
=============================================================================
