------------------------------ MODULE RingProof ------------------------------
(* Unbounded: for every capacity, element domain and history the ring of queue.c is a bounded FIFO list.
   Wrap(a) is a % cap for the indices that occur (0 .. 2 cap - 1).                              *)
EXTENDS Integers, Sequences, TLAPS

CONSTANTS cap, Elem
ASSUME Cap == cap \in Nat /\ cap > 0

VARIABLES front, rear, size, store

Wrap(a) == IF a < cap THEN a ELSE a - cap
At(st, f, k) == st[Wrap(f + k - 1)]
Item(k) == At(store, front, k)                   \* the k-th oldest element

Inv == /\ front \in 0..(cap - 1) /\ rear \in 0..(cap - 1) /\ size \in 0..cap
       /\ rear = (IF front + size = 0 THEN cap - 1 ELSE Wrap(front + size - 1))
       /\ store \in [0..(cap - 1) -> Elem]

Init == /\ front = 0 /\ rear = cap - 1 /\ size = 0
        /\ store \in [0..(cap - 1) -> Elem]
Enq(t) == /\ size # cap
          /\ store' = [store EXCEPT ![Wrap(rear + 1)] = t]
          /\ rear' = Wrap(rear + 1) /\ size' = size + 1
          /\ UNCHANGED front
Deq == /\ size # 0
       /\ front' = Wrap(front + 1) /\ size' = size - 1
       /\ UNCHANGED <<rear, store>>
Next == (\E t \in Elem : Enq(t)) \/ Deq
vars == <<front, rear, size, store>>
Spec == Init /\ [][Next]_vars

THEOREM InvHolds == Spec => []Inv
<1>1. Init => Inv
  BY Cap DEF Init, Inv, Wrap
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. ASSUME NEW t \in Elem, Enq(t) PROVE Inv'
    <3>1. /\ front' \in 0..(cap - 1) /\ rear' \in 0..(cap - 1) /\ size' \in 0..cap
      BY <2>1, Cap DEF Inv, Enq, Wrap
    <3>2. rear' = (IF front' + size' = 0 THEN cap - 1 ELSE Wrap(front' + size' - 1))
      BY <2>1, Cap DEF Inv, Enq, Wrap
    <3>3. store' \in [0..(cap - 1) -> Elem]
      BY <2>1, Cap DEF Inv, Enq, Wrap
    <3>4. QED BY <3>1, <3>2, <3>3 DEF Inv, Wrap
  <2>2. ASSUME Deq PROVE Inv'
    <3>1. CASE front = cap - 1
      <4>1. front' = 0 /\ size' = size - 1 /\ rear' = rear /\ store' = store
        BY <2>2, <3>1, Cap DEF Inv, Deq, Wrap
      <4>2. size' \in 0..cap /\ rear = (IF size' = 0 THEN cap - 1 ELSE size' - 1)
        BY <2>2, <3>1, <4>1, Cap DEF Inv, Deq, Wrap
      <4>3. QED BY <4>1, <4>2, Cap DEF Inv, Wrap
    <3>2. CASE front # cap - 1
      <4>1. front' = front + 1 /\ size' = size - 1 /\ rear' = rear /\ store' = store
        BY <2>2, <3>2, Cap DEF Inv, Deq, Wrap
      <4>2. front' + size' = front + size /\ size' \in 0..cap /\ front' \in 0..(cap - 1)
        BY <2>2, <3>2, <4>1, Cap DEF Inv, Deq, Wrap
      <4>3. QED BY <4>1, <4>2, Cap DEF Inv, Wrap
    <3>3. QED BY <3>1, <3>2
  <2>3. ASSUME UNCHANGED vars PROVE Inv'
    BY <2>3 DEF Inv, vars, Wrap
  <2>4. QED BY <2>1, <2>2, <2>3 DEF Next
<1>3. QED BY <1>1, <1>2, PTL DEF Spec

(* what a caller sees: enqueue appends, dequeue drops the first, nothing else moves *)
THEOREM EnqAppends == ASSUME Inv, NEW t \in Elem, Enq(t)
                      PROVE /\ \A k \in 1..size : At(store', front', k) = Item(k)
                            /\ At(store', front', size') = t
  BY Cap DEF Inv, Enq, Wrap, Item, At
THEOREM DeqDrops == ASSUME Inv, Deq
                    PROVE \A k \in 1..size' : At(store', front', k) = Item(k + 1)
  BY Cap DEF Inv, Deq, Wrap, Item, At
\* rear is the position of the newest element, front that of the oldest
THEOREM Ends == ASSUME Inv, size # 0 PROVE Item(1) = store[front] /\ Item(size) = store[rear]
  BY Cap DEF Inv, Wrap, Item, At
=============================================================================
