---------------------------- MODULE BoundedQueue ----------------------------
(* Bounded FIFO queues (queue.h).  Abstract state: for each initialised queue its capacity,
   its element size and the list of elements held, oldest first.  Each action is one public
   call; its last parameters are what the caller observes (result and output bytes).      *)
EXTENDS Integers, Sequences, Runs

VARIABLE qs             \* function: queue id -> [cap, esz, items]

QTypeOK == \A i \in DOMAIN qs : /\ qs[i].cap >= 1 /\ qs[i].esz >= 1
                                /\ Len(qs[i].items) <= qs[i].cap

QEmptyState == qs = <<>>

QFullP(q)  == Len(q.items) = q.cap
QEmptyP(q) == q.items = <<>>

\* id -1 stands for a NULL queue, nil for a NULL element pointer
QKnown(i) == i \in DOMAIN qs

QInit(i, cap, esz, buf, ret) ==
    /\ ret = (cap # 0 /\ esz # 0 /\ buf)
    /\ qs' = IF ret THEN [x \in DOMAIN qs \cup {i} |->
                            IF x = i THEN [cap |-> cap, esz |-> esz, items |-> <<>>] ELSE qs[x]]
             ELSE qs

QEnq(i, nil, e, ret) ==
    /\ ret = (QKnown(i) /\ ~nil /\ ~QFullP(qs[i]))
    /\ IF ret THEN /\ Len(e) = qs[i].esz
                   /\ qs' = [qs EXCEPT ![i].items = Append(@, e)]
       ELSE UNCHANGED qs

\* out: the bytes of the caller's element after the call; fill: the byte it held before
Untouched(out, fill) == out = [k \in 1..Len(out) |-> fill]

QDeq(i, nil, fill, out, ret) ==
    /\ ret = (QKnown(i) /\ ~nil /\ ~QEmptyP(qs[i]))
    /\ IF ret THEN /\ out = Head(qs[i].items)
                   /\ qs' = [qs EXCEPT ![i].items = Tail(@)]
       ELSE /\ Untouched(out, fill)
            /\ UNCHANGED qs

QFront(i, nil, fill, out, ret) ==
    /\ ret = (QKnown(i) /\ ~nil /\ ~QEmptyP(qs[i]))
    /\ IF ret THEN out = Head(qs[i].items) ELSE Untouched(out, fill)

QRear(i, nil, fill, out, ret) ==
    /\ ret = (QKnown(i) /\ ~nil /\ ~QEmptyP(qs[i]))
    /\ IF ret THEN out = qs[i].items[Len(qs[i].items)] ELSE Untouched(out, fill)

QStat(i, full, empty) ==
    /\ full = QFullP(qs[i])
    /\ empty = QEmptyP(qs[i])

(* Runs of calls on numbered elements (Runs.tla): n enqueues of elements t, t+1, ... resp. n
   dequeues.  ret: run-length encoded results; tok: the numbers of the elements delivered, in
   increasing runs (-1: not an element).                                                    *)
QFill(i, t, n, ret) ==
    LET room == qs[i].cap - Len(qs[i].items)
        acc  == IF n < room THEN n ELSE room
    IN /\ RunsFlat(ret, 0) = [k \in 1..n |-> IF k <= acc THEN 1 ELSE 0]
       /\ qs' = [qs EXCEPT ![i].items = @ \o [k \in 1..acc |-> TokBytes(t + k - 1, qs[i].esz)]]

QDrain(i, n, fails, late, tok) ==
    LET have == Len(qs[i].items)
        k == IF n < have THEN n ELSE have
    IN /\ fails = n - k
       /\ late = 0                     \* no success after a failure
       /\ \E got \in {RunsFlat(tok, 1)} :
          /\ Len(got) = k
          /\ [x \in 1..k |-> TokBytes(got[x], qs[i].esz)] = SubSeq(qs[i].items, 1, k)
       /\ qs' = [qs EXCEPT ![i].items = SubSeq(@, k + 1, have)]

(* n times (n = <<high, low>>, in units of 65536 and 1): enqueue the next two-byte element, then dequeue.
   The elements held are consecutive numbers up to t - 1 (counting modulo 65536) and there is room, so
   every call succeeds and what comes out counts on from the oldest: one run <<first, high, low>>.   *)
ChurnStart(items, t) == (t + 65536 - Len(items)) % 65536
Consecutive(items, first) == \A k \in 1..Len(items) : items[k] = TokBytes((first + k - 1) % 65536, 2)
QChurn(i, t, n, tok, efail, dfail) ==
    LET s == qs[i].items
        first == ChurnStart(s, t)
    IN /\ qs[i].esz = 2 /\ Len(s) < qs[i].cap /\ Consecutive(s, first)      \* asked for only then
       /\ efail = 0 /\ dfail = 0
       /\ tok = IF n = <<0, 0>> THEN <<>> ELSE <<<<first, n[1], n[2]>>>>
       /\ qs' = [qs EXCEPT ![i].items = [k \in 1..Len(s) |-> TokBytes((first + n[2] + k - 1) % 65536, 2)]]
=============================================================================
