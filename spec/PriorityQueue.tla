---------------------------- MODULE PriorityQueue ----------------------------
(* Priority queues (priority_queue.h): the items held, in order of arrival.  A priority is a
   32-bit number given as <<high 16 bits, low 16 bits>>.                                  *)
EXTENDS Integers, Sequences, SequencesExt, Runs

VARIABLE pqs            \* function: id -> [cap, esz, items: seq of [p, e]]

PLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

PTypeOK == \A i \in DOMAIN pqs : pqs[i].cap >= 1 /\ Len(pqs[i].items) <= pqs[i].cap

PEmptyState == pqs = <<>>

\* index of the oldest item of the highest resp. lowest priority in a non-empty list
PBest(s)  == FoldLeft(LAMBDA b, k : IF PLess(s[b].p, s[k].p) THEN k ELSE b, 1, [k \in 1..Len(s) |-> k])
PWorst(s) == FoldLeft(LAMBDA b, k : IF PLess(s[k].p, s[b].p) THEN k ELSE b, 1, [k \in 1..Len(s) |-> k])

PWithout(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

PInit(i, cap, esz, items, ret) ==
    /\ ret = (i # -1 /\ cap # 0 /\ esz # 0 /\ items)
    /\ pqs' = IF ret THEN [x \in DOMAIN pqs \cup {i} |->
                             IF x = i THEN [cap |-> cap, esz |-> esz, items |-> <<>>] ELSE pqs[x]]
              ELSE pqs

\* the outcome of one enqueue on a list: [ok, items]
PInsert(cap, s, it) ==
    IF Len(s) < cap THEN [ok |-> TRUE, items |-> Append(s, it)]
    ELSE LET w == PWorst(s) IN
         IF PLess(s[w].p, it.p) THEN [ok |-> TRUE, items |-> Append(PWithout(s, w), it)]
         ELSE [ok |-> FALSE, items |-> s]

PEnq(i, p, e, ret) ==
    LET r == PInsert(pqs[i].cap, pqs[i].items, [p |-> p, e |-> e])
    IN /\ Len(e) = pqs[i].esz
       /\ ret = r.ok
       /\ pqs' = [pqs EXCEPT ![i].items = r.items]

PDeq(i, fill, out, ret) ==
    LET s == pqs[i].items IN
    /\ ret = (s # <<>>)
    /\ IF ret THEN LET b == PBest(s) IN
                   /\ out = s[b].e
                   /\ pqs' = [pqs EXCEPT ![i].items = PWithout(s, b)]
       ELSE /\ out = [k \in 1..Len(out) |-> fill]
            /\ UNCHANGED pqs

PStat(i, empty) == empty = (pqs[i].items = <<>>)

(* n enqueues of tokens t, t+1, ... where token x has priority (pa*x + pb) % pm *)
PFill(i, t, n, pa, pb, pm, ret) ==
    LET cap == pqs[i].cap
        esz == pqs[i].esz
        item(x) == [p |-> <<0, (pa * x + pb) % pm>>, e |-> TokBytes(x, esz)]
        room == cap - Len(pqs[i].items)
        free == IF n < room THEN n ELSE room    \* these simply append
        start == [ok |-> [k \in 1..free |-> 1],
                  items |-> pqs[i].items \o [k \in 1..free |-> item(t + k - 1)]]
        rest0 == FoldLeft(LAMBDA a, k : LET r == PInsert(cap, a.items, item(t + k - 1))
                                      IN [ok |-> Append(a.ok, IF r.ok THEN 1 ELSE 0), items |-> r.items],
                         start, [k \in 1..(n - free) |-> free + k])
    IN \E rest \in {rest0} :
       /\ RunsFlat(ret, 0) = rest.ok
       /\ pqs' = [pqs EXCEPT ![i].items = rest.items]

PDrain(i, n, fails, late, tok) ==
    LET have == Len(pqs[i].items)
        k == IF n < have THEN n ELSE have
        run0 == FoldLeft(LAMBDA a, x : LET b == PBest(a.items)
                                      IN [tok |-> Append(a.tok, a.items[b].e), items |-> PWithout(a.items, b)],
                        [tok |-> <<>>, items |-> pqs[i].items], [x \in 1..k |-> x])
    IN \E run \in {run0} :
       /\ fails = n - k
       /\ late = 0
       /\ Len(tok) = k
       /\ [x \in 1..k |-> TokBytes(tok[x], pqs[i].esz)] = run.tok
       /\ pqs' = [pqs EXCEPT ![i].items = run.items]

\* the same for a priority queue whose items all have priority p
PChurn(i, t, n, p, tok, efail, dfail) ==
    LET s == pqs[i].items
        first == (t + 65536 - Len(s)) % 65536
        num(x) == TokBytes((x + 65536) % 65536, 2)
    IN /\ pqs[i].esz = 2 /\ Len(s) < pqs[i].cap
       /\ \A k \in 1..Len(s) : s[k] = [p |-> p, e |-> num(first + k - 1)]
       /\ efail = 0 /\ dfail = 0
       /\ tok = IF n = <<0, 0>> THEN <<>> ELSE <<<<first, n[1], n[2]>>>>
       /\ pqs' = [pqs EXCEPT ![i].items = [k \in 1..Len(s) |-> [p |-> p, e |-> num(first + n[2] + k - 1)]]]
=============================================================================
