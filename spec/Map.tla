-------------------------------- MODULE Map --------------------------------
(* Fixed-size maps (map.h): a partial function from keys to values, at most max pairs. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Runs, TLC

VARIABLE maps           \* function: id -> [ks, vs, max, f: function key -> value]

MTypeOK == \A i \in DOMAIN maps : Cardinality(DOMAIN maps[i].f) <= maps[i].max

MEmptyState == maps = <<>>
MNone == [x \in {} |-> 0]

MInit(i, ks, vs, max, k, v, ret) ==
    /\ ret = (ks # 0 /\ vs # 0 /\ max # 0 /\ k /\ v)
    /\ maps' = IF ret THEN [x \in DOMAIN maps \cup {i} |->
                              IF x = i THEN [ks |-> ks, vs |-> vs, max |-> max, f |-> MNone] ELSE maps[x]]
               ELSE maps

MPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
MRoom(m, k) == k \in DOMAIN m.f \/ Cardinality(DOMAIN m.f) < m.max

MIns(i, k, v, ret) ==
    /\ ret = (i \in DOMAIN maps /\ MRoom(maps[i], k))
    /\ maps' = IF ret THEN [maps EXCEPT ![i].f = MPut(@, k, v)] ELSE maps

MGet(i, k, fill, out, ret) ==
    /\ ret = (i \in DOMAIN maps /\ k \in DOMAIN maps[i].f)
    /\ IF ret THEN out = maps[i].f[k] ELSE \A x \in 1..Len(out) : out[x] = fill

TokNum(b) == LET h[k \in 1..5] == IF k > Len(b) \/ k = 5 THEN 0 ELSE b[k] + 256 * h[k + 1] IN h[1]

(* Numbered keys and values (Runs.tla): n inserts of key k0+j with value v0+j, all keys of one run
   different; n lookups of key k0+j*step (tok: number of the value, -2 absent, -1 not a value).  *)
MFill(i, k0, n, v0, ret) ==
    LET m == maps[i]
        room == m.max - Cardinality(DOMAIN m.f)
    IN \* \E x \in {e} : P is P with x standing for e, which TLC then evaluates only once
       \E key \in {[j \in 1..n |-> TokBytes(k0 + j - 1, m.ks)]} :
       \E new \in {{j \in 1..n : key[j] \notin DOMAIN m.f}} :
       \E okNew \in {IF Cardinality(new) <= room THEN new       \* the first `room` of the new keys fit
                      ELSE LET lst == SetToSortSeq(new, LAMBDA a, b : a < b) IN {lst[x] : x \in 1..room}} :
       \E acc \in {((1..n) \ new) \cup okNew} :
       /\ m.ks < 4 => (k0 % (256^m.ks)) + n <= 256^m.ks       \* the keys of the run do not wrap
       /\ RunsFlat(ret, 0) = [j \in 1..n |-> IF j \in acc THEN 1 ELSE 0]
       /\ maps' = [maps EXCEPT ![i].f =
             [x \in {key[j] : j \in acc} |-> TokBytes(v0 + TokNum(x) - TokNum(key[1]), m.vs)] @@ m.f]

MLook(i, k0, n, step, tok) ==
    LET m == maps[i] IN
    /\ Len(tok) = n
    /\ \A j \in 1..n : LET k == TokBytes(k0 + (j - 1) * step, m.ks)
                        IN IF k \in DOMAIN m.f THEN tok[j] >= 0 /\ TokBytes(tok[j], m.vs) = m.f[k] ELSE tok[j] = -2
=============================================================================
