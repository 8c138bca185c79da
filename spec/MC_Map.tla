-------------------------------- MODULE MC_Map --------------------------------
(* The map as map.c keeps it - two arrays in order of insertion - refines the partial function of
   Map.tla, for every history.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxMax, Keys, Vals

VARIABLES max, n, ks, vs, act
conc == <<max, n, ks, vs>>

Nil == 0
Fun == [x \in {<<ks[k]>> : k \in 0..(n - 1)} |-> <<vs[CHOOSE k \in 0..(n - 1) : <<ks[k]>> = x]>>]
Abs == INSTANCE Map WITH maps <- (1 :> [ks |-> 1, vs |-> 1, max |-> max, f |-> Fun])

Init == /\ max \in 1..MaxMax /\ n = 0
        /\ ks = [k \in 0..(max - 1) |-> Nil] /\ vs = [k \in 0..(max - 1) |-> Nil]
        /\ act = [op |-> "init", k |-> 0, v |-> 0, ret |-> TRUE, out |-> <<>>]
Lbl(op, k, v, ret, out) == act' = [op |-> op, k |-> k, v |-> v, ret |-> ret, out |-> out]

Index(k) == LET hit == {j \in 0..(n - 1) : ks[j] = k} IN IF hit = {} THEN -1 ELSE CHOOSE j \in hit : \A i \in hit : j <= i
Ins(k, v) == LET j == Index(k) IN
    IF j >= 0 THEN vs' = [vs EXCEPT ![j] = v] /\ UNCHANGED <<max, n, ks>> /\ Lbl("ins", k, v, TRUE, <<>>)
    ELSE IF n # max THEN /\ ks' = [ks EXCEPT ![n] = k] /\ vs' = [vs EXCEPT ![n] = v] /\ n' = n + 1
                         /\ UNCHANGED max /\ Lbl("ins", k, v, TRUE, <<>>)
    ELSE UNCHANGED conc /\ Lbl("ins", k, v, FALSE, <<>>)
Get(k) == LET j == Index(k) IN
    UNCHANGED conc /\ Lbl("get", k, 0, j >= 0, IF j >= 0 THEN <<vs[j]>> ELSE <<Nil>>)
BadInit == UNCHANGED conc /\ Lbl("badinit", 0, 0, FALSE, <<>>)

Next == (\E k \in Keys : Get(k) \/ \E v \in Vals : Ins(k, v)) \/ BadInit
Spec == Init /\ [][Next]_<<conc, act>>

AbsCall(a) == CASE a.op = "ins" -> Abs!MIns(1, <<a.k>>, <<a.v>>, a.ret)
                [] a.op = "get" -> Abs!MGet(1, <<a.k>>, Nil, a.out, a.ret) /\ UNCHANGED Fun
                [] a.op = "badinit" -> Abs!MInit(1, 0, 1, 1, TRUE, TRUE, a.ret)
Refines == [][AbsCall(act')]_<<conc, act>>

NoTwins == \A i, j \in 0..(n - 1) : ks[i] = ks[j] => i = j
TypeOK == Abs!MTypeOK
View == conc
Key == <<max, [k \in 1..n |-> <<ks[k - 1], vs[k - 1]>>]>>
Emit == PrintT("EDGE " \o ToJson([s |-> Key, a |-> <<act'.op, act'.k, act'.v>>, t |-> Key']))
=============================================================================
