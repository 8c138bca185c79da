-------------------------------- MODULE MC_PQ --------------------------------
(* The priority queue as priority_queue.c keeps it - two arrays closed up by shifting - refines
   PriorityQueue.tla, and both meet the declarative statement of the property.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCap, Ranks, Tags

VARIABLES cap, size, pri, elt, act
conc == <<cap, size, pri, elt>>

Nil == 0
Word(r) == <<0, r>>
Items == [k \in 1..size |-> [p |-> Word(pri[k - 1]), e |-> <<elt[k - 1]>>]]
Abs == INSTANCE PriorityQueue WITH pqs <- (1 :> [cap |-> cap, esz |-> 1, items |-> Items])

Init == /\ cap \in 1..MaxCap /\ size = 0
        /\ pri = [k \in 0..(cap - 1) |-> Nil] /\ elt = [k \in 0..(cap - 1) |-> Nil]
        /\ act = [op |-> "init", p |-> 0, t |-> 0, ret |-> TRUE, out |-> <<>>]
Lbl(op, p, t, ret, out) == act' = [op |-> op, p |-> p, t |-> t, ret |-> ret, out |-> out]

\* first index of the highest resp. lowest priority, as the linear search finds it
Search(better(_, _)) == LET s[k \in 0..size] == IF k = 0 THEN 0
                                ELSE IF k < size /\ better(pri[k], pri[s[k - 1]]) THEN k ELSE s[k - 1]
                        IN IF size = 0 THEN 0 ELSE s[size - 1]
High == Search(LAMBDA a, b : a > b)
Low  == Search(LAMBDA a, b : a < b)
Shift(f, from) == [k \in DOMAIN f |-> IF k >= from /\ k < size - 1 THEN f[k + 1] ELSE f[k]]

Enq(p, t) ==
    IF size < cap
    THEN /\ pri' = [pri EXCEPT ![size] = p] /\ elt' = [elt EXCEPT ![size] = t] /\ size' = size + 1
         /\ UNCHANGED cap /\ Lbl("enq", p, t, TRUE, <<>>)
    ELSE LET w == Low IN
         IF pri[w] < p
         THEN /\ pri' = [Shift(pri, w) EXCEPT ![size - 1] = p] /\ elt' = [Shift(elt, w) EXCEPT ![size - 1] = t]
              /\ UNCHANGED <<cap, size>> /\ Lbl("enq", p, t, TRUE, <<>>)
         ELSE UNCHANGED conc /\ Lbl("enq", p, t, FALSE, <<>>)
Deq == IF size = 0 THEN UNCHANGED conc /\ Lbl("deq", 0, 0, FALSE, <<Nil>>)
       ELSE LET h == High IN
            /\ pri' = Shift(pri, h) /\ elt' = Shift(elt, h) /\ size' = size - 1
            /\ UNCHANGED cap /\ Lbl("deq", 0, 0, TRUE, <<elt[h]>>)
Stat == UNCHANGED conc /\ Lbl("stat", 0, 0, size = 0, <<>>)

Next == (\E p \in Ranks, t \in Tags : Enq(p, t)) \/ Deq \/ Stat
Spec == Init /\ [][Next]_<<conc, act>>

AbsCall(a) == CASE a.op = "enq"  -> Abs!PEnq(1, Word(a.p), <<a.t>>, a.ret)
                [] a.op = "deq"  -> Abs!PDeq(1, Nil, a.out, a.ret)
                [] a.op = "stat" -> Abs!PStat(1, a.ret) /\ UNCHANGED Items
Refines == [][AbsCall(act')]_<<conc, act>>

(* The property, stated on the lists before (s) and after (t) without the search operators. *)
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Rank(x) == x.p[2]
OldestAmong(s, k, cmp(_, _)) == \A j \in 1..Len(s) : /\ ~cmp(Rank(s[j]), Rank(s[k]))
                                                     /\ j < k => Rank(s[j]) # Rank(s[k])
Gt(a, b) == a > b
Lt(a, b) == a < b
Stated(a, s, t) ==
    CASE a.op = "deq" /\ s = <<>> -> ~a.ret /\ t = s
      [] a.op = "deq" /\ s # <<>> -> a.ret /\ \E k \in 1..Len(s) : OldestAmong(s, k, Gt) /\ s[k].e = a.out /\ t = Drop(s, k)
      [] a.op = "enq" /\ Len(s) < cap -> a.ret /\ t = Append(s, [p |-> Word(a.p), e |-> <<a.t>>])
      [] a.op = "enq" /\ Len(s) = cap ->
            IF \E k \in 1..Len(s) : Rank(s[k]) < a.p
            THEN a.ret /\ \E k \in 1..Len(s) : OldestAmong(s, k, Lt) /\ t = Append(Drop(s, k), [p |-> Word(a.p), e |-> <<a.t>>])
            ELSE ~a.ret /\ t = s
      [] OTHER -> t = s
Meets == [][Stated(act', Items, Items')]_<<conc, act>>

TypeOK == Abs!PTypeOK
View == <<cap, size, [k \in 0..(size - 1) |-> <<pri[k], elt[k]>>]>>
Key == <<cap, [k \in 1..size |-> pri[k - 1]]>>
Emit == PrintT("EDGE " \o ToJson([s |-> Key, a |-> <<act'.op, act'.p>>, t |-> Key']))
=============================================================================
