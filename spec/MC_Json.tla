-------------------------------- MODULE MC_Json --------------------------------
(* The JSON builder as json.c writes it - one strcpy after the other into the caller's characters -
   refines JsonText.tla, stays inside the stated size, and what it has built reads back as exactly
   the pairs accepted since the start.                                                    *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Sizes
Keys == {<<>>, <<97>>}
Vals == {<<>>, <<44>>, <<125>>}

VARIABLES mem,          \* the caller's characters, index from 0
          pairs, phase, \* ghosts: pairs accepted since the last start; "none", "open", "ended", "other"
          act

Size == Len(mem)
\* strlen, strcpy on the array (index from 0; strcpy writes the NUL too)
StrLen(m) == LET z == {k \in 0..(Len(m) - 1) : m[k + 1] = 0} IN CHOOSE k \in z : \A j \in z : k <= j
Terminated(m) == \E k \in 1..Len(m) : m[k] = 0
StrCpy(m, i, s) == [k \in 1..Len(m) |-> IF k > i /\ k <= i + Len(s) THEN s[k - i] ELSE IF k = i + Len(s) + 1 THEN 0 ELSE m[k]]
Text(m) == SubSeq(m, 1, StrLen(m))

Abs == INSTANCE JsonText WITH jbs <- (1 :> [size |-> Size, txt |-> Text(mem)])

\* hi: one past the highest index written
Lbl(op, n, k, v, ret, hi) == act' = [op |-> op, n |-> n, k |-> k, v |-> v, ret |-> ret, hi |-> hi]
Init == /\ \E s \in Sizes : mem = [k \in 1..s |-> 0]
        /\ pairs = <<>> /\ phase = "none"
        /\ act = [op |-> "init", n |-> 0, k |-> <<>>, v |-> <<>>, ret |-> TRUE, hi |-> 0]

Start(n) ==
    IF n >= 2 THEN /\ mem' = StrCpy(mem, 0, <<123>>) /\ pairs' = <<>> /\ phase' = "open" /\ Lbl("start", n, <<>>, <<>>, TRUE, 2)
    ELSE UNCHANGED <<mem, pairs, phase>> /\ Lbl("start", n, <<>>, <<>>, FALSE, 0)

Add(n, k, v) ==
    LET index == StrLen(mem)
        sep == index # 0 /\ mem[index] = 34
        total == 5 + Len(k) + Len(v) + 1 + (IF sep THEN 1 ELSE 0)
        m1 == IF sep THEN StrCpy(mem, index, <<44>>) ELSE mem
        i1 == IF sep THEN index + 1 ELSE index
        m2 == StrCpy(m1, i1, <<34>>)
        m3 == StrCpy(m2, i1 + 1, k)
        i3 == i1 + 1 + Len(k)
        m4 == StrCpy(m3, i3, <<34, 58, 34>>)
        m5 == StrCpy(m4, i3 + 3, v)
        i5 == i3 + 3 + Len(v)
        m6 == StrCpy(m5, i5, <<34>>)
    IN IF total + index <= n
       THEN /\ mem' = m6 /\ Lbl("add", n, k, v, TRUE, i5 + 2)
            /\ pairs' = Append(pairs, [k |-> k, str |-> TRUE, v |-> v])
            /\ phase' = IF phase = "open" THEN "open" ELSE "other"
       ELSE UNCHANGED <<mem, pairs, phase>> /\ Lbl("add", n, k, v, FALSE, 0)

End(n) ==
    LET index == StrLen(mem) IN
    IF n >= 2 + index
    THEN mem' = StrCpy(mem, index, <<125>>) /\ phase' = (IF phase = "open" THEN "ended" ELSE "other") /\ UNCHANGED pairs
         /\ Lbl("end", n, <<>>, <<>>, TRUE, index + 2)
    ELSE UNCHANGED <<mem, pairs, phase>> /\ Lbl("end", n, <<>>, <<>>, FALSE, 0)

Next == \E n \in {Size, Size - 1} : Start(n) \/ End(n) \/ \E k \in Keys, v \in Vals : Add(n, k, v)
Spec == Init /\ [][Next]_<<mem, pairs, phase, act>>

AbsCall(a) == CASE a.op = "start" -> Abs!JStart(1, a.n, a.ret, Text(mem'))
                [] a.op = "add" -> Abs!JAdd(1, a.n, a.k, a.v, a.ret, Text(mem'))
                [] a.op = "end" -> Abs!JEnd(1, a.n, a.ret, Text(mem'))
Refines == [][AbsCall(act')]_<<mem, pairs, phase, act>>

InBounds == act.hi <= act.n                             \* nothing is written beyond the stated size
Ends == Terminated(mem)
ReadsBack == phase \in {"open", "ended"} => Abs!Document(Text(mem)) = [ok |-> TRUE, mem |-> pairs]

\* what lies behind the NUL is never read again
View == <<Size, Text(mem), phase>>
Key(m, p) == <<Len(m), Text(m)>>
Emit == PrintT("EDGE " \o ToJson([s |-> Key(mem, phase), a |-> <<act'.op, act'.n, act'.k, act'.v>>, t |-> Key(mem', phase')]))
=============================================================================
