--------------------------- MODULE InsertionProof ---------------------------
(* Unbounded: insertion_sort.c, for every number of elements and every key: what it leaves is ordered, a
   permutation, and stable, and no position outside the array is used.  p[x]: which input element is
   at position x; tmp: the input element held in the local buffer.                                *)
EXTENDS Integers, TLAPS

CONSTANTS N, key
Pos == 0..(N - 1)
ASSUME Given == N \in Nat /\ key \in [Pos -> Int]

VARIABLES p, i, j, flag, tmp, pc
vars == <<p, i, j, flag, tmp, pc>>
At(q, x) == key[q[x]]
Less(a, b) == key[a] < key[b] \/ (key[a] = key[b] /\ a < b)

Init == p = [x \in Pos |-> x] /\ i = 1 /\ j = 0 /\ flag = FALSE /\ tmp = 0 /\ pc = "outer"
Take == /\ pc = "outer" /\ i < N
        /\ tmp' = p[i] /\ j' = i - 1 /\ flag' = (At(p, i - 1) > At(p, i)) /\ pc' = "inner" /\ UNCHANGED <<p, i>>
Stop == pc = "outer" /\ ~(i < N) /\ pc' = "done" /\ UNCHANGED <<p, i, j, flag, tmp>>
Move == /\ pc = "inner" /\ j >= 0 /\ flag
        /\ p' = [p EXCEPT ![j + 1] = p[j]] /\ j' = j - 1
        /\ flag' = (IF j - 1 >= 0 THEN At(p, j - 1) > key[tmp] ELSE flag)
        /\ UNCHANGED <<i, tmp, pc>>
Put  == /\ pc = "inner" /\ ~(j >= 0 /\ flag)
        /\ p' = [p EXCEPT ![j + 1] = tmp] /\ i' = i + 1 /\ pc' = "outer" /\ UNCHANGED <<j, flag, tmp>>
Next == Take \/ Stop \/ Move \/ Put
Spec == Init /\ [][Next]_vars

TypeOK == p \in [Pos -> Pos] /\ i \in Nat /\ i >= 1 /\ j \in Int /\ flag \in BOOLEAN /\ tmp \in Int /\ pc \in {"outer", "inner", "done"}
Outer == /\ \A a, b \in Pos : a < b /\ b < i => Less(p[a], p[b])
         /\ \A x \in Pos : x >= i => p[x] = x
         /\ \A x \in Pos : x < i => p[x] < i
Inner == /\ i \in Pos /\ tmp = i /\ -1 <= j /\ j < i
         /\ \A a, b \in Pos : a < b /\ b <= i /\ a # j + 1 /\ b # j + 1 => Less(p[a], p[b])
         /\ \A x \in Pos : x > i => p[x] = x
         /\ \A x \in Pos : x <= i /\ x # j + 1 => p[x] < i
         /\ \A x \in Pos : j + 1 < x /\ x <= i => At(p, x) > key[i]
         /\ j >= 0 => (flag <=> At(p, j) > key[i])
Inv == /\ TypeOK
       /\ pc = "outer" => Outer
       /\ pc = "inner" => Inner
       /\ pc = "done" => Outer /\ i >= N

THEOREM InvHolds == Spec => []Inv
<1> USE Given
<1>1. Init => Inv
  BY DEF Init, Inv, TypeOK, Outer, Pos
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. CASE Take
    <3>1. p' = p /\ i' = i /\ j' = i - 1 /\ tmp' = p[i] /\ pc' = "inner" /\ pc = "outer" /\ flag' = (At(p, i - 1) > At(p, i)) /\ i \in Pos
      BY <2>1 DEF Take, Inv, TypeOK, Pos
    <3>2. Outer /\ p[i] = i
      BY <3>1 DEF Inv, Outer, TypeOK
    <3>3. TypeOK'
      BY <3>1, <3>2 DEF Inv, TypeOK, Pos
    <3>4. /\ \A a, b \in Pos : a < b /\ b <= i /\ a # i /\ b # i => Less(p[a], p[b])
          /\ \A x \in Pos : x > i => p[x] = x
          /\ \A x \in Pos : x <= i /\ x # i => p[x] < i
      BY <3>1, <3>2 DEF Outer, Pos, TypeOK, Inv
    <3>5. flag' <=> At(p, i - 1) > key[i]
      BY <3>1, <3>2 DEF At
    <3>6. Inner'
      BY <3>1, <3>2, <3>4, <3>5 DEF Inner, Pos, TypeOK, Inv, At
    <3>7. QED BY <3>1, <3>3, <3>6 DEF Inv
  <2>2. CASE Stop
    <3>1. p' = p /\ i' = i /\ pc' = "done" /\ pc = "outer" /\ i >= N
      BY <2>2 DEF Stop, Inv, TypeOK
    <3>2. Outer' /\ TypeOK'
      BY <2>2, <3>1 DEF Inv, TypeOK, Outer, Stop
    <3>3. QED BY <3>1, <3>2 DEF Inv
  <2>3. CASE Move
    <3>1. /\ p' = [p EXCEPT ![j + 1] = p[j]] /\ j' = j - 1 /\ i' = i /\ tmp' = tmp /\ pc' = "inner" /\ j >= 0 /\ flag
          /\ flag' = (IF j - 1 >= 0 THEN At(p, j - 1) > key[tmp] ELSE flag) /\ pc = "inner"
      BY <2>3 DEF Move
    <3>2. Inner /\ TypeOK
      BY <3>1 DEF Inv
    <3>3. j \in Pos /\ j + 1 \in Pos /\ j + 1 <= i
      BY <3>1, <3>2 DEF Inner, TypeOK, Pos
    <3>4. p'[j + 1] = p[j] /\ (\A x \in Pos : x # j + 1 => p'[x] = p[x]) /\ p' \in [Pos -> Pos]
      BY <3>1, <3>2, <3>3 DEF TypeOK
    <3>5. TypeOK'
      BY <3>1, <3>2, <3>4 DEF TypeOK
    <3>6. \A a, b \in Pos : a < b /\ b <= i /\ a # j /\ b # j => Less(p'[a], p'[b])
      <4> SUFFICES ASSUME NEW a \in Pos, NEW b \in Pos, a < b, b <= i, a # j, b # j PROVE Less(p'[a], p'[b])
        OBVIOUS
      <4>1. CASE a = j + 1
        <5>1. p'[a] = p[j] /\ p'[b] = p[b] /\ b # j + 1 /\ j < b
          BY <4>1, <3>3, <3>4 DEF Pos
        <5>2. Less(p[j], p[b])
          BY <5>1, <3>2, <3>3 DEF Inner, Pos
        <5>3. QED BY <5>1, <5>2
      <4>2. CASE b = j + 1
        <5>1. p'[b] = p[j] /\ p'[a] = p[a] /\ a < j /\ a # j + 1
          BY <4>2, <3>3, <3>4 DEF Pos
        <5>2. Less(p[a], p[j])
          BY <5>1, <3>2, <3>3 DEF Inner, Pos
        <5>3. QED BY <5>1, <5>2
      <4>3. CASE a # j + 1 /\ b # j + 1
        BY <4>3, <3>2, <3>4 DEF Inner
      <4>4. QED BY <4>1, <4>2, <4>3
    <3>7. \A x \in Pos : x > i => p'[x] = x
      BY <3>2, <3>3, <3>4 DEF Inner, Pos
    <3>8. \A x \in Pos : x <= i /\ x # j => p'[x] < i
      <4> SUFFICES ASSUME NEW x \in Pos, x <= i, x # j PROVE p'[x] < i
        OBVIOUS
      <4>1. CASE x = j + 1
        <5>1. p[j] < i
          BY <3>2, <3>3 DEF Inner, Pos
        <5>2. QED BY <4>1, <5>1, <3>4
      <4>2. CASE x # j + 1
        BY <4>2, <3>2, <3>4 DEF Inner
      <4>3. QED BY <4>1, <4>2
    <3>9. \A x \in Pos : j < x /\ x <= i => At(p', x) > key[i]
      <4> SUFFICES ASSUME NEW x \in Pos, j < x, x <= i PROVE At(p', x) > key[i]
        OBVIOUS
      <4>1. CASE x = j + 1
        BY <4>1, <3>1, <3>2, <3>4 DEF Inner, At
      <4>2. CASE x # j + 1
        BY <4>2, <3>2, <3>3, <3>4 DEF Inner, At, Pos
      <4>3. QED BY <4>1, <4>2
    <3>10. j - 1 >= 0 => (flag' <=> At(p', j - 1) > key[i])
      <4> SUFFICES ASSUME j - 1 >= 0 PROVE flag' <=> At(p', j - 1) > key[i]
        OBVIOUS
      <4>1. p'[j - 1] = p[j - 1] /\ tmp = i
        BY <3>2, <3>3, <3>4 DEF Pos, Inner
      <4>2. QED BY <4>1, <3>1 DEF At
    <3>11. Inner'
      <4>1. j' + 1 = j /\ -1 <= j' /\ j' < i
        BY <3>1, <3>2 DEF Inner, TypeOK
      <4>2. i' = i /\ tmp' = i /\ i \in Pos
        BY <3>1, <3>2 DEF Inner
      <4>3. QED BY <4>1, <4>2, <3>1, <3>6, <3>7, <3>8, <3>9, <3>10 DEF Inner
    <3>12. QED BY <3>1, <3>5, <3>11 DEF Inv
  <2>4. CASE Put
    <3>1. p' = [p EXCEPT ![j + 1] = tmp] /\ i' = i + 1 /\ j' = j /\ tmp' = tmp /\ flag' = flag /\ pc' = "outer" /\ ~(j >= 0 /\ flag) /\ pc = "inner"
      BY <2>4 DEF Put
    <3>2. Inner /\ TypeOK
      BY <3>1 DEF Inv
    <3>3. j + 1 \in Pos /\ j + 1 <= i /\ i \in Pos /\ tmp = i
      BY <3>2 DEF Inner, TypeOK, Pos
    <3>4. p'[j + 1] = i /\ (\A x \in Pos : x # j + 1 => p'[x] = p[x]) /\ p' \in [Pos -> Pos]
      BY <3>1, <3>2, <3>3 DEF TypeOK
    <3>5. TypeOK'
      BY <3>1, <3>2, <3>4 DEF TypeOK
    <3>6. \A a \in Pos : a < j + 1 => Less(p[a], i)
      <4> SUFFICES ASSUME NEW a \in Pos, a < j + 1 PROVE Less(p[a], i)
        OBVIOUS
      <4>0. j \in Int /\ a \in Int /\ i \in Int
        BY <3>2, <3>3 DEF TypeOK, Pos
      <4>1. j \in Pos /\ j >= 0
        BY <4>0, <3>3 DEF Pos
      <4>2. ~(key[p[j]] > key[i]) /\ p[j] < i /\ p[j] \in Pos /\ p[a] \in Pos
        BY <4>1, <3>1, <3>2, <3>3 DEF Inner, At, TypeOK, Pos
      <4>3. key[p[j]] \in Int /\ key[i] \in Int /\ key[p[a]] \in Int
        BY <4>2, <3>3
      <4>4. Less(p[j], i)
        BY <4>2, <4>3 DEF Less
      <4>5. CASE a = j
        BY <4>5, <4>4
      <4>6. CASE a # j
        <5>1. a < j
          BY <4>0, <4>6
        <5>2. Less(p[a], p[j])
          <6>1. j <= i /\ a # j + 1 /\ j # j + 1
            BY <4>0, <5>1, <3>3
          <6>2. QED BY <5>1, <6>1, <4>1, <3>2 DEF Inner
        <5>3. p[a] \in Int /\ p[j] \in Int
          BY <4>2 DEF Pos
        <5>4. QED BY <5>2, <5>3, <4>0, <4>3, <4>4 DEF Less
      <4>7. QED BY <4>5, <4>6
    <3>7. \A b \in Pos : j + 1 < b /\ b <= i => Less(i, p[b])
      BY <3>2 DEF Inner, At, Less
    <3>8. \A a, b \in Pos : a < b /\ b < i + 1 => Less(p'[a], p'[b])
      <4> SUFFICES ASSUME NEW a \in Pos, NEW b \in Pos, a < b, b < i + 1 PROVE Less(p'[a], p'[b])
        OBVIOUS
      <4>0. b <= i
        BY <3>3 DEF Pos
      <4>1. CASE a = j + 1
        BY <4>0, <4>1, <3>4, <3>7 DEF Pos
      <4>2. CASE b = j + 1
        BY <4>0, <4>2, <3>4, <3>6 DEF Pos
      <4>3. CASE a # j + 1 /\ b # j + 1
        BY <4>0, <4>3, <3>2, <3>4 DEF Inner
      <4>4. QED BY <4>1, <4>2, <4>3
    <3>9. \A x \in Pos : x >= i + 1 => p'[x] = x
      BY <3>2, <3>3, <3>4 DEF Inner, Pos
    <3>10. \A x \in Pos : x < i + 1 => p'[x] < i + 1
      <4> SUFFICES ASSUME NEW x \in Pos, x < i + 1 PROVE p'[x] < i + 1
        OBVIOUS
      <4>1. CASE x = j + 1
        BY <4>1, <3>3, <3>4 DEF Pos
      <4>2. CASE x # j + 1
        <5>1. p[x] < i /\ p[x] \in Pos
          BY <4>2, <3>2, <3>3 DEF Inner, Pos, TypeOK
        <5>2. QED BY <5>1, <4>2, <3>3, <3>4 DEF Pos
      <4>3. QED BY <4>1, <4>2
    <3>11. Outer'
      BY <3>1, <3>8, <3>9, <3>10 DEF Outer
    <3>12. QED BY <3>1, <3>5, <3>11 DEF Inv
  <2>5. CASE UNCHANGED vars
    BY <2>5 DEF Inv, vars, TypeOK, Outer, Inner, At
  <2>6. QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Next
<1>3. QED BY <1>1, <1>2, PTL DEF Spec

\* every position is in order, elements of equal keys in input order; so none is there twice
THEOREM Result == ASSUME Inv, pc = "done"
                  PROVE /\ \A a, b \in Pos : a < b => Less(p[a], p[b])
                        /\ \A a, b \in Pos : p[a] = p[b] => a = b
<1> USE Given
<1>1. \A a, b \in Pos : a < b => Less(p[a], p[b])
  <2>1. Outer /\ i >= N /\ i \in Int
    BY DEF Inv, TypeOK
  <2>2. \A b \in Pos : b < i
    BY <2>1 DEF Pos
  <2>3. QED BY <2>1, <2>2 DEF Outer
<1>2. \A a, b \in Pos : a < b => p[a] # p[b]
  BY <1>1 DEF Less, Inv, TypeOK, Pos
<1>3. ASSUME NEW a \in Pos, NEW b \in Pos, p[a] = p[b] PROVE a = b
  <2>1. ~(a < b) /\ ~(b < a)
    BY <1>2, <1>3
  <2>2. a \in Int /\ b \in Int
    BY DEF Pos
  <2>3. QED BY <2>1, <2>2
<1>4. QED BY <1>1, <1>3

\* what is compared lies in the array
THEOREM Inside == ASSUME Inv, pc = "inner" PROVE i \in Pos /\ j + 1 \in Pos /\ (j >= 0 => j \in Pos)
  BY Given DEF Inv, Inner, TypeOK, Pos
=============================================================================
