--------------------------- MODULE SelectionProof ---------------------------
(* Unbounded: selection_sort.c, for every number of elements and every key: what it leaves is ordered and a
   permutation of what it was given, and no position outside the array is used.  p[x]: which input
   element is at position x.                                                                      *)
EXTENDS Integers, TLAPS

CONSTANTS N, key
Pos == 0..(N - 1)
ASSUME Given == N \in Nat /\ key \in [Pos -> Int]

VARIABLES p, i, j, m, pc
vars == <<p, i, j, m, pc>>
At(q, x) == key[q[x]]

Init == p = [x \in Pos |-> x] /\ i = 0 /\ j = 0 /\ m = 0 /\ pc = "outer"
Take == pc = "outer" /\ i < N - 1 /\ m' = i /\ j' = i + 1 /\ pc' = "inner" /\ UNCHANGED <<p, i>>
Stop == pc = "outer" /\ ~(i < N - 1) /\ pc' = "done" /\ UNCHANGED <<p, i, j, m>>
Look == /\ pc = "inner" /\ j < N
        /\ m' = (IF At(p, m) > At(p, j) THEN j ELSE m) /\ j' = j + 1 /\ UNCHANGED <<p, i, pc>>
Swap == /\ pc = "inner" /\ ~(j < N)
        /\ p' = [p EXCEPT ![i] = p[m], ![m] = p[i]] /\ i' = i + 1 /\ pc' = "outer" /\ UNCHANGED <<j, m>>
Next == Take \/ Stop \/ Look \/ Swap
Spec == Init /\ [][Next]_vars

TypeOK == p \in [Pos -> Pos] /\ i \in Nat /\ j \in Nat /\ m \in Nat /\ pc \in {"outer", "inner", "done"}
Once  == \A a, b \in Pos : p[a] = p[b] => a = b
Front == \A a, b \in Pos : a < i /\ a < b => At(p, a) <= At(p, b)
Inner == /\ i \in Pos /\ m \in Pos /\ i <= m /\ i < j /\ j <= N
         /\ \A x \in Pos : i <= x /\ x < j => At(p, m) <= At(p, x)
Inv == /\ TypeOK /\ Once /\ Front
       /\ pc = "inner" => Inner
       /\ pc = "done" => i >= N - 1

THEOREM InvHolds == Spec => []Inv
<1> USE Given
<1>1. Init => Inv
  BY DEF Init, Inv, TypeOK, Once, Front, Pos
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. CASE Take
    <3>1. p' = p /\ i' = i /\ m' = i /\ j' = i + 1 /\ pc' = "inner" /\ i \in Pos /\ i \in Nat
      BY <2>1 DEF Take, Inv, TypeOK, Pos
    <3>2. TypeOK' /\ Once' /\ Front'
      BY <3>1 DEF Inv, TypeOK, Once, Front, At
    <3>3. At(p, i) \in Int
      BY <3>1 DEF Inv, TypeOK, At
    <3>4. \A x \in Pos : i <= x /\ x < i + 1 => x = i
      BY <3>1 DEF Pos
    <3>5. i + 1 <= N /\ i < i + 1 /\ i <= i
      BY <3>1 DEF Pos
    <3>6. Inner'
      BY <3>1, <3>3, <3>4, <3>5 DEF Inner, At
    <3>7. QED BY <3>1, <3>2, <3>6 DEF Inv
  <2>2. CASE Stop
    BY <2>2 DEF Stop, Inv, TypeOK, Once, Front, At
  <2>3. CASE Look
    <3>1. /\ p' = p /\ i' = i /\ m' = (IF At(p, m) > At(p, j) THEN j ELSE m) /\ j' = j + 1 /\ pc' = "inner" /\ pc = "inner" /\ j < N
          /\ Inner /\ TypeOK
      BY <2>3 DEF Look, Inv
    <3>2. j \in Pos /\ m \in Pos /\ i \in Pos /\ j \in Nat /\ i <= j
      BY <3>1 DEF Inner, TypeOK, Pos
    <3>3. At(p, m) \in Int /\ At(p, j) \in Int /\ \A x \in Pos : At(p, x) \in Int
      BY <3>1, <3>2 DEF TypeOK, At
    <3>4. m' \in Pos /\ m' \in Nat /\ i <= m'
      BY <3>1, <3>2 DEF Inner, TypeOK, Pos
    <3>5. At(p, m') <= At(p, m) /\ At(p, m') <= At(p, j)
      BY <3>1, <3>3
    <3>6. At(p, m') \in Int
      BY <3>3, <3>4
    <3>7. \A x \in Pos : i <= x /\ x < j + 1 => At(p, m') <= At(p, x)
      <4> SUFFICES ASSUME NEW x \in Pos, i <= x, x < j + 1 PROVE At(p, m') <= At(p, x)
        OBVIOUS
      <4>1. x = j \/ x < j
        BY <3>2 DEF Pos
      <4>2. CASE x = j
        BY <4>2, <3>5
      <4>3. CASE x < j
        <5>1. At(p, m) <= At(p, x)
          BY <4>3, <3>1 DEF Inner
        <5>2. QED BY <5>1, <3>5, <3>3, <3>6
      <4>4. QED BY <4>1, <4>2, <4>3
    <3>8. Inner'
      <4>1. i < j + 1 /\ j + 1 <= N
        BY <3>1, <3>2 DEF Inner, Pos
      <4>2. QED BY <4>1, <3>1, <3>2, <3>4, <3>7 DEF Inner, At
    <3>9. TypeOK' /\ Once' /\ Front'
      BY <3>1, <3>2, <3>4 DEF Inv, TypeOK, Once, Front, At
    <3>10. QED BY <3>1, <3>8, <3>9 DEF Inv
  <2>4. CASE Swap
    <3>1. /\ p' = [p EXCEPT ![i] = p[m], ![m] = p[i]] /\ i' = i + 1 /\ j' = j /\ m' = m /\ pc' = "outer" /\ pc = "inner" /\ ~(j < N)
          /\ Inner /\ TypeOK /\ Once /\ Front
      BY <2>4 DEF Swap, Inv
    <3>2. i \in Pos /\ m \in Pos /\ i <= m /\ i \in Int /\ m \in Int
      BY <3>1 DEF Inner, Pos
    <3>3. p'[i] = p[m] /\ p'[m] = p[i] /\ (\A x \in Pos : x # i /\ x # m => p'[x] = p[x]) /\ p' \in [Pos -> Pos]
      BY <3>1, <3>2 DEF TypeOK
    <3>4. TypeOK'
      BY <3>1, <3>3 DEF TypeOK
    <3>5. Once'
      BY <3>1, <3>2, <3>3 DEF Once
    <3>6. \A x \in Pos : i <= x => At(p, m) <= At(p, x)
      BY <3>1 DEF Inner, TypeOK, Pos
    <3>7. \A x \in Pos : x >= i => \E y \in Pos : y >= i /\ p'[x] = p[y]
      BY <3>2, <3>3
    <3>8. \A a, b \in Pos : a < i + 1 /\ a < b => At(p', a) <= At(p', b)
      <4> SUFFICES ASSUME NEW a \in Pos, NEW b \in Pos, a < i + 1, a < b PROVE At(p', a) <= At(p', b)
        OBVIOUS
      <4>0. a \in Int /\ b \in Int
        BY DEF Pos
      <4>1. CASE a = i
        <5>1. PICK y \in Pos : y >= i /\ p'[b] = p[y]
          BY <4>0, <4>1, <3>2, <3>7
        <5>2. At(p, m) <= At(p, y)
          BY <5>1, <3>2, <3>6
        <5>3. QED BY <5>1, <5>2, <4>1, <3>3 DEF At
      <4>2. CASE a < i
        <5>1. p'[a] = p[a]
          BY <4>0, <4>2, <3>2, <3>3
        <5>2. PICK y \in Pos : a < y /\ p'[b] = p[y]
          <6>1. CASE b = i
            BY <6>1, <4>0, <4>2, <3>2, <3>3
          <6>2. CASE b = m
            BY <6>2, <4>0, <4>2, <3>2, <3>3
          <6>3. CASE b # i /\ b # m
            BY <6>3, <3>3
          <6>4. QED BY <6>1, <6>2, <6>3
        <5>3. At(p, a) <= At(p, y)
          BY <5>2, <4>2, <3>1 DEF Front
        <5>4. QED BY <5>1, <5>2, <5>3 DEF At
      <4>3. QED BY <4>0, <4>1, <4>2, <3>2
    <3>9. Front'
      BY <3>1, <3>8 DEF Front, At
    <3>10. QED BY <3>1, <3>4, <3>5, <3>9 DEF Inv
  <2>5. CASE UNCHANGED vars
    BY <2>5 DEF Inv, vars, TypeOK, Once, Front, Inner, At
  <2>6. QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Next
<1>3. QED BY <1>1, <1>2, PTL DEF Spec

THEOREM Result == ASSUME Inv, pc = "done"
                  PROVE /\ \A a, b \in Pos : a < b => At(p, a) <= At(p, b)
                        /\ \A a, b \in Pos : p[a] = p[b] => a = b
<1> USE Given
<1>1. i >= N - 1 /\ i \in Int /\ Front /\ Once
  BY DEF Inv, TypeOK
<1>2. ASSUME NEW a \in Pos, NEW b \in Pos, a < b PROVE At(p, a) <= At(p, b)
  <2>1. a < i
    BY <1>1, <1>2 DEF Pos
  <2>2. QED BY <2>1, <1>1, <1>2 DEF Front
<1>3. QED BY <1>1, <1>2 DEF Once

\* what is compared or exchanged lies in the array
THEOREM Inside == ASSUME Inv, pc = "inner" PROVE i \in Pos /\ m \in Pos /\ (j < N => j \in Pos)
  BY Given DEF Inv, Inner, TypeOK, Pos
=============================================================================
