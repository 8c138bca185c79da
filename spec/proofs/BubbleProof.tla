----------------------------- MODULE BubbleProof -----------------------------
(* Unbounded: bubble_sort.c, for every number of elements and every key: what it leaves is ordered, a
   permutation, and stable.  p[x]: which input element is at position x.                          *)
EXTENDS Integers, TLAPS

CONSTANTS N, key
Pos == 0..(N - 1)
ASSUME Given == N \in Nat /\ key \in [Pos -> Int]

VARIABLES p, i, j, swapped, pc
vars == <<p, i, j, swapped, pc>>
At(q, x) == key[q[x]]
K(x) == At(p, x)
Swap(x, y) == [p EXCEPT ![x] = p[y], ![y] = p[x]]

Init == p = [x \in Pos |-> x] /\ i = 0 /\ j = 0 /\ swapped = TRUE /\ pc = "outer"
Pass == /\ pc = "outer" /\ swapped
        /\ swapped' = FALSE /\ j' = 0 /\ pc' = "inner" /\ UNCHANGED <<p, i>>
Stop == pc = "outer" /\ ~swapped /\ pc' = "done" /\ UNCHANGED <<p, i, j, swapped>>
Turn == /\ pc = "inner" /\ j < N - i - 1 /\ K(j) > K(j + 1)
        /\ p' = Swap(j, j + 1) /\ swapped' = TRUE /\ j' = j + 1 /\ UNCHANGED <<i, pc>>
Skip == /\ pc = "inner" /\ j < N - i - 1 /\ ~(K(j) > K(j + 1))
        /\ j' = j + 1 /\ UNCHANGED <<p, i, swapped, pc>>
Fin  == /\ pc = "inner" /\ ~(j < N - i - 1)
        /\ i' = i + 1 /\ pc' = "outer" /\ UNCHANGED <<p, j, swapped>>
Next == Pass \/ Stop \/ Turn \/ Skip \/ Fin
Spec == Init /\ [][Next]_vars

Injective == \A a, b \in Pos : p[a] = p[b] => a = b
Stable == \A a, b \in Pos : a < b /\ K(a) = K(b) => p[a] < p[b]
Tail(m) == \A a, b \in Pos : a < b /\ b >= m => K(a) <= K(b)   \* from m on in order, nothing before is greater
Front(m) == \A a, b \in Pos : a < b /\ b <= m => K(a) <= K(b)  \* up to m in order
Top(m) == \A a \in Pos : a <= m /\ m \in Pos => K(a) <= K(m)
TailI == Tail(N - i)
TopJ == Top(j)
FrontJ == Front(j)
FrontI == Front(N - i)
TypeOK == /\ p \in [Pos -> Pos] /\ i \in Nat /\ j \in Nat /\ swapped \in BOOLEAN /\ pc \in {"outer", "inner", "done"}
Inv == /\ TypeOK /\ Injective /\ Stable
       /\ TailI
       /\ pc = "inner" => (j = 0 \/ j <= N - i - 1) /\ TopJ /\ (~swapped => FrontJ)
       /\ pc = "outer" => (swapped \/ FrontI)
       /\ pc = "done" => FrontI

THEOREM InvHolds == Spec => []Inv
<1>1. Init => Inv
  <2> SUFFICES ASSUME Init PROVE Inv
    OBVIOUS
  <2>1. TypeOK
    BY Given DEF Init, TypeOK, Pos
  <2>2. \A x \in Pos : p[x] = x
    BY DEF Init
  <2>3. Injective /\ Stable /\ Tail(N)
    BY <2>2, Given DEF Injective, Stable, TailI, Tail, Pos
  <2>4. N - i = N
    BY Given DEF Init
  <2>5. TailI /\ i = 0 /\ pc = "outer" /\ swapped
    BY <2>3, <2>4 DEF Init, TailI
  <2>6. QED BY <2>1, <2>3, <2>5 DEF Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2> USE Given
  <2>k. \A x \in Pos : K(x) \in Int
    BY DEF Inv, TypeOK, K, At
  <2>1. CASE Pass
    <3>1. p' = p /\ i' = i /\ j' = 0 /\ pc' = "inner" /\ swapped' = FALSE
      BY <2>1 DEF Pass
    <3>2. TypeOK' /\ Injective' /\ Stable' /\ TailI'
      BY <3>1 DEF Inv, TypeOK, Injective, Stable, TailI, Tail, K, At
    <3>3. TopJ' /\ FrontJ'
      BY <3>1, <2>k DEF TopJ, Top, FrontI, FrontJ, Front, K, At, Pos
    <3>4. QED BY <3>1, <3>2, <3>3 DEF Inv
  <2>2. CASE Stop
    <3>1. p' = p /\ i' = i /\ j' = j /\ pc' = "done" /\ swapped' = swapped /\ ~swapped /\ pc = "outer"
      BY <2>2 DEF Stop
    <3>2. TypeOK' /\ Injective' /\ Stable' /\ TailI'
      BY <3>1 DEF Inv, TypeOK, Injective, Stable, TailI, Tail, K, At
    <3>3. FrontI'
      BY <3>1 DEF Inv, FrontI, FrontJ, Front, K, At
    <3>4. QED BY <3>1, <3>2, <3>3 DEF Inv
  <2>3. CASE Turn
    <3>1. i' = i /\ j' = j + 1 /\ pc' = "inner" /\ swapped' /\ p' = Swap(j, j + 1) /\ j < N - i - 1 /\ K(j) > K(j + 1) /\ pc = "inner"
      BY <2>3 DEF Turn
    <3>2. j \in Pos /\ j + 1 \in Pos /\ j' <= N - i' - 1
      BY <3>1 DEF Inv, TypeOK, Pos
    <3>3. p'[j] = p[j + 1] /\ p'[j + 1] = p[j] /\ \A x \in Pos \ {j, j + 1} : p'[x] = p[x]
      BY <3>1, <3>2 DEF Inv, TypeOK, Swap
    <3>4. p' \in [Pos -> Pos]
      BY <3>1, <3>2 DEF Inv, TypeOK, Swap
    <3>5. TypeOK'
      BY <3>1, <3>4 DEF Inv, TypeOK
    <3>6. Injective'
      BY <3>2, <3>3 DEF Inv, Injective
    <3>7. At(p', j) = K(j + 1) /\ At(p', j + 1) = K(j) /\ \A x \in Pos \ {j, j + 1} : At(p', x) = K(x)
      BY <3>3 DEF K, At
    <3>u. \A x \in Pos : At(p', x) \in Int
      BY <3>4 DEF At
    <3>8. Stable'
      <4> SUFFICES ASSUME NEW a \in Pos, NEW b \in Pos, a < b, At(p', a) = At(p', b) PROVE p'[a] < p'[b]
        BY DEF Stable, K
      <4>1. CASE a \notin {j, j + 1} /\ b \notin {j, j + 1}
        BY <4>1, <3>3, <3>7 DEF Inv, Stable, K
      <4>2. CASE a \in {j, j + 1} /\ b \notin {j, j + 1}
        BY <4>2, <3>2, <3>3, <3>7 DEF Inv, Stable, Pos
      <4>3. CASE a \notin {j, j + 1} /\ b \in {j, j + 1}
        BY <4>3, <3>2, <3>3, <3>7 DEF Inv, Stable, Pos
      <4>4. CASE a \in {j, j + 1} /\ b \in {j, j + 1}
        <5>1. a = j /\ b = j + 1
          BY <4>4, <3>2 DEF Pos
        <5>2. QED BY <5>1, <3>1, <3>2, <3>7, <2>k
      <4>5. QED BY <4>1, <4>2, <4>3, <4>4
    <3>9. TailI'
      <4> SUFFICES ASSUME NEW a \in Pos, NEW b \in Pos, a < b, b >= N - i PROVE At(p', a) <= At(p', b)
        BY <3>1 DEF TailI, Tail, K, At
      <4>1. b \notin {j, j + 1}
        BY <3>1, <3>2 DEF Pos, Inv, TypeOK
      <4>2. CASE a \notin {j, j + 1}
        BY <4>1, <4>2, <3>7 DEF Inv, TailI, Tail
      <4>3. CASE a \in {j, j + 1}
        <5>1. K(j) <= K(b) /\ K(j + 1) <= K(b)
          BY <3>1, <3>2 DEF Inv, TailI, Tail, Pos, TypeOK
        <5>2. QED BY <4>1, <4>3, <5>1, <3>7
      <4>4. QED BY <4>2, <4>3
    <3>10. TopJ'
      <4> SUFFICES ASSUME NEW a \in Pos, a <= j + 1 PROVE At(p', a) <= At(p', j + 1)
        BY <3>1, <3>2 DEF TopJ, Top, K, At
      <4>1. \A x \in Pos : x <= j => K(x) <= K(j)
        BY <3>1, <3>2 DEF Inv, TopJ, Top
      <4>2. CASE a = j + 1
        BY <4>2, <3>7, <3>2, <2>k
      <4>3. CASE a = j
        BY <4>3, <3>7, <3>2, <2>k, <3>1
      <4>4. CASE a \notin {j, j + 1}
        BY <4>4, <4>1, <3>7, <3>2 DEF Pos
      <4>5. QED BY <4>2, <4>3, <4>4
    <3>11. TailI' /\ TopJ'
      BY <3>1, <3>9, <3>10 DEF TailI, Tail, TopJ, Top, K, At
    <3>12. QED BY <3>1, <3>2, <3>5, <3>6, <3>8, <3>11 DEF Inv
  <2>4. CASE Skip
    <3>1. i' = i /\ j' = j + 1 /\ pc' = "inner" /\ swapped' = swapped /\ p' = p /\ j < N - i - 1 /\ ~(K(j) > K(j + 1)) /\ pc = "inner"
      BY <2>4 DEF Skip
    <3>2. j \in Pos /\ j + 1 \in Pos /\ j' <= N - i' - 1
      BY <3>1 DEF Inv, TypeOK, Pos
    <3>3. TypeOK' /\ Injective' /\ Stable' /\ TailI'
      BY <3>1 DEF Inv, TypeOK, Injective, Stable, TailI, Tail, K, At
    <3>4. K(j) <= K(j + 1)
      BY <3>1, <3>2, <2>k
    <3>5. \A x \in Pos : x <= j + 1 => K(x) <= K(j + 1)
      BY <3>1, <3>2, <3>4, <2>k DEF Inv, TopJ, Top, Pos
    <3>6. ~swapped => \A a, b \in Pos : a < b /\ b <= j + 1 => K(a) <= K(b)
      BY <3>1, <3>2, <3>5 DEF Inv, FrontI, FrontJ, Front, Pos
    <3>7. TopJ' /\ (~swapped' => FrontJ')
      BY <3>1, <3>5, <3>6 DEF TopJ, Top, FrontI, FrontJ, Front, K, At
    <3>8. QED BY <3>1, <3>2, <3>3, <3>7 DEF Inv
  <2>5. CASE Fin
    <3>1. i' = i + 1 /\ j' = j /\ pc' = "outer" /\ swapped' = swapped /\ p' = p /\ ~(j < N - i - 1) /\ pc = "inner"
      BY <2>5 DEF Fin
    <3>2. TypeOK' /\ Injective' /\ Stable'
      BY <3>1 DEF Inv, TypeOK, Injective, Stable, K, At
    <3>3. Tail(N - (i + 1))
      <4> SUFFICES ASSUME NEW a \in Pos, NEW b \in Pos, a < b, b >= N - (i + 1) PROVE K(a) <= K(b)
        BY DEF TailI, Tail
      <4>1. CASE b >= N - i
        BY <4>1 DEF Inv, TailI, Tail
      <4>2. CASE ~(b >= N - i)
        <5>1. b = N - i - 1
          BY <4>2 DEF Inv, TypeOK, Pos
        <5>2. j = b
          BY <5>1, <3>1 DEF Inv, TypeOK, Pos
        <5>3. QED BY <5>2, <3>1 DEF Inv, TopJ, Top, Pos
      <4>3. QED BY <4>1, <4>2
    <3>4. ~swapped => Front(N - (i + 1))
      <4> SUFFICES ASSUME ~swapped, NEW a \in Pos, NEW b \in Pos, a < b, b <= N - (i + 1) PROVE K(a) <= K(b)
        BY DEF FrontI, FrontJ, Front
      <4>1. b <= j
        BY <3>1 DEF Inv, TypeOK, Pos
      <4>2. QED BY <4>1, <3>1 DEF Inv, FrontI, FrontJ, Front
    <3>5. TailI' /\ (~swapped' => FrontI')
      BY <3>1, <3>3, <3>4 DEF TailI, Tail, FrontI, FrontJ, Front, K, At
    <3>6. QED BY <3>1, <3>2, <3>5 DEF Inv, TypeOK
  <2>6. CASE UNCHANGED vars
    BY <2>6 DEF Inv, vars, TypeOK, Injective, Stable, TailI, Tail, FrontI, FrontJ, Front, TopJ, Top, K, At
  <2>7. QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Next
<1>3. QED BY <1>1, <1>2, PTL DEF Spec

THEOREM Result == ASSUME Inv, pc = "done"
                  PROVE /\ \A a, b \in Pos : a < b => K(a) <= K(b)
                        /\ Injective /\ Stable
  BY Given DEF Inv, FrontI, FrontJ, Front, TailI, Tail, TypeOK, Pos
=============================================================================
