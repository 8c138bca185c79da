------------------------------- MODULE MapProof -------------------------------
(* Unbounded: for every number of keys, key and value domain and history the two arrays of map.c, filled
   in order of insertion, hold no key twice, and are the finite function of Map.tla.             *)
EXTENDS Integers, TLAPS

CONSTANTS max, Key, Val
ASSUME Max == max \in Nat

VARIABLES n, ks, vs

Used == 0..(n - 1)
Inv == /\ n \in 0..max
       /\ ks \in [0..(max - 1) -> Key] /\ vs \in [0..(max - 1) -> Val]
       /\ \A i, j \in Used : ks[i] = ks[j] => i = j
Maps(k, v, m, kk, vv) == \E i \in 0..(m - 1) : kk[i] = k /\ vv[i] = v     \* k is mapped to v
Has(k) == \E i \in Used : ks[i] = k

Init == n = 0 /\ ks \in [0..(max - 1) -> Key] /\ vs \in [0..(max - 1) -> Val]
Replace(k, v) == \E i \in Used : /\ ks[i] = k
                                 /\ vs' = [vs EXCEPT ![i] = v] /\ UNCHANGED <<n, ks>>
New(k, v) == /\ ~Has(k) /\ n # max
             /\ ks' = [ks EXCEPT ![n] = k] /\ vs' = [vs EXCEPT ![n] = v] /\ n' = n + 1
Refuse(k) == ~Has(k) /\ n = max /\ UNCHANGED <<n, ks, vs>>
Insert(k, v) == Replace(k, v) \/ New(k, v) \/ Refuse(k)
Next == \E k \in Key, v \in Val : Insert(k, v)
vars == <<n, ks, vs>>
Spec == Init /\ [][Next]_vars

THEOREM InvHolds == Spec => []Inv
<1>1. Init => Inv
  BY Max DEF Init, Inv, Used
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. ASSUME NEW k \in Key, NEW v \in Val, Replace(k, v) PROVE Inv'
    BY <2>1, Max DEF Inv, Replace, Used
  <2>2. ASSUME NEW k \in Key, NEW v \in Val, New(k, v) PROVE Inv'
    <3>1. n' \in 0..max /\ ks' \in [0..(max - 1) -> Key] /\ vs' \in [0..(max - 1) -> Val]
      BY <2>2, Max DEF Inv, New
    <3>2. \A i \in Used : ks'[i] = ks[i]
      BY <2>2, Max DEF Inv, New, Used
    <3>3. ks'[n] = k /\ n \in 0..(max - 1)
      BY <2>2, Max DEF Inv, New
    <3>4. \A i, j \in 0..n : ks'[i] = ks'[j] => i = j
      BY <2>2, <3>2, <3>3, Max DEF Inv, New, Used, Has
    <3>5. QED BY <2>2, <3>1, <3>4, Max DEF Inv, New, Used
  <2>3. ASSUME NEW k \in Key, Refuse(k) PROVE Inv'
    BY <2>3 DEF Inv, Refuse, Used
  <2>4. ASSUME UNCHANGED vars PROVE Inv'
    BY <2>4 DEF Inv, vars, Used
  <2>5. QED BY <2>1, <2>2, <2>3, <2>4 DEF Next, Insert
<1>3. QED BY <1>1, <1>2, PTL DEF Spec

\* after an accepted insert k has the new value and every other key what it had
THEOREM Inserted == ASSUME Inv, NEW k \in Key, NEW v \in Val, Replace(k, v) \/ New(k, v)
                    PROVE /\ \A w : Maps(k, w, n', ks', vs') <=> w = v
                          /\ \A x, w : x # k => (Maps(x, w, n', ks', vs') <=> Maps(x, w, n, ks, vs))
<1>1. CASE Replace(k, v)
  <2>1. PICK i \in Used : ks[i] = k /\ vs' = [vs EXCEPT ![i] = v] /\ n' = n /\ ks' = ks
    BY <1>1 DEF Replace
  <2>2. vs'[i] = v /\ \A j \in Used : j # i => vs'[j] = vs[j]
    BY <2>1, Max DEF Inv, Used
  <2>3. QED BY <2>1, <2>2 DEF Inv, Used, Maps
<1>2. CASE New(k, v)
  <2>1. n \in 0..(max - 1) /\ n' = n + 1 /\ ks'[n] = k /\ vs'[n] = v
    BY <1>2, Max DEF Inv, New
  <2>2. \A j \in Used : ks'[j] = ks[j] /\ vs'[j] = vs[j] /\ ks[j] # k
    BY <1>2, Max DEF Inv, New, Used, Has
  <2>3. \A j : j \in 0..(n' - 1) <=> j \in Used \/ j = n
    BY <2>1 DEF Used
  <2>4. QED BY <2>1, <2>2, <2>3 DEF Used, Maps
<1>3. QED BY <1>1, <1>2

\* a lookup has at most one answer
THEOREM Single == ASSUME Inv, NEW k, NEW v, NEW w, Maps(k, v, n, ks, vs), Maps(k, w, n, ks, vs) PROVE v = w
  BY DEF Inv, Maps, Used
=============================================================================
