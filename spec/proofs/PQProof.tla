-------------------------------- MODULE PQProof --------------------------------
(* Unbounded: for every capacity, element domain and history the arrays of priority_queue.c are kept in
   order of arrival, the scan finds the oldest of the highest (lowest) priority, and removing it by
   shifting loses, duplicates and reorders nothing.  arr is a ghost: the moment of arrival.        *)
EXTENDS Integers, TLAPS

CONSTANTS cap, Elem
ASSUME Cap == cap \in Nat /\ cap > 0

VARIABLES n, pri, el, arr, clock

Used == 0..(n - 1)
Inv == /\ n \in 0..cap /\ clock \in Nat
       /\ pri \in [0..(cap - 1) -> Nat] /\ el \in [0..(cap - 1) -> Elem] /\ arr \in [0..(cap - 1) -> Nat]
       /\ \A i, j \in Used : i < j => arr[i] < arr[j]
       /\ \A i \in Used : arr[i] < clock

IsBest(b)  == b \in Used /\ \A i \in Used : pri[i] <= pri[b] /\ (pri[i] = pri[b] => b <= i)
IsWorst(b) == b \in Used /\ \A i \in Used : pri[b] <= pri[i] /\ (pri[i] = pri[b] => b <= i)
Shift(b, f) == [i \in 0..(cap - 1) |-> IF b <= i /\ i < n - 1 THEN f[i + 1] ELSE f[i]]

Init == /\ n = 0 /\ clock = 0
        /\ pri \in [0..(cap - 1) -> Nat] /\ el \in [0..(cap - 1) -> Elem] /\ arr \in [0..(cap - 1) -> Nat]
Append(p, e) == /\ n # cap
                /\ pri' = [pri EXCEPT ![n] = p] /\ el' = [el EXCEPT ![n] = e] /\ arr' = [arr EXCEPT ![n] = clock]
                /\ n' = n + 1 /\ clock' = clock + 1
Displace(w, p, e) == /\ n = cap /\ IsWorst(w) /\ pri[w] < p
                     /\ pri' = [Shift(w, pri) EXCEPT ![n - 1] = p] /\ el' = [Shift(w, el) EXCEPT ![n - 1] = e]
                     /\ arr' = [Shift(w, arr) EXCEPT ![n - 1] = clock]
                     /\ n' = n /\ clock' = clock + 1
Deq(b) == /\ IsBest(b)
          /\ pri' = Shift(b, pri) /\ el' = Shift(b, el) /\ arr' = Shift(b, arr)
          /\ n' = n - 1 /\ UNCHANGED clock
vars == <<n, pri, el, arr, clock>>
Next == \/ \E p \in Nat, e \in Elem : Append(p, e)
        \/ \E w \in Used, p \in Nat, e \in Elem : Displace(w, p, e)
        \/ \E b \in Used : Deq(b)
Spec == Init /\ [][Next]_vars

LEMMA ShiftType == ASSUME NEW S, NEW f \in [0..(cap - 1) -> S], NEW b, n \in 0..cap, b \in Int
                   PROVE Shift(b, f) \in [0..(cap - 1) -> S]
  BY Cap DEF Shift
THEOREM InvHolds == Spec => []Inv
<1>1. Init => Inv
  BY Cap DEF Init, Inv, Used
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. ASSUME NEW p \in Nat, NEW e \in Elem, Append(p, e) PROVE Inv'
    <3>1. n' \in 0..cap /\ clock' \in Nat /\ n \in 0..(cap - 1)
      BY <2>1, Cap DEF Inv, Append
    <3>2. pri' \in [0..(cap - 1) -> Nat] /\ el' \in [0..(cap - 1) -> Elem] /\ arr' \in [0..(cap - 1) -> Nat]
      BY <2>1, <3>1, Cap DEF Inv, Append
    <3>3. arr'[n] = clock /\ \A i \in Used : arr'[i] = arr[i]
      BY <2>1, <3>1, Cap DEF Inv, Append, Used
    <3>a. \A i \in Used : arr'[i] < clock
      BY <3>3 DEF Inv
    <3>b. \A i, j \in Used : i < j => arr'[i] < arr'[j]
      BY <3>3 DEF Inv
    <3>c. \A i \in 0..n : i \in Used \/ i = n
      BY <3>1 DEF Used
    <3>e. \A i, j \in 0..n : i < j => i \in Used
      BY <3>1 DEF Used
    <3>f. \A i \in 0..n : arr'[i] \in Nat
      <4>1. 0..n \subseteq 0..(cap - 1)
        BY <3>1, Cap
      <4>2. QED BY <3>2, <4>1
    <3>4. (\A i, j \in 0..n : i < j => arr'[i] < arr'[j]) /\ \A i \in 0..n : arr'[i] < clock + 1
      BY <3>1, <3>3, <3>a, <3>b, <3>c, <3>e, <3>f DEF Inv
    <3>5. QED BY <2>1, <3>1, <3>2, <3>4 DEF Inv, Append, Used
  <2>2. ASSUME NEW w \in Used, NEW p \in Nat, NEW e \in Elem, Displace(w, p, e) PROVE Inv'
    <3>1. n' \in 0..cap /\ clock' \in Nat /\ n = cap /\ n' = n
      BY <2>2, Cap DEF Inv, Displace
    <3>2. pri' \in [0..(cap - 1) -> Nat] /\ el' \in [0..(cap - 1) -> Elem] /\ arr' \in [0..(cap - 1) -> Nat]
      <4>1. w \in Int /\ n \in 0..cap
        BY <3>1, Cap DEF Inv, Used
      <4>2. Shift(w, pri) \in [0..(cap - 1) -> Nat] /\ Shift(w, arr) \in [0..(cap - 1) -> Nat]
        BY <4>1, ShiftType DEF Inv
      <4>3. Shift(w, el) \in [0..(cap - 1) -> Elem]
        BY <4>1, ShiftType DEF Inv
      <4>4. clock \in Nat
        BY DEF Inv
      <4>5. QED BY <2>2, <4>2, <4>3, <4>4 DEF Displace
    <3>3. arr'[n - 1] = clock /\ \A i \in 0..(n - 2) : arr'[i] = (IF w <= i THEN arr[i + 1] ELSE arr[i])
      BY <2>2, <3>1, Cap DEF Inv, Displace, Shift
    <3>4. (\A i, j \in 0..(n - 1) : i < j => arr'[i] < arr'[j]) /\ \A i \in 0..(n - 1) : arr'[i] < clock + 1
      BY <3>1, <3>3, Cap DEF Inv, Used
    <3>5. QED BY <2>2, <3>1, <3>2, <3>4 DEF Inv, Displace, Used
  <2>3. ASSUME NEW b \in Used, Deq(b) PROVE Inv'
    <3>1. n' \in 0..cap /\ clock' = clock /\ n' = n - 1
      BY <2>3, Cap DEF Inv, Deq, IsBest, Used
    <3>2. pri' \in [0..(cap - 1) -> Nat] /\ el' \in [0..(cap - 1) -> Elem] /\ arr' \in [0..(cap - 1) -> Nat]
      BY <2>3, <3>1, Cap, ShiftType DEF Inv, Deq, Used
    <3>3. \A i \in 0..(n - 2) : arr'[i] = (IF b <= i THEN arr[i + 1] ELSE arr[i])
      BY <2>3, <3>1, Cap DEF Inv, Deq, Shift
    <3>a. \A i \in 0..(n - 2) : (IF b <= i THEN i + 1 ELSE i) \in Used
      BY <3>1, Cap DEF Inv, Used
    <3>b. \A i, j \in 0..(n - 2) : i < j => (IF b <= i THEN i + 1 ELSE i) < (IF b <= j THEN j + 1 ELSE j)
      BY <3>1, Cap DEF Inv, Used
    <3>c. \A i \in 0..(n - 2) : arr'[i] = arr[IF b <= i THEN i + 1 ELSE i]
      BY <3>3
    <3>4. (\A i, j \in 0..(n - 2) : i < j => arr'[i] < arr'[j]) /\ \A i \in 0..(n - 2) : arr'[i] < clock
      BY <3>a, <3>b, <3>c DEF Inv
    <3>5. QED BY <3>1, <3>2, <3>4 DEF Inv, Used
  <2>4. ASSUME UNCHANGED vars PROVE Inv'
    BY <2>4 DEF Inv, vars, Used
  <2>5. QED BY <2>1, <2>2, <2>3, <2>4 DEF Next
<1>3. QED BY <1>1, <1>2, PTL DEF Spec

\* the first of the best is the oldest of the best, and there is only one
THEOREM Oldest == ASSUME Inv, NEW b, IsBest(b), NEW i \in Used, i # b, pri[i] = pri[b] PROVE arr[b] < arr[i]
  BY Cap DEF Inv, IsBest, Used
THEOREM OldestWorst == ASSUME Inv, NEW b, IsWorst(b), NEW i \in Used, i # b, pri[i] = pri[b] PROVE arr[b] < arr[i]
  BY Cap DEF Inv, IsWorst, Used

\* what is left after a removal: everything else, once, in the order it was in
Same(i, j) == pri'[j] = pri[i] /\ el'[j] = el[i] /\ arr'[j] = arr[i]
To(b, i) == IF i < b THEN i ELSE i - 1
THEOREM DeqKeeps == ASSUME Inv, NEW b, Deq(b)
                    PROVE /\ \A i \in Used \ {b} : To(b, i) \in 0..(n' - 1) /\ Same(i, To(b, i))
                          /\ \A j \in 0..(n' - 1) : \E i \in Used \ {b} : j = To(b, i)
<1>1. b \in Used /\ n' = n - 1
  BY DEF Deq, IsBest
<1>2. \A j \in 0..(n - 2) : Same(IF b <= j THEN j + 1 ELSE j, j)
  BY <1>1, Cap DEF Inv, Deq, Shift, Same, Used
<1>3. \A i \in Used \ {b} : To(b, i) \in 0..(n' - 1) /\ i = (IF b <= To(b, i) THEN To(b, i) + 1 ELSE To(b, i))
  BY <1>1, Cap DEF Inv, Used, To
<1>4. \A i \in Used \ {b} : Same(i, To(b, i))
  <2> TAKE i \in Used \ {b}
  <2> DEFINE j == To(b, i)
  <2>1. j \in 0..(n - 2) /\ i = (IF b <= j THEN j + 1 ELSE j)
    <3>1. j \in 0..(n' - 1) /\ i = (IF b <= j THEN j + 1 ELSE j)
      BY <1>3
    <3>2. n' - 1 = n - 2
      BY <1>1, Cap DEF Inv
    <3>3. QED BY <3>1, <3>2
  <2>2. Same(IF b <= j THEN j + 1 ELSE j, j)
    BY <1>2, <2>1
  <2>3. QED BY <2>1, <2>2
<1>5. \A j \in 0..(n' - 1) : (IF b <= j THEN j + 1 ELSE j) \in Used \ {b} /\ j = To(b, IF b <= j THEN j + 1 ELSE j)
  BY <1>1, Cap DEF Inv, Used, To
<1>6. QED BY <1>3, <1>4, <1>5

\* the scan: x is the best of the first i
Scan(i, x) == /\ x \in Used /\ \A k \in 0..(i - 1) : pri[k] <= pri[x] /\ (pri[k] = pri[x] => x <= k)
THEOREM ScanStart == ASSUME Inv, n > 0 PROVE Scan(0, 0)
  BY DEF Inv, Scan, Used
THEOREM ScanStep == ASSUME Inv, NEW i \in Used, NEW x, Scan(i, x), x <= i
                    PROVE LET y == IF pri[x] < pri[i] THEN i ELSE x IN Scan(i + 1, y) /\ y <= i + 1
  BY Cap DEF Inv, Scan, Used
THEOREM ScanEnd == ASSUME Inv, NEW x, Scan(n, x) PROVE IsBest(x)
  BY DEF Inv, Scan, IsBest, Used
=============================================================================
