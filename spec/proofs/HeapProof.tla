----------------------------- MODULE HeapProof -----------------------------
(* Unbounded: heap_sort.c, for every number of elements and every key: what it leaves is ordered and a permutation
   of what it was given, and no position outside the array is used.  p[x]: which input element is at
   position x.                                                                                    *)
EXTENDS Integers, TLAPS, NaturalsInduction

CONSTANTS N, key, half
Pos == 0..(N - 1)
ASSUME Given == N \in Nat /\ key \in [Pos -> Int]
ASSUME Half  == half \in Nat /\ 2 * half <= N /\ N < 2 * half + 2

VARIABLES p, n, i, idx, ph, pc
vars == <<p, n, i, idx, ph, pc>>

Child(q, c) == c = 2 * q + 1 \/ c = 2 * q + 2
Exchanged(q, x, y) == [q EXCEPT ![x] = q[y], ![y] = q[x]]
Values(q) == [x \in Pos |-> key[q[x]]]
\* the largest of a position and its children that are in the heap, as the code finds it
One(v, k, x) == IF 2 * x + 1 < k /\ v[2 * x + 1] > v[x] THEN 2 * x + 1 ELSE x
Two(v, k, x) == IF 2 * x + 2 < k /\ v[2 * x + 2] > v[One(v, k, x)] THEN 2 * x + 2 ELSE One(v, k, x)

Init == p = [x \in Pos |-> x] /\ n = N /\ i = half - 1 /\ idx = 0 /\ ph = "build" /\ pc = "loop"
Build == pc = "loop" /\ ph = "build" /\ i >= 0 /\ idx' = i /\ pc' = "sift" /\ UNCHANGED <<p, n, i, ph>>
Turn  == pc = "loop" /\ ph = "build" /\ i < 0 /\ i' = N - 1 /\ ph' = "take" /\ UNCHANGED <<p, n, idx, pc>>
Take  == /\ pc = "loop" /\ ph = "take" /\ i >= 0
         /\ p' = Exchanged(p, 0, i) /\ n' = i /\ idx' = 0 /\ pc' = "sift" /\ UNCHANGED <<i, ph>>
Stop  == pc = "loop" /\ ph = "take" /\ i < 0 /\ pc' = "done" /\ UNCHANGED <<p, n, i, idx, ph>>
Sift  == \E lg \in {Two(Values(p), n, idx)} :
         /\ pc = "sift" /\ lg # idx /\ p' = Exchanged(p, idx, lg) /\ idx' = lg /\ UNCHANGED <<n, i, ph, pc>>
Rest  == pc = "sift" /\ Two(Values(p), n, idx) = idx /\ i' = i - 1 /\ pc' = "loop" /\ UNCHANGED <<p, n, idx, ph>>
Next == Build \/ Turn \/ Take \/ Stop \/ Sift \/ Rest
Spec == Init /\ [][Next]_vars

\* v is a heap in positions lo..k-1;  all but x, which is yet to be let down;  positions from k on are final
Heap(v, k, lo)     == \A q, c \in Pos : lo <= q /\ c < k /\ Child(q, c) => v[q] >= v[c]
Nearly(v, k, lo, x) == /\ \A q, c \in Pos : lo <= q /\ c < k /\ Child(q, c) /\ q # x => v[q] >= v[c]
                       /\ \A q, c \in Pos : lo <= q /\ c < k /\ Child(q, x) /\ Child(x, c) => v[q] >= v[c]
Final(v, k)        == \A a, b \in Pos : a < b /\ b >= k => v[a] <= v[b]

TypeOK == /\ p \in [Pos -> Pos] /\ n \in Nat /\ n <= N /\ i \in Int /\ i < N /\ i >= -1 /\ idx \in Nat
          /\ ph \in {"build", "take"} /\ pc \in {"loop", "sift", "done"}
Once == \A a, b \in Pos : p[a] = p[b] => a = b
BuildLoop == n = N /\ Heap(Values(p), N, i + 1)
BuildSift == n = N /\ i \in Pos /\ idx \in Pos /\ i <= idx /\ Nearly(Values(p), N, i, idx)
TakeLoop  == n = i + 1 /\ Heap(Values(p), n, 0) /\ Final(Values(p), n)
TakeSift  == n = i /\ i \in Pos /\ idx \in Pos /\ Nearly(Values(p), n, 0, idx) /\ Final(Values(p), n)
Inv == /\ TypeOK /\ Once
       /\ ph = "build" /\ pc = "loop" => BuildLoop
       /\ ph = "build" /\ pc = "sift" => BuildSift
       /\ ph = "take" /\ pc = "loop" => TakeLoop
       /\ ph = "take" /\ pc = "sift" => TakeSift
       /\ pc = "done" => ph = "take" /\ n <= 0 /\ Final(Values(p), n)
-----------------------------------------------------------------------------
LEMMA Parent == \A c \in Nat : c > 0 => \E q \in Nat : Child(q, c) /\ q < c
<1> DEFINE H(c) == \E q \in Nat : c = 2 * q \/ c = 2 * q + 1
<1>1. H(0)
  BY 0 = 2 * 0
<1>2. ASSUME NEW c \in Nat, H(c) PROVE H(c + 1)
  <2>1. PICK q \in Nat : c = 2 * q \/ c = 2 * q + 1
    BY <1>2
  <2>2. CASE c = 2 * q
    <3>1. c + 1 = 2 * q + 1
      BY <2>2
    <3>2. QED BY <3>1
  <2>3. CASE c = 2 * q + 1
    <3>1. c + 1 = 2 * (q + 1) /\ q + 1 \in Nat
      BY <2>3
    <3>2. QED BY <3>1
  <2>4. QED BY <2>1, <2>2, <2>3
<1>3. \A c \in Nat : H(c)
  <2> HIDE DEF H
  <2> QED BY <1>1, <1>2, NatInduction, Isa
<1>4. ASSUME NEW c \in Nat, c > 0 PROVE \E q \in Nat : Child(q, c) /\ q < c
  <2>1. c - 1 \in Nat
    BY <1>4
  <2>2. PICK q \in Nat : c - 1 = 2 * q \/ c - 1 = 2 * q + 1
    BY <1>3, <2>1
  <2>3. Child(q, c) /\ q < c
    BY <2>2 DEF Child
  <2>4. QED BY <2>3
<1>5. QED BY <1>4

LEMMA Root == ASSUME NEW v \in [Pos -> Int], NEW k \in Nat, k <= N, Heap(v, k, 0)
              PROVE \A c \in Pos : c < k => v[0] >= v[c]
<1> USE Given
<1> DEFINE H(c) == c < k => v[0] >= v[c]
<1>1. ASSUME NEW c \in Nat, \A d \in 0..(c - 1) : H(d) PROVE H(c)
  <2> SUFFICES ASSUME c < k PROVE v[0] >= v[c]
    OBVIOUS
  <2>0. c \in Pos /\ 0 \in Pos
    <3>1. c < N /\ 0 < N /\ 0 <= c /\ N \in Int
      OBVIOUS
    <3>2. QED BY <3>1 DEF Pos
  <2>1. CASE c = 0
    <3>1. v[0] \in Int
      BY <2>0
    <3>2. QED BY <3>1, <2>1
  <2>2. CASE c > 0
    <3>1. PICK q \in Nat : Child(q, c) /\ q < c
      BY <2>2, Parent
    <3>2. q \in Pos /\ q \in 0..(c - 1) /\ q < k
      BY <3>1, <2>0 DEF Pos
    <3>3. v[0] >= v[q]
      BY <3>2, <1>1
    <3>4. v[q] >= v[c]
      BY <3>1, <3>2, <2>0 DEF Heap
    <3>5. v[0] \in Int /\ v[q] \in Int /\ v[c] \in Int
      BY <3>2, <2>0
    <3>6. QED BY <3>3, <3>4, <3>5
  <2>3. QED BY <2>1, <2>2
<1>2. \A c \in Nat : H(c)
  <2> HIDE DEF H
  <2> QED BY <1>1, GeneralNatInduction, Isa
<1>3. \A c \in Pos : c \in Nat
  BY DEF Pos
<1>4. QED BY <1>2, <1>3

LEMMA Down == ASSUME NEW v \in [Pos -> Int], NEW k \in Nat, k <= N, NEW lo \in Nat, NEW x \in Pos, NEW y \in Pos,
                     lo <= x, y < k, Child(x, y), v[y] > v[x],
                     \A c \in Pos : Child(x, c) /\ c < k => v[y] >= v[c],
                     Nearly(v, k, lo, x)
              PROVE Nearly(Exchanged(v, x, y), k, lo, y)
<1> USE Given
<1> DEFINE w == Exchanged(v, x, y)
<1>1. x < y /\ x \in Int /\ y \in Int
  BY DEF Child, Pos
<1>2. w[x] = v[y] /\ w[y] = v[x] /\ \A z \in Pos : z # x /\ z # y => w[z] = v[z]
  BY <1>1 DEF Exchanged
<1> HIDE DEF w
<1>3. \A q, c \in Pos : Child(q, c) => q < c /\ q \in Int /\ c \in Int
  BY DEF Child, Pos
<1>4. \A q \in Pos : Child(q, y) => q = x
  BY DEF Child, Pos
<1>5. \A z \in Pos : v[z] \in Int
  OBVIOUS
<1>6. ASSUME NEW q \in Pos, NEW c \in Pos, lo <= q, c < k, Child(q, c), q # y PROVE w[q] >= w[c]
  <2>1. CASE q = x /\ c = y
    BY <2>1, <1>2, <1>5
  <2>2. CASE q = x /\ c # y
    <3>1. c # x
      BY <2>2, <1>6, <1>3
    <3>2. w[q] = v[y] /\ w[c] = v[c]
      BY <3>1, <2>2, <1>2
    <3>3. v[y] >= v[c]
      BY <2>2, <1>6
    <3>4. QED BY <3>2, <3>3
  <2>3. CASE q # x /\ c = x
    <3>1. w[q] = v[q] /\ w[c] = v[y]
      BY <2>3, <1>2, <1>6
    <3>2. v[q] >= v[y]
      BY <2>3, <1>6 DEF Nearly
    <3>3. QED BY <3>1, <3>2
  <2>4. CASE q # x /\ c # x
    <3>1. c # y
      BY <2>4, <1>4, <1>6
    <3>2. w[q] = v[q] /\ w[c] = v[c]
      BY <3>1, <2>4, <1>2, <1>6
    <3>3. v[q] >= v[c]
      BY <2>4, <1>6 DEF Nearly
    <3>4. QED BY <3>2, <3>3
  <2>5. QED BY <2>1, <2>2, <2>3, <2>4
<1>7. ASSUME NEW q \in Pos, NEW c \in Pos, lo <= q, c < k, Child(q, y), Child(y, c) PROVE w[q] >= w[c]
  <2>1. q = x /\ c # x /\ c # y
    BY <1>1, <1>3, <1>4, <1>7
  <2>2. w[q] = v[y] /\ w[c] = v[c]
    BY <2>1, <1>2
  <2>3. lo <= y /\ y # x
    BY <1>1
  <2>4. v[y] >= v[c]
    BY <2>3, <1>7 DEF Nearly
  <2>5. QED BY <2>2, <2>4
<1>8. QED BY <1>6, <1>7 DEF Nearly, w

LEMMA Settled == ASSUME NEW v \in [Pos -> Int], NEW k \in Nat, NEW lo \in Nat, NEW x \in Pos,
                        \A c \in Pos : Child(x, c) /\ c < k => v[x] >= v[c],
                        Nearly(v, k, lo, x)
                 PROVE Heap(v, k, lo)
  BY DEF Nearly, Heap

LEMMA StaysFinal == ASSUME NEW v \in [Pos -> Int], NEW k \in Nat, k <= N, NEW x \in Pos, NEW y \in Pos, x < k, y < k,
                           Final(v, k)
                    PROVE Final(Exchanged(v, x, y), k)
<1> USE Given
<1> DEFINE w == Exchanged(v, x, y)
<1>1. w[x] = v[y] /\ w[y] = v[x] /\ \A z \in Pos : z # x /\ z # y => w[z] = v[z]
  BY DEF Exchanged
<1> HIDE DEF w
<1>2. ASSUME NEW a \in Pos, NEW b \in Pos, a < b, b >= k PROVE w[a] <= w[b]
  <2>0. a \in Int /\ b \in Int /\ x \in Int /\ y \in Int
    BY DEF Pos
  <2>1. w[b] = v[b] /\ x < b /\ y < b
    BY <2>0, <1>1, <1>2
  <2>2. \E z \in Pos : z < b /\ w[a] = v[z]
    BY <2>1, <1>1, <1>2
  <2>3. QED BY <2>1, <2>2, <1>2 DEF Final
<1>3. QED BY <1>2 DEF Final, w

LEMMA Largest == ASSUME NEW v \in [Pos -> Int], NEW k \in Nat, k <= N, NEW x \in Pos
                 PROVE /\ Two(v, k, x) = x => \A c \in Pos : Child(x, c) /\ c < k => v[x] >= v[c]
                       /\ Two(v, k, x) # x => /\ Two(v, k, x) \in Pos /\ Two(v, k, x) < k /\ Child(x, Two(v, k, x))
                                              /\ v[Two(v, k, x)] > v[x]
                                              /\ \A c \in Pos : Child(x, c) /\ c < k => v[Two(v, k, x)] >= v[c]
<1> USE Given
<1>0. x \in Int /\ x >= 0 /\ x # 2 * x + 1 /\ x # 2 * x + 2
  BY DEF Pos
<1>a. \A y \in Nat : y < k => y \in Pos /\ v[y] \in Int
  <2> SUFFICES ASSUME NEW y \in Nat, y < k PROVE y \in Pos
    OBVIOUS
  <2>1. y < N
    OBVIOUS
  <2>2. QED BY <2>1 DEF Pos
<1>b. 2 * x + 1 \in Nat /\ 2 * x + 2 \in Nat /\ 2 * x + 1 < 2 * x + 2
  BY <1>0
<1>1. 2 * x + 1 < k => 2 * x + 1 \in Pos /\ v[2 * x + 1] \in Int
  BY <1>a, <1>b
<1>c. 2 * x + 2 < k => 2 * x + 1 < k
  BY <1>b
<1>2. 2 * x + 2 < k => 2 * x + 2 \in Pos /\ v[2 * x + 2] \in Int /\ 2 * x + 1 < k
  BY <1>a, <1>b, <1>c
<1>3. v[x] \in Int
  OBVIOUS
<1>4. \A c \in Pos : Child(x, c) <=> c = 2 * x + 1 \/ c = 2 * x + 2
  BY DEF Child
<1>5. Child(x, 2 * x + 1) /\ Child(x, 2 * x + 2)
  BY DEF Child
<1>6. CASE 2 * x + 1 < k /\ v[2 * x + 1] > v[x]
  <2>1. One(v, k, x) = 2 * x + 1
    BY <1>6 DEF One
  <2>2. CASE 2 * x + 2 < k /\ v[2 * x + 2] > v[2 * x + 1]
    <3>1. Two(v, k, x) = 2 * x + 2
      BY <2>1, <2>2 DEF Two
    <3>2. v[2 * x + 2] > v[x]
      BY <2>2, <1>6, <1>1, <1>2, <1>3
    <3>3. \A c \in Pos : Child(x, c) /\ c < k => v[2 * x + 2] >= v[c]
      BY <2>2, <1>6, <1>1, <1>2, <1>4
    <3>4. QED BY <3>1, <3>2, <3>3, <2>2, <1>0, <1>2, <1>5
  <2>3. CASE ~(2 * x + 2 < k /\ v[2 * x + 2] > v[2 * x + 1])
    <3>1. Two(v, k, x) = 2 * x + 1
      BY <2>1, <2>3 DEF Two
    <3>2. \A c \in Pos : Child(x, c) /\ c < k => v[2 * x + 1] >= v[c]
      BY <2>3, <1>6, <1>1, <1>2, <1>4
    <3>3. QED BY <3>1, <3>2, <1>6, <1>0, <1>1, <1>5
  <2>4. QED BY <2>2, <2>3
<1>7. CASE ~(2 * x + 1 < k /\ v[2 * x + 1] > v[x])
  <2>1. One(v, k, x) = x
    BY <1>7 DEF One
  <2>2. CASE 2 * x + 2 < k /\ v[2 * x + 2] > v[x]
    <3>1. Two(v, k, x) = 2 * x + 2
      BY <2>1, <2>2 DEF Two
    <3>2. v[2 * x + 2] >= v[2 * x + 1]
      BY <2>2, <1>7, <1>1, <1>2, <1>3
    <3>3. \A c \in Pos : Child(x, c) /\ c < k => v[2 * x + 2] >= v[c]
      BY <3>2, <2>2, <1>2, <1>4
    <3>4. QED BY <3>1, <3>3, <2>2, <1>0, <1>2, <1>5
  <2>3. CASE ~(2 * x + 2 < k /\ v[2 * x + 2] > v[x])
    <3>1. Two(v, k, x) = x
      BY <2>1, <2>3 DEF Two
    <3>2. \A c \in Pos : Child(x, c) /\ c < k => v[x] >= v[c]
      BY <2>3, <1>7, <1>1, <1>2, <1>3, <1>4
    <3>3. QED BY <3>1, <3>2
  <2>4. QED BY <2>2, <2>3
<1>8. QED BY <1>6, <1>7

LEMMA Same == ASSUME NEW q \in [Pos -> Pos], NEW x \in Pos, NEW y \in Pos
              PROVE /\ Values(Exchanged(q, x, y)) = Exchanged(Values(q), x, y)
                    /\ Exchanged(q, x, y) \in [Pos -> Pos]
                    /\ Values(q) \in [Pos -> Int]
                    /\ (\A a, b \in Pos : q[a] = q[b] => a = b) =>
                       \A a, b \in Pos : Exchanged(q, x, y)[a] = Exchanged(q, x, y)[b] => a = b
<1> USE Given
<1> DEFINE r == Exchanged(q, x, y)
<1>1. r \in [Pos -> Pos]
  BY DEF Exchanged
<1>2. r[x] = q[y] /\ r[y] = q[x] /\ \A z \in Pos : z # x /\ z # y => r[z] = q[z]
  BY DEF Exchanged
<1>3. Values(q) \in [Pos -> Int] /\ \A z \in Pos : Values(q)[z] = key[q[z]]
  BY DEF Values
<1> HIDE DEF r
<1>4. Values(r) \in [Pos -> Int] /\ \A z \in Pos : Values(r)[z] = key[r[z]]
  BY <1>1 DEF Values
<1>5. Exchanged(Values(q), x, y) \in [Pos -> Int]
  BY <1>3 DEF Exchanged
<1>6. Exchanged(Values(q), x, y)[x] = Values(q)[y] /\ Exchanged(Values(q), x, y)[y] = Values(q)[x]
      /\ \A z \in Pos : z # x /\ z # y => Exchanged(Values(q), x, y)[z] = Values(q)[z]
  BY <1>3 DEF Exchanged
<1>7. \A z \in Pos : Values(r)[z] = Exchanged(Values(q), x, y)[z]
  BY <1>2, <1>3, <1>4, <1>6
<1>8. Values(r) = Exchanged(Values(q), x, y)
  BY <1>4, <1>5, <1>7
<1>9. (\A a, b \in Pos : q[a] = q[b] => a = b) => \A a, b \in Pos : r[a] = r[b] => a = b
  BY <1>2
<1>10. QED BY <1>1, <1>3, <1>8, <1>9 DEF r
-----------------------------------------------------------------------------
THEOREM InvHolds == Spec => []Inv
<1> USE Given
<1>1. Init => Inv
  <2> SUFFICES ASSUME Init PROVE Inv
    OBVIOUS
  <2>1. TypeOK
    <3>1. half - 1 \in Int /\ half - 1 < N /\ half - 1 >= -1
      BY Half
    <3>2. QED BY <3>1 DEF Init, TypeOK, Pos
  <2>2. Once
    BY DEF Init, Once
  <2>3. Heap(Values(p), N, i + 1)
    <3>1. \A q, c \in Pos : ~(i + 1 <= q /\ Child(q, c))
      <4> SUFFICES ASSUME NEW q \in Pos, NEW c \in Pos, i + 1 <= q, Child(q, c) PROVE FALSE
        OBVIOUS
      <4>1. i = half - 1
        BY DEF Init
      <4>2. q \in Int /\ c \in Int /\ c <= N - 1
        BY DEF Pos
      <4>3. half <= q
        BY <4>1, <4>2, Half
      <4>4. 2 * half + 1 <= 2 * q + 1 /\ 2 * half + 1 <= 2 * q + 2
        BY <4>2, <4>3, Half
      <4>5. 2 * half + 1 <= c
        BY <4>2, <4>4 DEF Child
      <4>6. 2 * half \in Int /\ N < 2 * half + 2 /\ N \in Int
        BY Half
      <4>7. QED BY <4>2, <4>5, <4>6
    <3>2. QED BY <3>1 DEF Heap
  <2>4. QED BY <2>1, <2>2, <2>3 DEF Init, Inv, BuildLoop
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>0. TypeOK /\ Once
    BY DEF Inv
  <2>1. CASE Build
    <3>1. p' = p /\ n' = n /\ i' = i /\ ph' = "build" /\ idx' = i /\ pc' = "sift" /\ i >= 0 /\ BuildLoop
      BY <2>1 DEF Build, Inv
    <3>2. i \in Pos /\ i \in Nat
      BY <3>1, <2>0 DEF TypeOK, Pos
    <3>3. TypeOK' /\ Once'
      BY <3>1, <3>2, <2>0 DEF TypeOK, Once
    <3>4. Nearly(Values(p), N, i, i)
      <4>1. ASSUME NEW q \in Pos, NEW c \in Pos, i <= q, c < N, Child(q, c), q # i PROVE Values(p)[q] >= Values(p)[c]
        <5>1. i + 1 <= q
          BY <3>2, <4>1 DEF Pos
        <5>2. QED BY <5>1, <4>1, <3>1 DEF BuildLoop, Heap
      <4>2. \A q \in Pos : i <= q => ~Child(q, i)
        BY <3>2 DEF Child, Pos
      <4>3. QED BY <4>1, <4>2 DEF Nearly
    <3>5. BuildSift'
      <4>1. i <= i
        BY <3>2
      <4>2. QED BY <4>1, <3>1, <3>2, <3>4 DEF BuildSift, BuildLoop
    <3>6. QED BY <3>1, <3>3, <3>5 DEF Inv
  <2>2. CASE Turn
    <3>1. p' = p /\ n' = n /\ i' = N - 1 /\ ph' = "take" /\ idx' = idx /\ pc' = "loop" /\ i < 0 /\ BuildLoop
      BY <2>2 DEF Turn, Inv
    <3>2. TypeOK' /\ Once'
      BY <3>1, <2>0 DEF TypeOK, Once
    <3>3. i + 1 = 0 /\ n = N - 1 + 1
      <4>1. i \in Int /\ i >= -1 /\ i < 0
        BY <3>1, <2>0 DEF TypeOK
      <4>2. n = N
        BY <3>1 DEF BuildLoop
      <4>3. QED BY <4>1, <4>2
    <3>4. Heap(Values(p), n, 0)
      BY <3>1, <3>3 DEF BuildLoop
    <3>5. Final(Values(p), n)
      BY <3>1 DEF Final, Pos, BuildLoop
    <3>6. TakeLoop'
      BY <3>1, <3>3, <3>4, <3>5 DEF TakeLoop
    <3>7. QED BY <3>1, <3>2, <3>6 DEF Inv
  <2>3. CASE Take
    <3>1. p' = Exchanged(p, 0, i) /\ n' = i /\ i' = i /\ ph' = "take" /\ idx' = 0 /\ pc' = "sift" /\ i >= 0 /\ TakeLoop
      BY <2>3 DEF Take, Inv
    <3>2. i \in Pos /\ 0 \in Pos /\ i \in Nat /\ n = i + 1 /\ n <= N /\ n \in Nat
      BY <3>1, <2>0 DEF TypeOK, Pos, TakeLoop
    <3>3. p \in [Pos -> Pos]
      BY <2>0 DEF TypeOK
    <3>4. Values(p') = Exchanged(Values(p), 0, i) /\ p' \in [Pos -> Pos] /\ Values(p) \in [Pos -> Int]
      BY <3>1, <3>2, <3>3, Same
    <3>5. \A a, b \in Pos : p'[a] = p'[b] => a = b
      BY <3>1, <3>2, <3>3, <2>0, Same DEF Once
    <3>6. TypeOK' /\ Once'
      BY <3>1, <3>2, <3>4, <3>5, <2>0 DEF TypeOK, Once
    <3> DEFINE v == Values(p)
               w == Values(p')
    <3>7. w[0] = v[i] /\ w[i] = v[0] /\ \A z \in Pos : z # 0 /\ z # i => w[z] = v[z]
      BY <3>2, <3>4 DEF Exchanged
    <3>8. \A c \in Pos : c < n => v[0] >= v[c]
      BY <3>1, <3>2, <3>4, Root DEF TakeLoop
    <3>9. Final(w, i)
      <4> SUFFICES ASSUME NEW a \in Pos, NEW b \in Pos, a < b, b >= i PROVE w[a] <= w[b]
        BY DEF Final
      <4>0. a \in Int /\ b \in Int /\ i \in Int /\ 0 <= a
        BY <3>2 DEF Pos
      <4>1. CASE b = i
        <5>1. w[b] = v[0]
          BY <4>1, <3>7
        <5>2. \E z \in Pos : z < n /\ w[a] = v[z]
          <6>1. CASE a = 0
            BY <6>1, <3>2, <3>7, <4>0
          <6>2. CASE a # 0
            BY <6>2, <4>0, <4>1, <3>2, <3>7
          <6>3. QED BY <6>1, <6>2
        <5>3. PICK z \in Pos : z < n /\ w[a] = v[z]
          BY <5>2
        <5>4. v[0] >= v[z] /\ v[0] \in Int /\ v[z] \in Int
          BY <5>3, <3>8, <3>4, <3>2
        <5>5. QED BY <5>1, <5>3, <5>4
      <4>2. CASE b > i
        <5>1. b # 0 /\ b # i /\ b >= n
          BY <4>0, <4>2, <3>2
        <5>2. w[b] = v[b]
          BY <5>1, <3>7
        <5>3. \E z \in Pos : z < b /\ w[a] = v[z]
          <6>1. CASE a = 0
            BY <6>1, <4>0, <4>2, <3>2, <3>7
          <6>2. CASE a = i
            BY <6>2, <4>0, <4>2, <5>1, <3>2, <3>7
          <6>3. CASE a # 0 /\ a # i
            BY <6>3, <3>7
          <6>4. QED BY <6>1, <6>2, <6>3
        <5>4. QED BY <5>1, <5>2, <5>3, <3>1 DEF TakeLoop, Final
      <4>3. QED BY <4>0, <4>1, <4>2
    <3>10. Nearly(w, i, 0, 0)
      <4>1. ASSUME NEW q \in Pos, NEW c \in Pos, 0 <= q, c < i, Child(q, c), q # 0 PROVE w[q] >= w[c]
        <5>1. q < c /\ c # 0 /\ q # i /\ c # i /\ c < n
          BY <4>1, <3>2 DEF Child, Pos
        <5>2. w[q] = v[q] /\ w[c] = v[c]
          BY <5>1, <4>1, <3>7
        <5>3. v[q] >= v[c]
          BY <5>1, <4>1, <3>1 DEF TakeLoop, Heap
        <5>4. QED BY <5>2, <5>3
      <4>2. \A q \in Pos : ~Child(q, 0)
        BY DEF Child, Pos
      <4>3. QED BY <4>1, <4>2 DEF Nearly
    <3>11. TakeSift'
      BY <3>1, <3>2, <3>9, <3>10 DEF TakeSift
    <3>12. QED BY <3>1, <3>6, <3>11 DEF Inv
  <2>4. CASE Stop
    <3>1. p' = p /\ n' = n /\ i' = i /\ ph' = "take" /\ idx' = idx /\ pc' = "done" /\ i < 0 /\ TakeLoop
      BY <2>4 DEF Stop, Inv
    <3>2. TypeOK' /\ Once' /\ n <= 0
      BY <3>1, <2>0 DEF TypeOK, Once, TakeLoop
    <3>3. QED BY <3>1, <3>2 DEF Inv, TakeLoop
  <2>5. CASE Sift
    <3> DEFINE lg == Two(Values(p), n, idx)
    <3>1. pc = "sift" /\ lg # idx /\ p' = Exchanged(p, idx, lg) /\ idx' = lg /\ n' = n /\ i' = i /\ ph' = ph /\ pc' = pc
      BY <2>5 DEF Sift
    <3>2. idx \in Pos /\ n \in Nat /\ n <= N /\ p \in [Pos -> Pos]
      BY <3>1, <2>0 DEF Inv, TypeOK, BuildSift, TakeSift
    <3>3. Values(p) \in [Pos -> Int]
      BY <3>2, Same
    <3> HIDE DEF lg
    <3>4. lg \in Pos /\ lg < n /\ Child(idx, lg) /\ Values(p)[lg] > Values(p)[idx]
          /\ \A c \in Pos : Child(idx, c) /\ c < n => Values(p)[lg] >= Values(p)[c]
      BY <3>1, <3>2, <3>3, Largest DEF lg
    <3>5. Values(p') = Exchanged(Values(p), idx, lg) /\ p' \in [Pos -> Pos]
      BY <3>1, <3>2, <3>4, Same
    <3>6. \A a, b \in Pos : p'[a] = p'[b] => a = b
      BY <3>1, <3>2, <3>4, <2>0, Same DEF Once
    <3>7. lg \in Nat /\ idx < lg /\ idx < n /\ idx \in Nat
      BY <3>2, <3>4 DEF Child, Pos
    <3>8. TypeOK' /\ Once'
      BY <3>1, <3>5, <3>6, <3>7, <2>0 DEF TypeOK, Once
    <3>9. CASE ph = "build"
      <4>1. BuildSift
        BY <3>1, <3>9 DEF Inv
      <4>2. i \in Nat /\ i \in Pos /\ i <= idx /\ n = N
        BY <4>1 DEF BuildSift, Pos
      <4>3. Nearly(Values(p), n, i, idx)
        BY <4>1, <4>2 DEF BuildSift
      <4>4. Nearly(Values(p'), n, i, lg)
        BY <4>2, <4>3, <3>2, <3>3, <3>4, <3>5, Down
      <4>5. i <= lg
        BY <4>2, <3>7
      <4>6. BuildSift'
        BY <4>2, <4>4, <4>5, <3>1, <3>4 DEF BuildSift
      <4>7. QED BY <4>6, <3>1, <3>8, <3>9 DEF Inv
    <3>10. CASE ph = "take"
      <4>1. TakeSift
        BY <3>1, <3>10 DEF Inv
      <4>2. n = i /\ i \in Pos /\ Nearly(Values(p), n, 0, idx) /\ Final(Values(p), n)
        BY <4>1 DEF TakeSift
      <4>3. 0 <= idx /\ 0 \in Nat
        BY <3>7
      <4>4. Nearly(Values(p'), n, 0, lg)
        BY <4>2, <4>3, <3>2, <3>3, <3>4, <3>5, Down
      <4>5. Final(Values(p'), n)
        BY <4>2, <3>2, <3>3, <3>4, <3>5, <3>7, StaysFinal
      <4>6. TakeSift'
        BY <4>2, <4>4, <4>5, <3>1, <3>4 DEF TakeSift
      <4>7. QED BY <4>6, <3>1, <3>8, <3>10 DEF Inv
    <3>11. QED BY <3>9, <3>10, <2>0 DEF TypeOK
  <2>6. CASE Rest
    <3>1. pc = "sift" /\ Two(Values(p), n, idx) = idx /\ p' = p /\ n' = n /\ i' = i - 1 /\ idx' = idx /\ ph' = ph /\ pc' = "loop"
      BY <2>6 DEF Rest
    <3>2. idx \in Pos /\ n \in Nat /\ n <= N /\ p \in [Pos -> Pos] /\ i \in Pos
      BY <3>1, <2>0 DEF Inv, TypeOK, BuildSift, TakeSift
    <3>3. Values(p) \in [Pos -> Int]
      BY <3>2, Same
    <3>4. \A c \in Pos : Child(idx, c) /\ c < n => Values(p)[idx] >= Values(p)[c]
      BY <3>1, <3>2, <3>3, Largest
    <3>5. i \in Nat /\ i - 1 + 1 = i /\ i - 1 \in Int /\ i - 1 < N /\ i - 1 >= -1
      BY <3>2 DEF Pos
    <3>6. TypeOK' /\ Once'
      BY <3>1, <3>5, <2>0 DEF TypeOK, Once
    <3>7. CASE ph = "build"
      <4>1. n = N /\ Nearly(Values(p), n, i, idx)
        BY <3>1, <3>7 DEF Inv, BuildSift
      <4>2. Heap(Values(p), n, i)
        BY <4>1, <3>2, <3>3, <3>4, <3>5, Settled
      <4>3. BuildLoop'
        BY <4>1, <4>2, <3>1, <3>5 DEF BuildLoop
      <4>4. QED BY <4>3, <3>1, <3>6, <3>7 DEF Inv
    <3>8. CASE ph = "take"
      <4>1. n = i /\ Nearly(Values(p), n, 0, idx) /\ Final(Values(p), n)
        BY <3>1, <3>8 DEF Inv, TakeSift
      <4>2. Heap(Values(p), n, 0)
        BY <4>1, <3>2, <3>3, <3>4, Settled
      <4>3. TakeLoop'
        BY <4>1, <4>2, <3>1, <3>5 DEF TakeLoop
      <4>4. QED BY <4>3, <3>1, <3>6, <3>8 DEF Inv
    <3>9. QED BY <3>7, <3>8, <2>0 DEF TypeOK
  <2>7. CASE UNCHANGED vars
    BY <2>7 DEF Inv, vars, TypeOK, Once, BuildLoop, BuildSift, TakeLoop, TakeSift
  <2>8. QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7 DEF Next
<1>3. QED BY <1>1, <1>2, PTL DEF Spec

THEOREM Result == ASSUME Inv, pc = "done"
                  PROVE /\ \A a, b \in Pos : a < b => key[p[a]] <= key[p[b]]
                        /\ \A a, b \in Pos : p[a] = p[b] => a = b
<1> USE Given
<1>1. n <= 0 /\ n \in Int /\ Final(Values(p), n) /\ Once /\ p \in [Pos -> Pos]
  BY DEF Inv, TypeOK
<1>2. \A b \in Pos : b >= n
  BY <1>1 DEF Pos
<1>3. \A a \in Pos : Values(p)[a] = key[p[a]]
  BY DEF Values
<1>4. QED BY <1>1, <1>2, <1>3 DEF Final, Once

\* what is compared or exchanged lies in the array
THEOREM Inside == ASSUME Inv, pc = "sift"
                  PROVE idx \in Pos /\ (2 * idx + 1 < n => 2 * idx + 1 \in Pos) /\ (2 * idx + 2 < n => 2 * idx + 2 \in Pos)
  BY Given DEF Inv, BuildSift, TakeSift, TypeOK, Pos
=============================================================================
