-------------------------------- MODULE MC_Sort --------------------------------
(* The four sorting loops of sort/*.c, one comparison (with the swap or move it causes) per step, for
   every input of up to MaxN elements: they end, hand the comparator only elements of the array,
   stay inside the array and reach what Sorting.tla demands - order, permutation, stability.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxN, Keys, Modes

VARIABLES alg, mode, input, arr, pc, i, j, k, flag, tmp, seen
vars == <<alg, mode, input, arr, pc, i, j, k, flag, tmp, seen>>
S == INSTANCE Sorting

N == Len(input)
El(x) == arr[x + 1]                                     \* positions from 0, as in the code
Gt(x, y) == S!Greater(mode, x, y)
Swap(x, y) == [arr EXCEPT ![x + 1] = arr[y + 1], ![y + 1] = arr[x + 1]]

Init == /\ alg \in {"bubble", "insertion", "selection", "heap"} /\ mode \in Modes
        /\ \E n \in 0..MaxN : \E ks \in [1..n -> Keys] : input = [x \in 1..n |-> <<ks[x], x>>]   \* key, tag
        /\ arr = input /\ seen = {}
        /\ k = 0 /\ tmp = <<>>
        /\ pc = CASE alg = "bubble" -> "outer" [] alg = "insertion" -> "outer" [] alg = "selection" -> "outer" [] OTHER -> "build"
        /\ i = CASE alg = "bubble" -> 0 [] alg = "insertion" -> 1 [] alg = "selection" -> 0 [] OTHER -> (N \div 2) - 1
        /\ j = 0
        /\ flag = TRUE

Same(vs) == UNCHANGED vs
Fixed == UNCHANGED <<alg, mode, input>>

(* bubble: flag = swapped *)
Bubble == /\ alg = "bubble" /\ Fixed /\ UNCHANGED <<k, tmp>>
          /\ \/ /\ pc = "outer"
                /\ IF flag THEN flag' = FALSE /\ j' = 0 /\ pc' = "inner" ELSE pc' = "done" /\ UNCHANGED <<flag, j>>
                /\ UNCHANGED <<i, arr, seen>>
             \/ /\ pc = "inner"
                /\ IF j < N - i - 1
                   THEN /\ seen' = seen \cup {El(j), El(j + 1)}
                        /\ IF Gt(El(j), El(j + 1)) THEN arr' = Swap(j, j + 1) /\ flag' = TRUE ELSE UNCHANGED <<arr, flag>>
                        /\ j' = j + 1 /\ UNCHANGED <<pc, i>>
                   ELSE i' = i + 1 /\ pc' = "outer" /\ UNCHANGED <<j, arr, seen, flag>>
(* insertion: tmp = element, flag = compare *)
Insertion == /\ alg = "insertion" /\ Fixed /\ UNCHANGED k
             /\ \/ /\ pc = "outer"
                   /\ IF i < N
                      THEN tmp' = El(i) /\ j' = i - 1 /\ flag' = Gt(El(i - 1), El(i)) /\ seen' = seen \cup {El(i - 1), El(i)} /\ pc' = "inner"
                      ELSE pc' = "done" /\ UNCHANGED <<tmp, j, flag, seen>>
                   /\ UNCHANGED <<i, arr>>
                \/ /\ pc = "inner"
                   /\ IF j >= 0 /\ flag
                      THEN /\ arr' = [arr EXCEPT ![j + 2] = El(j)]
                           /\ j' = j - 1
                           /\ IF j - 1 >= 0 THEN flag' = Gt(El(j - 1), tmp) /\ seen' = seen \cup {El(j - 1), tmp} ELSE UNCHANGED <<flag, seen>>
                           /\ UNCHANGED <<pc, i>>
                      ELSE arr' = [arr EXCEPT ![j + 2] = tmp] /\ i' = i + 1 /\ pc' = "outer" /\ UNCHANGED <<j, flag, seen>>
                   /\ UNCHANGED tmp
(* selection: k = min_index *)
Selection == /\ alg = "selection" /\ Fixed /\ UNCHANGED <<flag, tmp>>
             /\ \/ /\ pc = "outer"
                   /\ IF i < N - 1 THEN k' = i /\ j' = i + 1 /\ pc' = "inner" ELSE pc' = "done" /\ UNCHANGED <<k, j>>
                   /\ UNCHANGED <<i, arr, seen>>
                \/ /\ pc = "inner"
                   /\ IF j < N
                      THEN /\ seen' = seen \cup {El(k), El(j)}
                           /\ k' = IF Gt(El(k), El(j)) THEN j ELSE k
                           /\ j' = j + 1 /\ UNCHANGED <<pc, i, arr>>
                      ELSE arr' = Swap(k, i) /\ i' = i + 1 /\ pc' = "outer" /\ UNCHANGED <<j, k, seen>>
(* heap: k = index of Heapify, j = its n; pc "build"/"extract" the outer loops, "sift1"/"sift2" Heapify *)
Heap == /\ alg = "heap" /\ Fixed /\ UNCHANGED tmp
        /\ \/ /\ pc = "build"
              /\ IF i >= 0 THEN k' = i /\ j' = N /\ pc' = "sift" /\ flag' = TRUE /\ i' = i - 1 ELSE i' = N - 1 /\ pc' = "extract" /\ UNCHANGED <<k, j, flag>>
              /\ UNCHANGED <<arr, seen>>
           \/ /\ pc = "extract"
              /\ IF i >= 0 THEN arr' = Swap(0, i) /\ k' = 0 /\ j' = i /\ pc' = "sift" /\ flag' = FALSE /\ i' = i - 1
                 ELSE pc' = "done" /\ UNCHANGED <<arr, k, j, flag, i>>
              /\ UNCHANGED seen
           \/ /\ pc = "sift"       \* one turn of Heapify's loop; flag: called from the building loop
              /\ LET l == 2 * k + 1
                     r == 2 * k + 2
                     m1 == IF l < j /\ Gt(El(l), El(k)) THEN l ELSE k
                     m2 == IF r < j /\ Gt(El(r), El(m1)) THEN r ELSE m1
                 IN /\ seen' = seen \cup (IF l < j THEN {El(l), El(k)} ELSE {}) \cup (IF r < j THEN {El(r), El(m1)} ELSE {})
                    /\ IF m2 # k THEN arr' = Swap(k, m2) /\ k' = m2 /\ UNCHANGED pc
                       ELSE pc' = (IF flag THEN "build" ELSE "extract") /\ UNCHANGED <<arr, k>>
              /\ UNCHANGED <<i, j, flag>>

Next == Bubble \/ Insertion \/ Selection \/ Heap
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Elements == {input[x] : x \in 1..N}
OwnElements == seen \subseteq Elements
InArray == Len(arr) = N
Achieves == pc = "done" => S!SortResult(mode, input, arr)
Disciplined == pc = "done" => S!SortDiscipline(alg, mode, input, arr, <<>>)
Returns == <>(pc = "done")
=============================================================================
