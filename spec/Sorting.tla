------------------------------- MODULE Sorting -------------------------------
(* What a sort must achieve (sort/*.h), for elements that are byte lists. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Signed16(x) == LET u == x[1] + 256 * x[2] IN IF u >= 32768 THEN u - 65536 ELSE u
RECURSIVE LexGreater(_, _, _)
LexGreater(x, y, k) == IF k > Len(x) THEN FALSE
                       ELSE IF x[k] # y[k] THEN x[k] > y[k] ELSE LexGreater(x, y, k + 1)

\* the comparators the driver offers
Greater(mode, x, y) ==
    CASE mode = 0 -> x[1] > y[1]
      [] mode = 1 -> LexGreater(x, y, 1)
      [] mode = 2 -> x[1] < y[1]
      [] mode = 3 -> Signed16(x) > Signed16(y)
      [] mode = 4 -> x[1] % 4 > y[1] % 4
      [] mode = 5 -> FALSE
      [] mode = 6 -> x[1] + 256 * x[2] > y[1] + 256 * y[2]
      [] mode = 7 -> x[Len(x)] > y[Len(y)]

IsOrdered(mode, s) == \A k \in 1..(Len(s) - 1) : ~Greater(mode, s[k], s[k + 1])
IsPermutation(s, t) ==
    /\ Len(s) = Len(t)
    /\ LET vals == {s[k] : k \in 1..Len(s)} IN
       /\ {t[k] : k \in 1..Len(t)} = vals
       /\ Cardinality(vals) = Len(s) \/
          \A v \in vals : Cardinality({k \in 1..Len(s) : s[k] = v}) = Cardinality({k \in 1..Len(t) : t[k] = v})

\* the position a stable sort gives to element k of s
StableRank(mode, s, k) ==
    1 + Cardinality({j \in 1..Len(s) : Greater(mode, s[k], s[j])})
      + Cardinality({j \in 1..(k - 1) : ~Greater(mode, s[k], s[j]) /\ ~Greater(mode, s[j], s[k])})
IsStable(mode, s, t) == \A k \in 1..Len(s) : t[StableRank(mode, s, k)] = s[k]

StableAlgs == {"bubble", "insertion"}

SortResult(mode, s, t) == IsPermutation(s, t) /\ IsOrdered(mode, t)
SortDiscipline(alg, mode, s, t, seen) ==
    /\ {seen[k] : k \in 1..Len(seen)} \subseteq {s[k] : k \in 1..Len(s)}
    /\ (alg \in StableAlgs /\ Len(s) = Len(t)) => IsStable(mode, s, t)

(* numbered elements: element i (from 0) has key (a*i + b) % m; out lists <<key, number>>
   (a, b, m < 2^17, i < 2^20: the product is taken in two parts, TLC's integers have 32 bits) *)
SortNKey(a, b, m, i) == (((((a % m) * (i \div 256)) % m) * 256) + ((a % m) * (i % 256)) + b) % m
(* d > 0: blocks of d equal keys, each two blocks in the reverse order *)
SortNIndex(d, i) == IF d = 0 THEN i ELSE LET q == i \div d IN IF q % 2 = 0 THEN q + 1 ELSE q - 1
SortNResult(n, a, b, m, d, o) ==
    /\ Len(o) = n
    /\ \A k \in 1..n : o[k][2] \in 0..(n - 1) /\ o[k][1] = SortNKey(a, b, m, SortNIndex(d, o[k][2]))
    /\ Cardinality({o[k][2] : k \in 1..n}) = n
    /\ \A k \in 1..(n - 1) : o[k][1] <= o[k + 1][1]
SortNDiscipline(alg, o) ==
    alg \in StableAlgs => \A k \in 1..(Len(o) - 1) : o[k][1] = o[k + 1][1] => o[k][2] < o[k + 1][2]

(* n elements with key 1, but element `at` (from 0) with key 0; what came out is listed in runs of one key
   and consecutive numbers, <<key, number of the first (high, low; high -1: elements of one byte, which
   have no number), how many>>; all: the list is complete                                             *)
SortGFirst(r) == r[2] * 65536 + r[3]
SortGResult(n, at, runs, all) ==
    LET K == 1..Len(runs) IN
    /\ all
    /\ \A k \in K : runs[k][1] = (IF k = 1 THEN 0 ELSE 1)
    /\ Len(runs) >= 1 /\ runs[1][4] = 1
    /\ FoldLeft(LAMBDA x, r : x + r[4], 0, runs) = n
    /\ runs[1][2] # -1 => /\ SortGFirst(runs[1]) = at
                         /\ \A k \in K : SortGFirst(runs[k]) \in 0..(n - runs[k][4])
                         /\ \A i, j \in K : i # j => \/ SortGFirst(runs[i]) + runs[i][4] <= SortGFirst(runs[j])
                                                      \/ SortGFirst(runs[j]) + runs[j][4] <= SortGFirst(runs[i])
SortGDiscipline(alg, runs) ==
    (alg \in StableAlgs /\ runs[1][2] # -1) => \A k \in 2..(Len(runs) - 1) : SortGFirst(runs[k]) < SortGFirst(runs[k + 1])
=============================================================================
